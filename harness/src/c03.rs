//! C03: configuration of every width
use crate::nd;
use crate::spec::*;

// a tag for the topmost discriminant: enums bounded by what the width allows
tagged_box! {
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub struct Two, pub enum TwoE {
        Num(u32),
        Pair(u8, u64),
    }
}

harnesses! {
    fn c03_constants() {
        check!(discriminant::POINTER_WIDTH == W, "POINTER_WIDTH");
        check!(discriminant::DISCRIMINANT_BITS == 64 - W, "DISCRIMINANT_BITS");
        check!(discriminant::MAX_POINTER_VALUE == MAXP, "MAX_POINTER_VALUE");
        check!(discriminant::DISCRIMINANT_MASK == MAXP, "DISCRIMINANT_MASK");
        check!(discriminant::MAX_DISCRIMINANT as u64 == MAXD, "MAX_DISCRIMINANT");
        check!(DTOP >= MAXD, "Discriminant holds the maximum");
        check!(core::mem::size_of::<tagged_box::Discriminant>() <= 2, "Discriminant is u8 or u16");
        reach!("end");
    }
    fn c03_pointer_roundtrip() {
        let (p, d) = (addr(), disc());
        let t = TaggedPointer::new(p, d);
        check!(t.as_u64() == p && t.discriminant() == d, "round trip");
        check!(TaggedPointer::dangling::<u64>(d).discriminant() == d, "dangling");
        let w = nd::u64_();
        check!(TaggedPointer::fetch_discriminant(w) as u64 == w >> W, "fetch");
        check!(TaggedPointer::strip_discriminant(w) == (w & MAXP), "strip");
        let m = discriminant::MAX_DISCRIMINANT;
        check!(TaggedPointer::new(discriminant::MAX_POINTER_VALUE, m).as_raw_u64() == u64::MAX, "both maxima fill the word");
        reach!("end");
    }
    fn c03_box_roundtrip() {
        let (v, d) = (nd::u64_(), disc());
        let b: TaggedBox<u8> = TaggedBox::new(v, d);
        check!(b.discriminant() == d, "box tag");
        check!(unsafe { *b.as_ref::<u64>() } == v, "box value");
        check!(unsafe { TaggedBox::into_inner::<u64>(b) } == v, "box value out");
        reach!("end");
    }
    fn c03_enum_roundtrip() {
        use tagged_box::{TaggableContainer, TaggableInner};
        let n = nd::u32_();
        let (x, y) = (nd::u8_(), nd::u64_());
        let e = if nd::bool_() { TwoE::Num(n) } else { TwoE::Pair(x, y) };
        let b = e.into_tagged_box();
        check!(b.discriminant() as u64 == match e { TwoE::Num(_) => 0, _ => 1 }, "variant tag");
        check!(TwoE::from_tagged_box(b) == e, "from_tagged_box");
        check!(Two::from(e).into_inner() == e, "container");
        reach!("end");
    }
}
