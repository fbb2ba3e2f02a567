//! C10: the tag is the position of the variant, on every route
use crate::nd;
use crate::spec::*;
use tagged_box::{TaggableContainer, TaggableInner};

tagged_box! {
    #[derive(Clone, Copy, PartialEq)]
    pub struct Many, pub enum ManyE {
        V0(u8), V1, V2(u8, u16), V3 { a: u32, b: u8 }, V4(), V5([u8; 3]), V6(u64), V7, V8(u16), V9(u32, u8), V10(i8),
        V11 { c: u16, }, V12(i16), V13(bool), V14(u32), V15(char),
    }
}
impl ManyE {
    fn nd() -> Self {
        match nd::u8_() {
            0 => ManyE::V0(nd::u8_()), 1 => ManyE::V1, 2 => ManyE::V2(nd::u8_(), nd::u16_()),
            3 => ManyE::V3 { a: nd::u32_(), b: nd::u8_() }, 4 => ManyE::V4(), 5 => ManyE::V5([nd::u8_(), 0, 1]),
            6 => ManyE::V6(nd::u64_()), 7 => ManyE::V7, 8 => ManyE::V8(nd::u16_()), 9 => ManyE::V9(nd::u32_(), 2),
            10 => ManyE::V10(nd::u8_() as i8), 11 => ManyE::V11 { c: nd::u16_() }, 12 => ManyE::V12(nd::u16_() as i16),
            13 => ManyE::V13(nd::bool_()), 14 => ManyE::V14(nd::u32_()), _ => ManyE::V15('x'),
        }
    }
    /// position in the declaration
    fn index(&self) -> u64 {
        match self {
            ManyE::V0(..) => 0, ManyE::V1 => 1, ManyE::V2(..) => 2, ManyE::V3 { .. } => 3, ManyE::V4() => 4, ManyE::V5(..) => 5,
            ManyE::V6(..) => 6, ManyE::V7 => 7, ManyE::V8(..) => 8, ManyE::V9(..) => 9, ManyE::V10(..) => 10,
            ManyE::V11 { .. } => 11, ManyE::V12(..) => 12, ManyE::V13(..) => 13, ManyE::V14(..) => 14, ManyE::V15(..) => 15,
        }
    }
}
/// a variant this width can hold
fn fitting() -> ManyE {
    let v = ManyE::nd();
    nd::assume(v.index() <= MAXD);
    v
}
fn word_of(c: &Many) -> u64 { unsafe { core::mem::transmute_copy::<Many, u64>(c) } }

// names in no particular order, repeated shapes, a name that collides with a std type
tagged_box! {
    #[derive(Clone, PartialEq)]
    struct Odd, enum OddE {
        Zulu,
        Alpha(u16),
    }
}

harnesses! {
    fn c10_into_tagged() {
        let v = fitting();
        let b = v.into_tagged_box();
        check!(b.discriminant() as u64 == v.index(), "into_tagged_box tags with the position");
        check!(word(&b) >> W == v.index(), "the word carries the tag");
        reach!("end");
    }
    fn c10_container() {
        let v = fitting();
        let c = Many::from(v);
        check!(word_of(&c) >> W == v.index(), "From the enum tags with the position");
        reach!("end");
    }
    fn c10_clone() {
        let v = fitting();
        let b = v.into_tagged_box();
        
        let k = <TaggedBox<ManyE> as Clone>::clone(&b);
        check!(k.discriminant() as u64 == v.index() && b.discriminant() as u64 == v.index(), "a clone has the same tag");
        let o = Odd::from(OddE::Alpha(nd::u16_()));
        let k = o.clone();
        let w = unsafe { core::mem::transmute_copy::<Odd, u64>(&k) };
        check!(w >> W == 1, "a cloned container has the same tag");
        reach!("end");
    }
    fn c10_raw() {
        let v = fitting();
        let b = v.into_tagged_box();
        let d = b.discriminant();
        let r = TaggedBox::into_raw::<u8>(b);
        let b: TaggedBox<ManyE> = unsafe { TaggedBox::from_raw(r, d) };
        check!(b.discriminant() as u64 == v.index(), "raw round trip keeps the tag");
        check!(ManyE::from_tagged_box(b) == v, "raw round trip keeps the value");
        reach!("end");
    }
    fn c10_distinct() {
        let (v, w) = (fitting(), fitting());
        let (a, b) = (v.into_tagged_box(), w.into_tagged_box());
        check!((a.discriminant() == b.discriminant()) == (v.index() == w.index()), "tags differ exactly when variants differ");
        reach!("end");
    }
    fn c10_payloads() {
        check!(word_of(&Many::from(nd::u8_())) >> W == 0, "From payload of variant 0");
        if MAXD >= 2 { check!(word_of(&Many::from((nd::u8_(), nd::u16_()))) >> W == 2, "From tuple of variant 2"); }
        if MAXD >= 5 { check!(word_of(&Many::from([nd::u8_(); 3])) >> W == 5, "From payload of variant 5"); }
        if MAXD >= 4 { check!(word_of(&Many::from(())) >> W == 4, "From unit for variant 4"); }
        if MAXD >= 15 { check!(word_of(&Many::from('c')) >> W == 15, "From payload of variant 15"); }
        if MAXD >= 14 { check!(word_of(&Many::from(nd::u32_())) >> W == 14, "From payload of variant 14"); }
        if MAXD >= 9 { check!(word_of(&Many::from((nd::u32_(), nd::u8_()))) >> W == 9, "From tuple of variant 9"); }
        reach!("end");
    }
    fn c10_selects_by_tag() {
        // unit variants carry no data: the tag alone decides what is read back
        let d = disc();
        nd::assume(d as u64 == 1 || d as u64 == 4 || d as u64 == 7);
        let b: TaggedBox<ManyE> = TaggedBox::dangling::<u8>(d);
        check!(ManyE::from_tagged_box(b).index() == d as u64, "from_tagged_box selects by the tag");
        let c: Many = unsafe { core::mem::transmute(TaggedBox::<ManyE>::dangling::<u64>(d)) };
        check!(c.into_inner().index() == d as u64, "into_inner selects by the tag");
        let b: TaggedBox<ManyE> = TaggedBox::dangling::<ManyE>(d);
        unsafe { ManyE::ref_from_tagged_box(&b, |r| check!(r.index() == d as u64, "the borrowed view selects by the tag")) };
        reach!("end");
    }
    fn c10_retag() {
        // a block shared by two single-field variants of one layout: the tag decides
        let (x, hi) = (nd::u32_(), nd::bool_());
        tagged_box! { struct Same, enum SameE { A(u32), B { y: u32 }, } }
        let d = hi as u8 as Discriminant;
        let b: TaggedBox<SameE> = TaggedBox::new(x, d);
        let ok = match SameE::from_tagged_box(b) { SameE::A(y) => !hi && x == y, SameE::B { y } => hi && x == y };
        check!(ok, "the tag selects between variants of equal payload");
        let c: Same = unsafe { core::mem::transmute(TaggedBox::<SameE>::new(x, d)) };
        let ok = match c.into_inner() { SameE::A(y) => !hi && x == y, SameE::B { y } => hi && x == y };
        check!(ok, "the tag selects between variants of equal payload in a container");
        reach!("end");
    }
}
