//! C01: pack/unpack
use crate::nd;
use crate::spec::*;

harnesses! {
    fn c01_pack() {
        let (p, d) = (addr(), disc());
        let t = TaggedPointer::new(p, d);
        check!(t.as_u64() == p, "as_u64 is the pointer");
        check!(t.discriminant() == d, "discriminant is the tag");
        check!(t.as_ptr::<u8>() as u64 == p, "as_ptr is the pointer");
        check!(t.as_ptr::<[u64; 3]>() as u64 == p, "as_ptr of a wide type is the pointer");
        check!(t.as_mut_ptr::<u8>() as u64 == p, "as_mut_ptr is the pointer");
        check!(t.as_mut_ptr::<[u64; 3]>() as u64 == p, "as_mut_ptr of a wide type is the pointer");
        check!(t.as_raw_u64() == ((d as u64) << W | p), "raw word is tag above pointer");
        check!(t.as_raw_u64() == TaggedPointer::store_discriminant(p, d), "raw word is store_discriminant");
        reach!("end");
    }
    fn c01_split() {
        let w = nd::u64_();
        let (d, p) = (TaggedPointer::fetch_discriminant(w), TaggedPointer::strip_discriminant(w));
        check!(p == (w & MAXP), "strip keeps exactly the pointer bits");
        check!(d as u64 == w >> W, "fetch yields exactly the tag bits");
        check!(TaggedPointer::store_discriminant(p, d) == w, "storing the halves again yields the word");
        check!(p <= discriminant::MAX_POINTER_VALUE, "stripped pointer is in range");
        check!(d as u64 <= discriminant::MAX_DISCRIMINANT as u64, "fetched discriminant is in range");
        reach!("end");
    }
    fn c01_store_split() {
        let (p, d) = (addr(), disc());
        let w = TaggedPointer::store_discriminant(p, d);
        check!(TaggedPointer::strip_discriminant(w) == p, "strip undoes store");
        check!(TaggedPointer::fetch_discriminant(w) == d, "fetch undoes store");
        check!(w == (p | (d as u64) << W), "store packs tag above pointer");
        reach!("end");
    }
    fn c01_refs() {
        let mut x = nd::u32_();
        let (old, new, d) = (x, nd::u32_(), disc());
        let a = &mut x as *mut u32;
        nd::assume(a as u64 <= MAXP);
        let mut t = TaggedPointer::new(a as u64, d);
        unsafe {
            check!(t.as_ref::<u32>() as *const u32 == a as *const u32, "as_ref points at the original");
            check!(*t.as_ref::<u32>() == old, "as_ref shows the value");
            check!(*t.as_ptr::<u32>() == old, "as_ptr reads the value");
            check!(t.as_mut_ref::<u32>() as *mut u32 == a, "as_mut_ref points at the original");
            *t.as_mut_ref::<u32>() = new;
            check!(*a == new, "as_mut_ref writes the original");
            *t.as_mut_ptr::<u32>() = old;
            check!(*a == old, "as_mut_ptr writes the original");
        }
        check!(t.discriminant() == d, "writing keeps the tag");
        check!(t.as_u64() == a as u64, "writing keeps the pointer");
        reach!("end");
    }
    fn c01_dangling() {
        let d = disc();
        let (a, b, c, z) = (TaggedPointer::dangling::<u8>(d), TaggedPointer::dangling::<u64>(d),
            TaggedPointer::dangling::<crate::types::Al64>(d), TaggedPointer::dangling::<crate::types::Z32>(d));
        check!(a.discriminant() == d && b.discriminant() == d && c.discriminant() == d && z.discriminant() == d,
            "dangling keeps the tag");
        check!(a.as_u64() != 0 && b.as_u64() != 0 && c.as_u64() != 0 && z.as_u64() != 0, "dangling is not null");
        check!(b.as_u64() % 8 == 0 && c.as_u64() % 64 == 0 && z.as_u64() % 32 == 0, "dangling is aligned");
        check!(a.as_raw_u64() == a.as_u64() | (d as u64) << W, "dangling word is tag above pointer");
        reach!("end");
    }
    fn c01_new_dangling_const() {
        // usable in const context, same word
        const T: TaggedPointer = TaggedPointer::dangling::<u64>(1);
        const D: Discriminant = T.discriminant();
        const P: u64 = T.as_u64();
        const R: u64 = T.as_raw_u64();
        let d = 1 as Discriminant;
        check!(D == d && P != 0 && P % 8 == 0 && R == (P | 1 << W), "const dangling");
        check!(TaggedPointer::dangling::<u64>(d).as_raw_u64() == R, "const and run-time agree");
        reach!("end");
    }
}
