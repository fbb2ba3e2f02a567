//! C06: own, aligned, non-null storage; live boxes never overlap
use crate::nd;
use crate::spec::*;
use crate::shapes::*;
use crate::types::*;

enum E {}

fn placed<T: Val>() {
    let (v, d) = (T::nd(), disc());
    let b = create::<E, _>(v.dup(), d);
    let a = b.as_ptr::<T>() as u64;
    check!(a != 0, "pointer is not null");
    check!(a <= MAXP, "pointer is free of tag bits");
    check!(a % core::mem::align_of::<T>() as u64 == 0, "pointer is aligned");
    check!(word(&b) == (a | (d as u64) << W), "word is the tag above that pointer");
    let z = TaggedBox::<E>::dangling::<T>(d);
    let a = z.as_ptr::<T>() as u64;
    check!(a != 0 && a <= MAXP && a % core::mem::align_of::<T>() as u64 == 0, "dangling pointer is aligned and not null");
    reach!("end");
}
/// two live boxes: writing one leaves the other and both tags alone
fn pair<T: Val, U: Val>() {
    let (v, w, x, y, d, e) = (T::nd(), U::nd(), T::nd(), U::nd(), disc(), disc());
    let mut a = create::<E, _>(v.dup(), d);
    let mut b = create::<E, _>(w.dup(), e);
    unsafe {
        check!(a.as_ref::<T>().same(&v) && b.as_ref::<U>().same(&w), "both values present");
        core::ptr::write(a.as_mut_ref::<T>(), x.dup());
        check!(b.as_ref::<U>().same(&w), "writing the first leaves the second");
        check!(a.discriminant() == d && b.discriminant() == e, "tags after the first write");
        b.as_mut_ptr::<U>().write(y.dup());
        check!(a.as_ref::<T>().same(&x), "writing the second leaves the first");
        check!(a.discriminant() == d && b.discriminant() == e, "tags after the second write");
        let (pa, pb) = (a.as_ptr::<T>() as u64, b.as_ptr::<U>() as u64);
        let (sa, sb) = (core::mem::size_of::<T>() as u64, core::mem::size_of::<U>() as u64);
        check!(sa == 0 || sb == 0 || pa + sa <= pb || pb + sb <= pa, "storage is disjoint");
        // consume one, keep using the other
        let out = TaggedBox::into_box::<T>(a);
        check!((*out).same(&x), "first value out");
        drop(out);
        check!(b.as_ref::<U>().same(&y), "second survives the end of the first");
        check!(TaggedBox::into_inner::<U>(b).same(&y), "second value out");
    }
    reach!("end");
}

harnesses! {
    fn c06_placed_u8() { placed::<u8>() }
    fn c06_placed_u16() { placed::<u16>() }
    fn c06_placed_u64() { placed::<u64>() }
    fn c06_placed_u128() { placed::<u128>() }
    fn c06_placed_odd() { placed::<[u8; 3]>() }
    fn c06_placed_plain() { placed::<Plain>() }
    fn c06_placed_packed() { placed::<Packed>() }
    fn c06_placed_align64() { placed::<Al64>() }
    fn c06_placed_unit() { placed::<()>() }
    fn c06_placed_zst_align32() { placed::<Z32>() }
    fn c06_placed_big() { placed::<Big>() }
    fn c06_pair_same() { pair::<u64, u64>() }
    fn c06_pair_small() { pair::<u8, u8>() }
    fn c06_pair_mixed() { pair::<[u8; 3], Plain>() }
    fn c06_pair_aligned() { pair::<Al64, u16>() }
    fn c06_pair_zst() { pair::<(), u32>() }
    fn c06_pair_zst_zst() { pair::<Z32, ()>() }
    fn c06_three() {
        let (u, v, w, x, d) = (nd::u32_(), nd::u32_(), nd::u32_(), nd::u32_(), disc());
        let a = TaggedBox::<E>::new(u, d);
        let mut b = TaggedBox::<E>::new(v, d);
        let c = TaggedBox::<E>::new(w, d);
        unsafe {
            *b.as_mut_ref::<u32>() = x;
            check!(*a.as_ref::<u32>() == u && *c.as_ref::<u32>() == w, "neighbours unchanged");
            check!(word(&a) != word(&b) && word(&b) != word(&c) && word(&a) != word(&c), "distinct words");
            check!(TaggedBox::into_inner::<u32>(b) == x, "written value");
            check!(TaggedBox::into_inner::<u32>(c) == w && TaggedBox::into_inner::<u32>(a) == u, "neighbours out");
        }
        reach!("end");
    }
    fn c06_placed_grid_small() { grid_small!(placed) }
    fn c06_placed_grid_large() { grid_large!(placed) }
    fn c06_pair_page() { pair::<Grid<u8, 4096>, u64>() }
    fn c06_pair_sizes() {
        match nd::u8_() {
            0 => pair::<Grid<u8, 16>, Grid<u8, 17>>(), 1 => pair::<Grid<A8, 24>, Grid<u8, 9>>(), 2 => pair::<Grid<A32, 32>, Grid<A2, 2>>(),
            3 => pair::<Grid<A128, 1>, Grid<A128, 1>>(), 4 => pair::<Grid<u8, 64>, Grid<u8, 64>>(), 5 => pair::<Grid<A4096, 1>, u8>(),
            _ => pair::<Grid<A16, 0>, Grid<A16, 16>>(),
        }
    }
}
