//! C20: one heap block of exactly the value's own layout, or none
use crate::nd;
use crate::spec::*;
use crate::types::*;
use core::mem::{align_of, size_of};
use tagged_box::TaggableInner;

enum E {}
fn own<T: Val>() {
    let (v, d) = (T::nd(), disc());
    let n = nd::allocs();
    let b = create::<E, _>(v, d);
    if size_of::<T>() == 0 {
        check!(nd::allocs() == n, "a zero-sized value takes no block");
    } else {
        check!(nd::allocs() == n + 1, "a sized value takes one block");
        check!(nd::last_size() == size_of::<T>() as u64, "the block has exactly the value's size");
        check!(nd::last_align() == align_of::<T>() as u64, "the block has the value's alignment");
        check!(nd::last_addr() == b.as_ptr::<T>() as u64, "the value is at the start of its block");
    }
    core::mem::forget(b);
    reach!("end");
}
tagged_box! {
    struct Lay, enum LayE { A(u8, u32, u8), U, B { a: u8, b: u64, c: u8 }, E(), C(u16), Z(Z32), S {}, D { a: u8, b: Al64, }, T(u8, u8), Q(u128, u8), }
}
#[repr(C)] struct CA(u8, u32, u8);
#[repr(C)] struct CB(u8, u64, u8);
#[repr(C)] struct CD(u8, Al64);
#[repr(C)] struct CQ(u128, u8);

harnesses! {
    fn c20_block_u8() { own::<u8>() }
    fn c20_block_u64() { own::<u64>() }
    fn c20_block_u128() { own::<u128>() }
    fn c20_block_odd() { own::<[u8; 3]>() }
    fn c20_block_plain() { own::<Plain>() }
    fn c20_block_packed() { own::<Packed>() }
    fn c20_block_align64() { own::<Al64>() }
    fn c20_block_unit() { own::<()>() }
    fn c20_block_zst_align32() { own::<Z32>() }
    fn c20_block_opt() { own::<Opt>() }
    fn c20_block_big() { own::<Big>() }
    fn c20_variant_layouts() {
        let n = nd::allocs();
        let (v, s, a) = match nd::u8_() {
            1 => (LayE::U, 0, 0),
            2 if MAXD >= 2 => (LayE::B { a: 1, b: nd::u64_(), c: 2 }, size_of::<CB>(), align_of::<CB>()),
            3 if MAXD >= 3 => (LayE::E(), 0, 0),
            4 if MAXD >= 4 => (LayE::C(nd::u16_()), 2, 2),
            5 if MAXD >= 5 => (LayE::Z(Z32), 0, 0),
            6 if MAXD >= 6 => (LayE::S {}, 0, 0),
            7 if MAXD >= 7 => (LayE::D { a: nd::u8_(), b: Al64::nd() }, size_of::<CD>(), align_of::<CD>()),
            8 if MAXD >= 8 => (LayE::T(nd::u8_(), nd::u8_()), 2, 1),
            9 if MAXD >= 9 => (LayE::Q(5, nd::u8_()), size_of::<CQ>(), align_of::<CQ>()),
            _ => (LayE::A(nd::u8_(), nd::u32_(), nd::u8_()), size_of::<CA>(), align_of::<CA>()),
        };
        let b = v.into_tagged_box();
        if s == 0 {
            check!(nd::allocs() == n, "a variant without data takes no block");
        } else {
            check!(nd::allocs() == n + 1, "a variant with data takes one block");
            check!(nd::last_size() == s as u64, "the block has exactly the C-layout size");
            check!(nd::last_align() == a as u64, "the block has the C-layout alignment");
            check!(nd::last_addr() == b.as_ptr::<u8>() as u64, "the value is at the start of its block");
        }
        core::mem::forget(b);
        reach!("end");
    }
    fn c20_block_grid_small() { grid_small!(own) }
    fn c20_block_grid_large() { grid_large!(own) }
}
