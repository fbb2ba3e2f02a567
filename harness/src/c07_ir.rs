//! C07: hand-over neither allocates nor frees; the Box returns the one block
use crate::nd;
use crate::spec::*;
use crate::types::*;

enum E {}

fn blocks<T: Val>() {
    let (v, d) = (T::nd(), disc());
    let (n0, k0) = (nd::blocks(), nd::allocs());
    let b = create::<E, _>(v, d);
    let (n, k) = (nd::blocks(), nd::allocs());
    let own = if core::mem::size_of::<T>() == 0 { 0 } else { 1 };
    check!(n == n0 + own && k == k0 + own, "one block for a sized value");
    unsafe {
        let r = TaggedBox::into_raw::<T>(b);
        check!(nd::blocks() == n && nd::allocs() == k, "into_raw leaves the heap alone");
        let b = TaggedBox::<E>::from_raw(r, d);
        check!(nd::blocks() == n && nd::allocs() == k, "from_raw leaves the heap alone");
        let o = TaggedBox::into_box::<T>(b);
        check!(nd::blocks() == n && nd::allocs() == k, "into_box leaves the heap alone");
        drop(o);
        check!(nd::blocks() == n0 && nd::allocs() == k, "dropping the Box returns the block");
    }
    reach!("end");
}

harnesses! {
    fn c07_blocks_u8() { blocks::<u8>() }
    fn c07_blocks_u64() { blocks::<u64>() }
    fn c07_blocks_odd() { blocks::<[u8; 3]>() }
    fn c07_blocks_plain() { blocks::<Plain>() }
    fn c07_blocks_align64() { blocks::<Al64>() }
    fn c07_blocks_unit() { blocks::<()>() }
    fn c07_blocks_zst_align32() { blocks::<Z32>() }
    fn c07_blocks_big() { blocks::<Big>() }
    fn c07_blocks_grid_small() { grid_small!(blocks) }
    fn c07_blocks_grid_large() { grid_large!(blocks) }
}
