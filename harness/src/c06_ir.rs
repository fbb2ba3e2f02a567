//! C06: the value lies in the block obtained for that very box
use crate::nd;
use crate::spec::*;
use crate::types::*;

enum E {}

fn inside<T: Val>() {
    let (v, d) = (T::nd(), disc());
    let n = nd::allocs();
    let b = create::<E, _>(v, d);
    let (a, s) = (b.as_ptr::<T>() as u64, core::mem::size_of::<T>() as u64);
    if s == 0 {
        check!(nd::allocs() == n, "no block for a zero-sized value");
    } else {
        check!(nd::allocs() == n + 1, "one block for a sized value");
        check!(nd::last_addr() <= a && a + s <= nd::last_addr() + nd::last_size(), "the value lies in its block");
        check!(nd::last_align() >= core::mem::align_of::<T>() as u64, "block aligned for the value");
    }
    reach!("end");
}

harnesses! {
    fn c06_inside_u8() { inside::<u8>() }
    fn c06_inside_u64() { inside::<u64>() }
    fn c06_inside_odd() { inside::<[u8; 3]>() }
    fn c06_inside_plain() { inside::<Plain>() }
    fn c06_inside_packed() { inside::<Packed>() }
    fn c06_inside_align64() { inside::<Al64>() }
    fn c06_inside_unit() { inside::<()>() }
    fn c06_inside_zst_align32() { inside::<Z32>() }
    fn c06_inside_big() { inside::<Big>() }
    fn c06_inside_grid_small() { grid_small!(inside) }
    fn c06_inside_grid_large() { grid_large!(inside) }
}
