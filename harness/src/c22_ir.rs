//! C22: blocks go back once. The harnesses named c22_leak_* are the routes on which they do not (known findings);
//! the others hold. Double frees, wrong layouts and use after free are checked by the engine on every access.
use crate::nd;
use crate::shapes::{Desc, N0};
use crate::spec::*;
use crate::types::*;
use tagged_box::{TaggableContainer, TaggableInner};

enum E {}
shapes! { #[derive(Clone, PartialEq, PartialOrd)] Blk, BlkE, crate::shapes::Num, N0 }
fn val() -> BlkE { BlkE::make(&Desc::nd()) }
/// blocks the value needs
fn own(k: &Desc) -> u64 { if k.data_free() { 0 } else { 1 } }
fn into_box<T: Val>() {
    let (v, d, n) = (T::nd(), disc(), nd::blocks());
    let b = create::<E, _>(v.dup(), d);
    let o = unsafe { TaggedBox::into_box::<T>(b) };
    check!((*o).same(&v), "value");
    drop(o);
    check!(nd::blocks() == n, "into_box, then dropping the Box, returns the block");
    reach!("end");
}
fn raw_box<T: Val>() {
    let (v, d, n) = (T::nd(), disc(), nd::blocks());
    let b = create::<E, _>(v, d);
    drop(unsafe { Box::from_raw(TaggedBox::into_raw::<T>(b)) });
    check!(nd::blocks() == n, "into_raw, then Box::from_raw and drop, returns the block");
    reach!("end");
}
/// never freed while a box still refers to it
fn kept<T: Val>() {
    let (v, d) = (T::nd(), disc());
    let (n, own) = (nd::blocks(), if core::mem::size_of::<T>() == 0 { 0 } else { 1 });
    let mut b = create::<E, _>(v.dup(), d);
    check!(nd::blocks() == n + own, "one block");
    unsafe {
        let _ = (b.as_ref::<T>() as *const T, b.as_mut_ref::<T>() as *mut T, b.as_ptr::<T>(), b.as_mut_ptr::<T>(), b.discriminant());
        let r = TaggedBox::into_raw::<T>(b);
        let b = TaggedBox::<E>::from_raw(r, d);
        check!(nd::blocks() == n + own, "the block stays while a box refers to it");
        check!(b.as_ref::<T>().same(&v), "value still there");
        drop(TaggedBox::into_box::<T>(b));
    }
    check!(nd::blocks() == n, "and is returned once");
    reach!("end");
}

harnesses! {
    fn c22_into_box_u8() { into_box::<u8>() }
    fn c22_into_box_u64() { into_box::<u64>() }
    fn c22_into_box_odd() { into_box::<[u8; 3]>() }
    fn c22_into_box_align64() { into_box::<Al64>() }
    fn c22_into_box_unit() { into_box::<()>() }
    fn c22_into_box_big() { into_box::<Big>() }
    fn c22_raw_box_u32() { raw_box::<u32>() }
    fn c22_raw_box_plain() { raw_box::<Plain>() }
    fn c22_raw_box_align64() { raw_box::<Al64>() }
    fn c22_kept_u64() { kept::<u64>() }
    fn c22_kept_plain() { kept::<Plain>() }
    fn c22_kept_unit() { kept::<()>() }
    fn c22_view_keeps() {
        let (n, k) = (nd::blocks(), Desc::nd());
        let b = BlkE::make(&k).into_tagged_box();
        check!(nd::blocks() == n + own(&k), "one block for data, none otherwise");
        unsafe { BlkE::ref_from_tagged_box(&b, |r| check!(nd::blocks() == n + own(&k) && r.desc() == k, "meanwhile")) };
        check!(nd::blocks() == n + own(&k), "the borrowed view keeps the block");
        unsafe { BlkE::ref_from_tagged_box(&b, |r| check!(r.desc() == k, "again")) };
        core::mem::forget(b);
        reach!("end");
    }
    fn c22_unit_none() {
        let n = nd::blocks();
        if MAXD >= 4 { let k = Desc::nd(); nd::assume(k.data_free()); drop(BlkE::from_tagged_box(BlkE::make(&k).into_tagged_box())); }
        drop(TaggedBox::<E>::new((), disc()));
        check!(nd::blocks() == n, "nothing to return for data-free values");
        reach!("end");
    }
    fn c22_no_more_than_one() {
        // extraction on any route leaves at most the one block behind and touches no other block
        let n = nd::blocks();
        let other = Box::new(nd::u32_());
        let k = Desc::nd();
        let b = BlkE::make(&k).into_tagged_box();
        drop(BlkE::from_tagged_box(b));
        check!(nd::blocks() <= n + 1 + own(&k), "no further block appears");
        check!(nd::blocks() >= n + 1, "no foreign block is returned");
        drop(other);
        reach!("end");
    }
    fn c22_leak_into_inner() {
        let (x, n) = (nd::u32_(), nd::blocks());
        let b = TaggedBox::<E>::new(x, disc());
        let _ = unsafe { TaggedBox::into_inner::<u32>(b) };
        check!(nd::blocks() == n, "KF TaggedBox::into_inner returns the block");
        reach!("end");
    }
    fn c22_leak_from_tagged_box() {
        let n = nd::blocks();
        let k = Desc::nd();
        nd::assume(!k.data_free());
        let v = BlkE::make(&k);
        drop(BlkE::from_tagged_box(v.into_tagged_box()));
        check!(nd::blocks() == n, "KF from_tagged_box returns the block");
        reach!("end");
    }
    fn c22_leak_container_into_inner() {
        let n = nd::blocks();
        let k = Desc::nd();
        nd::assume(!k.data_free());
        drop(Blk::from(BlkE::make(&k)).into_inner());
        check!(nd::blocks() == n, "KF container into_inner returns the block");
        reach!("end");
    }
    fn c22_leak_drop_box() {
        let n = nd::blocks();
        drop(TaggedBox::<E>::new(nd::u32_(), disc()));
        check!(nd::blocks() == n, "KF dropping a TaggedBox returns the block");
        reach!("end");
    }
    fn c22_leak_drop_container() {
        let n = nd::blocks();
        let k = Desc::nd();
        nd::assume(!k.data_free());
        drop(Blk::from(BlkE::make(&k)));
        check!(nd::blocks() == n, "KF dropping a container returns the block");
        reach!("end");
    }
    fn c22_into_box_grid_small() { grid_small!(into_box) }
    fn c22_into_box_grid_large() { grid_large!(into_box) }
    fn c22_raw_box_grid_small() { grid_small!(raw_box) }
    fn c22_raw_box_grid_large() { grid_large!(raw_box) }
    fn c22_kept_grid_small() { grid_small!(kept) }
    fn c22_kept_grid_large() { grid_large!(kept) }
    fn c22_operations_keep() {
        // comparing, cloning, cloning from and raw round trips return no block a box still refers to
        let (n, k) = (nd::blocks(), Desc::nd());
        let a = BlkE::make(&k).into_tagged_box();
        let b = a.clone();
        check!(nd::blocks() == n + 2 * own(&k), "one block each");
        let _ = (a == b, a.partial_cmp(&b), a <= b);
        check!(nd::blocks() == n + 2 * own(&k), "comparing returns none");
        let d = a.discriminant();
        let a: TaggedBox<BlkE> = unsafe { TaggedBox::from_raw(TaggedBox::into_raw::<u8>(a), d) };
        check!(nd::blocks() == n + 2 * own(&k), "a raw round trip returns none");
        let mut c = BlkE::make(&k).into_tagged_box();
        c.clone_from(&a);
        check!(nd::blocks() >= n + 3 * own(&k), "clone_from returns none in use");
        check!(BlkE::from_tagged_box(b).desc() == k && BlkE::from_tagged_box(c).desc() == k && BlkE::from_tagged_box(a).desc() == k, "all still there");
        reach!("end");
    }
    fn c22_container_keeps() {
        let (n, k) = (nd::blocks(), Desc::nd());
        let c = Blk::from(BlkE::make(&k));
        check!(nd::blocks() == n + own(&k), "one block");
        let d = c.clone();
        check!(nd::blocks() == n + 2 * own(&k), "one block each");
        let _ = (c == d, c < d);
        check!(nd::blocks() == n + 2 * own(&k), "comparing returns none");
        check!(c.into_inner().desc() == k && nd::blocks() >= n + own(&k), "extracting one leaves the other's block");
        check!(d.into_inner().desc() == k, "which is still there");
        reach!("end");
    }
    fn c22_reuse() {
        // blocks given back and handed out again
        nd::alloc_mode(4);
        let (n, k) = (nd::blocks(), Desc::nd());
        let mut i = 0;
        while i < 4 {
            let l = Desc::of(k.i);
            let b = BlkE::make(&l).into_tagged_box();
            check!(nd::blocks() == n + own(&k), "one block");
            unsafe { BlkE::ref_from_tagged_box(&b, |r| check!(r.desc() == l, "holding the new value")) };
            let c = b.clone();
            check!(nd::blocks() == n + 2 * own(&k), "a clone has its own");
            BlkE::free(c, &l);
            check!(nd::blocks() == n + own(&k), "which is returned");
            unsafe { BlkE::ref_from_tagged_box(&b, |r| check!(r.desc() == l, "leaving the original")) };
            BlkE::free(b, &l);
            check!(nd::blocks() == n, "and so is the original's");
            i += 1;
        }
        reach!("end");
    }
    fn c22_long() {
        nd::alloc_mode(4);
        let (n, v, d) = (nd::blocks(), u64::nd(), disc());
        let mut i = 0;
        while i < 1100 {
            let b: TaggedBox<E> = if i & 1 == 0 { TaggedBox::new(v, d) } else { unsafe { TaggedBox::new_unchecked(v, d) } };
            check!(nd::blocks() == n + 1, "one block");
            drop(unsafe { TaggedBox::into_box::<u64>(b) });
            check!(nd::blocks() == n, "returned");
            i += 1;
        }
        reach!("end");
    }
}
