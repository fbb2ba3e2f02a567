//! C07: raw and Box hand-over
use crate::nd;
use crate::spec::*;
use crate::types::*;

enum E {}

fn raw<T: Val>() {
    let (v, w, d) = (T::nd(), T::nd(), disc());
    let b = create::<E, _>(v.dup(), d);
    let (bits, a) = (word(&b), b.as_ptr::<T>());
    unsafe {
        let r = TaggedBox::into_raw::<T>(b);
        check!(r as *const T == a, "into_raw is the original address");
        check!((*r).same(&v), "the raw pointer addresses the value");
        let tag = disc();
        let other = TaggedBox::<E>::from_raw(r, tag);
        check!(other.discriminant() == tag && other.as_ptr::<T>() == a, "from_raw takes the tag it is given");
        let r = TaggedBox::into_raw::<T>(other);
        r.write(w.dup());
        let b = TaggedBox::<E>::from_raw(r, d);
        check!(word(&b) == bits, "from_raw rebuilds the identical box");
        check!(b.as_ref::<T>().same(&w), "the rebuilt box sees writes through the raw pointer");
        let o = TaggedBox::into_box::<T>(b);
        check!(&*o as *const T == a, "into_box takes over the same block");
        check!((*o).same(&w), "into_box yields the value");
        drop(o); // the engines check that this frees the block with its own layout
    }
    reach!("end");
}
/// a Box handed to from_raw and back
fn adopt<T: Val>() {
    let (v, d) = (T::nd(), disc());
    let r = Box::into_raw(Box::new(v.dup()));
    nd::assume(r as u64 <= MAXP);
    unsafe {
        let b = TaggedBox::<E>::from_raw(r, d);
        check!(b.discriminant() == d && b.as_ref::<T>().same(&v), "an adopted Box");
        let o = TaggedBox::into_box::<T>(b);
        check!(&*o as *const T == r as *const T, "same block");
        check!((*o).same(&v), "same value");
    }
    reach!("end");
}

harnesses! {
    fn c07_raw_u8() { raw::<u8>() }
    fn c07_raw_u64() { raw::<u64>() }
    fn c07_raw_odd() { raw::<[u8; 3]>() }
    fn c07_raw_plain() { raw::<Plain>() }
    fn c07_raw_packed() { raw::<Packed>() }
    fn c07_raw_align64() { raw::<Al64>() }
    fn c07_raw_unit() { raw::<()>() }
    fn c07_raw_zst_align32() { raw::<Z32>() }
    fn c07_raw_opt() { raw::<Opt>() }
    fn c07_raw_big() { raw::<Big>() }
    fn c07_adopt_u32() { adopt::<u32>() }
    fn c07_adopt_plain() { adopt::<Plain>() }
    fn c07_adopt_align64() { adopt::<Al64>() }
    fn c07_adopt_unit() { adopt::<()>() }
    fn c07_box_drops_once() {
        let (id, d) = (nd::u32_(), disc());
        log::reset();
        let b = create::<E, _>(D(id), d);
        let o = unsafe { TaggedBox::into_box::<D>(b) };
        check!(log::drops() == 0, "hand-over does not drop");
        check!(o.0 == id, "value");
        drop(o);
        check!(log::drops() == 1 && log::drop_sum() == id, "dropping the Box drops the value once");
        reach!("end");
    }
    fn c07_box_drops_zst_once() {
        let d = disc();
        log::reset();
        let b = create::<E, _>(Z, d);
        let o = unsafe { TaggedBox::into_box::<Z>(b) };
        check!(log::drops() == 0, "hand-over does not drop");
        drop(o);
        check!(log::drops() == 1, "dropping the Box drops the value once");
        reach!("end");
    }
    fn c07_raw_grid_small() { grid_small!(raw) }
    fn c07_raw_grid_large() { grid_large!(raw) }
    fn c07_adopt_grid_small() { grid_small!(adopt) }
    fn c07_adopt_grid_large() { grid_large!(adopt) }
    fn c07_long() {
        // handed out and taken back over and over
        let (v, d) = (u64::nd(), disc());
        let mut b = create::<E, _>(v, d);
        let (bits, a) = (word(&b), b.as_ptr::<u64>());
        let mut i = 0;
        while i < 1100 {
            let r = TaggedBox::into_raw::<u64>(b);
            check!(r as *const u64 == a, "into_raw is the original address, each time");
            b = unsafe { TaggedBox::from_raw(r, d) };
            check!(word(&b) == bits, "from_raw rebuilds the identical box, each time");
            i += 1;
        }
        let o = unsafe { TaggedBox::into_box::<u64>(b) };
        check!(*o == v && &*o as *const u64 == a, "the Box is of the same block");
        drop(o);
        reach!("end");
    }
}
