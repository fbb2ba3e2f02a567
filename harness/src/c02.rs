//! C02: out-of-range refused in every profile, in-range accepted, never truncated
use crate::nd;
use crate::spec::*;
use crate::types::*;

fn bad_disc() -> Option<Discriminant> {
    if DTOP <= MAXD {
        // every value of the type is a valid discriminant at this width
        reach!("opt no invalid discriminant exists");
        return None;
    }
    let d = any_disc();
    nd::assume(d as u64 > MAXD);
    Some(d)
}

/// every way of forming a box around a value of type T refuses every bad tag
fn refused<T: Val>() {
    if let Some(d) = bad_disc() {
        match nd::u8_() {
            0 => must_panic!(TaggedBox::<u8>::new(T::nd(), d), "TaggedBox::new accepts an out-of-range discriminant"),
            1 => must_panic!(TaggedBox::<u8>::dangling::<T>(d), "TaggedBox::dangling accepts an out-of-range discriminant"),
            2 => must_panic!(TaggedPointer::dangling::<T>(d), "TaggedPointer::dangling accepts an out-of-range discriminant"),
            3 => must_panic!(unsafe { TaggedBox::<u8>::from_raw(addr() as *mut T, d) }, "from_raw accepts an out-of-range discriminant"),
            _ => must_panic!(unsafe { TaggedBox::<u8>::from_raw(nd::u64_() as *mut T, d) }, "from_raw accepts an out-of-range discriminant"),
        }
    }
}
fn refused_addr<T: Val>() {
    let (p, d) = (nd::u64_(), disc());
    nd::assume(p > MAXP);
    must_panic!(unsafe { TaggedBox::<u8>::from_raw(p as *mut T, d) }, "from_raw accepts an out-of-range pointer");
}
/// in range: accepted and kept
fn kept<T: Val>() {
    let (p, d) = (addr(), disc());
    let b = unsafe { TaggedBox::<u8>::from_raw(p as *mut T, d) };
    check!(b.as_ptr::<T>() as u64 == p && b.discriminant() == d, "from_raw in-range kept");
    let b = TaggedBox::<u8>::dangling::<T>(d);
    check!(b.discriminant() == d && b.as_ptr::<T>() as u64 == core::mem::align_of::<T>() as u64, "dangling in-range tag kept");
    let t = TaggedPointer::dangling::<T>(d);
    check!(t.discriminant() == d && t.as_u64() == core::mem::align_of::<T>() as u64, "dangling in-range tag kept");
    let b = create::<u8, _>(T::nd(), d);
    check!(b.discriminant() == d, "new in-range tag kept");
    reach!("end");
}

harnesses! {
    fn c02_refused_grid_small_mp() { grid_small!(refused) }
    fn c02_refused_grid_large_mp() { grid_large!(refused) }
    fn c02_refused_addr_grid_small_mp() { grid_small!(refused_addr) }
    fn c02_refused_addr_grid_large_mp() { grid_large!(refused_addr) }
    fn c02_kept_grid_small() { grid_small!(kept) }
    fn c02_kept_grid_large() { grid_large!(kept) }
    fn c02_ptr_new_disc_mp() {
        if let Some(d) = bad_disc() {
            let p = nd::u64_();
            must_panic!(TaggedPointer::new(p, d), "TaggedPointer::new accepts an out-of-range discriminant");
        }
    }
    fn c02_ptr_new_addr_mp() {
        let (p, d) = (nd::u64_(), any_disc());
        nd::assume(p > MAXP);
        must_panic!(TaggedPointer::new(p, d), "TaggedPointer::new accepts an out-of-range pointer");
    }
    fn c02_ptr_new_exact_mp() {
        let (p, d) = (nd::u64_(), any_disc());
        reach!("start");
        let t = TaggedPointer::new(p, d);
        check!(t.as_u64() == p && t.discriminant() == d, "TaggedPointer::new returned what was not passed in");
        check!(p <= MAXP && d as u64 <= MAXD, "TaggedPointer::new returned for out-of-range arguments");
        reach!("returned");
    }
    fn c02_ptr_dangling_mp() {
        if let Some(d) = bad_disc() {
            must_panic!(TaggedPointer::dangling::<u32>(d), "TaggedPointer::dangling accepts an out-of-range discriminant");
        }
    }
    fn c02_box_dangling_mp() {
        if let Some(d) = bad_disc() {
            must_panic!(TaggedBox::<u8>::dangling::<u32>(d), "TaggedBox::dangling accepts an out-of-range discriminant");
        }
    }
    fn c02_box_new_u64_mp() {
        if let Some(d) = bad_disc() {
            must_panic!(TaggedBox::<u8>::new(nd::u64_(), d), "TaggedBox::new(u64) accepts an out-of-range discriminant");
        }
    }
    fn c02_box_new_small_mp() {
        if let Some(d) = bad_disc() {
            must_panic!(TaggedBox::<u8>::new(<[u8; 3]>::nd(), d), "TaggedBox::new([u8;3]) accepts an out-of-range discriminant");
        }
    }
    fn c02_box_new_byte_mp() {
        if let Some(d) = bad_disc() {
            must_panic!(TaggedBox::<u8>::new(nd::u8_(), d), "TaggedBox::new(u8) accepts an out-of-range discriminant");
        }
    }
    fn c02_box_new_large_mp() {
        if let Some(d) = bad_disc() {
            must_panic!(TaggedBox::<u8>::new(Words::nd(), d), "TaggedBox::new([u64;9]) accepts an out-of-range discriminant");
        }
    }
    fn c02_box_new_zst_mp() {
        if let Some(d) = bad_disc() {
            must_panic!(TaggedBox::<u8>::new((), d), "TaggedBox::new(()) accepts an out-of-range discriminant");
        }
    }
    fn c02_box_new_zst_aligned_mp() {
        if let Some(d) = bad_disc() {
            must_panic!(TaggedBox::<u8>::new(Z32, d), "TaggedBox::new(over-aligned ZST) accepts an out-of-range discriminant");
        }
    }
    fn c02_from_raw_disc_mp() {
        if let Some(d) = bad_disc() {
            let mut x = nd::u32_();
            must_panic!(unsafe { TaggedBox::<u8>::from_raw(&mut x as *mut u32, d) }, "from_raw accepts an out-of-range discriminant");
        }
    }
    fn c02_from_raw_addr_mp() {
        let (p, d) = (nd::u64_(), any_disc());
        nd::assume(p > MAXP);
        must_panic!(unsafe { TaggedBox::<u8>::from_raw(p as *mut u8, d) }, "from_raw accepts an out-of-range pointer");
    }
    fn c02_from_raw_exact_mp() {
        let (p, d) = (nd::u64_(), any_disc());
        reach!("start");
        let b = unsafe { TaggedBox::<u8>::from_raw(p as *mut u8, d) };
        check!(b.as_ptr::<u8>() as u64 == p && b.discriminant() == d, "from_raw returned what was not passed in");
        check!(p <= MAXP && d as u64 <= MAXD, "from_raw returned for out-of-range arguments");
        reach!("returned");
    }
    fn c02_in_range_accepted() {
        let (p, d) = (addr(), disc());
        let t = TaggedPointer::new(p, d);
        check!(t.as_u64() == p && t.discriminant() == d, "in-range pointer kept");
        let t = TaggedPointer::dangling::<u64>(d);
        check!(t.discriminant() == d, "dangling in-range tag kept");
        let b = unsafe { TaggedBox::<u8>::from_raw(p as *mut u8, d) };
        check!(b.as_ptr::<u8>() as u64 == p && b.discriminant() == d, "from_raw in-range kept");
        let b = TaggedBox::<u8>::dangling::<u64>(d);
        check!(b.discriminant() == d, "box dangling in-range tag kept");
        let b = TaggedBox::<u8>::new(5u32, d);
        check!(b.discriminant() == d, "new in-range tag kept");
        let b = unsafe { TaggedBox::<u8>::new_unchecked(5u32, d) };
        check!(b.discriminant() == d, "new_unchecked in-range tag kept");
        let b = TaggedBox::<u8>::new((), d);
        check!(b.discriminant() == d, "new zst in-range tag kept");
        let b = unsafe { TaggedBox::<u8>::new_unchecked((), d) };
        check!(b.discriminant() == d, "new_unchecked zst in-range tag kept");
        reach!("end");
    }
}
