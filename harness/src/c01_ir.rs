//! C01, any address: references are formed but never read
use crate::nd;
use crate::spec::*;

harnesses! {
    fn c01_ref_any_addr() {
        let (p, d) = (addr(), disc());
        nd::assume(p != 0 && p % 4 == 0);
        let mut t = TaggedPointer::new(p, d);
        unsafe {
            check!(t.as_ref::<u32>() as *const u32 as u64 == p, "as_ref has the address");
            check!(t.as_mut_ref::<u32>() as *mut u32 as u64 == p, "as_mut_ref has the address");
        }
        reach!("end");
    }
    fn c01_box_any_addr() {
        let (p, d) = (addr(), disc());
        nd::assume(p != 0 && p % 4 == 0);
        let mut b: TaggedBox<u8> = unsafe { TaggedBox::from_raw(p as *mut u32, d) };
        check!(b.discriminant() == d, "from_raw keeps the tag");
        check!(b.as_ptr::<u32>() as u64 == p, "box as_ptr");
        check!(b.as_mut_ptr::<u32>() as u64 == p, "box as_mut_ptr");
        check!(word(&b) == (p | (d as u64) << W), "box word");
        unsafe {
            check!(b.as_ref::<u32>() as *const u32 as u64 == p, "box as_ref");
            check!(b.as_mut_ref::<u32>() as *mut u32 as u64 == p, "box as_mut_ref");
        }
        check!(TaggedBox::into_raw::<u32>(b) as u64 == p, "into_raw");
        reach!("end");
    }
}
