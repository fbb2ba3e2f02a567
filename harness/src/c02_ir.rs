//! C02 with an allocator that may hand out any 64-bit address
use crate::nd;
use crate::spec::*;

harnesses! {
    fn c02_box_new_any_address_mp() {
        nd::alloc_mode(2);
        let (v, d) = (nd::u32_(), any_disc());
        reach!("start");
        let b = TaggedBox::<u8>::new(v, d);
        let a = nd::last_addr();
        check!(a <= MAXP && d as u64 <= MAXD, "new returned for an out-of-range address or tag");
        check!(b.as_ptr::<u32>() as u64 == a && b.discriminant() == d, "new returned another address or tag");
        reach!("returned");
    }
    fn c02_box_new_far_address_mp() {
        nd::alloc_mode(2);
        let (v, d) = (nd::u32_(), disc());
        reach!("start");
        let b = TaggedBox::<u8>::new(v, d);
        check!(nd::last_addr() <= MAXP, "new accepts an out-of-range address");
        core::mem::forget(b);
    }
}
