//! C17: the borrowed view leaves the heap alone
use crate::nd;
use crate::shapes::Desc;
use crate::spec::*;
use crate::types::*;
use tagged_box::TaggableInner;

shapes! { Bo, BoE, crate::shapes::Own, Z }
harnesses! {
    fn c17_heap() {
        let k = Desc::nd();
        let b = BoE::make(&k).into_tagged_box();
        let (n, a) = (nd::blocks(), nd::allocs());
        unsafe { BoE::ref_from_tagged_box(&b, |r| {
            check!(nd::blocks() == n && nd::allocs() == a, "no heap traffic before the callback");
            check!(r.desc() == k, "the view shows the value");
        }) };
        check!(nd::blocks() == n && nd::allocs() == a, "the borrowed view neither allocates nor frees");
        check!(BoE::from_tagged_box(b).desc() == k, "what the value owns is still there");
        reach!("end");
    }
}
