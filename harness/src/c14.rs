//! C14: clones
use crate::nd;
use crate::shapes::*;
use crate::spec::*;
use crate::types::*;
use tagged_box::{TaggableContainer, TaggableInner};

shapes! { #[derive(Clone, PartialEq)] Own, OwnE, crate::shapes::Own, N0 }
shapes! { #[derive(Clone, PartialEq)] Cnt, CntE, crate::shapes::Drp, Z }
// no destructor anywhere, but not Copy either
shapes! { #[derive(Clone, PartialEq)] Pod, PodE, crate::shapes::Num, N0 }

/// separate storage: every part of the two values lies elsewhere
fn apart(p: u64, q: u64, n: u64) -> bool { p + n <= q || q + n <= p }

macro_rules! clones {
    ($s:ident, $e:ident, $p:ty; $equal:ident $own:ident $mo:ident $mc:ident $consume:ident $container:ident $from:ident $cfrom:ident $boxed:ident) => {
        harnesses! {
            fn $equal() {
                let d = Desc::nd();
                let a = $e::make(&d).into_tagged_box();
                let w = word(&a);
                let k = a.clone();
                check!(word(&a) == w, "cloning leaves the original box unchanged");
                check!(k.discriminant() == a.discriminant() && k.discriminant() as u8 == d.i, "same tag");
                check!(k == a, "equal to the original");
                let j = k.clone();
                check!(j == a, "a clone of a clone is equal");
                let (o, p) = ($e::from_tagged_box(k), $e::from_tagged_box(a));
                check!(o.desc() == d && p.desc() == d && $e::from_tagged_box(j).desc() == d, "all hold the value");
                reach!("end");
            }
            fn $own() {
                let d = Desc::nd();
                let a = $e::make(&d).into_tagged_box();
                let k = a.clone();
                if !d.data_free() {
                    check!(apart(a.as_ptr::<u8>() as u64, k.as_ptr::<u8>() as u64, core::mem::size_of::<$p>() as u64), "storage of its own");
                }
                let j = a.clone();
                if !d.data_free() {
                    check!(apart(a.as_ptr::<u8>() as u64, j.as_ptr::<u8>() as u64, core::mem::size_of::<$p>() as u64), "a second clone has storage of its own");
                    check!(apart(k.as_ptr::<u8>() as u64, j.as_ptr::<u8>() as u64, core::mem::size_of::<$p>() as u64), "clones do not share storage");
                }
                reach!("end");
            }
            fn $mo() {
                let d = Desc::nd();
                let mut a = $e::make(&d).into_tagged_box();
                let k = a.clone();
                let mut da = d;
                $e::poke(&mut a, &mut da, nd::u32_());
                check!($e::from_tagged_box(k).desc() == d, "mutating the original leaves the clone alone");
                check!($e::from_tagged_box(a).desc() == da, "the original has the new value");
                reach!("end");
            }
            fn $mc() {
                let d = Desc::nd();
                let a = $e::make(&d).into_tagged_box();
                let mut k = a.clone();
                let mut dk = d;
                $e::poke(&mut k, &mut dk, nd::u32_());
                check!($e::from_tagged_box(a).desc() == d, "mutating the clone leaves the original alone");
                check!($e::from_tagged_box(k).desc() == dk, "the clone has the new value");
                reach!("end");
            }
            fn $consume() {
                let (d, orig) = (Desc::nd(), nd::bool_());
                let a = $e::make(&d).into_tagged_box();
                let k = a.clone();
                let (gone, left) = if orig { (a, k) } else { (k, a) };
                drop($e::from_tagged_box(gone));
                check!($e::from_tagged_box(left).desc() == d, "either outlives the other's value");
                reach!("end");
            }
            fn $container() {
                let d = Desc::nd();
                let a = $s::from($e::make(&d));
                let k = a.clone();
                check!(a == k, "container clone is equal");
                let j = k.clone();
                drop(k.into_inner());
                check!(a.into_inner().desc() == d, "the original outlives the clone");
                check!(j.into_inner().desc() == d, "and so does another clone");
                reach!("end");
            }
            fn $from() {
                // clone_from: as by assigning a clone
                let (d, e) = (Desc::nd(), Desc::nd());
                let a = $e::make(&d).into_tagged_box();
                let mut k = $e::make(&e).into_tagged_box();
                let w = word(&a);
                k.clone_from(&a);
                check!(word(&a) == w && k.discriminant() == a.discriminant(), "clone_from takes the source's tag and leaves the source alone");
                if !d.data_free() {
                    check!(apart(a.as_ptr::<u8>() as u64, k.as_ptr::<u8>() as u64, core::mem::size_of::<$p>() as u64), "storage of its own after clone_from");
                }
                drop($e::from_tagged_box(a));
                check!($e::from_tagged_box(k).desc() == d, "clone_from takes the source's value");
                reach!("end");
            }
            fn $cfrom() {
                let (d, e) = (Desc::nd(), Desc::nd());
                let a = $s::from($e::make(&d));
                let mut k = $s::from($e::make(&e));
                k.clone_from(&a);
                check!(k == a, "container clone_from is equal");
                drop(k.into_inner());
                check!(a.into_inner().desc() == d, "and independent");
                reach!("end");
            }
            fn $boxed() {
                // the original's block goes back to the allocator, the clone lives on
                let (x, y) = (nd::u32_(), nd::u32_());
                let mut a = $e::One(<$p as Part>::part(x)).into_tagged_box();
                let k = a.clone();
                unsafe {
                    *a.as_mut_ref::<$p>() = <$p as Part>::part(y);
                    drop(TaggedBox::into_box::<$p>(a));
                }
                let ok = match $e::from_tagged_box(k) { $e::One(p) => p.id() == x, _ => false };
                check!(ok, "the clone outlives the original's block");
                reach!("end");
            }
        }
    };
}
mod owning { use super::*; clones! { Own, OwnE, crate::shapes::Own; c14_owning_equal c14_owning_storage c14_owning_mutate_original c14_owning_mutate_clone c14_owning_consume c14_owning_container c14_owning_clone_from c14_owning_container_clone_from c14_owning_box_out } }
mod plain { use super::*; clones! { Pod, PodE, crate::shapes::Num; c14_plain_equal c14_plain_storage c14_plain_mutate_original c14_plain_mutate_clone c14_plain_consume c14_plain_container c14_plain_clone_from c14_plain_container_clone_from c14_plain_box_out } }
mod counted { use super::*; clones! { Cnt, CntE, crate::shapes::Drp; c14_counted_equal c14_counted_storage c14_counted_mutate_original c14_counted_mutate_clone c14_counted_consume c14_counted_container c14_counted_clone_from c14_counted_container_clone_from c14_counted_box_out } }

harnesses! {
    fn c14_counts() {
        log::reset();
        let d = Desc::nd();
        let (n, sum) = (d.parts(), d.sum());
        let a = CntE::make(&d).into_tagged_box();
        let k = a.clone();
        check!(log::clones() == n, "each part is cloned exactly once");
        check!(log::drops() == 0, "cloning drops nothing");
        let j = k.clone();
        check!(log::clones() == 2 * n && log::drops() == 0, "a clone of a clone");
        drop(CntE::from_tagged_box(k));
        check!(log::drops() == n, "a clone drops its own parts");
        drop(CntE::from_tagged_box(a));
        check!(log::drops() == 2 * n, "the original drops its own parts");
        drop(CntE::from_tagged_box(j));
        check!(log::drops() == 3 * n && log::drop_sum() == sum.wrapping_mul(3), "once per copy");
        reach!("end");
    }
    fn c14_container_counts() {
        log::reset();
        let d = Desc::nd();
        let n = d.parts();
        let a = Cnt::from(CntE::make(&d));
        let k = a.clone();
        check!(log::clones() == n && log::drops() == 0, "each part is cloned exactly once, none dropped");
        drop(a.into_inner());
        check!(log::drops() == n && log::clones() == n, "the original drops its own parts");
        drop(k.into_inner());
        check!(log::drops() == 2 * n && log::drop_sum() == d.sum().wrapping_mul(2), "once per copy");
        reach!("end");
    }
    fn c14_clone_from_counts() {
        // the source's parts are cloned once; whatever becomes of the target, nothing is destroyed twice
        log::reset();
        let (d, e) = (Desc::nd(), Desc::nd());
        let a = CntE::make(&d).into_tagged_box();
        let mut k = CntE::make(&e).into_tagged_box();
        k.clone_from(&a);
        check!(log::clones() == d.parts(), "each part is cloned exactly once");
        let was = log::drops();
        check!(was <= e.parts(), "the replaced value is destroyed at most once, the source never");
        check!(was == 0 || log::drop_sum() == e.sum() || was < e.parts(), "what is destroyed is the replaced value");
        drop(CntE::from_tagged_box(a));
        check!(log::drops() == was + d.parts(), "the source drops its own parts");
        drop(CntE::from_tagged_box(k));
        check!(log::drops() == was + 2 * d.parts(), "the target drops its own parts");
        reach!("end");
    }
}
pub const MORE: &[&[(&str, extern "C-unwind" fn())]] = &[owning::LIST, plain::LIST, counted::LIST];
