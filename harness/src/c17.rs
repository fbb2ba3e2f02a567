//! C17: the borrowed view runs its callback once and takes nothing
use crate::nd;
use crate::shapes::Desc;
use crate::spec::*;
use crate::types::*;
use tagged_box::TaggableInner;

shapes! { #[derive(Clone, PartialEq)] Bor, BorE, crate::shapes::Drp, Z }

harnesses! {
    fn c17_once() {
        log::reset();
        let k = Desc::nd();
        let b = BorE::make(&k).into_tagged_box();
        let bits = word(&b);
        unsafe { BorE::ref_from_tagged_box(&b, |r| { log::call(); check!(r.desc() == k, "the callback sees the value") }) };
        check!(log::calls() == 1, "the callback runs exactly once");
        check!(log::drops() == 0 && log::clones() == 0, "nothing is dropped or cloned");
        check!(word(&b) == bits, "the box holds the same word");
        unsafe { BorE::ref_from_tagged_box(&b, |r| { log::call(); check!(r.desc() == k, "the callback sees the value again") }) };
        check!(log::calls() == 2, "the second view runs its callback once");
        let o = BorE::from_tagged_box(b);
        check!(o.desc() == k, "the value can still be extracted");
        check!(log::drops() == 0, "nothing dropped before the owner drops it");
        drop(o);
        check!(log::drops() == k.parts() && log::drop_sum() == k.sum(), "the owner drops it once");
        reach!("end");
    }
    fn c17_nested() {
        log::reset();
        let (k, l) = (Desc::nd(), Desc::nd());
        let (a, b) = (BorE::make(&k).into_tagged_box(), BorE::make(&l).into_tagged_box());
        unsafe {
            BorE::ref_from_tagged_box(&a, |x| {
                BorE::ref_from_tagged_box(&b, |y| {
                    BorE::ref_from_tagged_box(&a, |z| {
                        log::call();
                        check!(x.desc() == k && y.desc() == l && z.desc() == k, "nested views see the right values");
                    })
                });
                check!(x.desc() == k, "the outer view survives the inner one");
            })
        };
        check!(log::calls() == 1, "the innermost callback runs once");
        check!(log::drops() == 0, "nothing is dropped");
        check!(BorE::from_tagged_box(a).desc() == k && BorE::from_tagged_box(b).desc() == l, "both values can be extracted");
        reach!("end");
    }
    fn c17_moves_capture() {
        // the closure is FnOnce: what it captured is consumed once
        log::reset();
        let (k, id) = (Desc::nd(), nd::u32_());
        let b = BorE::make(&k).into_tagged_box();
        let d = D(id);
        unsafe { BorE::ref_from_tagged_box(&b, move |_| { drop(d); }) };
        check!(log::drops() == 1 && log::drop_sum() == id, "the captured value is consumed exactly once");
        core::mem::forget(b);
        reach!("end");
    }
    fn c17_view_of_mutated() {
        // a view after a write through the box shows what was written, and the write survives the view
        log::reset();
        let mut k = Desc::nd();
        nd::assume(k.numbered() > 0);
        let mut b = BorE::make(&k).into_tagged_box();
        unsafe { BorE::ref_from_tagged_box(&b, |r| check!(r.desc() == k, "before the write")) };
        let old = k;
        BorE::poke(&mut b, &mut k, nd::u32_());
        check!(log::drops() == 1 && log::drop_sum() == old.x, "only the overwritten part is dropped");
        unsafe { BorE::ref_from_tagged_box(&b, |r| { log::call(); check!(r.desc() == k, "the view shows the written value") }) };
        check!(log::calls() == 1 && log::drops() == 1, "once, taking nothing");
        check!(BorE::from_tagged_box(b).desc() == k, "the written value can be extracted");
        reach!("end");
    }
    fn c17_many_views() {
        log::reset();
        let k = Desc::nd();
        let b = BorE::make(&k).into_tagged_box();
        let mut i = 0;
        while i < 40 {
            unsafe { BorE::ref_from_tagged_box(&b, |r| { log::call(); check!(r.desc() == k, "every view sees the value") }) };
            i += 1;
        }
        check!(log::calls() == 40 && log::drops() == 0 && log::clones() == 0, "forty views run forty callbacks and take nothing");
        check!(BorE::from_tagged_box(b).desc() == k, "the value can still be extracted");
        reach!("end");
    }
    fn c17_unit_like_dangling() {
        // data-free variants are views of no memory at all
        log::reset();
        if MAXD < 4 { reach!("opt no data-free variant fits"); return; }
        let k = Desc::nd();
        nd::assume(k.data_free());
        let b: TaggedBox<BorE> = TaggedBox::dangling::<u8>(k.i as Discriminant);
        nd::assume(k.i != 6);
        let bits = word(&b);
        unsafe { BorE::ref_from_tagged_box(&b, |r| { log::call(); check!(r.desc() == k, "the view shows the variant") }) };
        check!(log::calls() == 1 && word(&b) == bits, "once, leaving the word");
        reach!("end");
    }
    fn c17_nested_same() {
        // a view of a box inside a view of that same box, and whatever else reads it there
        log::reset();
        let k = Desc::nd();
        let a = BorE::make(&k).into_tagged_box();
        unsafe {
            BorE::ref_from_tagged_box(&a, |x| {
                log::call();
                BorE::ref_from_tagged_box(&a, |y| {
                    log::call();
                    check!(x.desc() == k && y.desc() == k, "both views see the value");
                    BorE::ref_from_tagged_box(&a, |z| { log::call(); check!(z.desc() == k, "and a third") });
                });
                BorE::ref_from_tagged_box(&a, |y| { log::call(); check!(y.desc() == k, "and another after it") });
                check!(a == a, "it equals itself meanwhile");
                check!(x.desc() == k, "the outer view is still valid");
            })
        };
        check!(log::calls() == 4, "each callback runs exactly once");
        check!(log::drops() == 0 && log::clones() == 0, "nothing is dropped or cloned");
        unsafe { BorE::ref_from_tagged_box(&a, |r| { log::call(); check!(r.desc() == k, "a view afterwards") }) };
        check!(log::calls() == 5 && BorE::from_tagged_box(a).desc() == k, "once, and the value can be extracted");
        reach!("end");
    }
    fn c17_inside() {
        // other boxes of the enum are made, cloned, viewed and extracted inside a view
        log::reset();
        let (k, l) = (Desc::nd(), Desc::of(1));
        let a = BorE::make(&k).into_tagged_box();
        unsafe {
            BorE::ref_from_tagged_box(&a, |x| {
                log::call();
                let b = BorE::make(&l).into_tagged_box();
                BorE::ref_from_tagged_box(&b, |y| { log::call(); check!(y.desc() == l, "the new box's view sees its value") });
                check!(BorE::from_tagged_box(b).desc() == l, "the new box is extracted");
                check!(log::drops() == 1, "and its value dropped");
                let c = a.clone();
                check!(log::clones() == k.parts(), "a clone meanwhile");
                check!(c == a, "equals it");
                check!(BorE::from_tagged_box(c).desc() == k, "and is extracted");
                check!(x.desc() == k, "the view is still valid");
            })
        };
        check!(log::calls() == 2 && log::drops() == 1 + k.parts(), "each callback runs once; the box still owns its value");
        check!(BorE::from_tagged_box(a).desc() == k, "which can be extracted");
        reach!("end");
    }
    fn c17_long() {
        log::reset();
        let k = Desc::of(1);
        let b = BorE::make(&k).into_tagged_box();
        let mut i = 0;
        while i < 1100 {
            unsafe { BorE::ref_from_tagged_box(&b, |r| { log::call(); check!(r.desc() == k, "every view sees the value") }) };
            i += 1;
        }
        check!(log::calls() == 1100 && log::drops() == 0 && log::clones() == 0, "hundreds of views run as many callbacks and take nothing");
        check!(BorE::from_tagged_box(b).desc() == k, "the value can still be extracted");
        reach!("end");
    }
}
