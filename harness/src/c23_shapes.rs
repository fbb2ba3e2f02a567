//! C23: sequences of operations on boxes of every variant shape
use crate::nd;
use crate::shapes::{Desc, N0};
use crate::spec::*;
use tagged_box::{TaggableContainer, TaggableInner};

shapes! { #[derive(Clone, PartialEq, PartialOrd)] Sq, SqE, crate::shapes::Num, N0 }

fn step(op: u8, a: TaggedBox<SqE>, m: &mut Desc, b: &TaggedBox<SqE>, n: &Desc) -> TaggedBox<SqE> {
    let mut a = a;
    match op {
        0 => { if m.numbered() > 0 { SqE::poke(&mut a, m, nd::u32_()); } a }
        1 => {
            let mut ran = 0;
            unsafe { SqE::ref_from_tagged_box(&a, |r| { ran += 1; check!(r.desc() == *m, "borrowed view equals the model") }) };
            check!(ran == 1, "the view runs once");
            a
        }
        2 => {
            let (x, y) = (SqE::make(m), SqE::make(n));
            check!((a == *b) == (x == y), "== equals the model's");
            check!(a.partial_cmp(b) == x.partial_cmp(&y), "partial_cmp equals the model's");
            check!((*b < a) == (y < x), "< equals the model's");
            a
        }
        3 => {
            let c = a.clone();
            check!(c.discriminant() == a.discriminant(), "a clone has the tag");
            c
        }
        4 => {
            let d = a.discriminant();
            let r = TaggedBox::into_raw::<u8>(a);
            unsafe { TaggedBox::from_raw(r, d) }
        }
        5 => {
            let v = SqE::from_tagged_box(a);
            check!(v.desc() == *m, "extracted value equals the model");
            v.into_tagged_box()
        }
        6 => {
            let v = Sq::from(SqE::from_tagged_box(a)).clone().into_inner();
            check!(v.desc() == *m, "value through a cloned container equals the model");
            v.into_tagged_box()
        }
        7 => { a.clone_from(b); *m = *n; a }
        8 => {
            let d = Desc::nd();
            let mut c = SqE::make(&d).into_tagged_box();
            c.clone_from(&a);
            c
        }
        9 => {
            // two clones, one of them changed: the other and the original stay as they were
            let (mut c, mut dc) = (a.clone(), Desc { ..*m });
            let d = a.clone();
            if m.numbered() > 0 { SqE::poke(&mut c, &mut dc, nd::u32_()); }
            check!(SqE::from_tagged_box(d).desc() == *m, "another clone keeps the value");
            check!(SqE::from_tagged_box(c).desc() == dc, "the changed clone has its own");
            a
        }
        _ => {
            drop(SqE::from_tagged_box(a));
            *m = Desc::of(if MAXD >= 2 { 2 } else { 1 });
            SqE::make(m).into_tagged_box()
        }
    }
}
fn run(steps: u32, m: Desc, n: Desc, ops: u8) {
    let (mut m, n) = (m, n);
    let (mut a, b) = (SqE::make(&m).into_tagged_box(), SqE::make(&n).into_tagged_box());
    let bits = word(&b);
    let mut i = 0;
    while i < steps {
        let op = nd::u8_();
        nd::assume(op < ops);
        a = step(op, a, &mut m, &b, &n);
        check!(a.discriminant() as u8 == m.i && b.discriminant() as u8 == n.i, "tags match the models' variants");
        i += 1;
    }
    check!(word(&b) == bits, "the other box's word is untouched");
    check!(SqE::from_tagged_box(a).desc() == m, "first box ends as its model");
    check!(SqE::from_tagged_box(b).desc() == n, "second box ends as its model");
    reach!("end");
}

/// what every reader shows
fn observe(a: &TaggedBox<SqE>, m: &Desc, b: &TaggedBox<SqE>, n: &Desc) {
    let (x, y) = (SqE::make(m), SqE::make(n));
    check!(a.discriminant() as u8 == m.i && b.discriminant() as u8 == n.i, "the tags are the variants'");
    check!((a == b) == (x == y) && (b == a) == (x == y) && (a != b) == (x != y), "== equals the models'");
    check!(a.partial_cmp(b) == x.partial_cmp(&y) && b.partial_cmp(a) == y.partial_cmp(&x), "partial_cmp equals the models'");
    check!((a < b) == (x < y) && (a >= b) == (x >= y) && (b < a) == (y < x), "the operators equal the models'");
    let mut ran = 0;
    unsafe {
        SqE::ref_from_tagged_box(a, |r| { ran += 1; check!(r.desc() == *m, "the first view shows its model") });
        SqE::ref_from_tagged_box(b, |r| { ran += 1; check!(r.desc() == *n, "the second view shows its model") });
    }
    check!(ran == 2, "each view runs once");
    check!(SqE::from_tagged_box(a.clone()).desc() == *m && SqE::from_tagged_box(b.clone()).desc() == *n, "clones hold the models");
}
fn watch(m: Desc, n: Desc, first: bool) {
    let (mut m, mut n) = (m, n);
    let (mut a, mut b) = (SqE::make(&m).into_tagged_box(), SqE::make(&n).into_tagged_box());
    observe(&a, &m, &b, &n);
    let (x, y, z) = (nd::u32_(), nd::u32_(), nd::u32_());
    if m.numbered() > 0 { SqE::poke(&mut a, &mut m, x); }
    observe(&a, &m, &b, &n);
    if n.numbered() > 0 { SqE::poke(&mut b, &mut n, y); }
    observe(&a, &m, &b, &n);
    if first {
        drop(SqE::from_tagged_box(a));
        m = Desc { i: 1, x: z, y: 0, e: 0 };
        a = SqE::make(&m).into_tagged_box();
    } else {
        b.clone_from(&a);
        n = m;
    }
    observe(&a, &m, &b, &n);
    check!(SqE::from_tagged_box(b).desc() == n && SqE::from_tagged_box(a).desc() == m, "both end as their models");
    reach!("end");
}

fn reuse(m: Desc, n: Desc, other: Desc) {
    nd::alloc_mode(4);
    let b = SqE::make(&other).into_tagged_box();
    let a = SqE::make(&m).into_tagged_box();
    observe(&a, &m, &b, &other);
    SqE::free(a, &m);
    let a = SqE::make(&n).into_tagged_box();
    observe(&a, &n, &b, &other);
    check!(SqE::from_tagged_box(a.clone()).desc() == n, "a clone is of the new value");
    SqE::free(a, &n);
    let a = SqE::make(&m).into_tagged_box();
    observe(&b, &other, &a, &m);
    check!(Sq::from(SqE::from_tagged_box(a)).into_inner().desc() == m && SqE::from_tagged_box(b).desc() == other, "both end as their models");
    reach!("end");
}

harnesses! {
    fn c23_shapes1() { run(1, Desc::nd(), Desc::nd(), 8) }
    fn c23_shapes1_from() { run(1, Desc::nd(), Desc::of(1), 11) }
    fn c23_shapes2_rt() { run(2, Desc::of(0), Desc::of(0), 11) }
    fn c23_shapes2_one() { run(2, Desc::of(1), Desc::of(1), 11) }
    fn c23_shapes2_mixed() { run(2, Desc::of(1), Desc::of(0), 11) }
    fn c23_shapes2_deep() { run(2, Desc::nd(), Desc::of(1), 11) }
    fn c23_repeat() {
        // one operation after another, many times round
        let mut m = Desc::nd();
        let n = Desc::of(1);
        let (mut a, b) = (SqE::make(&m).into_tagged_box(), SqE::make(&n).into_tagged_box());
        let mut i = 0u32;
        while i < 4 {
            let mut op = 0;
            while op < 8 {
                a = step(if op == 7 { 9 } else { op }, a, &mut m, &b, &n);
                op += 1;
            }
            i += 1;
        }
        check!(SqE::from_tagged_box(a).desc() == m, "first box ends as its model");
        check!(SqE::from_tagged_box(b).desc() == n, "second box ends as its model");
        reach!("end");
    }
    // everything a reader can see, before and after each step, so that nothing is remembered that has changed since
    fn c23_watch_first() { watch(Desc::nd(), Desc::of(1), true) }
    fn c23_watch_second() { watch(Desc::of(1), Desc::nd(), false) }
    fn c23_watch_rt() { watch(Desc::of(0), Desc::of(0), nd::bool_()) }
    fn c23_watch_alike() {
        let m = Desc::nd();
        let mut n = Desc::of(m.i);
        if nd::bool_() { n = m; }
        watch(m, n, nd::bool_())
    }
    // a box that is given a freed box's block, and so may have its word, is a new box all the same
    fn c23_reuse_same() { let m = Desc::nd(); reuse(m, Desc::of(m.i), Desc::of(1)) }
    fn c23_reuse_other() { reuse(Desc::of(if MAXD >= 10 { 9 } else { 1 }), Desc::of(if MAXD >= 10 { 10 } else { 1 }), Desc::of(0)) }
    fn c23_reuse_alike() { let (m, n) = (Desc::of(1), Desc::of(1)); reuse(m, n, if nd::bool_() { m } else { n }) }
    fn c23_long() {
        // one box through hundreds of rounds, its clones coming and going
        nd::alloc_mode(4);
        let mut m = Desc::of(1);
        let mut a = SqE::make(&m).into_tagged_box();
        let mut i = 0u32;
        while i < 1100 {
            let c = a.clone();
            check!(c == a && c.partial_cmp(&a) == Some(core::cmp::Ordering::Equal), "a clone is equal");
            let mut ran = 0;
            unsafe { SqE::ref_from_tagged_box(&c, |r| { ran += 1; check!(r.desc() == m, "the view shows the model") }) };
            check!(ran == 1, "the view runs once");
            let was = m;
            SqE::poke(&mut a, &mut m, i);
            unsafe { SqE::ref_from_tagged_box(&c, |r| check!(r.desc() == was, "the clone keeps the value")) };
            SqE::free(c, &was);
            i += 1;
        }
        check!(SqE::from_tagged_box(a).desc() == m, "the box ends as its model");
        reach!("end");
    }
}
