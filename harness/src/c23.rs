//! C23: any sequence of operations behaves like the plain values
use crate::nd;
use crate::spec::*;
use tagged_box::{TaggableContainer, TaggableInner};

tagged_box! {
    #[derive(Clone, PartialEq, PartialOrd)]
    struct Seq, enum SeqE { N(u32), P(u8, u16, u8), }
}
fn val() -> SeqE { if nd::bool_() { SeqE::N(nd::u32_()) } else { SeqE::P(nd::u8_(), nd::u16_(), nd::u8_()) } }
fn tag(v: &SeqE) -> Discriminant { match v { SeqE::N(_) => 0, SeqE::P(..) => 1 } }
#[repr(C)]
struct P(u8, u16, u8);

/// one operation on box `a` (model `m`), with `b` (model `n`) next to it
fn step(op: u8, a: TaggedBox<SeqE>, m: &mut SeqE, b: &TaggedBox<SeqE>, n: &SeqE) -> TaggedBox<SeqE> {
    let mut a = a;
    match op {
        0 => {
            // mutate in place
            unsafe {
                match m {
                    SeqE::N(x) => { *x = nd::u32_(); *a.as_mut_ref::<u32>() = *x; }
                    SeqE::P(x, y, z) => { *x = nd::u8_(); *y = nd::u16_(); *z = nd::u8_(); *a.as_mut_ptr::<P>() = P(*x, *y, *z); }
                }
            }
            a
        }
        1 => {
            let mr = &*m;
            unsafe { SeqE::ref_from_tagged_box(&a, |r| check!(*r == *mr, "borrowed view equals the model")) };
            a
        }
        2 => {
            check!((a == *b) == (*m == *n), "== equals the model's");
            check!(a.partial_cmp(b) == (*m).partial_cmp(n), "partial_cmp equals the model's");
            a
        }
        3 => a.clone(),
        4 => {
            let d = a.discriminant();
            let r = TaggedBox::into_raw::<u8>(a);
            unsafe { TaggedBox::from_raw(r, d) }
        }
        5 => {
            let v = SeqE::from_tagged_box(a);
            check!(v == *m, "extracted value equals the model");
            v.into_tagged_box()
        }
        6 => {
            let v = Seq::from(SeqE::from_tagged_box(a)).into_inner();
            check!(v == *m, "value through a container equals the model");
            v.into_tagged_box()
        }
        _ => {
            // replace by a fresh value, possibly of the other variant
            drop(SeqE::from_tagged_box(a));
            *m = val();
            m.clone().into_tagged_box()
        }
    }
}
fn run(steps: u32, first: Option<(bool, u8)>) {
    let (mut m, mut n) = (val(), val());
    let (mut a, mut b) = (m.clone().into_tagged_box(), n.clone().into_tagged_box());
    let mut i = 0;
    while i < steps {
        let (left, op) = (nd::bool_(), nd::u8_());
        if let (0, Some((l, o))) = (i, first) { nd::assume(left == l && if o < 7 { op == o } else { op >= 7 }); }
        if left { a = step(op, a, &mut m, &b, &n); } else { b = step(op, b, &mut n, &a, &m); }
        check!(a.discriminant() == tag(&m) && b.discriminant() == tag(&n), "tags match the models' variants");
        i += 1;
    }
    check!(SeqE::from_tagged_box(a) == m, "first box ends as its model");
    check!(SeqE::from_tagged_box(b) == n, "second box ends as its model");
    reach!("end");
}

harnesses! {
    // one step from any two boxes
    fn c23_steps1() { run(1, None) }
    // two and three steps, split by what the first one is
    fn c23_steps2_mutate() { run(2, Some((true, 0))) }
    fn c23_steps2_borrow() { run(2, Some((true, 1))) }
    fn c23_steps2_compare() { run(2, Some((true, 2))) }
    fn c23_steps2_clone() { run(2, Some((true, 3))) }
    fn c23_steps2_raw() { run(2, Some((true, 4))) }
    fn c23_steps2_extract() { run(2, Some((true, 5))) }
    fn c23_steps2_container() { run(2, Some((true, 6))) }
    fn c23_steps2_replace() { run(2, Some((true, 7))) }
    fn c23_steps2_right_mutate() { run(2, Some((false, 0))) }
    fn c23_steps2_right_clone() { run(2, Some((false, 3))) }
    fn c23_steps2_right_raw() { run(2, Some((false, 4))) }
    fn c23_steps2_right_replace() { run(2, Some((false, 7))) }
    fn c23_steps3_mutate() { run(3, Some((true, 0))) }
    fn c23_steps3_borrow() { run(3, Some((true, 1))) }
    fn c23_steps3_compare() { run(3, Some((true, 2))) }
    fn c23_steps3_clone() { run(3, Some((true, 3))) }
    fn c23_steps3_raw() { run(3, Some((true, 4))) }
    fn c23_steps3_extract() { run(3, Some((true, 5))) }
    fn c23_steps3_container() { run(3, Some((true, 6))) }
    fn c23_steps3_replace() { run(3, Some((true, 7))) }
}
