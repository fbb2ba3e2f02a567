//! C13: comparing boxes is comparing values
use crate::nd;
use crate::spec::*;
use crate::types::*;
use crate::shapes::{Desc, N0};
use core::cmp::Ordering;
use core::mem::ManuallyDrop;
use tagged_box::{TaggableContainer, TaggableInner};

tagged_box! {
    #[derive(Clone, PartialEq, PartialOrd)]
    struct Flo, enum FloE { F(f64), Two(u8, f64), }
}
tagged_box! {
    #[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
    struct Tot, enum TotE { A(u32), B(u8, u16), }
}
tagged_box! {
    #[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
    struct Wid, enum WidE { A(u32), U, B(u8, u16), R { x: i8, y: u64 }, E(), S((), Al32), V, T { x: u16, y: i32, }, N {}, }
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
#[repr(align(32))]
pub struct Al32(u8);

fn flo() -> FloE { if nd::bool_() { FloE::F(f64::nd()) } else { FloE::Two(nd::u8_(), f64::nd()) } }
fn tot() -> TotE { if nd::bool_() { TotE::A(nd::u32_()) } else { TotE::B(nd::u8_(), nd::u16_()) } }
fn wid() -> WidE {
    match nd::u8_() {
        0 => WidE::A(nd::u32_()), 1 => WidE::U, 2 => WidE::B(nd::u8_(), nd::u16_()),
        3 => WidE::R { x: nd::u8_() as i8, y: nd::u64_() }, 4 => WidE::E(), 5 => WidE::S((), Al32(nd::u8_())), 6 => WidE::T { x: nd::u16_(), y: nd::u32_() as i32 }, 7 => WidE::N {}, _ => WidE::V,
    }
}

// Comparisons that obey no law at all: whatever they answer must come through, in the same operand order.
macro_rules! lawless { ($t:ident) => {
    impl PartialEq for $t {
        fn eq(&self, o: &Self) -> bool { self.key().wrapping_mul(3).wrapping_add(o.key()) & 4 == 0 }
        // deliberately not the negation of eq
        fn ne(&self, o: &Self) -> bool { self.key().wrapping_add(o.key().wrapping_mul(5)) & 2 == 0 }
    }
    impl PartialOrd for $t {
        fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
            match self.key().wrapping_mul(7).wrapping_sub(o.key()) & 3 {
                0 => None, 1 => Some(Ordering::Less), 2 => Some(Ordering::Greater), _ => Some(Ordering::Equal),
            }
        }
    }
    impl Eq for $t {}
    impl Ord for $t {
        fn cmp(&self, o: &Self) -> Ordering {
            match self.key().wrapping_sub(o.key().wrapping_mul(3)) % 3 { 0 => Ordering::Less, 1 => Ordering::Equal, _ => Ordering::Greater }
        }
    }
} }
tagged_box! { struct Law, enum LawE { A(u32), B(u8, u16), } }
impl LawE { fn key(&self) -> u32 { match self { LawE::A(x) => *x, LawE::B(x, y) => (*x as u32) << 16 | *y as u32 } } }
lawless!(LawE);
fn law() -> LawE { if nd::bool_() { LawE::A(nd::u32_()) } else { LawE::B(nd::u8_(), nd::u16_()) } }

/// implemented by hand, as the documentation describes
#[derive(Clone)]
enum Hand { I(u32), B(bool) }
impl Hand { fn key(&self) -> u32 { match self { Hand::I(x) => *x, Hand::B(b) => 1000 + *b as u32 } } }
lawless!(Hand);
impl TaggableInner for Hand {
    fn into_tagged_box(self) -> TaggedBox<Self> {
        match self { Hand::I(x) => TaggedBox::new(x, 1), Hand::B(b) => TaggedBox::new(b, 0) }
    }
    fn from_tagged_box(t: TaggedBox<Self>) -> Self {
        unsafe { match t.discriminant() as u64 { 1 => Hand::I(TaggedBox::into_inner(t)), _ => Hand::B(TaggedBox::into_inner(t)) } }
    }
    unsafe fn ref_from_tagged_box<F>(t: &TaggedBox<Self>, f: F) where F: FnOnce(&Self) {
        let v = ManuallyDrop::new(match t.discriminant() as u64 { 1 => Hand::I(*t.as_ptr::<u32>()), _ => Hand::B(*t.as_ptr::<bool>()) });
        f(&v)
    }
}
fn hand() -> Hand { if nd::bool_() { Hand::I(nd::u32_()) } else { Hand::B(nd::bool_()) } }

shapes! { #[derive(Clone, PartialEq, Eq, PartialOrd, Ord)] Cmp, CmpE, crate::shapes::Num, N0 }
/// every comparison of two boxes
fn compare(a: &TaggedBox<CmpE>, v: &CmpE, b: &TaggedBox<CmpE>, w: &CmpE) {
    check!((*a == *b) == (*v == *w) && (*a != *b) == (*v != *w), "== and != over every syntax");
    check!(a.cmp(b) == v.cmp(w), "cmp over every syntax");
    check!(a.partial_cmp(b) == v.partial_cmp(w), "partial_cmp over every syntax");
    check!((*a < *b) == (*v < *w) && (*a <= *b) == (*v <= *w), "< and <= over every syntax");
    check!((*a > *b) == (*v > *w) && (*a >= *b) == (*v >= *w), "> and >= over every syntax");
}

harnesses! {
    fn c13_partial() {
        let (v, w) = (flo(), flo());
        let (a, b) = (v.clone().into_tagged_box(), w.clone().into_tagged_box());
        let (wa, wb) = (word(&a), word(&b));
        check!((a == b) == (v == w), "==");
        check!((a != b) == (v != w), "!=");
        check!(a.partial_cmp(&b) == v.partial_cmp(&w), "partial_cmp");
        check!((a < b) == (v < w), "<");
        check!((a <= b) == (v <= w), "<=");
        check!((a > b) == (v > w), ">");
        check!((a >= b) == (v >= w), ">=");
        check!((a == a) == (v == v), "== with itself");
        check!(a.partial_cmp(&a) == v.partial_cmp(&v), "partial_cmp with itself");
        check!(word(&a) == wa && word(&b) == wb, "comparing leaves the boxes unchanged");
        reach!("end");
    }
    fn c13_partial_container() {
        let (v, w) = (flo(), flo());
        let (a, b) = (Flo::from(v.clone()), Flo::from(w.clone()));
        check!((a == b) == (v == w), "container ==");
        check!((a != b) == (v != w), "container !=");
        check!(a.partial_cmp(&b) == v.partial_cmp(&w), "container partial_cmp");
        check!((a < b) == (v < w), "container <");
        check!((a <= b) == (v <= w), "container <=");
        check!((a > b) == (v > w), "container >");
        check!((a >= b) == (v >= w), "container >=");
        check!((a == a) == (v == v), "container == with itself");
        check!(a.partial_cmp(&a) == v.partial_cmp(&v), "container partial_cmp with itself");
        reach!("end");
    }
    fn c13_total() {
        let (v, w) = (tot(), tot());
        let (a, b) = (v.clone().into_tagged_box(), w.clone().into_tagged_box());
        check!((a == b) == (v == w), "==");
        check!(a.cmp(&b) == v.cmp(&w), "cmp");
        check!(a.partial_cmp(&b) == Some(v.cmp(&w)), "partial_cmp");
        check!((a < b) == (v < w) && (a <= b) == (v <= w) && (a > b) == (v > w) && (a >= b) == (v >= w), "operators");
        check!(TotE::from_tagged_box(a) == v && TotE::from_tagged_box(b) == w, "comparing leaves the values unchanged");
        reach!("end");
    }
    fn c13_total_container() {
        let (v, w) = (tot(), tot());
        let (a, b) = (Tot::from(v.clone()), Tot::from(w.clone()));
        check!((a == b) == (v == w), "container ==");
        check!(a.cmp(&b) == v.cmp(&w), "container cmp");
        check!(a.partial_cmp(&b) == Some(v.cmp(&w)), "container partial_cmp");
        check!((a < b) == (v < w) && (a <= b) == (v <= w) && (a > b) == (v > w) && (a >= b) == (v >= w), "container operators");
        let (m, n) = (v.clone().max(w.clone()), v.clone().min(w.clone()));
        check!(Tot::from(v.clone()).max(Tot::from(w.clone())).into_inner() == m, "container max");
        check!(Tot::from(v.clone()).min(Tot::from(w.clone())).into_inner() == n, "container min");
        check!(a.into_inner() == v && b.into_inner() == w, "comparing leaves the values unchanged");
        reach!("end");
    }
    fn c13_shapes() {
        if MAXD < 8 {
            reach!("opt too many variants for this width");
            return;
        }
        let (v, w) = (wid(), wid());
        let (a, b) = (v.clone().into_tagged_box(), w.clone().into_tagged_box());
        check!((a == b) == (v == w), "== over all shapes");
        check!(a.cmp(&b) == v.cmp(&w), "cmp over all shapes");
        check!(a.partial_cmp(&b) == v.partial_cmp(&w), "partial_cmp over all shapes");
        reach!("end");
    }
    fn c13_lawless() {
        let (v, w) = (law(), law());
        let eq = v == w;
        let o = v.partial_cmp(&w);
        let c = v.cmp(&w);
        let (a, b) = (v.into_tagged_box(), w.into_tagged_box());
        check!((a == b) == eq, "user-defined ==");
        check!(a.partial_cmp(&b) == o, "user-defined partial_cmp");
        check!(a.cmp(&b) == c, "user-defined cmp");
        check!((a < b) == (o == Some(Ordering::Less)), "user-defined <");
        check!((a <= b) == (o == Some(Ordering::Less) || o == Some(Ordering::Equal)), "user-defined <=");
        check!((a > b) == (o == Some(Ordering::Greater)), "user-defined >");
        check!((a >= b) == (o == Some(Ordering::Greater) || o == Some(Ordering::Equal)), "user-defined >=");
        reach!("end");
    }
    fn c13_by_hand() {
        let (v, w) = (hand(), hand());
        let (eq, o, c) = (v == w, v.partial_cmp(&w), v.cmp(&w));
        let (a, b) = (v.into_tagged_box(), w.into_tagged_box());
        check!((a == b) == eq, "hand-written ==");
        check!(a.partial_cmp(&b) == o, "hand-written partial_cmp");
        check!(a.cmp(&b) == c, "hand-written cmp");
        let _ = (Hand::from_tagged_box(a), Hand::from_tagged_box(b));
        reach!("end");
    }
    fn c13_min_max() {
        let (v, w) = (tot(), tot());
        let how = nd::u8_();
        let (a, b) = (v.clone().into_tagged_box(), w.clone().into_tagged_box());
        match how {
            0 => check!(TotE::from_tagged_box(a.max(b)) == v.max(w), "max"),
            1 => check!(TotE::from_tagged_box(a.min(b)) == v.min(w), "min"),
            _ => {
                let (lo, hi) = if v <= w { (v.clone(), w.clone()) } else { (w.clone(), v.clone()) };
                let u = tot();
                let c = u.clone().into_tagged_box();
                let (l, h) = if a <= b { (a, b) } else { (b, a) };
                check!(TotE::from_tagged_box(c.clamp(l, h)) == u.clamp(lo, hi), "clamp");
            }
        }
        reach!("end");
    }
    fn c13_same_storage() {
        // handles to one value: comparison still asks the value
        let v = f64::nd();
        let mut a = FloE::F(v).into_tagged_box();
        let b: TaggedBox<FloE> = unsafe { TaggedBox::from_raw(a.as_mut_ptr::<f64>(), a.discriminant()) };
        check!((a == b) == (v == v), "== of two handles to one value");
        check!((a != b) == (v != v), "!= of two handles to one value");
        check!(a.partial_cmp(&b) == v.partial_cmp(&v), "partial_cmp of two handles to one value");
        check!((a <= b) == (v <= v) && (a >= b) == (v >= v) && !(a < b) && !(a > b), "operators of two handles to one value");
        reach!("end");
    }
    fn c13_every() {
        let (k, l) = (Desc::nd(), Desc::nd());
        let (v, w) = (CmpE::make(&k), CmpE::make(&l));
        let (a, b) = (v.clone().into_tagged_box(), w.clone().into_tagged_box());
        compare(&a, &v, &b, &w);
        compare(&a, &v, &a, &v);
        check!(CmpE::from_tagged_box(a).desc() == k && CmpE::from_tagged_box(b).desc() == l, "comparing leaves the values unchanged");
        reach!("end");
    }
    fn c13_every_container() {
        let (k, l) = (Desc::nd(), Desc::nd());
        let (v, w) = (CmpE::make(&k), CmpE::make(&l));
        let (a, b) = (Cmp::from(v.clone()), Cmp::from(w.clone()));
        check!((a == b) == (v == w) && (a != b) == (v != w), "container == and != over every syntax");
        check!(a.cmp(&b) == v.cmp(&w) && a.partial_cmp(&b) == v.partial_cmp(&w), "container cmp over every syntax");
        check!((a < b) == (v < w) && (a <= b) == (v <= w) && (a > b) == (v > w) && (a >= b) == (v >= w), "container operators over every syntax");
        check!(a.into_inner().desc() == k && b.into_inner().desc() == l, "comparing leaves the values unchanged");
        reach!("end");
    }
    fn c13_poked() {
        // one pair of boxes, compared before and after either's value changes
        let mut k = Desc::nd();
        let mut l = Desc::of(k.i);
        nd::assume(k.numbered() > 0);
        let (mut a, mut b) = (CmpE::make(&k).into_tagged_box(), CmpE::make(&l).into_tagged_box());
        compare(&a, &CmpE::make(&k), &b, &CmpE::make(&l));
        CmpE::poke(&mut a, &mut k, nd::u32_());
        compare(&a, &CmpE::make(&k), &b, &CmpE::make(&l));
        CmpE::poke(&mut b, &mut l, nd::u32_());
        compare(&a, &CmpE::make(&k), &b, &CmpE::make(&l));
        compare(&b, &CmpE::make(&l), &a, &CmpE::make(&k));
        reach!("end");
    }
    fn c13_long() {
        // one pair, compared over and over
        let k = Desc::of(1);
        let l = Desc::of(1);
        let (v, w) = (CmpE::make(&k), CmpE::make(&l));
        let (a, b) = (v.clone().into_tagged_box(), w.clone().into_tagged_box());
        let (eq, o) = (v == w, v.cmp(&w));
        let mut i = 0;
        while i < 1100 {
            check!((a == b) == eq && a.cmp(&b) == o && a.partial_cmp(&b) == Some(o), "every comparison gives the values' result");
            i += 1;
        }
        reach!("end");
    }
}
