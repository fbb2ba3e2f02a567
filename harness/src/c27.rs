//! C27: implementations of TaggableInner written by hand, along the guide in manually_impl_enum
use crate::nd;
use crate::spec::*;
use crate::types::*;
use core::cmp::Ordering;
use core::fmt::{self, Formatter, FormattingOptions, Sign, Write};
use core::mem::ManuallyDrop;
use tagged_box::{TaggableContainer, TaggableInner};

/// the tags the implementations below use: any distinct valid ones
static mut TAGS: [Discriminant; 2] = [0; 2];
fn tag(i: usize) -> Discriminant { unsafe { TAGS[i] } }
fn tags() {
    let (a, b) = (disc(), disc());
    nd::assume(a != b);
    unsafe { TAGS = [a, b]; }
}
/// calls of the implementation
#[derive(Clone, Copy, PartialEq)]
struct Calls { into: u32, from: u32, view: u32 }
static mut CALLS: Calls = Calls { into: 0, from: 0, view: 0 };
fn calls() -> Calls { unsafe { CALLS } }
fn fresh() { unsafe { CALLS = Calls { into: 0, from: 0, view: 0 } } }
fn of(into: u32, from: u32, view: u32) -> Calls { Calls { into, from, view } }

/// Two kinds of value, stored in other forms than they have: a number as its complement, a pair as three words; a
/// zero pair needs no storage.
macro_rules! by_hand { ($e:ident, $c:ident) => {
    enum $e { N(u32), P(u64, u8) }
    struct $c { value: TaggedBox<$e> }
    impl $e {
        unsafe fn peek(t: &TaggedBox<$e>) -> $e {
            let d = t.discriminant();
            if d == tag(0) {
                $e::N(!*t.as_ref::<u32>())
            } else if d == tag(1) {
                let w = t.as_ptr::<[u64; 3]>().read();
                $e::P(w[1] ^ w[0], (w[2] >> 3) as u8)
            } else {
                panic!()
            }
        }
        fn key(&self) -> (u8, u64, u8) { match self { $e::N(x) => (0, *x as u64, 0), $e::P(x, y) => (1, *x, *y) } }
        fn of(k: (u8, u64, u8)) -> $e { if k.0 == 0 { $e::N(k.1 as u32) } else { $e::P(k.1, k.2) } }
    }
    impl TaggableInner for $e {
        fn into_tagged_box(self) -> TaggedBox<Self> {
            unsafe { CALLS.into += 1; }
            match self {
                $e::N(x) => TaggedBox::new(!x, tag(0)),
                $e::P(x, y) => TaggedBox::new([0x5555u64, x ^ 0x5555, (y as u64) << 3], tag(1)),
            }
        }
        fn from_tagged_box(t: TaggedBox<Self>) -> Self {
            unsafe {
                CALLS.from += 1;
                let v = Self::peek(&t);
                core::mem::forget(t);
                v
            }
        }
        unsafe fn ref_from_tagged_box<F>(t: &TaggedBox<Self>, f: F) where F: FnOnce(&Self) {
            CALLS.view += 1;
            let v = ManuallyDrop::new(Self::peek(t));
            f(&v)
        }
    }
    impl From<$e> for $c { fn from(v: $e) -> $c { $c { value: v.into_tagged_box() } } }
    impl TaggableContainer for $c { type Inner = $e; fn into_inner(self) -> $e { $e::from_tagged_box(self.value) } }
} }
type Key = (u8, u64, u8);
fn key() -> Key { if nd::bool_() { (0, nd::u32_() as u64, 0) } else { (1, nd::u64_(), nd::u8_()) } }

by_hand!(H, HC);
impl Clone for H { fn clone(&self) -> H { log::cloned(); H::of(self.key()) } }
// comparisons of its own: by the last part first, and some pairs are not ordered
impl PartialEq for H { fn eq(&self, o: &H) -> bool { let (a, b) = (self.key(), o.key()); a.0 == b.0 && a.1 == b.1 } }
impl Eq for H {}
impl PartialOrd for H {
    fn partial_cmp(&self, o: &H) -> Option<Ordering> { let (a, b) = (self.key(), o.key()); if a.0 != b.0 { None } else { Some(a.1.cmp(&b.1)) } }
}
impl Ord for H { fn cmp(&self, o: &H) -> Ordering { let (a, b) = (self.key(), o.key()); (b.0, a.1).cmp(&(a.0, b.1)) } }
static mut SEEN: (Key, u8, bool, u32) = ((0, 0, 0), 0, false, 0);
fn show(v: &H, f: &mut Formatter<'_>, which: u8) -> fmt::Result {
    unsafe { SEEN = (v.key(), which, f.alternate(), f.width().map_or(u32::MAX, |w| w as u32)); }
    f.write_str(if which == 1 { "debug" } else { "shown" })
}
impl fmt::Debug for H { fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { show(self, f, 1) } }
impl fmt::Display for H { fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { show(self, f, 2) } }
struct Sink { n: usize, fail: bool }
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result { self.n += s.len(); if self.fail { Err(fmt::Error) } else { Ok(()) } }
}

// a Copy enum
by_hand!(K, KC);
impl Clone for K { fn clone(&self) -> K { K::of(self.key()) } }
impl Copy for K {}
impl PartialEq for K { fn eq(&self, o: &K) -> bool { self.key() == o.key() } }

// a view that shows nothing
struct Blind(u32);
impl Clone for Blind { fn clone(&self) -> Blind { Blind(self.0) } }
impl TaggableInner for Blind {
    fn into_tagged_box(self) -> TaggedBox<Self> { TaggedBox::new(self.0, tag(0)) }
    fn from_tagged_box(t: TaggedBox<Self>) -> Self { Blind(unsafe { TaggedBox::into_inner(t) }) }
    unsafe fn ref_from_tagged_box<F>(_: &TaggedBox<Self>, _: F) where F: FnOnce(&Self) {}
}

// a field of a box belongs to the implementation: here the tag is data, not a variant
#[derive(Clone, PartialEq, PartialOrd)]
struct Small { t: Discriminant, x: u16 }
impl TaggableInner for Small {
    fn into_tagged_box(self) -> TaggedBox<Self> { TaggedBox::new(self.x, self.t) }
    fn from_tagged_box(b: TaggedBox<Self>) -> Self { let t = b.discriminant(); Small { t, x: unsafe { *TaggedBox::into_box::<u16>(b) } } }
    unsafe fn ref_from_tagged_box<F>(b: &TaggedBox<Self>, f: F) where F: FnOnce(&Self) { f(&Small { t: b.discriminant(), x: *b.as_ref::<u16>() }) }
}

// a clone is of another variant than its original
#[derive(PartialEq, PartialOrd)]
enum Once { Fresh(u32), Used(u32) }
impl Clone for Once { fn clone(&self) -> Once { match self { Once::Fresh(x) => Once::Used(*x), Once::Used(x) => Once::Fresh(!*x) } } }
impl TaggableInner for Once {
    fn into_tagged_box(self) -> TaggedBox<Self> { match self { Once::Fresh(x) => TaggedBox::new(x, tag(0)), Once::Used(x) => TaggedBox::new(x, tag(1)) } }
    fn from_tagged_box(b: TaggedBox<Self>) -> Self {
        let d = b.discriminant();
        let x = unsafe { TaggedBox::into_inner(b) };
        if d == tag(0) { Once::Fresh(x) } else { Once::Used(x) }
    }
    unsafe fn ref_from_tagged_box<F>(b: &TaggedBox<Self>, f: F) where F: FnOnce(&Self) {
        let x = *b.as_ref::<u32>();
        f(&if b.discriminant() == tag(0) { Once::Fresh(x) } else { Once::Used(x) })
    }
}

// an implementation that panics: 1 before the callback, 2 after it, 3 in boxing, 4 in cloning, 5 in comparison, 6 in formatting
static mut ARMED: u8 = 0;
fn at(n: u8) { if unsafe { ARMED } == n { nd::panic() } }
struct Frail(u32);
impl Clone for Frail { fn clone(&self) -> Frail { at(4); Frail(self.0) } }
impl PartialEq for Frail { fn eq(&self, o: &Frail) -> bool { at(5); self.0 == o.0 } }
impl PartialOrd for Frail { fn partial_cmp(&self, o: &Frail) -> Option<Ordering> { at(5); self.0.partial_cmp(&o.0) } }
impl fmt::Debug for Frail { fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { at(6); f.write_str("x") } }
impl TaggableInner for Frail {
    fn into_tagged_box(self) -> TaggedBox<Self> { at(3); TaggedBox::new(self.0, tag(0)) }
    fn from_tagged_box(b: TaggedBox<Self>) -> Self { Frail(unsafe { TaggedBox::into_inner(b) }) }
    unsafe fn ref_from_tagged_box<F>(b: &TaggedBox<Self>, f: F) where F: FnOnce(&Self) {
        let v = Frail(*b.as_ref::<u32>());
        at(1);
        f(&v);
        at(2);
    }
}

harnesses! {
    fn c27_panics() {
        tags();
        let (x, y, n) = (nd::u32_(), nd::u32_(), nd::u8_());
        nd::assume(n <= 6);
        let (a, b) = (Frail(x).into_tagged_box(), Frail(y).into_tagged_box());
        let (v, w, blocks) = (word(&a), word(&b), nd::blocks());
        unsafe { ARMED = n; }
        match nd::u8_() {
            0 => { check!(nd::attempt(|| core::mem::forget(a.clone())) == (1 <= n && n <= 4), "clone panics where the implementation does"); }
            1 => { check!(nd::attempt(|| { let _ = a == b; }) == (n == 1 || n == 2 || n == 5), "so does =="); }
            2 => { check!(nd::attempt(|| { let _ = a.partial_cmp(&b); }) == (n == 1 || n == 2 || n == 5), "and partial_cmp"); }
            _ => {
                let mut s = Sink { n: 0, fail: false };
                check!(nd::attempt(|| { let _ = fmt::Debug::fmt(&a, &mut Formatter::new(&mut s, FormattingOptions::new())); }) == (n == 1 || n == 2 || n == 6), "and formatting");
            }
        }
        unsafe { ARMED = 0; }
        check!(n == 0 || n > 4 || nd::blocks() == blocks, "what panicked allocated nothing");
        check!(word(&a) == v && word(&b) == w, "the boxes stay");
        check!(a == a.clone() && (a == b) == (x == y), "and can be used");
        check!(Frail::from_tagged_box(a).0 == x && Frail::from_tagged_box(b).0 == y, "and give their values");
        reach!("end");
    }
    fn c27_clone_changes() {
        tags();
        let (x, fresh) = (nd::u32_(), nd::bool_());
        let v = || if fresh { Once::Fresh(x) } else { Once::Used(x) };
        let a = v().into_tagged_box();
        let b = a.clone();
        let w = v().clone();
        check!(a.discriminant() == tag(!fresh as usize) && b.discriminant() == tag(fresh as usize), "each has the tag its value was boxed with");
        check!(a != b && a.partial_cmp(&b) == v().partial_cmp(&w), "they differ as the values do");
        let c = b.clone();
        check!(Once::from_tagged_box(b) == w, "the clone gives the value's clone");
        check!(Once::from_tagged_box(c) == w.clone(), "so does a clone's clone");
        check!(Once::from_tagged_box(a) == v(), "the original gives the value");
        reach!("end");
    }
    fn c27_clone_from_changes() {
        tags();
        let (x, y, f, g) = (nd::u32_(), nd::u32_(), nd::bool_(), nd::bool_());
        let v = |f: bool, x| if f { Once::Fresh(x) } else { Once::Used(x) };
        let (mut a, b) = (v(f, x).into_tagged_box(), v(g, y).into_tagged_box());
        a.clone_from(&b);
        check!(a.discriminant() == tag(g as usize) && b.discriminant() == tag(!g as usize), "clone_from boxes the clone under its own tag");
        check!(Once::from_tagged_box(a) == v(g, y).clone() && Once::from_tagged_box(b) == v(g, y), "both give their values");
        reach!("end");
    }
    fn c27_round_trip() {
        tags(); fresh();
        let k = key();
        let b = H::of(k).into_tagged_box();
        check!(b.discriminant() == tag(k.0 as usize), "the tag is the implementation's");
        let bits = word(&b);
        let mut n = 0;
        unsafe { H::ref_from_tagged_box(&b, |v| { n += 1; check!(v.key() == k, "the view shows the value") }) };
        check!(n == 1 && word(&b) == bits, "the view leaves the box");
        if nd::bool_() {
            check!(H::from_tagged_box(b).key() == k, "from_tagged_box gives the value");
            check!(calls() == of(1, 1, 1), "one call each");
        } else {
            let c = HC { value: b };
            check!(c.into_inner().key() == k, "a container gives the value");
        }
        reach!("end");
    }
    fn c27_clone() {
        tags(); log::reset();
        let k = key();
        let a = H::of(k).into_tagged_box();
        let x = word(&a);
        fresh();
        let blocks = nd::blocks();
        let b = a.clone();
        check!(nd::blocks() == blocks + 1, "a clone has storage of its own");
        check!(calls() == of(1, 0, 1) && log::clones() == 1, "one view, one clone of the value, one boxing");
        check!(b.discriminant() == a.discriminant(), "a clone has the same tag");
        check!(word(&a) == x && word(&b) != x, "the original stays, the clone is another");
        check!(H::from_tagged_box(a).key() == k && H::from_tagged_box(b).key() == k, "both give the value");
        reach!("end");
    }
    fn c27_clone_from() {
        tags();
        let (k, l) = (key(), key());
        let (mut a, b) = (H::of(k).into_tagged_box(), H::of(l).into_tagged_box());
        let y = word(&b);
        a.clone_from(&b);
        check!(word(&b) == y && word(&a) != y, "clone_from leaves its source and shares nothing");
        check!(H::from_tagged_box(b).key() == l && H::from_tagged_box(a).key() == l, "both give the value");
        reach!("end");
    }
    fn c27_compare() {
        tags();
        let (k, l) = (key(), key());
        let (v, w) = (H::of(k), H::of(l));
        let (a, b) = (H::of(k).into_tagged_box(), H::of(l).into_tagged_box());
        let (x, y) = (word(&a), word(&b));
        fresh();
        check!((a == b) == (v == w), "== is the implementation's");
        check!(calls() == of(0, 0, 2), "== views each once");
        check!((a != b) == (v != w), "!= is the implementation's");
        check!(a.partial_cmp(&b) == v.partial_cmp(&w), "partial_cmp is the implementation's");
        check!(a.cmp(&b) == v.cmp(&w), "cmp is the implementation's");
        check!((a < b) == (v < w) && (a <= b) == (v <= w) && (a > b) == (v > w) && (a >= b) == (v >= w), "the operators are the implementation's");
        check!(a == a && a.cmp(&a) == Ordering::Equal, "a box is equal to itself");
        check!(calls().into == 0 && calls().from == 0, "comparison takes and boxes nothing");
        check!(word(&a) == x && word(&b) == y, "both boxes stay");
        reach!("end");
    }
    fn c27_format() {
        tags();
        let k = key();
        let b = H::of(k).into_tagged_box();
        let x = word(&b);
        let mut o = FormattingOptions::new();
        let (alt, fail, debug) = (nd::bool_(), nd::bool_(), nd::bool_());
        o.alternate(alt);
        let width = if nd::bool_() { let w = nd::u16_(); o.width(Some(w)); w as u32 } else { u32::MAX };
        if nd::bool_() { o.sign(Some(Sign::Plus)); }
        fresh();
        let mut s = Sink { n: 0, fail };
        let r = { let mut f = Formatter::new(&mut s, o); if debug { fmt::Debug::fmt(&b, &mut f) } else { fmt::Display::fmt(&b, &mut f) } };
        check!(r.is_err() == fail && s.n == 5, "what the value writes, and its result");
        check!(unsafe { SEEN } == (k, if debug { 1 } else { 2 }, alt, width), "the value is formatted, with the same options");
        check!(calls() == of(0, 0, 1) && word(&b) == x, "through one view");
        reach!("end");
    }
    fn c27_copies() {
        tags();
        let k = key();
        let a = K::of(k).into_tagged_box();
        let (b, c) = (a, a);
        check!(a == b && word(&b) == word(&a), "copies are equal");
        check!(K::from_tagged_box(b).key() == k && K::from_tagged_box(a).key() == k, "each copy gives the value");
        check!(KC { value: c }.into_inner().key() == k, "so does one in a container");
        reach!("end");
    }
    fn c27_blind() {
        tags();
        let x = nd::u32_();
        let b = Blind(x).into_tagged_box();
        let (w, blocks) = (word(&b), nd::blocks());
        check!(nd::attempt(|| { core::mem::forget(b.clone()) }), "no clone is made of a value that is not shown");
        check!(nd::blocks() == blocks && word(&b) == w, "nothing is kept, the box stays");
        check!(Blind::from_tagged_box(b).0 == x, "and gives the value");
        reach!("end");
    }
    fn c27_tag_is_data() {
        let (s, t) = (Small { t: disc(), x: nd::u16_() }, Small { t: disc(), x: nd::u16_() });
        let (a, b) = (s.clone().into_tagged_box(), t.clone().into_tagged_box());
        check!((a == b) == (s == t) && a.partial_cmp(&b) == s.partial_cmp(&t), "comparison sees the tags as the implementation does");
        let c = a.clone();
        check!(c.discriminant() == s.t && c == a, "a clone has the tag");
        check!(Small::from_tagged_box(a) == s && Small::from_tagged_box(c) == s && Small::from_tagged_box(b) == t, "all give their values");
        reach!("end");
    }
    fn c27_empty_tag_mp() {
        // a tag the implementation does not know reaches it unchanged
        if MAXD < 2 { reach!("no tag is left at this width"); return; }
        tags();
        let d = disc();
        nd::assume(d != tag(0) && d != tag(1));
        let b: TaggedBox<H> = TaggedBox::new(nd::u32_(), d);
        if nd::bool_() { must_panic!(b.clone(), "clone of an unknown tag") } else { must_panic!(b == b, "comparison of an unknown tag") }
    }
}
