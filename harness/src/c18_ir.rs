//! C18: panics in user code
use crate::nd;
use crate::shapes::{Desc, Part};
use crate::spec::*;
use crate::types::*;
use core::cmp::Ordering;
use core::fmt;
use tagged_box::{TaggableContainer, TaggableInner};

enum E {}
static mut BOMB: u32 = 0; // panic at the BOMB-th operation on a payload; 0: never
static mut OPS: u32 = 0;
fn arm(n: u32) { unsafe { BOMB = n; OPS = 0; } }
fn tick() { unsafe { OPS += 1; if OPS == BOMB { nd::panic() } } }

/// payload whose every operation may panic
struct B(u32);
impl Drop for B { fn drop(&mut self) { log::dropped(self.0) } }
impl Clone for B { fn clone(&self) -> B { tick(); log::cloned(); B(self.0) } }
impl PartialEq for B { fn eq(&self, o: &B) -> bool { tick(); self.0 == o.0 } }
impl Eq for B {}
impl PartialOrd for B { fn partial_cmp(&self, o: &B) -> Option<Ordering> { tick(); self.0.partial_cmp(&o.0) } }
impl Ord for B { fn cmp(&self, o: &B) -> Ordering { tick(); self.0.cmp(&o.0) } }

impl Part for B { fn part(id: u32) -> B { B(id) } fn id(&self) -> u32 { self.0 } }

shapes! { #[derive(Clone, PartialEq, Eq, PartialOrd, Ord)] Bom, BomE, crate::shapes::Sz<B>, Z }
impl fmt::Debug for BomE { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { tick(); Ok(()) } }
impl fmt::Display for BomE { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { tick(); Ok(()) } }

fn val() -> (BomE, Desc) { let k = Desc::nd(); (BomE::make(&k), k) }
/// a comparison of the two may run payload code
fn may(k: &Desc, l: &Desc) -> bool { k.i == l.i && k.numbered() > 0 }
/// it must (plain fields may be compared first)
fn must(k: &Desc, l: &Desc) -> bool { may(k, l) && k.e == l.e }
/// the box still holds its value, which is then dropped once by its owner
fn intact(b: TaggedBox<BomE>, bits: u64, k: &Desc) {
    arm(0);
    log::reset();
    check!(word(&b) == bits, "the box holds the same word");
    let o = BomE::from_tagged_box(b);
    check!(o.desc() == *k, "the value is unchanged");
    check!(log::drops() == 0, "extraction drops nothing");
    drop(o);
    check!(log::drops() == k.parts() && log::drop_sum() == k.sum(), "its owner drops it once");
}
struct Null;
impl fmt::Write for Null { fn write_str(&mut self, _: &str) -> fmt::Result { Ok(()) } }

harnesses! {
    fn c18_callback() {
        arm(0); log::reset();
        let (v, k) = val();
        let b = v.into_tagged_box();
        let bits = word(&b);
        let p = nd::attempt(|| unsafe { BomE::ref_from_tagged_box(&b, |_| nd::panic()) });
        check!(p, "the panic reaches the caller");
        check!(log::drops() == 0, "a panicking callback drops nothing");
        intact(b, bits, &k);
        reach!("end");
    }
    fn c18_nested_callback() {
        arm(0); log::reset();
        let ((v, k), (w, l)) = (val(), val());
        let (a, b) = (v.into_tagged_box(), w.into_tagged_box());
        let (x, y) = (word(&a), word(&b));
        let p = nd::attempt(|| unsafe { BomE::ref_from_tagged_box(&a, |_| BomE::ref_from_tagged_box(&b, |_| nd::panic())) });
        check!(p, "the panic reaches the caller");
        check!(log::drops() == 0, "nothing is dropped");
        intact(a, x, &k);
        intact(b, y, &l);
        reach!("end");
    }
    fn c18_clone() {
        log::reset();
        let (v, k) = val();
        let b = v.into_tagged_box();
        let bits = word(&b);
        let at = nd::u8_() as u32;
        nd::assume(at >= 1 && at <= k.numbered());
        arm(at);
        let p = nd::attempt(|| core::mem::forget(b.clone()));
        check!(p, "the panic reaches the caller");
        // parts cloned before the panic are dropped again, the original is not
        check!(log::drops() == log::clones(), "only half-made clones are dropped");
        intact(b, bits, &k);
        reach!("end");
    }
    fn c18_container_clone() {
        log::reset();
        let (v, k) = val();
        let c = Bom::from(v);
        let at = nd::u8_() as u32;
        nd::assume(at >= 1 && at <= k.numbered());
        arm(at);
        let p = nd::attempt(|| core::mem::forget(c.clone()));
        arm(0);
        check!(p && log::drops() == log::clones(), "only half-made clones are dropped");
        log::reset();
        let o = c.into_inner();
        check!(o.desc() == k && log::drops() == 0, "the value is unchanged");
        drop(o);
        check!(log::drops() == k.parts() && log::drop_sum() == k.sum(), "its owner drops it once");
        reach!("end");
    }
    fn c18_eq() {
        log::reset();
        let ((v, k), (w, l)) = (val(), val());
        let (a, b) = (v.into_tagged_box(), w.into_tagged_box());
        let (x, y) = (word(&a), word(&b));
        arm(1);
        let p = nd::attempt(|| { let _ = a == b; });
        check!((p || !must(&k, &l)) && (!p || may(&k, &l)), "the panic reaches the caller when the payloads are compared");
        check!(log::drops() == 0, "a panicking comparison drops nothing");
        intact(a, x, &k);
        intact(b, y, &l);
        reach!("end");
    }
    fn c18_cmp() {
        log::reset();
        let ((v, k), (w, l)) = (val(), val());
        let (a, b) = (v.into_tagged_box(), w.into_tagged_box());
        let (x, y) = (word(&a), word(&b));
        let total = nd::bool_();
        arm(1);
        let p = nd::attempt(|| { if total { let _ = a.cmp(&b); } else { let _ = a.partial_cmp(&b); } });
        check!((p || !must(&k, &l)) && (!p || may(&k, &l)), "the panic reaches the caller when the payloads are compared");
        check!(log::drops() == 0, "a panicking comparison drops nothing");
        intact(a, x, &k);
        intact(b, y, &l);
        reach!("end");
    }
    fn c18_container_cmp() {
        log::reset();
        let ((v, k), (w, l)) = (val(), val());
        let (a, b) = (Bom::from(v), Bom::from(w));
        let how = nd::u8_();
        arm(1);
        let p = nd::attempt(|| { match how { 0 => { let _ = a == b; } 1 => { let _ = a < b; } _ => { let _ = a.cmp(&b); } } });
        arm(0);
        check!((p || !must(&k, &l)) && (!p || may(&k, &l)) && log::drops() == 0, "a panicking comparison drops nothing");
        let (o, q) = (a.into_inner(), b.into_inner());
        check!(o.desc() == k && q.desc() == l, "the values are unchanged");
        drop((o, q));
        check!(log::drops() == k.parts() + l.parts() && log::drop_sum() == k.sum().wrapping_add(l.sum()), "each owner drops once");
        reach!("end");
    }
    fn c18_refused() {
        // a refused construction drops the value at most once
        if DTOP <= MAXD {
            reach!("opt every discriminant is valid at this width");
            return;
        }
        log::reset();
        let d = any_disc();
        nd::assume(d as u64 > MAXD);
        let (id, how) = (nd::u32_(), nd::u8_());
        let p = nd::attempt(|| match how {
            0 => core::mem::forget(TaggedBox::<E>::new(D(id), d)),
            1 => core::mem::forget(TaggedBox::<E>::new(Z, d)),
            2 => core::mem::forget(TaggedBox::<E>::new((D(id), 1u8), d)),
            _ => core::mem::forget(TaggedBox::<E>::new([Z], d)),
        });
        check!(p, "the construction is refused");
        check!(log::drops() <= 1, "the value is dropped at most once");
        reach!("end");
    }
    fn c18_foreign_tag() {
        // refusing a foreign tag touches no payload
        if MAXD < 12 {
            reach!("opt no foreign tag exists at this width");
            return;
        }
        arm(0); log::reset();
        let d = disc();
        nd::assume(d as u64 >= 12);
        let (id, how) = (nd::u32_(), nd::u8_());
        let b: TaggedBox<BomE> = TaggedBox::new(B(id), d);
        let r = b.as_ptr::<B>();
        let p = nd::attempt(|| match how {
            0 => drop(BomE::from_tagged_box(b)),
            1 => unsafe { BomE::ref_from_tagged_box(&b, |_| log::call()) },
            2 => drop(b.clone()),
            3 => { let _ = b == b; }
            _ => { let c: Bom = unsafe { core::mem::transmute(b) }; drop(c.into_inner()) }
        });
        check!(p, "refused");
        check!(log::drops() == 0 && log::calls() == 0 && log::clones() == 0, "the payload is not touched");
        check!(unsafe { (*r).0 } == id, "the payload is still there");
        reach!("end");
    }
    fn c18_then_use() {
        // a panic, then normal use of the same box
        arm(0); log::reset();
        let (v, k) = val();
        let b = v.into_tagged_box();
        let bits = word(&b);
        check!(nd::attempt(|| unsafe { BomE::ref_from_tagged_box(&b, |_| nd::panic()) }), "panics");
        unsafe { BomE::ref_from_tagged_box(&b, |r| { log::call(); check!(r.desc() == k, "a later view sees the value") }) };
        check!(log::calls() == 1, "a later view runs its callback");
        let c = b.clone();
        check!(c == b, "a later clone is equal");
        core::mem::forget(c);
        check!(log::drops() == 0, "nothing dropped so far");
        intact(b, bits, &k);
        reach!("end");
    }
    fn c18_second_part() {
        // the panic comes from the second part compared or cloned, when there is one
        if MAXD < 2 { reach!("opt no variant with two parts fits"); return; }
        log::reset();
        let ((v, k), (w, l)) = (val(), val());
        nd::assume(k.i == l.i && k.numbered() == 2);
        let (a, b) = (v.into_tagged_box(), w.into_tagged_box());
        let (x, y) = (word(&a), word(&b));
        let how = nd::u8_();
        arm(2);
        let p = nd::attempt(|| match how { 0 => { let _ = a == b; } 1 => { let _ = a.cmp(&b); } 2 => { let _ = a < b; } _ => core::mem::forget(b.clone()) });
        check!(p || how < 3, "the panic reaches the caller");
        check!(p == (how > 2 || (k.x == l.x && k.e == l.e)), "the panic comes from the second part");
        check!(log::drops() == log::clones(), "only half-made clones are dropped");
        intact(a, x, &k);
        intact(b, y, &l);
        reach!("end");
    }
    fn c18_clone_from() {
        log::reset();
        let ((v, k), (w, l)) = (val(), val());
        nd::assume(k.numbered() > 0);
        let (src, mut dst) = (v.into_tagged_box(), w.into_tagged_box());
        let x = word(&src);
        arm(1);
        let p = nd::attempt(|| dst.clone_from(&src));
        check!(p, "the panic reaches the caller");
        arm(0);
        let o = BomE::from_tagged_box(dst);
        check!(o.desc() == l, "the destination is as it was");
        core::mem::forget(o);
        intact(src, x, &k);
        reach!("end");
    }
    fn c18_repeated() {
        // panic after panic
        arm(0); log::reset();
        let (v, k) = val();
        let b = v.into_tagged_box();
        let bits = word(&b);
        let mut i = 0;
        while i < 8 {
            let p = nd::attempt(|| unsafe { BomE::ref_from_tagged_box(&b, |r| { log::call(); check!(r.desc() == k, "the value is there"); nd::panic() }) });
            check!(p && log::calls() == i + 1, "each view panics once");
            i += 1;
        }
        check!(log::drops() == 0, "nothing is dropped");
        intact(b, bits, &k);
        reach!("end");
    }
    fn c18_long() {
        arm(0); log::reset();
        let k = Desc::of(1);
        let b = BomE::make(&k).into_tagged_box();
        let bits = word(&b);
        let mut i = 0;
        while i < 1024 {
            let p = nd::attempt(|| unsafe { BomE::ref_from_tagged_box(&b, |r| { log::call(); check!(r.desc() == k, "the value is there"); nd::panic() }) });
            check!(p && log::calls() == i + 1, "each view panics once");
            i += 1;
        }
        check!(log::drops() == 0, "nothing is dropped");
        intact(b, bits, &k);
        reach!("end");
    }
}
