//! C08: the destructor runs exactly once, for the final owner
use crate::nd;
use crate::spec::*;
use crate::shapes::*;
use crate::types::*;
use tagged_box::{TaggableContainer, TaggableInner};

enum E {}
const SAME: u32 = 0x5eed;

/// `n`: destructors one T holds, `sum`: the ids they report
fn once<T>(v: T, n: u32, sum: u32) {
    let d = disc();
    let b = create::<E, _>(v, d);
    check!(log::drops() == 0, "boxing does not drop");
    unsafe {
        let _ = b.discriminant();
        let _r: &T = b.as_ref::<T>();
        let _p = b.as_ptr::<T>();
        check!(log::drops() == 0, "reading does not drop");
        match nd::u8_() {
            0 => {
                let o = TaggedBox::into_inner::<T>(b);
                check!(log::drops() == 0, "into_inner does not drop");
                drop(o);
                reach!("into_inner");
            }
            1 => {
                let o = TaggedBox::into_box::<T>(b);
                check!(log::drops() == 0, "into_box does not drop");
                drop(o);
                reach!("into_box");
            }
            2 => {
                let r = TaggedBox::into_raw::<T>(b);
                check!(log::drops() == 0, "into_raw does not drop");
                let b = TaggedBox::<E>::from_raw(r, d);
                check!(log::drops() == 0, "from_raw does not drop");
                let o = TaggedBox::into_inner::<T>(b);
                check!(log::drops() == 0, "extraction does not drop");
                drop(o);
                reach!("raw");
            }
            _ => {
                let r = TaggedBox::into_raw::<T>(b);
                let o = Box::from_raw(r);
                check!(log::drops() == 0, "raw hand-over does not drop");
                drop(o);
                reach!("raw box");
            }
        }
    }
    check!(log::drops() == n, "the final owner drops each part exactly once");
    check!(log::drop_sum() == sum, "what is dropped is the value itself");
}

shapes! { #[derive(Clone, PartialEq)] Held, HeldE, crate::shapes::Drp, Z }
impl core::fmt::Debug for HeldE { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { log::call(); Ok(()) } }
impl core::fmt::Display for HeldE { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { log::call(); Ok(()) } }
struct Null;
impl core::fmt::Write for Null { fn write_str(&mut self, _: &str) -> core::fmt::Result { Ok(()) } }
/// a value, how many destructors it holds, and the sum of the ids
fn held() -> (HeldE, u32, u32) {
    let d = Desc::nd();
    (HeldE::make(&d), d.parts(), d.sum())
}
// payload conversions
tagged_box! { struct Conv, enum ConvE { One(D), Many(D, u8, D), Zst(Z), Two(D, D), ZTwo(Z, Z), } }

harnesses! {
    fn c08_sized() { log::reset(); let id = nd::u32_(); once(D(id), 1, id) }
    fn c08_zst() { log::reset(); once(Z, 1, 1) }
    fn c08_pair() { log::reset(); let (x, y) = (nd::u32_(), nd::u32_()); once((D(x), D(y)), 2, x.wrapping_add(y)) }
    fn c08_mixed() { log::reset(); let x = nd::u32_(); once((Z, 1u8, D(x)), 2, x.wrapping_add(1)) }
    fn c08_array() { log::reset(); let x = nd::u32_(); once([D(x), D(SAME)], 2, x.wrapping_add(SAME)) }
    fn c08_zst_array() { log::reset(); once([Z, Z, Z], 3, 3) }
    fn c08_enum_from_tagged() {
        log::reset();
        let (e, n, sum) = held();
        let b = e.into_tagged_box();
        check!(log::drops() == 0, "boxing an enum value does not drop");
        let o = HeldE::from_tagged_box(b);
        check!(log::drops() == 0, "from_tagged_box does not drop");
        drop(o);
        check!(log::drops() == n && log::drop_sum() == sum, "each part is dropped exactly once");
        reach!("end");
    }
    fn c08_enum_container() {
        log::reset();
        let (e, n, sum) = held();
        let c = Held::from(e);
        check!(log::drops() == 0, "building a container does not drop");
        let o = c.into_inner();
        check!(log::drops() == 0, "into_inner does not drop");
        drop(o);
        check!(log::drops() == n && log::drop_sum() == sum, "each part is dropped exactly once");
        reach!("end");
    }
    fn c08_enum_borrow() {
        log::reset();
        let (e, n, sum) = held();
        let b = e.into_tagged_box();
        unsafe { HeldE::ref_from_tagged_box(&b, |_| log::call()) };
        check!(log::calls() == 1, "callback runs once");
        check!(log::drops() == 0, "borrowing does not drop");
        check!(b == b, "a value equals itself");
        check!(log::drops() == 0, "comparing does not drop");
        drop(HeldE::from_tagged_box(b));
        check!(log::drops() == n && log::drop_sum() == sum, "each part is dropped exactly once");
        reach!("end");
    }
    fn c08_enum_clone() {
        log::reset();
        let (e, n, sum) = held();
        let a = Held::from(e);
        let b = a.clone();
        check!(log::drops() == 0, "cloning does not drop");
        check!(log::clones() == n, "cloning clones each part once");
        drop(a.into_inner());
        check!(log::drops() == n, "the original drops its parts only");
        drop(b.into_inner());
        check!(log::drops() == 2 * n && log::drop_sum() == sum.wrapping_add(sum), "the clone drops its parts");
        reach!("end");
    }
    fn c08_payload_from() {
        log::reset();
        let (x, y) = (nd::u32_(), nd::u32_());
        let s = x.wrapping_add(y);
        let (c, n, sum) = match nd::u8_() {
            0 if MAXD >= 2 => (Conv::from(Z), 1, 1),
            1 if MAXD >= 3 => (Conv::from((D(x), D(y))), 2, s),
            2 if MAXD >= 4 => (Conv::from((Z, Z)), 2, 2),
            3 => (Conv::from((D(x), 4u8, D(y))), 2, s),
            _ => (Conv::from(D(x)), 1, x),
        };
        check!(log::drops() == 0, "conversion does not drop");
        let v = c.into_inner();
        check!(log::drops() == 0, "into_inner does not drop");
        drop(v);
        check!(log::drops() == n && log::drop_sum() == sum, "the payload is dropped once");
        reach!("end");
    }
    fn c08_enum_compare() {
        log::reset();
        let ((v, n, s), (w, m, t)) = (held(), held());
        let (a, b) = (v.into_tagged_box(), w.into_tagged_box());
        let _ = (a == b, a != b);
        check!(log::drops() == 0, "comparing does not drop");
        let (c, d) = (Held::from(HeldE::from_tagged_box(a)), Held::from(HeldE::from_tagged_box(b)));
        let _ = (c == d, c != d);
        check!(log::drops() == 0, "comparing containers does not drop");
        drop((c.into_inner(), d.into_inner()));
        check!(log::drops() == n + m && log::drop_sum() == s.wrapping_add(t), "each part is dropped exactly once");
        reach!("end");
    }
    fn c08_enum_payload_routes() {
        // payloads taken out of an enum's box by hand
        log::reset();
        let (x, how) = (nd::u32_(), nd::u8_());
        let b = HeldE::One(Drp::part(x)).into_tagged_box();
        let tag = b.discriminant();
        unsafe {
            match how {
                0 => drop(TaggedBox::into_inner::<Drp>(b)),
                1 => drop(TaggedBox::into_box::<Drp>(b)),
                _ => {
                    let r = TaggedBox::into_raw::<Drp>(b);
                    let b: TaggedBox<HeldE> = TaggedBox::from_raw(r, tag);
                    check!(log::drops() == 0, "the raw round trip does not drop");
                    drop(HeldE::from_tagged_box(b));
                }
            }
        }
        check!(log::drops() == 1 && log::drop_sum() == x, "dropped exactly once");
        reach!("end");
    }
    fn c08_overwrite() {
        // assignment through as_mut_ref drops the old value once
        log::reset();
        let (x, y) = (nd::u32_(), nd::u32_());
        let mut b = create::<E, _>(D(x), disc());
        unsafe {
            *b.as_mut_ref::<D>() = D(y);
            check!(log::drops() == 1 && log::drop_sum() == x, "the replaced value is dropped");
            drop(TaggedBox::into_inner::<D>(b));
        }
        check!(log::drops() == 2 && log::drop_sum() == x.wrapping_add(y), "the new value is dropped by its owner");
        reach!("end");
    }
    fn c08_enum_format() {
        // formatting, under any flags
        log::reset();
        let (e, n, sum) = held();
        let b = e.into_tagged_box();
        let mut o = core::fmt::FormattingOptions::new();
        o.alternate(nd::bool_()).sign_aware_zero_pad(nd::bool_());
        if nd::bool_() { o.width(Some(nd::u16_())).sign(Some(core::fmt::Sign::Plus)); } else { o.precision(Some(nd::u16_())).fill('*').align(Some(core::fmt::Alignment::Right)); }
        let debug = nd::bool_();
        {
            let mut s = Null;
            let mut f = core::fmt::Formatter::new(&mut s, o);
            let r = if debug { core::fmt::Debug::fmt(&b, &mut f) } else { core::fmt::Display::fmt(&b, &mut f) };
            check!(r.is_ok() && log::calls() == 1, "the value is formatted once");
        }
        check!(log::drops() == 0 && log::clones() == 0, "formatting does not drop");
        drop(HeldE::from_tagged_box(b));
        check!(log::drops() == n && log::drop_sum() == sum, "each part is dropped exactly once");
        reach!("end");
    }
    fn c08_enum_clone_from() {
        // what the target held is dropped at most once, and nothing else is
        log::reset();
        let ((v, n, s), (w, m, t)) = (held(), held());
        let (a, mut b) = (v.into_tagged_box(), w.into_tagged_box());
        b.clone_from(&a);
        let was = log::drops();
        check!(was <= m && log::clones() == n, "only the replaced value may be dropped");
        drop(HeldE::from_tagged_box(a));
        drop(HeldE::from_tagged_box(b));
        check!(log::drops() == was + 2 * n, "each part of both is dropped exactly once");
        if was == m { check!(log::drop_sum() == s.wrapping_add(s).wrapping_add(t), "the replaced value is what was dropped"); }
        if was == 0 { check!(log::drop_sum() == s.wrapping_add(s), "nothing else was dropped"); }
        reach!("end");
    }
    fn c08_enum_mixed_routes() {
        // several readers one after another before the owner takes it
        log::reset();
        let (e, n, sum) = held();
        let b = e.into_tagged_box();
        let d = b.discriminant();
        let b: TaggedBox<HeldE> = unsafe { TaggedBox::from_raw(TaggedBox::into_raw::<u8>(b), d) };
        unsafe { HeldE::ref_from_tagged_box(&b, |_| HeldE::ref_from_tagged_box(&b, |_| log::call())) };
        check!(log::calls() == 1 && log::drops() == 0, "viewing does not drop");
        let e = HeldE::from_tagged_box(b);
        let c = Held::from(e);
        let e = c.into_inner();
        check!(log::drops() == 0 && log::clones() == 0, "moving between boxes does not drop");
        drop(e);
        check!(log::drops() == n && log::drop_sum() == sum, "each part is dropped exactly once");
        reach!("end");
    }
    fn c08_enum_reuse() {
        // the block of one box, given back, becomes another's
        log::reset();
        nd::alloc_mode(4);
        let k = Desc::nd();
        let l = Desc::of(k.i);
        let a = HeldE::make(&k).into_tagged_box();
        unsafe { HeldE::ref_from_tagged_box(&a, |_| log::call()) };
        HeldE::free(a, &k);
        check!(log::drops() == k.parts() && log::drop_sum() == k.sum(), "dropped exactly once by its owner");
        let b = HeldE::make(&l).into_tagged_box();
        unsafe { HeldE::ref_from_tagged_box(&b, |r| { log::call(); check!(r.desc() == l, "the new value is there") }) };
        check!(log::calls() == 2 && log::drops() == k.parts(), "viewing does not drop");
        let v = HeldE::from_tagged_box(b);
        check!(log::drops() == k.parts() && v.desc() == l, "extraction does not drop");
        drop(v);
        check!(log::drops() == 2 * k.parts() && log::drop_sum() == k.sum().wrapping_add(l.sum()), "the new value is dropped exactly once");
        reach!("end");
    }
}
