//! C15: Debug/Display of a box are those of the value, under the same options
use crate::nd;
use crate::shapes::{Desc, N0};
use crate::spec::*;
use crate::types::log;
use core::fmt::{self, Alignment, Formatter, FormattingOptions, Sign, Write};
use tagged_box::{TaggableContainer, TaggableInner};

shapes! { #[derive(Clone)] Shown, ShownE, crate::shapes::Num, N0 }

/// everything a formatting impl can observe of its formatter
#[derive(Clone, Copy, PartialEq)]
struct Opts { alt: bool, plus: bool, minus: bool, zero: bool, fill: u32, align: u8, width: u32, prec: u32, all: FormattingOptions }
fn observe(f: &Formatter<'_>) -> Opts {
    Opts {
        alt: f.alternate(), plus: f.sign_plus(), minus: f.sign_minus(), zero: f.sign_aware_zero_pad(), fill: f.fill() as u32,
        align: match f.align() { None => 0, Some(Alignment::Left) => 1, Some(Alignment::Right) => 2, Some(Alignment::Center) => 3 },
        width: match f.width() { None => u32::MAX, Some(w) => w as u32 },
        prec: match f.precision() { None => u32::MAX, Some(w) => w as u32 },
        all: f.options(),
    }
}
static mut SEEN: Opts = Opts { alt: false, plus: false, minus: false, zero: false, fill: 0, align: 0, width: 0, prec: 0, all: FormattingOptions::new() };
static mut WHICH: u8 = 0; // 1 Debug, 2 Display
static mut KEY: Desc = Desc { i: 0, x: 0, y: 0, e: 0 };
static mut FAIL: bool = false;
fn show(e: &ShownE, f: &mut Formatter<'_>, which: u8) -> fmt::Result {
    log::call();
    unsafe {
        SEEN = observe(f);
        WHICH = which;
        KEY = e.desc();
        if FAIL { return Err(fmt::Error); }
    }
    f.write_str(["abc", "b", "", "dddd"][(e.desc().i & 3) as usize])
}
impl fmt::Debug for ShownE { fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { show(self, f, 1) } }
impl fmt::Display for ShownE { fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { show(self, f, 2) } }

struct Sink { n: usize, first: u8, calls: u32, fail: bool }
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.calls += 1;
        if self.fail { return Err(fmt::Error); }
        if self.n == 0 && !s.is_empty() { self.first = s.as_bytes()[0]; }
        self.n += s.len();
        Ok(())
    }
}
fn sink(fail: bool) -> Sink { Sink { n: 0, first: 0, calls: 0, fail } }

pub fn options() -> FormattingOptions {
    let mut o = FormattingOptions::new();
    o.sign(match nd::u8_() { 0 => None, 1 => Some(Sign::Plus), _ => Some(Sign::Minus) });
    o.sign_aware_zero_pad(nd::bool_());
    o.alternate(nd::bool_());
    o.fill(match nd::u8_() { 0 => ' ', 1 => '*', _ => '\u{e9}' });
    o.align(match nd::u8_() { 0 => None, 1 => Some(Alignment::Left), 2 => Some(Alignment::Right), _ => Some(Alignment::Center) });
    if nd::bool_() { o.width(Some(nd::u16_())); } else { o.width(None); }
    if nd::bool_() { o.precision(Some(nd::u16_())); } else { o.precision(None); }
    o
}

/// fewer of them, for the remaining shapes
fn few() -> FormattingOptions {
    let mut o = FormattingOptions::new();
    o.alternate(nd::bool_());
    if nd::bool_() { o.sign_aware_zero_pad(true).sign(Some(Sign::Plus)).width(Some(nd::u16_())); } else { o.fill('*').align(Some(Alignment::Center)).precision(Some(nd::u16_())); }
    o
}

/// format the value itself and the box, with the same options, and compare everything observable
fn through(debug: bool, k: Desc, o: FormattingOptions) {
    let v = ShownE::make(&k);
    let (vfail, sfail) = (nd::bool_(), nd::bool_());
    unsafe { FAIL = vfail; }
    let b = v.clone().into_tagged_box();
    let bits = word(&b);
    log::reset();
    let mut s1 = sink(sfail);
    let mut s2 = sink(sfail);
    let (r1, seen1, key1);
    {
        let mut f = Formatter::new(&mut s1, o);
        r1 = if debug { fmt::Debug::fmt(&v, &mut f) } else { fmt::Display::fmt(&v, &mut f) };
        seen1 = unsafe { SEEN };
        key1 = unsafe { KEY };
    }
    check!(log::calls() == 1, "harness: value formatted once");
    let r2;
    {
        let mut f = Formatter::new(&mut s2, o);
        r2 = if debug { fmt::Debug::fmt(&b, &mut f) } else { fmt::Display::fmt(&b, &mut f) };
    }
    check!(log::calls() == 2, "the value's own formatting runs exactly once");
    check!(unsafe { WHICH } == if debug { 1 } else { 2 }, "the matching trait is used");
    check!(unsafe { SEEN } == seen1, "the value sees the formatter options given to the box");
    check!(unsafe { KEY } == key1, "the value formatted is the one in the box");
    check!(r1.is_ok() == r2.is_ok(), "the result is passed on");
    check!(s1.n == s2.n && s1.first == s2.first && s1.calls == s2.calls, "the output is the same");
    check!(word(&b) == bits, "formatting leaves the box unchanged");
    unsafe { FAIL = false; }
    check!(key1 == k && ShownE::from_tagged_box(b).desc() == k, "formatting leaves the value unchanged");
    reach!("end");
}

harnesses! {
    fn c15_debug_rt() { through(true, Desc::of(0), options()) }
    fn c15_debug_one() { through(true, Desc::of(1), options()) }
    fn c15_debug_rest() { if MAXD < 2 { reach!("opt no further variant fits"); return; } let k = Desc::nd(); nd::assume(k.i > 1); through(true, k, few()) }
    fn c15_display_rt() { through(false, Desc::of(0), options()) }
    fn c15_display_one() { through(false, Desc::of(1), options()) }
    fn c15_display_rest() { if MAXD < 2 { reach!("opt no further variant fits"); return; } let k = Desc::nd(); nd::assume(k.i > 1); through(false, k, few()) }
    fn c15_long() {
        // formatted over and over
        let k = Desc::of(1);
        let b = ShownE::make(&k).into_tagged_box();
        let o = few();
        log::reset();
        let (mut s, mut i, mut total) = (sink(false), 0u32, 0usize);
        while i < 1024 {
            {
                let mut f = Formatter::new(&mut s, o);
                let r = if i & 1 == 0 { fmt::Debug::fmt(&b, &mut f) } else { fmt::Display::fmt(&b, &mut f) };
                check!(r.is_ok(), "formatting succeeds");
            }
            total += 1;
            check!(log::calls() == i + 1 && unsafe { WHICH } == (i & 1) as u8 + 1 && unsafe { KEY } == k, "the value is formatted each time");
            i += 1;
        }
        check!(s.n == total && s.calls == 1024, "and written each time");
        reach!("end");
    }
}
