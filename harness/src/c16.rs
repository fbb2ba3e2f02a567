//! C16: address formatting shows the bare address
use crate::nd;
use crate::spec::*;
use core::fmt::{self, Alignment, Formatter, FormattingOptions, Sign, Write};

tagged_box! {
    struct Any, enum AnyE { A(u32), B(u8, u16), }
}
/// keeps a prefix of the output and its length
const CAP: usize = 128;
struct Buf { b: [u8; CAP], n: usize }
impl Write for Buf {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let s = s.as_bytes();
        let mut i = 0;
        while i < s.len() {
            if self.n < CAP { self.b[self.n] = s[i]; }
            self.n += 1;
            i += 1;
        }
        Ok(())
    }
}
fn buf() -> Buf { Buf { b: [0; CAP], n: 0 } }
fn same(x: &Buf, y: &Buf) -> bool { x.n == y.n && x.b == y.b }
/// `width`: None for unpadded output, or the range of the padded width
fn options(width: Option<(u16, u16)>) -> FormattingOptions {
    let mut o = FormattingOptions::new();
    if nd::bool_() { o.sign(Some(Sign::Plus)); }
    if nd::bool_() { o.alternate(true); }
    if let Some((lo, hi)) = width {
        let w = nd::u16_();
        nd::assume(lo <= w && w <= hi);
        o.width(Some(w));
        match nd::u8_() {
            0 => { o.sign_aware_zero_pad(true); }
            1 => { o.align(Some(Alignment::Left)).fill('*'); }
            2 => { o.align(Some(Alignment::Center)).fill('\u{e9}'); }
            3 => { o.align(Some(Alignment::Right)); }
            4 => { o.precision(Some(3)).sign(Some(Sign::Minus)); }
            _ => {}
        }
    }
    o
}
macro_rules! prints {
    ($tr:ident, $t:expr, $a:expr, $o:expr) => {{
        let (mut x, mut y) = (buf(), buf());
        let o = $o;
        let r1 = fmt::$tr::fmt($t, &mut Formatter::new(&mut x, o));
        let r2 = fmt::$tr::fmt($a, &mut Formatter::new(&mut y, o));
        check!(r1.is_ok() && r2.is_ok(), "formatting succeeds");
        check!(same(&x, &y), "prints exactly what the tag-free address prints");
        reach!("end");
    }};
}
#[derive(Clone, Copy)]
enum Which { Any, Short, Long }
fn address(w: Which) -> u64 {
    let p = addr();
    match w {
        Which::Any => {}
        Which::Short => nd::assume(p < 1 << 7),
        Which::Long => nd::assume(p > MAXP / 2),
    }
    p
}
fn ptr(w: Which) -> (TaggedPointer, u64) { let p = address(w); (TaggedPointer::new(p, disc()), p) }
fn bx(w: Which) -> (TaggedBox<AnyE>, u64) { let p = address(w); (unsafe { TaggedBox::from_raw(p as *mut u8, disc()) }, p) }
const BITS: u16 = W as u16;
const HEX: u16 = (BITS + 3) / 4;
const OCT: u16 = (BITS + 2) / 3;

/// refuses every write after the first `left`
struct Tight { b: Buf, left: u8 }
impl Write for Tight {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.left == 0 { return Err(fmt::Error); }
        self.left -= 1;
        self.b.write_str(s)
    }
}
fn tight(lo: u16) -> FormattingOptions {
    let mut o = FormattingOptions::new();
    o.alternate(nd::bool_());
    let w = nd::u16_();
    nd::assume(lo <= w && w <= lo + 3);
    o.width(Some(w));
    if nd::bool_() { o.sign_aware_zero_pad(true); } else { o.align(Some(Alignment::Center)).fill('*'); }
    o
}
macro_rules! refused {
    ($tr:ident, $t:expr, $a:expr, $o:expr) => {{
        if W != 60 { reach!("opt one width is enough for how errors travel"); return; }
        let left = nd::u8_();
        let (mut x, mut y) = (Tight { b: buf(), left }, Tight { b: buf(), left });
        let o = $o;
        let r1 = fmt::$tr::fmt($t, &mut Formatter::new(&mut x, o));
        let r2 = fmt::$tr::fmt($a, &mut Formatter::new(&mut y, o));
        check!(r1.is_err() == r2.is_err(), "a refused write is reported as for the tag-free address");
        check!(same(&x.b, &y.b), "up to there prints exactly what the tag-free address prints");
        reach!("end");
    }};
}

harnesses! {
    // a sink that stops accepting
    fn c16_ptr_lower_hex_refused() { let (t, p) = ptr(Which::Short); refused!(LowerHex, &t, &p, tight(3)) }
    fn c16_ptr_upper_hex_refused() { let (t, p) = ptr(Which::Short); refused!(UpperHex, &t, &p, tight(3)) }
    fn c16_ptr_octal_refused() { let (t, p) = ptr(Which::Short); refused!(Octal, &t, &p, tight(3)) }
    fn c16_ptr_binary_refused() { let (t, p) = ptr(Which::Short); refused!(Binary, &t, &p, tight(8)) }
    fn c16_ptr_pointer_refused() { let (t, p) = ptr(Which::Short); refused!(Pointer, &t, &(p as *const ()), tight(3)) }
    fn c16_box_lower_hex_refused() { let (t, p) = bx(Which::Short); refused!(LowerHex, &t, &p, tight(3)) }
    fn c16_box_upper_hex_refused() { let (t, p) = bx(Which::Short); refused!(UpperHex, &t, &p, tight(3)) }
    fn c16_box_octal_refused() { let (t, p) = bx(Which::Short); refused!(Octal, &t, &p, tight(3)) }
    fn c16_box_binary_refused() { let (t, p) = bx(Which::Short); refused!(Binary, &t, &p, tight(8)) }
    fn c16_ptr_debug_refused() { refused_debug() }
    // every address, unpadded
    fn c16_ptr_lower_hex() { let (t, p) = ptr(Which::Any); prints!(LowerHex, &t, &p, options(None)) }
    fn c16_ptr_upper_hex() { let (t, p) = ptr(Which::Any); prints!(UpperHex, &t, &p, options(None)) }
    fn c16_ptr_octal() { let (t, p) = ptr(Which::Any); prints!(Octal, &t, &p, options(None)) }
    fn c16_ptr_binary() { let (t, p) = ptr(Which::Any); prints!(Binary, &t, &p, options(None)) }
    fn c16_ptr_pointer() { let (t, p) = ptr(Which::Any); prints!(Pointer, &t, &(p as *const ()), options(None)) }
    fn c16_box_lower_hex() { let (t, p) = bx(Which::Any); prints!(LowerHex, &t, &p, options(None)) }
    fn c16_box_upper_hex() { let (t, p) = bx(Which::Any); prints!(UpperHex, &t, &p, options(None)) }
    fn c16_box_octal() { let (t, p) = bx(Which::Any); prints!(Octal, &t, &p, options(None)) }
    fn c16_box_binary() { let (t, p) = bx(Which::Any); prints!(Binary, &t, &p, options(None)) }
    // short addresses, padded
    fn c16_ptr_lower_hex_pad() { let (t, p) = ptr(Which::Short); prints!(LowerHex, &t, &p, options(Some((0, 8)))) }
    fn c16_ptr_upper_hex_pad() { let (t, p) = ptr(Which::Short); prints!(UpperHex, &t, &p, options(Some((0, 8)))) }
    fn c16_ptr_octal_pad() { let (t, p) = ptr(Which::Short); prints!(Octal, &t, &p, options(Some((0, 8)))) }
    fn c16_ptr_binary_pad() { let (t, p) = ptr(Which::Short); prints!(Binary, &t, &p, options(Some((5, 12)))) }
    fn c16_ptr_pointer_pad() { let (t, p) = ptr(Which::Short); prints!(Pointer, &t, &(p as *const ()), options(Some((0, 8)))) }
    fn c16_box_lower_hex_pad() { let (t, p) = bx(Which::Short); prints!(LowerHex, &t, &p, options(Some((0, 8)))) }
    fn c16_box_upper_hex_pad() { let (t, p) = bx(Which::Short); prints!(UpperHex, &t, &p, options(Some((0, 8)))) }
    fn c16_box_octal_pad() { let (t, p) = bx(Which::Short); prints!(Octal, &t, &p, options(Some((0, 8)))) }
    fn c16_box_binary_pad() { let (t, p) = bx(Which::Short); prints!(Binary, &t, &p, options(Some((5, 12)))) }
    // long addresses, padded
    fn c16_ptr_lower_hex_long() { let (t, p) = ptr(Which::Long); prints!(LowerHex, &t, &p, options(Some((HEX - 1, HEX + 6)))) }
    fn c16_ptr_upper_hex_long() { let (t, p) = ptr(Which::Long); prints!(UpperHex, &t, &p, options(Some((HEX - 1, HEX + 6)))) }
    fn c16_ptr_octal_long() { let (t, p) = ptr(Which::Long); prints!(Octal, &t, &p, options(Some((OCT - 1, OCT + 6)))) }
    fn c16_ptr_binary_long() { let (t, p) = ptr(Which::Long); prints!(Binary, &t, &p, options(Some((BITS - 1, BITS + 6)))) }
    fn c16_ptr_pointer_long() { let (t, p) = ptr(Which::Long); prints!(Pointer, &t, &(p as *const ()), options(Some((HEX - 1, HEX + 6)))) }
    fn c16_box_lower_hex_long() { let (t, p) = bx(Which::Long); prints!(LowerHex, &t, &p, options(Some((HEX - 1, HEX + 6)))) }
    fn c16_box_upper_hex_long() { let (t, p) = bx(Which::Long); prints!(UpperHex, &t, &p, options(Some((HEX - 1, HEX + 6)))) }
    fn c16_box_octal_long() { let (t, p) = bx(Which::Long); prints!(Octal, &t, &p, options(Some((OCT - 1, OCT + 6)))) }
    fn c16_box_binary_long() { let (t, p) = bx(Which::Long); prints!(Binary, &t, &p, options(Some((BITS - 1, BITS + 6)))) }
    fn c16_ptr_debug() { debug(Which::Any, false) }
    fn c16_ptr_debug_alternate() { debug(Which::Short, true) }
}
/// Debug reports the raw word, the tag-free pointer and the discriminant
fn debug(w: Which, alternate: bool) {
    let (t, p) = ptr(w);
    if !alternate { nd::assume(p > MAXP / 2 || p < 16); }
    let mut o = FormattingOptions::new();
    o.alternate(alternate);
    let d = t.discriminant();
    nd::assume(d == 0 || d as u64 == MAXD || d as u64 == MAXD / 2);
    let (mut x, mut y) = (buf(), buf());
    let r1 = fmt::Debug::fmt(&t, &mut Formatter::new(&mut x, o));
    let r2 = Formatter::new(&mut y, o).debug_struct("TaggedPointer")
        .field("raw", &(t.as_raw_u64() as *const ()))
        .field("ptr", &(p as *const ()))
        .field("discriminant", &d)
        .finish();
    check!(r1.is_ok() && r2.is_ok(), "formatting succeeds");
    check!(same(&x, &y), "Debug shows raw word, pointer and discriminant");
    reach!("end");
}
/// Debug into a sink that stops accepting
fn refused_debug() {
    let (t, p) = ptr(Which::Short);
    nd::assume(p < 16 || p > 120);
    let d = t.discriminant();
    nd::assume(d as u64 == MAXD);
    let left = nd::u8_();
    let (mut x, mut y) = (Tight { b: buf(), left }, Tight { b: buf(), left });
    let r1 = fmt::Debug::fmt(&t, &mut Formatter::new(&mut x, FormattingOptions::new()));
    let r2 = Formatter::new(&mut y, FormattingOptions::new()).debug_struct("TaggedPointer")
        .field("raw", &(t.as_raw_u64() as *const ()))
        .field("ptr", &(p as *const ()))
        .field("discriminant", &d)
        .finish();
    check!(r1.is_err() == r2.is_err(), "a refused write is reported");
    check!(same(&x.b, &y.b), "up to there Debug shows raw word, pointer and discriminant");
    reach!("end");
}
