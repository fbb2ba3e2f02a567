//! Payload types the generic harness bodies run over.
use crate::nd;

/// a payload that can be chosen freely, duplicated bit for bit and compared bit for bit
pub trait Val: Sized {
    fn nd() -> Self;
    fn dup(&self) -> Self;
    fn same(&self, o: &Self) -> bool;
}
macro_rules! prim { ($($t:ty, $e:expr);* $(;)?) => { $(
    impl Val for $t {
        fn nd() -> Self { $e }
        fn dup(&self) -> Self { *self }
        fn same(&self, o: &Self) -> bool { *self == *o }
    }
)* } }
prim! {
    u8, nd::u8_(); u16, nd::u16_(); u32, nd::u32_(); u64, nd::u64_(); i32, nd::u32_() as i32; bool, nd::bool_();
    u128, (nd::u64_() as u128) << 64 | nd::u64_() as u128; (), ();
    [u8; 3], [nd::u8_(), nd::u8_(), nd::u8_()];
    [u8; 0], [];
    [u16; 5], [nd::u16_(), nd::u16_(), nd::u16_(), nd::u16_(), nd::u16_()];
}
impl Val for f64 {
    fn nd() -> Self { f64::from_bits(nd::u64_()) }
    fn dup(&self) -> Self { *self }
    fn same(&self, o: &Self) -> bool { self.to_bits() == o.to_bits() }
}
impl Val for char {
    fn nd() -> Self {
        let c = nd::u32_();
        nd::assume(c < 0xD800);
        unsafe { core::char::from_u32_unchecked(c) }
    }
    fn dup(&self) -> Self { *self }
    fn same(&self, o: &Self) -> bool { *self as u32 == *o as u32 }
}
/// reordered by rustc's default layout
pub struct Plain { pub a: u8, pub b: u64, pub c: u16, pub d: bool }
impl Val for Plain {
    fn nd() -> Self { Plain { a: nd::u8_(), b: nd::u64_(), c: nd::u16_(), d: nd::bool_() } }
    fn dup(&self) -> Self { Plain { a: self.a, b: self.b, c: self.c, d: self.d } }
    fn same(&self, o: &Self) -> bool { self.a == o.a && self.b == o.b && self.c == o.c && self.d == o.d }
}
#[repr(C, packed)]
pub struct Packed { pub a: u8, pub b: u32, pub c: u16 }
impl Val for Packed {
    fn nd() -> Self { Packed { a: nd::u8_(), b: nd::u32_(), c: nd::u16_() } }
    fn dup(&self) -> Self { Packed { a: self.a, b: self.b, c: self.c } }
    fn same(&self, o: &Self) -> bool {
        let (a, b, c) = (self.a, self.b, self.c);
        let (x, y, z) = (o.a, o.b, o.c);
        a == x && b == y && c == z
    }
}
#[repr(align(64))]
pub struct Al64(pub u8, pub u32);
impl Val for Al64 {
    fn nd() -> Self { Al64(nd::u8_(), nd::u32_()) }
    fn dup(&self) -> Self { Al64(self.0, self.1) }
    fn same(&self, o: &Self) -> bool { self.0 == o.0 && self.1 == o.1 }
}
#[repr(align(32))]
pub struct Z32;
impl Val for Z32 {
    fn nd() -> Self { Z32 }
    fn dup(&self) -> Self { Z32 }
    fn same(&self, _: &Self) -> bool { true }
}
/// more than a page; the interesting bytes are the first, the ones around the page boundary and the last
pub const BIG: usize = 4099;
pub struct Big(pub [u8; BIG]);
impl Val for Big {
    fn nd() -> Self {
        let mut a = [7u8; BIG];
        a[0] = nd::u8_();
        a[4095] = nd::u8_();
        a[4096] = nd::u8_();
        a[BIG - 1] = nd::u8_();
        Big(a)
    }
    fn dup(&self) -> Self { Big(self.0) }
    fn same(&self, o: &Self) -> bool {
        self.0[0] == o.0[0] && self.0[1] == o.0[1] && self.0[4095] == o.0[4095] && self.0[4096] == o.0[4096]
            && self.0[BIG - 1] == o.0[BIG - 1]
    }
}
pub struct Words(pub [u64; 9]);
impl Val for Words {
    fn nd() -> Self {
        Words([nd::u64_(), nd::u64_(), nd::u64_(), nd::u64_(), nd::u64_(), nd::u64_(), nd::u64_(), nd::u64_(), nd::u64_()])
    }
    fn dup(&self) -> Self { Words(self.0) }
    fn same(&self, o: &Self) -> bool {
        let (a, b) = (&self.0, &o.0);
        a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3] && a[4] == b[4] && a[5] == b[5] && a[6] == b[6]
            && a[7] == b[7] && a[8] == b[8]
    }
}
/// a niche-carrying sum type
#[derive(Clone, Copy, PartialEq)]
pub enum Opt { None, Small(u8), Large(u64) }
impl Val for Opt {
    fn nd() -> Self {
        match nd::u8_() { 0 => Opt::None, 1 => Opt::Small(nd::u8_()), _ => Opt::Large(nd::u64_()) }
    }
    fn dup(&self) -> Self { *self }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Opt::None, Opt::None) => true,
            (Opt::Small(a), Opt::Small(b)) => *a == *b,
            (Opt::Large(a), Opt::Large(b)) => *a == *b,
            _ => false,
        }
    }
}

/// What happened to the instrumented payloads below
pub mod log {
    pub static mut DROPS: u32 = 0;
    pub static mut DROP_SUM: u32 = 0;
    pub static mut CLONES: u32 = 0;
    pub static mut CALLS: u32 = 0;
    pub fn reset() { unsafe { DROPS = 0; DROP_SUM = 0; CLONES = 0; CALLS = 0; } }
    pub fn drops() -> u32 { unsafe { DROPS } }
    pub fn drop_sum() -> u32 { unsafe { DROP_SUM } }
    pub fn clones() -> u32 { unsafe { CLONES } }
    pub fn calls() -> u32 { unsafe { CALLS } }
    pub fn call() { unsafe { CALLS += 1 } }
    pub fn dropped(id: u32) {
        unsafe {
            DROPS += 1;
            DROP_SUM = DROP_SUM.wrapping_add(id);
        }
    }
    pub fn cloned() { unsafe { CLONES += 1 } }
}
/// sized payload with a destructor
pub struct D(pub u32);
impl Drop for D { fn drop(&mut self) { log::dropped(self.0) } }
impl Clone for D { fn clone(&self) -> D { log::cloned(); D(self.0) } }
impl PartialEq for D { fn eq(&self, o: &D) -> bool { self.0 == o.0 } }
/// zero-sized payload with a destructor
pub struct Z;
impl Drop for Z { fn drop(&mut self) { log::dropped(1) } }
impl Clone for Z { fn clone(&self) -> Z { log::cloned(); Z } }
impl PartialEq for Z { fn eq(&self, _: &Z) -> bool { true } }
impl Eq for Z {}
impl PartialOrd for Z { fn partial_cmp(&self, _: &Z) -> Option<core::cmp::Ordering> { Some(core::cmp::Ordering::Equal) } }
impl Ord for Z { fn cmp(&self, _: &Z) -> core::cmp::Ordering { core::cmp::Ordering::Equal } }
