//! Every variant syntax of tagged_box!, over one payload type.
use crate::nd;
use crate::types::*;

/// a payload identified by a number
pub trait Part: Sized {
    fn part(id: u32) -> Self;
    fn id(&self) -> u32;
}
impl Part for u32 { fn part(id: u32) -> u32 { id } fn id(&self) -> u32 { *self } }
impl Part for D { fn part(id: u32) -> D { D(id) } fn id(&self) -> u32 { self.0 } }
impl Part for Box<u32> { fn part(id: u32) -> Box<u32> { Box::new(id) } fn id(&self) -> u32 { **self } }

/// a large payload: `v` last, the rest to go with it
#[derive(Clone, Copy)]
#[repr(C)]
pub struct Wide<T> { w: u32, pad: [u8; 116], pub v: T }
impl<T: Part> Part for Wide<T> {
    fn part(id: u32) -> Self {
        let mut pad = [0xc3u8; 116];
        pad[57] = id as u8;
        pad[115] = (id >> 8) as u8;
        Wide { w: !id, pad, v: T::part(id) }
    }
    fn id(&self) -> u32 {
        let id = self.v.id();
        let p = &self.pad;
        check!(self.w == !id && p[0] == 0xc3 && p[57] == id as u8 && p[101] == 0xc3 && p[115] == (id >> 8) as u8, "a large payload is whole");
        id
    }
}
impl<T: PartialEq> PartialEq for Wide<T> { fn eq(&self, o: &Self) -> bool { self.v == o.v && self.w == o.w && self.pad[57] == o.pad[57] && self.pad[115] == o.pad[115] } }
impl<T: Eq> Eq for Wide<T> {}
impl<T: PartialOrd> PartialOrd for Wide<T> { fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { self.v.partial_cmp(&o.v) } }
impl<T: Ord> Ord for Wide<T> { fn cmp(&self, o: &Self) -> core::cmp::Ordering { self.v.cmp(&o.v) } }
/// the payloads of the shape enums: plain, with a destructor, owning memory; large with the feature `big`
#[cfg(not(feature = "big"))]
mod pick { pub type Num = u32; pub type Drp = super::D; pub type Own = Box<u32>; pub type Sz<T> = T; }
#[cfg(feature = "big")]
mod pick { pub type Num = super::Wide<u32>; pub type Drp = super::Wide<super::D>; pub type Own = super::Wide<Box<u32>>; pub type Sz<T> = super::Wide<T>; }
pub use pick::*;

/// the zero-sized payload of a shape enum
pub trait Zero: Sized { fn zero() -> Self; }
impl Zero for Z { fn zero() -> Z { Z } }
/// zero-sized, over-aligned, without a destructor
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
#[repr(align(16))]
pub struct N0;
impl Zero for N0 { fn zero() -> N0 { N0 } }
impl Zero for Z32 { fn zero() -> Z32 { Z32 } }

/// what a value of a shape enum is: its variant, its numbered parts in order, its plain data
#[derive(Clone, Copy, PartialEq)]
pub struct Desc { pub i: u8, pub x: u32, pub y: u32, pub e: u64 }
pub const SHAPES: u8 = 12;
impl Desc {
    /// any value that fits the width
    pub fn nd() -> Desc {
        let i = nd::u8_();
        nd::assume(i < SHAPES && i as u64 <= crate::spec::MAXD);
        Desc::of(i)
    }
    /// any value of the `i`th variant
    pub fn of(i: u8) -> Desc {
        // fork here, so that the variant is concrete below
        let i = match i { 0 => 0, 1 => 1, 2 => 2, 3 => 3, 4 => 4, 5 => 5, 6 => 6, 7 => 7, 8 => 8, 9 => 9, 10 => 10, _ => 11 };
        let n = Desc { i, x: 0, y: 0, e: 0 }.numbered();
        let x = if n > 0 { nd::u32_() } else { 0 };
        let y = if n > 1 { nd::u32_() } else { 0 };
        let e = match i { 0 | 3 => nd::u8_() as u64, 2 => nd::u16_() as u64, 8 => nd::u64_(), _ => 0 };
        Desc { i, x, y, e }
    }
    /// numbered parts
    pub fn numbered(&self) -> u32 { match self.i { 0 | 1 => 1, 2 | 3 => 2, 8 => 1, 9 => 2, 10 => 2, _ => 0 } }
    /// parts with a destructor, when the numbered and the zero-sized payloads have one
    pub fn parts(&self) -> u32 { self.numbered() + if self.i == 6 { 1 } else { 0 } }
    /// sum of what those report
    pub fn sum(&self) -> u32 { if self.i == 6 { 1 } else { self.x.wrapping_add(self.y) } }
    pub fn data_free(&self) -> bool { match self.i { 4 | 5 | 6 | 7 | 11 => true, _ => false } }
}

/// `shapes! { #[derive(..)] Container, Enum, Payload, ZeroSizedPayload }`
#[macro_export]
macro_rules! shapes {
    ($(#[$m:meta])* $s:ident, $e:ident, $p:ty, $z:ty) => {
        tagged_box::tagged_box! {
            $(#[$m])*
            pub struct $s, pub enum $e {
                Rt { a: u8, b: $p, },
                One($p),
                Rec { a: $p, b: u16, c: $p },
                Many($p, u8, $p),
                Unit,
                Empty(),
                Zst($z),
                RecEmpty {},
                Mid { a: u64, b: $p },
                RtTwo { a: $p, b: $p, },
                Two($p, $p),
                Last,
            }
        }
        #[allow(dead_code)]
        impl $e {
            fn make(d: &$crate::shapes::Desc) -> $e {
                use $crate::shapes::{Part, Zero};
                fn p(x: u32) -> $p { <$p as Part>::part(x) }
                match d.i {
                    0 => $e::Rt { a: d.e as u8, b: p(d.x) },
                    1 => $e::One(p(d.x)),
                    2 => $e::Rec { a: p(d.x), b: d.e as u16, c: p(d.y) },
                    3 => $e::Many(p(d.x), d.e as u8, p(d.y)),
                    4 => $e::Unit,
                    5 => $e::Empty(),
                    6 => $e::Zst(<$z as Zero>::zero()),
                    7 => $e::RecEmpty {},
                    8 => $e::Mid { a: d.e, b: p(d.x) },
                    9 => $e::RtTwo { a: p(d.x), b: p(d.y) },
                    10 => $e::Two(p(d.x), p(d.y)),
                    _ => $e::Last,
                }
            }
            fn desc(&self) -> $crate::shapes::Desc {
                use $crate::shapes::Part;
                fn d(i: u8, x: u32, y: u32, e: u64) -> $crate::shapes::Desc { $crate::shapes::Desc { i, x, y, e } }
                match self {
                    $e::Rt { a, b } => d(0, b.id(), 0, *a as u64),
                    $e::One(x) => d(1, x.id(), 0, 0),
                    $e::Rec { a, b, c } => d(2, a.id(), c.id(), *b as u64),
                    $e::Many(x, b, y) => d(3, x.id(), y.id(), *b as u64),
                    $e::Unit => d(4, 0, 0, 0),
                    $e::Empty() => d(5, 0, 0, 0),
                    $e::Zst(_) => d(6, 0, 0, 0),
                    $e::RecEmpty {} => d(7, 0, 0, 0),
                    $e::Mid { a, b } => d(8, b.id(), 0, *a),
                    $e::RtTwo { a, b } => d(9, a.id(), b.id(), 0),
                    $e::Two(x, y) => d(10, x.id(), y.id(), 0),
                    $e::Last => d(11, 0, 0, 0),
                }
            }
            /// overwrite the first numbered part in place
            fn poke(b: &mut tagged_box::TaggedBox<$e>, d: &mut $crate::shapes::Desc, x: u32) {
                use $crate::shapes::Part;
                #[repr(C)] struct Rt { a: u8, b: $p }
                #[repr(C)] struct Rec { a: $p, b: u16, c: $p }
                #[repr(C)] struct Many($p, u8, $p);
                #[repr(C)] struct Mid { a: u64, b: $p }
                #[repr(C)] struct Two($p, $p);
                let v = <$p as Part>::part(x);
                unsafe {
                    match d.i {
                        0 => b.as_mut_ref::<Rt>().b = v,
                        1 => *b.as_mut_ref::<$p>() = v,
                        2 => b.as_mut_ref::<Rec>().a = v,
                        3 => b.as_mut_ref::<Many>().0 = v,
                        8 => b.as_mut_ref::<Mid>().b = v,
                        9 | 10 => b.as_mut_ref::<Two>().0 = v,
                        _ => { core::mem::forget(v); return }
                    }
                }
                d.x = x;
            }
            /// take the box apart and give its block back
            fn free(b: tagged_box::TaggedBox<$e>, d: &$crate::shapes::Desc) {
                #[repr(C)] struct Rt { a: u8, b: $p }
                #[repr(C)] struct Rec { a: $p, b: u16, c: $p }
                #[repr(C)] struct Many($p, u8, $p);
                #[repr(C)] struct Mid { a: u64, b: $p }
                #[repr(C)] struct Two($p, $p);
                use tagged_box::{TaggableInner, TaggedBox};
                unsafe {
                    match d.i {
                        0 => drop(TaggedBox::into_box::<Rt>(b)),
                        1 => drop(TaggedBox::into_box::<$p>(b)),
                        2 => drop(TaggedBox::into_box::<Rec>(b)),
                        3 => drop(TaggedBox::into_box::<Many>(b)),
                        8 => drop(TaggedBox::into_box::<Mid>(b)),
                        9 | 10 => drop(TaggedBox::into_box::<Two>(b)),
                        _ => drop(<$e as TaggableInner>::from_tagged_box(b)),
                    }
                }
            }
        }
    };
}

/// A value of size at least `N` with alignment that of `A`; bytes around the powers of two, in the middle and at the
/// end are free, the rest is fixed.
#[repr(C)]
pub struct Grid<A, const N: usize> { a: [A; 0], b: [u8; N] }
impl<A, const N: usize> Grid<A, N> {
    fn spots() -> [usize; 8] {
        let l = if N == 0 { 0 } else { N - 1 };
        let s = |x: usize| if x < N { x } else { 0 };
        [0, s(7), s(8), s(15), N / 2, s(l.wrapping_sub(8)), s(l.wrapping_sub(1)), l]
    }
}
impl<A, const N: usize> Val for Grid<A, N> {
    fn nd() -> Self {
        let mut b = [0x5au8; N];
        if N > 0 { for i in Self::spots() { b[i] = nd::u8_(); } }
        Grid { a: [], b }
    }
    fn dup(&self) -> Self { Grid { a: [], b: self.b } }
    fn same(&self, o: &Self) -> bool {
        if N == 0 { return true; }
        let mut ok = self.b[1 % N] == o.b[1 % N] && self.b[N / 3] == o.b[N / 3];
        for i in Self::spots() { ok &= self.b[i] == o.b[i]; }
        ok
    }
}
macro_rules! aligned { ($($n:ident $k:literal),*) => { $( #[repr(align($k))] pub struct $n; )* } }
aligned! { A2 2, A4 4, A8 8, A16 16, A32 32, A128 128, A512 512, A1024 1024, A4096 4096, A8192 8192 }

/// Calls the generic function `$f` for one of many layouts, the choice being free. Defines harnesses' bodies.
#[macro_export]
macro_rules! grid_small {
    ($f:ident) => {{
        use $crate::shapes::{Grid, A2, A4, A8, A16, A32, A128};
        match $crate::nd::u8_() {
            0 => $f::<[u8; 0]>(), 1 => $f::<Grid<u8, 1>>(), 2 => $f::<Grid<u8, 2>>(), 3 => $f::<Grid<u8, 3>>(), 4 => $f::<Grid<u8, 4>>(),
            5 => $f::<Grid<u8, 5>>(), 6 => $f::<Grid<u8, 6>>(), 7 => $f::<Grid<u8, 7>>(), 8 => $f::<Grid<u8, 8>>(), 9 => $f::<Grid<u8, 9>>(),
            10 => $f::<Grid<u8, 10>>(), 11 => $f::<Grid<u8, 11>>(), 12 => $f::<Grid<u8, 12>>(), 13 => $f::<Grid<u8, 13>>(), 14 => $f::<Grid<u8, 14>>(),
            15 => $f::<Grid<u8, 15>>(), 16 => $f::<Grid<u8, 16>>(), 17 => $f::<Grid<u8, 17>>(), 18 => $f::<Grid<u8, 18>>(), 19 => $f::<Grid<u8, 23>>(),
            20 => $f::<Grid<u8, 24>>(), 21 => $f::<Grid<u8, 25>>(), 22 => $f::<Grid<u8, 31>>(), 23 => $f::<Grid<u8, 32>>(), 24 => $f::<Grid<u8, 33>>(),
            25 => $f::<Grid<u8, 40>>(), 26 => $f::<Grid<u8, 47>>(), 27 => $f::<Grid<u8, 48>>(),
            30 => $f::<Grid<A2, 0>>(), 31 => $f::<Grid<A2, 2>>(), 32 => $f::<Grid<A2, 6>>(), 33 => $f::<Grid<A4, 0>>(), 34 => $f::<Grid<A4, 4>>(),
            35 => $f::<Grid<A4, 12>>(), 36 => $f::<Grid<A4, 20>>(), 37 => $f::<Grid<A8, 0>>(), 38 => $f::<Grid<A8, 8>>(), 39 => $f::<Grid<A8, 16>>(),
            40 => $f::<Grid<A8, 24>>(), 41 => $f::<Grid<A8, 32>>(), 42 => $f::<Grid<A8, 40>>(), 43 => $f::<Grid<A16, 0>>(), 44 => $f::<Grid<A16, 16>>(),
            45 => $f::<Grid<A16, 48>>(), 46 => $f::<Grid<A32, 0>>(), 47 => $f::<Grid<A32, 32>>(), 48 => $f::<Grid<A32, 96>>(), 49 => $f::<Grid<A128, 0>>(),
            _ => $f::<Grid<A128, 128>>(),
        }
    }};
}
#[macro_export]
macro_rules! grid_large {
    ($f:ident) => {{
        use $crate::shapes::{Grid, A8, A16, A512, A1024, A4096, A8192};
        match $crate::nd::u8_() {
            0 => $f::<Grid<u8, 63>>(), 1 => $f::<Grid<u8, 64>>(), 2 => $f::<Grid<u8, 65>>(), 3 => $f::<Grid<A8, 72>>(), 4 => $f::<Grid<A8, 80>>(),
            5 => $f::<Grid<u8, 127>>(), 6 => $f::<Grid<u8, 128>>(), 7 => $f::<Grid<u8, 129>>(), 8 => $f::<Grid<A16, 144>>(), 9 => $f::<Grid<A8, 200>>(),
            10 => $f::<Grid<u8, 255>>(), 11 => $f::<Grid<u8, 256>>(), 12 => $f::<Grid<u8, 257>>(), 13 => $f::<Grid<u8, 511>>(), 14 => $f::<Grid<u8, 512>>(),
            15 => $f::<Grid<u8, 513>>(), 16 => $f::<Grid<u8, 1000>>(), 17 => $f::<Grid<u8, 1024>>(), 18 => $f::<Grid<u8, 1025>>(), 19 => $f::<Grid<A8, 2048>>(),
            20 => $f::<Grid<u8, 4095>>(), 21 => $f::<Grid<u8, 4096>>(), 22 => $f::<Grid<u8, 4097>>(), 23 => $f::<Grid<A512, 0>>(), 24 => $f::<Grid<A512, 1>>(),
            25 => $f::<Grid<A1024, 0>>(), 26 => $f::<Grid<A1024, 1024>>(), 27 => $f::<Grid<A4096, 0>>(), 28 => $f::<Grid<A4096, 1>>(),
            29 => $f::<Grid<A8192, 0>>(), _ => $f::<Grid<A8192, 1>>(),
        }
    }};
}
