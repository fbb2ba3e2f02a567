//! C09: variants of several fields, over many sizes
use crate::nd;
use crate::shapes::Grid;
use crate::spec::*;
use crate::types::*;
use tagged_box::{TaggableContainer, TaggableInner};

macro_rules! fields {
    ($($m:ident $n:literal)*) => { $(
        mod $m {
            use super::*;
            tagged_box! {
                struct C, enum En {
                    Tup(u8, Grid<u8, $n>, u8),
                    Rec { a: u16, b: Grid<u8, $n>, c: u8 },
                    RecT { a: Grid<u8, $n>, b: u32, c: u8, },
                    Pair(u64, Grid<u8, $n>),
                }
            }
            impl En {
                fn nd() -> En {
                    match nd::u8_() {
                        0 if MAXD > 1 => En::RecT { a: Grid::nd(), b: nd::u32_(), c: nd::u8_() },
                        1 if MAXD > 2 => En::Pair(nd::u64_(), Grid::nd()),
                        2 => En::Rec { a: nd::u16_(), b: Grid::nd(), c: nd::u8_() },
                        _ => En::Tup(nd::u8_(), Grid::nd(), nd::u8_()),
                    }
                }
                fn dup(&self) -> En {
                    match self {
                        En::Tup(a, b, c) => En::Tup(*a, b.dup(), *c),
                        En::Rec { a, b, c } => En::Rec { a: *a, b: b.dup(), c: *c },
                        En::RecT { a, b, c } => En::RecT { a: a.dup(), b: *b, c: *c },
                        En::Pair(a, b) => En::Pair(*a, b.dup()),
                    }
                }
                fn same(&self, o: &En) -> bool {
                    match (self, o) {
                        (En::Tup(a, b, c), En::Tup(x, y, z)) => a == x && b.same(y) && c == z,
                        (En::Rec { a, b, c }, En::Rec { a: x, b: y, c: z }) => a == x && b.same(y) && c == z,
                        (En::RecT { a, b, c }, En::RecT { a: x, b: y, c: z }) => a.same(x) && b == y && c == z,
                        (En::Pair(a, b), En::Pair(x, y)) => a == x && b.same(y),
                        _ => false,
                    }
                }
            }
            pub fn go() {
                let v = En::nd();
                match nd::u8_() {
                    0 => {
                        check!(C::from(v.dup()).into_inner().same(&v), "container into_inner yields the same variant and fields");
                    }
                    1 => {
                        check!(En::from_tagged_box(v.dup().into_tagged_box()).same(&v), "from_tagged_box yields the same variant and fields");
                    }
                    _ => {
                        let b = v.dup().into_tagged_box();
                        let mut seen = 0;
                        unsafe {
                            En::ref_from_tagged_box(&b, |r| {
                                seen += 1;
                                check!(r.same(&v), "the borrowed view shows the same variant and fields");
                            });
                        }
                        check!(seen == 1, "the borrowed view was shown");
                        check!(En::from_tagged_box(b).same(&v), "extraction after the borrowed view yields the same");
                    }
                }
                reach!("end");
            }
        }
    )* };
}
fields! { n0 0 n1 1 n2 2 n3 3 n5 5 n6 6 n7 7 n9 9 n10 10 n13 13 n14 14 n15 15 n17 17 n21 21 n22 22 n23 23 n29 29 n30 30 n31 31 n37 37 n38 38 n45 45 n46 46 n47 47 n53 53 n54 54 n55 55 n56 56 n57 57 n58 58 n59 59 n60 60 n61 61 n62 62 n63 63 n69 69 n77 77 n78 78 n93 93 n94 94 n101 101 n110 110 n120 120 n121 121 n123 123 n125 125 n126 126 n127 127 n185 185 n189 189 n190 190 n253 253 n254 254 n255 255 n381 381 n509 509 n510 510 n1021 1021 n1022 1022 n1023 1023 n2047 2047 n4093 4093 n4094 4094 n4095 4095 }

harnesses! {
    fn c09_grid_small() {
        match nd::u8_() {
            0 => n0::go(), 1 => n1::go(), 2 => n2::go(), 3 => n3::go(), 4 => n5::go(), 5 => n6::go(), 6 => n7::go(), 7 => n9::go(), 8 => n10::go(), 9 => n13::go(), 10 => n14::go(), 11 => n15::go(), 12 => n17::go(), 13 => n21::go(), 14 => n22::go(), 15 => n23::go(), 16 => n29::go(), 17 => n30::go(), 18 => n31::go(), 19 => n37::go(), _ => n38::go(),
        }
    }
    fn c09_grid_mid() {
        match nd::u8_() {
            0 => n45::go(), 1 => n46::go(), 2 => n47::go(), 3 => n53::go(), 4 => n54::go(), 5 => n55::go(), 6 => n56::go(), 7 => n57::go(), 8 => n58::go(), 9 => n59::go(), 10 => n60::go(), 11 => n61::go(), 12 => n62::go(), 13 => n63::go(), 14 => n69::go(), 15 => n77::go(), 16 => n78::go(), 17 => n93::go(), 18 => n94::go(), 19 => n101::go(), _ => n110::go(),
        }
    }
    fn c09_grid_large() {
        match nd::u8_() {
            0 => n120::go(), 1 => n121::go(), 2 => n123::go(), 3 => n125::go(), 4 => n126::go(), 5 => n127::go(), 6 => n185::go(), 7 => n189::go(), 8 => n190::go(), 9 => n253::go(), 10 => n254::go(), 11 => n255::go(), 12 => n381::go(), 13 => n509::go(), 14 => n510::go(), 15 => n1021::go(), 16 => n1022::go(), 17 => n1023::go(), 18 => n2047::go(), 19 => n4093::go(), 20 => n4094::go(), _ => n4095::go(),
        }
    }
}
