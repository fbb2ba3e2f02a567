//! C12: payload conversions
use crate::nd;
use crate::spec::*;
use crate::types::*;
use tagged_box::{TaggableContainer, TaggableInner};

tagged_box! {
    #[derive(Clone, PartialEq)]
    struct Pay, enum PayE {
        Byte(u8),
        Nothing(),
        Two(u8, u8),
        Flag(bool),
        Three(u16, u8, u64),
        Rec { a: u8 },
        Swapped(u8, u16),
        Unit,
        Arr([u8; 3]),
        Choice(Opt),
        Word(u64),
        Pair((u32, u8)),
    }
}
fn word_of(c: &Pay) -> u64 { unsafe { core::mem::transmute_copy::<Pay, u64>(c) } }
/// same tag as boxing the variant directly, and same value out
fn is(c: Pay, v: PayE) {
    let b = v.clone().into_tagged_box();
    check!(word_of(&c) >> W == word(&b) >> W, "same tag as boxing the variant directly");
    check!(c.into_inner() == v, "same value as boxing the variant directly");
    drop(PayE::from_tagged_box(b));
}

harnesses! {
    fn c12_byte() { let x = nd::u8_(); is(Pay::from(x), PayE::Byte(x)); reach!("end"); }
    fn c12_unit_tuple() { is(Pay::from(()), PayE::Nothing()); reach!("end"); }
    fn c12_rest() {
        if MAXD < 11 {
            reach!("opt too many variants for this width");
            return;
        }
        match nd::u8_() {
            0 => { let (x, y) = (nd::u8_(), nd::u8_()); is(Pay::from((x, y)), PayE::Two(x, y)) }
            1 => { let x = nd::bool_(); is(Pay::from(x), PayE::Flag(x)) }
            2 => { let (x, y, z) = (nd::u16_(), nd::u8_(), nd::u64_()); is(Pay::from((x, y, z)), PayE::Three(x, y, z)) }
            3 => { let (x, y) = (nd::u8_(), nd::u16_()); is(Pay::from((x, y)), PayE::Swapped(x, y)) }
            4 => { let x = <[u8; 3]>::nd(); is(Pay::from(x), PayE::Arr(x)) }
            5 => { let x = Opt::nd(); is(Pay::from(x), PayE::Choice(x)) }
            6 => { let x = nd::u64_(); is(Pay::from(x), PayE::Word(x)) }
            7 => { let x = (nd::u32_(), nd::u8_()); is(Pay::from(x), PayE::Pair(x)) }
            _ => {
                let v = match nd::u8_() {
                    0 => PayE::Byte(nd::u8_()), 1 => PayE::Nothing(), 2 => PayE::Two(nd::u8_(), nd::u8_()), 3 => PayE::Flag(nd::bool_()),
                    4 => PayE::Three(nd::u16_(), nd::u8_(), nd::u64_()), 5 => PayE::Rec { a: nd::u8_() },
                    6 => PayE::Swapped(nd::u8_(), nd::u16_()), 7 => PayE::Unit, 8 => PayE::Word(nd::u64_()),
                    _ => PayE::Arr(<[u8; 3]>::nd()),
                };
                is(Pay::from(v.clone()), v)
            }
        }
        reach!("end");
    }
    fn c12_small() {
        // fits every width
        tagged_box! { #[derive(Clone, PartialEq)] struct S, enum SE { P(u32), Q(u8, u32, u8), } }
        if nd::bool_() {
            let x = nd::u32_();
            check!(S::from(x).into_inner() == SE::P(x), "From a field");
            check!(S::from(SE::P(x)).into_inner() == SE::P(x), "From the enum");
        } else {
            let (x, y, z) = (nd::u8_(), nd::u32_(), nd::u8_());
            check!(S::from((x, y, z)).into_inner() == SE::Q(x, y, z), "From a tuple");
            check!(S::from(SE::Q(x, y, z)).into_inner() == SE::Q(x, y, z), "From the enum");
        }
        reach!("end");
    }
    fn c12_owning() {
        tagged_box! { struct O, enum OE { B(Box<u32>), T(Box<u8>, u64, Box<u16>), } }
        if nd::bool_() {
            let x = nd::u32_();
            let ok = match O::from(Box::new(x)).into_inner() { OE::B(b) => *b == x, _ => false };
            check!(ok, "From an owning field");
        } else {
            let (x, y, z) = (nd::u8_(), nd::u64_(), nd::u16_());
            let ok = match O::from((Box::new(x), y, Box::new(z))).into_inner() {
                OE::T(a, b, c) => *a == x && b == y && *c == z,
                _ => false,
            };
            check!(ok, "From an owning tuple");
        }
        reach!("end");
    }
}
