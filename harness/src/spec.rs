//! What the documentation says about the configured width, independently of the crate's own constants.
use crate::nd;
pub use tagged_box::discriminant;
pub use tagged_box::{tagged_box, Discriminant, TaggableContainer, TaggableInner, TaggedBox, TaggedPointer};

const fn parse(s: Option<&'static str>) -> u64 {
    match s {
        None => 60,
        Some(s) => {
            let b = s.as_bytes();
            ((b[0] - b'0') as u64) * 10 + (b[1] - b'0') as u64
        }
    }
}
/// The reserved pointer width this build is configured for
pub const W: u64 = parse(option_env!("TBV_WIDTH"));
pub const MAXP: u64 = u64::MAX >> (64 - W);
pub const MAXD: u64 = u64::MAX >> W;
/// Largest number the Discriminant type can hold
pub const DTOP: u64 = Discriminant::MAX as u64;

/// any value of the Discriminant type
pub fn any_disc() -> Discriminant {
    let d = nd::u16_();
    nd::assume(d as u64 <= DTOP);
    d as Discriminant
}
/// any documented-valid discriminant
pub fn disc() -> Discriminant {
    let d = nd::u16_();
    nd::assume(d as u64 <= DTOP && d as u64 <= MAXD);
    d as Discriminant
}
/// any pointer value in range
pub fn addr() -> u64 {
    let p = nd::u64_();
    nd::assume(p <= MAXP);
    p
}
/// The packed word of a box
pub fn word<T>(b: &TaggedBox<T>) -> u64 {
    unsafe { core::mem::transmute_copy::<TaggedBox<T>, u64>(b) }
}
/// a box by either constructor
pub fn create<E, T>(v: T, d: Discriminant) -> TaggedBox<E> {
    if nd::bool_() { TaggedBox::new(v, d) } else { unsafe { TaggedBox::new_unchecked(v, d) } }
}
