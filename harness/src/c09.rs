//! C09: enums survive boxing, whatever their shape
use crate::nd;
use crate::spec::*;
use crate::types::*;
use tagged_box::{TaggableContainer, TaggableInner};

/// What a callback was shown (callbacks cannot return anything)
static mut SEEN: u32 = 0;
fn seen() -> u32 { unsafe { SEEN } }

/// the three readers agree with the value put in
macro_rules! readers {
    ($make:expr, $cont:ident, $en:ident) => {{
        let v = $make;
        unsafe { SEEN = 0; }
        match nd::u8_() {
            0 => {
                let c = $cont::from(v.dup());
                let o = c.into_inner();
                check!(o.same(&v), "container into_inner yields the same variant and fields");
                reach!("into_inner");
            }
            1 => {
                let b = v.dup().into_tagged_box();
                let o = $en::from_tagged_box(b);
                check!(o.same(&v), "from_tagged_box yields the same variant and fields");
                reach!("from_tagged_box");
            }
            _ => {
                let b = v.dup().into_tagged_box();
                let vr = &v;
                unsafe {
                    $en::ref_from_tagged_box(&b, |r| {
                        SEEN += 1;
                        check!(r.same(vr), "the borrowed view shows the same variant and fields");
                    });
                }
                check!(seen() == 1, "the borrowed view was shown");
                let o = $en::from_tagged_box(b);
                check!(o.same(&v), "extraction after the borrowed view yields the same");
                reach!("ref_from_tagged_box");
            }
        }
    }};
}

tagged_box! {
    /// every variant syntax
    pub struct Mix, pub enum MixE {
        Unit,
        One(u32),
        EmptyTuple(),
        Many(u8, u32, u8),
        Rec { a: u8, b: u64, c: u16 },
        RecTrailing { a: u64, b: u8, },
        EmptyRec {},
        Arr([u8; 3]),
        Zst(Z32),
        Wide(u128),
        Tuple1((u8, u32)),
        Enum(Opt),
        Al(Al64, u8),
        Last,
    }
}
impl MixE {
    fn nd() -> Self {
        match nd::u8_() {
            0 => MixE::Unit,
            1 => MixE::One(nd::u32_()),
            2 => MixE::EmptyTuple(),
            3 => MixE::Many(nd::u8_(), nd::u32_(), nd::u8_()),
            4 => MixE::Rec { a: nd::u8_(), b: nd::u64_(), c: nd::u16_() },
            5 => MixE::RecTrailing { a: nd::u64_(), b: nd::u8_() },
            6 => MixE::EmptyRec {},
            7 => MixE::Arr(<[u8; 3]>::nd()),
            8 => MixE::Zst(Z32),
            9 => MixE::Wide(u128::nd()),
            10 => MixE::Tuple1((nd::u8_(), nd::u32_())),
            11 => MixE::Enum(Opt::nd()),
            12 => MixE::Al(Al64::nd(), nd::u8_()),
            _ => MixE::Last,
        }
    }
    fn dup(&self) -> Self {
        match self {
            MixE::Unit => MixE::Unit,
            MixE::One(x) => MixE::One(*x),
            MixE::EmptyTuple() => MixE::EmptyTuple(),
            MixE::Many(x, y, z) => MixE::Many(*x, *y, *z),
            MixE::Rec { a, b, c } => MixE::Rec { a: *a, b: *b, c: *c },
            MixE::RecTrailing { a, b } => MixE::RecTrailing { a: *a, b: *b },
            MixE::EmptyRec {} => MixE::EmptyRec {},
            MixE::Arr(x) => MixE::Arr(*x),
            MixE::Zst(_) => MixE::Zst(Z32),
            MixE::Wide(x) => MixE::Wide(*x),
            MixE::Tuple1(x) => MixE::Tuple1(*x),
            MixE::Enum(x) => MixE::Enum(*x),
            MixE::Al(x, y) => MixE::Al(x.dup(), *y),
            MixE::Last => MixE::Last,
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (MixE::Unit, MixE::Unit) => true,
            (MixE::One(x), MixE::One(y)) => x == y,
            (MixE::EmptyTuple(), MixE::EmptyTuple()) => true,
            (MixE::Many(a, b, c), MixE::Many(x, y, z)) => a == x && b == y && c == z,
            (MixE::Rec { a, b, c }, MixE::Rec { a: x, b: y, c: z }) => a == x && b == y && c == z,
            (MixE::RecTrailing { a, b }, MixE::RecTrailing { a: x, b: y }) => a == x && b == y,
            (MixE::EmptyRec {}, MixE::EmptyRec {}) => true,
            (MixE::Arr(x), MixE::Arr(y)) => x == y,
            (MixE::Zst(_), MixE::Zst(_)) => true,
            (MixE::Wide(x), MixE::Wide(y)) => x == y,
            (MixE::Tuple1(x), MixE::Tuple1(y)) => x.0 == y.0 && x.1 == y.1,
            (MixE::Enum(x), MixE::Enum(y)) => x.same(y),
            (MixE::Al(a, b), MixE::Al(x, y)) => a.same(x) && b == y,
            (MixE::Last, MixE::Last) => true,
            _ => false,
        }
    }
}

tagged_box! {
    /// few variants: representable at every width
    struct Duo, enum DuoE {
        Rec { x: u16, y: u8, z: u32 },
        Tup(u8, u64, u16),
    }
}
impl DuoE {
    fn nd() -> Self {
        if nd::bool_() { DuoE::Rec { x: nd::u16_(), y: nd::u8_(), z: nd::u32_() } }
        else { DuoE::Tup(nd::u8_(), nd::u64_(), nd::u16_()) }
    }
    fn dup(&self) -> Self {
        match self {
            DuoE::Rec { x, y, z } => DuoE::Rec { x: *x, y: *y, z: *z },
            DuoE::Tup(x, y, z) => DuoE::Tup(*x, *y, *z),
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (DuoE::Rec { x, y, z }, DuoE::Rec { x: a, y: b, z: c }) => x == a && y == b && z == c,
            (DuoE::Tup(x, y, z), DuoE::Tup(a, b, c)) => x == a && y == b && z == c,
            _ => false,
        }
    }
}

tagged_box! {
    /// payloads that own memory
    struct Own, enum OwnE {
        Boxed(Box<u32>),
        Both(Box<u8>, u8, Box<u64>),
    }
}
impl OwnE {
    fn nd() -> Self {
        if nd::bool_() { OwnE::Boxed(Box::new(nd::u32_())) }
        else { OwnE::Both(Box::new(nd::u8_()), nd::u8_(), Box::new(nd::u64_())) }
    }
    fn dup(&self) -> Self {
        match self {
            OwnE::Boxed(x) => OwnE::Boxed(Box::new(**x)),
            OwnE::Both(x, y, z) => OwnE::Both(Box::new(**x), *y, Box::new(**z)),
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (OwnE::Boxed(x), OwnE::Boxed(y)) => **x == **y,
            (OwnE::Both(a, b, c), OwnE::Both(x, y, z)) => **a == **x && b == y && **c == **z,
            _ => false,
        }
    }
}

tagged_box! {
    /// one variant only
    struct Solo, enum SoloE {
        Only(u8, u16),
    }
}
impl SoloE {
    fn dup(&self) -> Self { let SoloE::Only(a, b) = self; SoloE::Only(*a, *b) }
    fn same(&self, o: &Self) -> bool { let (SoloE::Only(a, b), SoloE::Only(x, y)) = (self, o); a == x && b == y }
}

/// a type with two parameters
pub struct Pair2<A, B> { a: A, b: B }
pub trait Assoc { type T; }
impl Assoc for u8 { type T = u16; }
fn twice(x: u32) -> u32 { x.wrapping_mul(2) }
fn inverse(x: u32) -> u32 { !x }
tagged_box! {
    /// kinds of types, and names that collide with others
    #[allow(non_camel_case_types, dead_code)]
    struct Kinds, enum KindsE {
        Opt(Opt),
        u32(u32),
        Rec { variant: u8, callback: u16, tagged: u32, discrim: u8, tuple: u8, value: u64, this: u8, r#type: u16, discriminant: u8 },
        F(f64),
        Fun(fn(u32) -> u32),
        Ref(&'static [u32; 2], bool),
        Dyn(Box<dyn Fn(u32) -> u32>),
        Two(Pair2<u8, u32>, (u8, [u16; 2]), <u8 as Assoc>::T),
        Nz(core::num::NonZeroU16),
        Ch(char, Option<Box<u8>>),
        String(Vec<u8>),
        Result { ok: u8, err: core::result::Result<u8, u16>, },
        Never(Option<core::convert::Infallible>),
        self_(core::ops::RangeInclusive<u8>, *const u8),
    }
}
static PAIRS: [[u32; 2]; 2] = [[1, 2], [3, 4]];
struct KindsModel { i: u8, a: u32, b: u64, c: u16, d: u8 }
impl KindsModel {
    fn make(&self) -> KindsE {
        let KindsModel { i, a, b, c, d } = *self;
        match i {
            0 => KindsE::Opt(if d & 1 == 0 { Opt::None } else { Opt::Large(b) }),
            1 => KindsE::u32(a),
            2 => KindsE::Rec { variant: d, callback: c, tagged: a, discrim: !d, tuple: d ^ 1, value: b, this: d ^ 2, r#type: !c, discriminant: d ^ 3 },
            3 => KindsE::F(f64::from_bits(b)),
            4 => KindsE::Fun(if d == 0 { twice } else { inverse }),
            5 => KindsE::Ref(&PAIRS[(d & 1) as usize], d & 2 == 0),
            6 => if d == 0 { KindsE::Dyn(Box::new(twice)) } else { KindsE::Dyn(Box::new(move |x| x ^ a)) },
            7 => KindsE::Two(Pair2 { a: d, b: a }, (!d, [c, !c]), c ^ 5),
            8 => KindsE::Nz(core::num::NonZeroU16::new(c | 1).unwrap()),
            9 => KindsE::Ch(if d & 1 == 0 { 'x' } else { '\u{10ffff}' }, if d & 2 == 0 { None } else { Some(Box::new(d)) }),
            10 => KindsE::String(vec![d, !d]),
            11 => KindsE::Result { ok: d, err: if d & 1 == 0 { Ok(!d) } else { Err(c) } },
            12 => KindsE::Never(None),
            _ => KindsE::self_(d..=!d, 16 as *const u8),
        }
    }
    fn is(&self, v: &KindsE) -> bool {
        let KindsModel { i, a, b, c, d } = *self;
        i == match v {
            KindsE::Opt(x) => if x.same(&(if d & 1 == 0 { Opt::None } else { Opt::Large(b) })) { 0 } else { 255 },
            KindsE::u32(x) => if *x == a { 1 } else { 255 },
            KindsE::Rec { variant, callback, tagged, discrim, tuple, value, this, r#type, discriminant } => {
                let first = *variant == d && *callback == c && *tagged == a && *discrim == !d && *tuple == d ^ 1;
                if first && *value == b && *this == d ^ 2 && *r#type == !c && *discriminant == d ^ 3 { 2 } else { 255 }
            }
            KindsE::F(x) => if x.to_bits() == b { 3 } else { 255 },
            KindsE::Fun(f) => if f(a) == (if d == 0 { a.wrapping_mul(2) } else { !a }) { 4 } else { 255 },
            KindsE::Ref(r, x) => if core::ptr::eq(*r, &PAIRS[(d & 1) as usize]) && r[1] == (if d & 1 == 0 { 2 } else { 4 }) && *x == (d & 2 == 0) { 5 } else { 255 },
            KindsE::Dyn(f) => if f(c as u32) == (if d == 0 { c as u32 * 2 } else { c as u32 ^ a }) { 6 } else { 255 },
            KindsE::Two(p, (x, [y, z]), w) => if p.a == d && p.b == a && *x == !d && *y == c && *z == !c && *w == c ^ 5 { 7 } else { 255 },
            KindsE::Nz(x) => if x.get() == c | 1 { 8 } else { 255 },
            KindsE::Ch(x, y) => {
                let tail = match y { None => d & 2 == 0, Some(z) => d & 2 != 0 && **z == d };
                if *x as u32 == (if d & 1 == 0 { 0x78 } else { 0x10ffff }) && tail { 9 } else { 255 }
            }
            KindsE::String(x) => if x.len() == 2 && x[0] == d && x[1] == !d { 10 } else { 255 },
            KindsE::Result { ok: x, err: y } => if *x == d && *y == (if d & 1 == 0 { Ok(!d) } else { Err(c) }) { 11 } else { 255 },
            KindsE::Never(x) => if x.is_none() { 12 } else { 255 },
            KindsE::self_(x, p) => if *x.start() == d && *x.end() == !d && *p as usize == 16 { 13 } else { 255 },
        }
    }
}
/// every reader, on one value
fn kinds(lo: u8, hi: u8) {
    let k = KindsModel { i: nd::u8_(), a: nd::u32_(), b: nd::u64_(), c: nd::u16_(), d: nd::u8_() };
    nd::assume(lo <= k.i && k.i <= hi);
    if k.i as u64 > MAXD { reach!("opt too many variants for this width"); return; }
    if nd::bool_() {
        check!(k.is(&Kinds::from(k.make()).into_inner()), "a container yields the same variant and fields");
        reach!("into_inner");
    } else {
        let b = k.make().into_tagged_box();
        check!(b.discriminant() as u64 == k.i as u64, "the tag is the variant's");
        unsafe { SEEN = 0; }
        unsafe { KindsE::ref_from_tagged_box(&b, |r| { SEEN += 1; check!(k.is(r), "the view shows the same variant and fields") }) };
        check!(seen() == 1, "the view was shown");
        check!(k.is(&KindsE::from_tagged_box(b)), "from_tagged_box yields the same variant and fields");
        reach!("from_tagged_box");
    }
}

harnesses! {
    fn c09_kinds_first() { kinds(0, 1) }
    fn c09_kinds_names() { kinds(2, 5) }
    fn c09_kinds_owned() { kinds(6, 9) }
    fn c09_kinds_rest() { kinds(10, 13) }
    fn c09_mix() { let v = MixE::nd(); if (v.index() as u64) <= MAXD { readers!(v, Mix, MixE) } else { reach!("opt too many variants for this width") } }
    fn c09_duo() { readers!(DuoE::nd(), Duo, DuoE) }
    fn c09_own() { readers!(OwnE::nd(), Own, OwnE) }
    fn c09_solo() { readers!(SoloE::Only(nd::u8_(), nd::u16_()), Solo, SoloE) }
    fn c09_rebox() {
        // out and in again, repeatedly
        let v = DuoE::nd();
        let c = Duo::from(v.dup());
        let c = Duo::from(c.into_inner());
        let o = DuoE::from_tagged_box(c.into_inner().into_tagged_box());
        check!(o.same(&v), "the value survives repeated boxing");
        reach!("end");
    }
}
impl MixE {
    fn index(&self) -> u8 {
        match self {
            MixE::Unit => 0, MixE::One(..) => 1, MixE::EmptyTuple() => 2, MixE::Many(..) => 3, MixE::Rec { .. } => 4,
            MixE::RecTrailing { .. } => 5, MixE::EmptyRec {} => 6, MixE::Arr(..) => 7, MixE::Zst(..) => 8, MixE::Wide(..) => 9,
            MixE::Tuple1(..) => 10, MixE::Enum(..) => 11, MixE::Al(..) => 12, MixE::Last => 13,
        }
    }
}
