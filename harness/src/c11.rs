//! C11: a tag that names no variant is refused by every reader
use crate::nd;
use crate::shapes::N0;
use crate::spec::*;
use core::fmt::{self, Write};
use tagged_box::{TaggableContainer, TaggableInner};

tagged_box! {
    #[derive(Clone, PartialEq, PartialOrd)]
    struct Three, enum ThreeE { A(u32), B, C(u8, u16), }
}
tagged_box! {
    #[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
    struct Lone, enum LoneE { A(u32), }
}
tagged_box! { struct Two, enum TwoE { A(u32), B { x: u32 }, } }
shapes! { #[derive(Clone, PartialEq)] Every, EveryE, crate::shapes::Num, N0 }
impl fmt::Debug for LoneE { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { no_value(); Ok(()) } }
impl fmt::Display for LoneE { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { no_value(); Ok(()) } }
fn no_value() { check!(false, "a value of the enum was produced from a foreign tag"); }

/// a box of readable memory whose tag names none of `n` variants
fn foreign<T>(n: u64) -> Option<TaggedBox<T>> {
    if MAXD < n {
        reach!("opt no foreign tag exists at this width");
        return None;
    }
    let d = disc();
    nd::assume(d as u64 >= n);
    Some(if nd::bool_() { TaggedBox::new(nd::u64_(), d) } else { TaggedBox::dangling::<u64>(d) })
}
struct Null;
impl Write for Null { fn write_str(&mut self, _: &str) -> fmt::Result { Ok(()) } }

harnesses! {
    fn c11_from_tagged_mp() {
        if let Some(b) = foreign::<ThreeE>(3) { must_panic!(ThreeE::from_tagged_box(b), "from_tagged_box reads a foreign tag"); }
    }
    fn c11_container_mp() {
        if let Some(b) = foreign::<ThreeE>(3) {
            let c: Three = unsafe { core::mem::transmute(b) };
            must_panic!(c.into_inner(), "into_inner reads a foreign tag");
        }
    }
    fn c11_ref_mp() {
        if let Some(b) = foreign::<ThreeE>(3) {
            must_panic!(unsafe { ThreeE::ref_from_tagged_box(&b, |_| no_value()) }, "the borrowed view reads a foreign tag");
        }
    }
    fn c11_lone_from_tagged_mp() {
        if let Some(b) = foreign::<LoneE>(1) { must_panic!(LoneE::from_tagged_box(b), "from_tagged_box reads a foreign tag (one variant)"); }
    }
    fn c11_lone_container_mp() {
        if let Some(b) = foreign::<LoneE>(1) {
            let c: Lone = unsafe { core::mem::transmute(b) };
            must_panic!(c.into_inner(), "into_inner reads a foreign tag (one variant)");
        }
    }
    fn c11_lone_ref_mp() {
        if let Some(b) = foreign::<LoneE>(1) {
            must_panic!(unsafe { LoneE::ref_from_tagged_box(&b, |_| no_value()) }, "the borrowed view reads a foreign tag (one variant)");
        }
    }
    fn c11_clone_mp() {
        if let Some(b) = foreign::<ThreeE>(3) { must_panic!(b.clone(), "clone reads a foreign tag"); }
    }
    fn c11_eq_left_mp() {
        if let Some(b) = foreign::<ThreeE>(3) {
            let g = ThreeE::B.into_tagged_box();
            must_panic!(b == g, "== reads a foreign tag on the left");
        }
    }
    fn c11_eq_right_mp() {
        if let Some(b) = foreign::<ThreeE>(3) {
            let g = ThreeE::B.into_tagged_box();
            must_panic!(g == b, "== reads a foreign tag on the right");
        }
    }
    fn c11_partial_cmp_mp() {
        if let Some(b) = foreign::<ThreeE>(3) {
            let g = ThreeE::A(1).into_tagged_box();
            must_panic!(g.partial_cmp(&b), "partial_cmp reads a foreign tag");
        }
    }
    fn c11_cmp_mp() {
        if let Some(b) = foreign::<LoneE>(1) {
            let g = LoneE::A(1).into_tagged_box();
            must_panic!(b.cmp(&g), "cmp reads a foreign tag");
        }
    }
    fn c11_debug_mp() {
        if let Some(b) = foreign::<LoneE>(1) {
            must_panic!(fmt::write(&mut Null, format_args!("{:?}", b)), "Debug reads a foreign tag");
        }
    }
    fn c11_display_mp() {
        if let Some(b) = foreign::<LoneE>(1) {
            must_panic!(fmt::write(&mut Null, format_args!("{}", b)), "Display reads a foreign tag");
        }
    }
    fn c11_declared_accepted() {
        // every declared tag is accepted
        let x = nd::u32_();
        let d = disc();
        nd::assume((d as u64) < 3 && d as u64 <= MAXD);
        let v = match d as u64 { 0 => ThreeE::A(x), 1 => ThreeE::B, _ => ThreeE::C(x as u8, 7) };
        let b = v.clone().into_tagged_box();
        check!(b.discriminant() == d, "tag");
        check!(ThreeE::from_tagged_box(b) == v, "declared tags are read");
        reach!("end");
    }
    fn c11_container_clone_mp() {
        if let Some(b) = foreign::<ThreeE>(3) {
            let c: Three = unsafe { core::mem::transmute(b) };
            must_panic!(c.clone(), "a container's clone reads a foreign tag");
        }
    }
    fn c11_container_eq_mp() {
        if let Some(b) = foreign::<ThreeE>(3) {
            let (c, g): (Three, Three) = (unsafe { core::mem::transmute(b) }, Three::from(ThreeE::B));
            if nd::bool_() { must_panic!(c == g, "a container's == reads a foreign tag on the left"); } else { must_panic!(g != c, "a container's != reads a foreign tag on the right"); }
        }
    }
    fn c11_container_order_mp() {
        if let Some(b) = foreign::<LoneE>(1) {
            let (c, g): (Lone, Lone) = (unsafe { core::mem::transmute(b) }, Lone::from(5u32));
            match nd::u8_() {
                0 => { must_panic!(c < g, "a container's < reads a foreign tag"); }
                1 => { must_panic!(g.cmp(&c), "a container's cmp reads a foreign tag"); }
                2 => { must_panic!(c >= g, "a container's >= reads a foreign tag"); }
                _ => { must_panic!(g.max(c), "a container's max reads a foreign tag"); }
            }
        }
    }
    fn c11_box_order_mp() {
        if let Some(b) = foreign::<LoneE>(1) {
            let g = LoneE::A(1).into_tagged_box();
            match nd::u8_() {
                0 => { must_panic!(b < g, "< reads a foreign tag"); }
                1 => { must_panic!(g <= b, "<= reads a foreign tag"); }
                2 => { must_panic!(b > g, "> reads a foreign tag"); }
                3 => { must_panic!(g >= b, ">= reads a foreign tag"); }
                4 => { must_panic!(g != b, "!= reads a foreign tag"); }
                5 => { must_panic!(b.max(g), "max reads a foreign tag"); }
                _ => { must_panic!(b == b, "== of a foreign tag with itself"); }
            }
        }
    }
    fn c11_clone_from_mp() {
        if let Some(b) = foreign::<ThreeE>(3) {
            let mut g = ThreeE::A(nd::u32_()).into_tagged_box();
            must_panic!(g.clone_from(&b), "clone_from reads a foreign tag");
        }
    }
    fn c11_shapes_mp() {
        // behind every variant syntax
        if let Some(b) = foreign::<EveryE>(12) {
            match nd::u8_() {
                0 => { must_panic!(EveryE::from_tagged_box(b), "from_tagged_box reads a foreign tag (every syntax)"); }
                1 => { let c: Every = unsafe { core::mem::transmute(b) }; must_panic!(c.into_inner(), "into_inner reads a foreign tag (every syntax)"); }
                2 => { must_panic!(b.clone(), "clone reads a foreign tag (every syntax)"); }
                _ => { must_panic!(unsafe { EveryE::ref_from_tagged_box(&b, |_| no_value()) }, "the view reads a foreign tag (every syntax)"); }
            }
        }
    }
    fn c11_full() {
        // with as many variants as there are tags, every tag is accepted
        if MAXD != 1 { reach!("opt the enum does not use up the tags"); return; }
        let d = disc();
        let b: TaggedBox<TwoE> = TaggedBox::new(7u32, d);
        let v = TwoE::from_tagged_box(b);
        check!(match v { TwoE::A(x) => d as u64 == 0 && x == 7, TwoE::B { x } => d as u64 == 1 && x == 7 }, "both tags are read");
        reach!("end");
    }
}
