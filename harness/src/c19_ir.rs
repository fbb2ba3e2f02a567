//! C19: allocation failure
use crate::nd;
use crate::spec::*;
use crate::types::*;
use tagged_box::{TaggableContainer, TaggableInner};

enum E {}
tagged_box! {
    struct Alf, enum AlfE { A(u32), U, T(u8, u16), E(), R { a: u64 }, Z(Z32), }
}
impl Clone for AlfE {
    fn clone(&self) -> Self {
        match self {
            AlfE::A(x) => AlfE::A(*x), AlfE::U => AlfE::U, AlfE::T(x, y) => AlfE::T(*x, *y), AlfE::E() => AlfE::E(),
            AlfE::R { a } => AlfE::R { a: *a }, AlfE::Z(_) => AlfE::Z(Z32),
        }
    }
}
/// whatever came back refers to real memory and holds the value
fn real<T: Val>(b: TaggedBox<E>, v: &T, d: Discriminant) {
    check!(b.as_ptr::<T>() as u64 != 0, "no box around a null pointer");
    check!(b.as_ptr::<T>() as u64 == nd::last_addr(), "the box refers to the block it got");
    check!(b.discriminant() == d, "tag");
    check!(unsafe { b.as_ref::<T>() }.same(v), "value");
    core::mem::forget(b);
    reach!("allocation succeeded");
}
fn may<T: Val>() {
    let (v, d) = (T::nd(), disc());
    if core::mem::size_of::<T>() == 0 { return; }
    nd::alloc_mode(1);
    real(create::<E, _>(v.dup(), d), &v, d)
}
fn never<T: Val>() {
    if core::mem::size_of::<T>() == 0 { return; }
    // mode 3: every allocation fails
    nd::alloc_mode(3);
    let (v, d) = (T::nd(), disc());
    must_panic!(create::<E, _>(v, d),
        "a box is produced although the allocation failed");
}

harnesses! {
    fn c19_new_u8_mp() { nd::alloc_mode(1); let (v, d) = (u8::nd(), disc()); real(TaggedBox::<E>::new(v, d), &v, d) }
    fn c19_new_u64_mp() { nd::alloc_mode(1); let (v, d) = (u64::nd(), disc()); real(TaggedBox::<E>::new(v, d), &v, d) }
    fn c19_new_plain_mp() { nd::alloc_mode(1); let (v, d) = (Plain::nd(), disc()); real(TaggedBox::<E>::new(v.dup(), d), &v, d) }
    fn c19_new_align64_mp() { nd::alloc_mode(1); let (v, d) = (Al64::nd(), disc()); real(TaggedBox::<E>::new(v.dup(), d), &v, d) }
    fn c19_unchecked_u64_mp() { nd::alloc_mode(1); let (v, d) = (u64::nd(), disc()); real(unsafe { TaggedBox::<E>::new_unchecked(v, d) }, &v, d) }
    fn c19_never_u8_mp() { never::<u8>() }
    fn c19_never_u64_mp() { never::<u64>() }
    fn c19_never_odd_mp() { never::<[u8; 3]>() }
    fn c19_never_big_mp() { never::<Big>() }
    fn c19_never_align64_mp() { never::<Al64>() }
    fn c19_never_variant_mp() {
        nd::alloc_mode(3);
        let v = match nd::u8_() {
            0 if MAXD >= 2 => AlfE::T(nd::u8_(), nd::u16_()),
            1 if MAXD >= 4 => AlfE::R { a: nd::u64_() },
            _ => AlfE::A(nd::u32_()),
        };
        must_panic!(v.into_tagged_box(), "into_tagged_box produces a box although the allocation failed");
    }
    fn c19_never_container_mp() {
        nd::alloc_mode(3);
        let v = match nd::u8_() {
            0 if MAXD >= 2 => AlfE::T(nd::u8_(), nd::u16_()),
            1 if MAXD >= 4 => AlfE::R { a: nd::u64_() },
            _ => AlfE::A(nd::u32_()),
        };
        must_panic!(Alf::from(v), "From the enum produces a container although the allocation failed");
    }
    fn c19_never_payload_mp() {
        nd::alloc_mode(3);
        let x = nd::u32_();
        must_panic!(Alf::from(x), "From the payload produces a container although the allocation failed");
    }
    fn c19_never_clone_mp() {
        let b = AlfE::A(nd::u32_()).into_tagged_box();
        nd::alloc_mode(3);
        must_panic!(b.clone(), "clone produces a box although the allocation failed");
    }
    fn c19_needs_none() {
        // no memory needed: cannot fail
        nd::alloc_mode(3);
        let d = disc();
        let n = nd::allocs();
        check!(TaggedBox::<E>::new((), d).discriminant() == d, "()");
        check!(TaggedBox::<E>::new(Z32, d).discriminant() == d, "over-aligned zero-sized");
        check!(unsafe { TaggedBox::<E>::new_unchecked([0u8; 0], d) }.discriminant() == d, "empty array");
        let v = match nd::u8_() { 0 if MAXD >= 3 => AlfE::E(), 1 if MAXD >= 5 => AlfE::Z(Z32), _ => AlfE::U };
        let k = match v { AlfE::U => 1u64, AlfE::E() => 3, _ => 5 };
        let b = v.into_tagged_box();
        check!(b.discriminant() as u64 == k, "variants without data are boxed");
        let c = b.clone();
        check!(c.discriminant() as u64 == k, "and cloned");
        let ok = match Alf::from(AlfE::from_tagged_box(c)).into_inner() { AlfE::U => k == 1, AlfE::E() => k == 3, AlfE::Z(Z32) => k == 5, _ => false };
        check!(ok, "and read back");
        check!(nd::allocs() == n, "without asking the allocator");
        reach!("end");
    }
    fn c19_clone_leaves_original() {
        // a clone that fails for lack of memory leaves the original usable
        let x = nd::u32_();
        let b = AlfE::A(x).into_tagged_box();
        nd::alloc_mode(3);
        let p = nd::attempt(|| core::mem::forget(b.clone()));
        check!(p, "the failed clone does not return");
        check!(match AlfE::from_tagged_box(b) { AlfE::A(y) => y == x, _ => false }, "the original still holds its value");
        reach!("end");
    }
    fn c19_may_grid_small_mp() { grid_small!(may) }
    fn c19_may_grid_large_mp() { grid_large!(may) }
    fn c19_never_grid_small_mp() { grid_small!(never) }
    fn c19_never_grid_large_mp() { grid_large!(never) }
}
