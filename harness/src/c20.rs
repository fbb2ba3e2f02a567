//! C20: one 64-bit word
use crate::nd;
use crate::spec::*;
use crate::types::*;
use core::mem::{align_of, size_of, size_of_val};
use tagged_box::TaggableInner;

enum E {}
tagged_box! {
    struct Huge, enum HugeE {
        A([u64; 9]), B { a: u128, b: u8, },
    }
}
tagged_box! { struct Tiny, enum TinyE { A, } }
tagged_box! { struct Owner, enum OwnerE { A(Box<u32>), B(Al64, u8), } }

fn wd<T>(x: &T) -> u64 {
    check!(size_of::<T>() == size_of::<u64>(), "size of one u64");
    unsafe { core::mem::transmute_copy::<T, u64>(x) }
}

harnesses! {
    fn c20_sizes() {
        check!(size_of::<TaggedPointer>() == 8 && align_of::<TaggedPointer>() == align_of::<u64>(), "TaggedPointer is one u64");
        check!(size_of::<TaggedBox<E>>() == 8 && align_of::<TaggedBox<E>>() == align_of::<u64>(), "TaggedBox is one u64");
        check!(size_of::<TaggedBox<[u64; 100]>>() == 8 && align_of::<TaggedBox<Al64>>() == align_of::<u64>(), "TaggedBox of a large type is one u64");
        check!(size_of::<Huge>() == 8 && align_of::<Huge>() == align_of::<u64>(), "container of a large enum is one u64");
        check!(size_of::<Tiny>() == 8 && align_of::<Tiny>() == align_of::<u64>(), "container of a unit enum is one u64");
        check!(size_of::<Owner>() == 8 && align_of::<Owner>() == align_of::<u64>(), "container of an owning enum is one u64");
        reach!("end");
    }
    fn c20_words() {
        let (p, d) = (addr(), disc());
        let t = TaggedPointer::new(p, d);
        check!(wd(&t) == t.as_raw_u64(), "the pointer's word is its raw value");
        check!(wd(&t) == (p | (d as u64) << W), "the pointer's word is the packed tag and pointer");
        let b = unsafe { TaggedBox::<E>::from_raw(p as *mut u8, d) };
        check!(wd(&b) == (p | (d as u64) << W), "the box's word is the packed tag and pointer");
        reach!("end");
    }
    fn c20_container_words() {
        let e = if nd::bool_() { HugeE::A([nd::u64_(); 9]) } else { HugeE::B { a: 1, b: nd::u8_() } };
        let i = match e { HugeE::A(_) => 0, _ => 1u64 };
        let b = e.into_tagged_box();
        check!(wd(&b) == (b.as_ptr::<u8>() as u64 | i << W), "the word is the packed tag and pointer");
        let p = b.as_ptr::<u8>() as u64;
        check!(p & !MAXP == 0 && p != 0, "pointer part");
        let c: Huge = Huge::from(HugeE::from_tagged_box(b));
        check!(wd(&c) >> W == i, "the container's word carries the tag");
        let t = Tiny::from(TinyE::A);
        check!(wd(&t) >> W == 0 && wd(&t) & MAXP != 0, "a unit variant is a tagged non-null word");
        check!(size_of_val(&t) == 8, "container value is one word");
        reach!("end");
    }
}
