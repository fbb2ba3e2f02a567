//! C05: value and tag fidelity of a box
use crate::nd;
use crate::spec::*;
use crate::types::*;

enum E {}

/// every accessor shows the value; writes are seen by every later read; the tag never changes
fn access<T: Val>() {
    let (v, w, x, y, d) = (T::nd(), T::nd(), T::nd(), T::nd(), disc());
    let mut b = create::<E, _>(v.dup(), d);
    let bits = word(&b);
    unsafe {
        check!(b.discriminant() == d, "tag after creation");
        check!(b.as_ref::<T>().same(&v), "as_ref shows the value");
        check!((*b.as_ptr::<T>()).same(&v), "as_ptr shows the value");
        check!((*b.as_mut_ptr::<T>()).same(&v), "as_mut_ptr shows the value");
        check!(b.as_mut_ref::<T>().same(&v), "as_mut_ref shows the value");
        check!(b.as_ref::<T>().same(&v), "reading changes nothing");
        check!(b.as_ptr::<T>() == b.as_ref::<T>() as *const T && b.as_ptr::<T>() == b.as_mut_ptr::<T>() as *const T,
            "accessors agree on the address");
        b.as_mut_ptr::<T>().write(w.dup());
        check!(b.as_ref::<T>().same(&w), "a write through as_mut_ptr is seen");
        check!(b.discriminant() == d && word(&b) == bits, "tag after writing through as_mut_ptr");
        core::ptr::write(b.as_mut_ref::<T>(), x.dup());
        check!((*b.as_ptr::<T>()).same(&x), "a write through as_mut_ref is seen");
        check!(b.discriminant() == d && word(&b) == bits, "tag after writing through as_mut_ref");
        let old = core::mem::replace(b.as_mut_ref::<T>(), y.dup());
        check!(old.same(&x), "replace yields the previous value");
        let out = TaggedBox::into_inner::<T>(b);
        check!(out.same(&y), "into_inner yields the last written value");
    }
    reach!("end");
}
/// every extraction route yields the value
fn extract<T: Val>() {
    let (v, d) = (T::nd(), disc());
    let b = create::<E, _>(v.dup(), d);
    check!(b.discriminant() == d, "tag");
    unsafe {
        match nd::u8_() {
            0 => {
                let o = TaggedBox::into_inner::<T>(b);
                check!(o.same(&v), "into_inner yields the value");
                reach!("into_inner");
            }
            1 => {
                let r = TaggedBox::into_raw::<T>(b);
                check!((*r).same(&v), "into_raw points at the value");
                drop(Box::from_raw(r));
                reach!("into_raw");
            }
            2 => {
                let o = TaggedBox::into_box::<T>(b);
                check!((*o).same(&v), "into_box yields the value");
                drop(o);
                reach!("into_box");
            }
            _ => {
                let a = b.as_ptr::<T>();
                let r = TaggedBox::into_raw::<T>(b);
                check!(a == r as *const T, "into_raw is the address as_ptr showed");
                let b: TaggedBox<E> = TaggedBox::from_raw(r, d);
                check!(b.discriminant() == d, "tag after the raw round trip");
                let o = TaggedBox::into_inner::<T>(b);
                check!(o.same(&v), "value after the raw round trip");
                reach!("from_raw");
            }
        }
    }
}

harnesses! {
    fn c05_access_u8() { access::<u8>() }
    fn c05_access_u16() { access::<u16>() }
    fn c05_access_u32() { access::<u32>() }
    fn c05_access_u64() { access::<u64>() }
    fn c05_access_u128() { access::<u128>() }
    fn c05_access_bool() { access::<bool>() }
    fn c05_access_char() { access::<char>() }
    fn c05_access_f64() { access::<f64>() }
    fn c05_access_unit() { access::<()>() }
    fn c05_access_odd() { access::<[u8; 3]>() }
    fn c05_access_empty_array() { access::<[u8; 0]>() }
    fn c05_access_plain() { access::<Plain>() }
    fn c05_access_packed() { access::<Packed>() }
    fn c05_access_align64() { access::<Al64>() }
    fn c05_access_zst_align32() { access::<Z32>() }
    fn c05_access_words() { access::<Words>() }
    fn c05_access_opt() { access::<Opt>() }
    fn c05_access_big() { access::<Big>() }
    fn c05_extract_u8() { extract::<u8>() }
    fn c05_extract_u64() { extract::<u64>() }
    fn c05_extract_bool() { extract::<bool>() }
    fn c05_extract_unit() { extract::<()>() }
    fn c05_extract_odd() { extract::<[u8; 3]>() }
    fn c05_extract_u16x5() { extract::<[u16; 5]>() }
    fn c05_extract_plain() { extract::<Plain>() }
    fn c05_extract_packed() { extract::<Packed>() }
    fn c05_extract_align64() { extract::<Al64>() }
    fn c05_extract_zst_align32() { extract::<Z32>() }
    fn c05_extract_words() { extract::<Words>() }
    fn c05_extract_opt() { extract::<Opt>() }
    fn c05_extract_big() { extract::<Big>() }
    fn c05_nested_box() {
        // a payload that itself owns heap memory
        let (v, w, d) = (nd::u32_(), nd::u32_(), disc());
        let mut b = TaggedBox::<E>::new(Box::new(v), d);
        unsafe {
            check!(**b.as_ref::<Box<u32>>() == v, "nested value");
            **b.as_mut_ref::<Box<u32>>() = w;
            check!(**b.as_ref::<Box<u32>>() == w, "nested write");
            check!(b.discriminant() == d, "tag");
            let o = TaggedBox::into_inner::<Box<u32>>(b);
            check!(*o == w, "nested value out");
        }
        reach!("end");
    }
    fn c05_box_in_box() {
        // a tagged box stored in a tagged box
        let (v, d, e) = (nd::u64_(), disc(), disc());
        let inner: TaggedBox<E> = TaggedBox::new(v, d);
        let outer: TaggedBox<u8> = TaggedBox::new(inner, e);
        unsafe {
            check!(outer.discriminant() == e, "outer tag");
            check!(outer.as_ref::<TaggedBox<E>>().discriminant() == d, "inner tag");
            let inner = TaggedBox::into_inner::<TaggedBox<E>>(outer);
            check!(inner.discriminant() == d && TaggedBox::into_inner::<u64>(inner) == v, "inner value");
        }
        reach!("end");
    }
    // layouts of every small size and alignment, and sizes around the powers of two up to two pages
    fn c05_access_grid_small() { grid_small!(access) }
    fn c05_access_grid_large() { grid_large!(access) }
    fn c05_extract_grid_small() { grid_small!(extract) }
    fn c05_extract_grid_large() { grid_large!(extract) }
}
