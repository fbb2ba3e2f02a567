//! C21: copies of a Copy box
use crate::nd;
use crate::shapes::{Desc, Num, Part, N0};
use crate::spec::*;
use tagged_box::{TaggableContainer, TaggableInner};

shapes! { #[derive(Clone, Copy, PartialEq, PartialOrd)] Cpy, CpyE, crate::shapes::Num, N0 }

harnesses! {
    fn c21_box() {
        let k = Desc::nd();
        let v = CpyE::make(&k);
        let a = v.into_tagged_box();
        let (b, c) = (a, a);
        check!(word(&a) == word(&b) && word(&b) == word(&c), "a copy is the same word");
        check!(CpyE::from_tagged_box(b) == v, "one copy extracts to the value");
        check!(CpyE::from_tagged_box(a) == v, "another still extracts to the value");
        check!(c == a && !(c < a), "copies still compare");
        check!(CpyE::from_tagged_box(c) == v, "and the third");
        check!(CpyE::from_tagged_box(a) == v, "extraction can be repeated");
        reach!("end");
    }
    fn c21_container() {
        let k = Desc::nd();
        let v = CpyE::make(&k);
        let a = Cpy::from(v);
        let b = a;
        check!(b.into_inner() == v, "one copy extracts to the value");
        check!(a.into_inner() == v && a == b, "the other still does and still compares");
        let c = b;
        check!(c.into_inner() == v && a.into_inner() == v, "in any order, any number of times");
        let d = a.clone();
        check!(d == c && d.into_inner() == v && d.into_inner() == v, "a clone extracts repeatedly too");
        reach!("end");
    }
    fn c21_raw_inner() {
        let (x, d) = (Num::part(nd::u32_()), 0 as Discriminant);
        let a: TaggedBox<CpyE> = create(x, d);
        let b = a;
        unsafe {
            check!(TaggedBox::into_inner::<Num>(a) == x, "into_inner on one copy");
            check!(*b.as_ref::<Num>() == x, "as_ref on the other");
            check!(TaggedBox::into_inner::<Num>(b) == x, "into_inner on the other");
            let r = TaggedBox::into_raw::<Num>(a);
            check!(*r == x && *b.as_ptr::<Num>() == x, "raw and boxed handles show the same value");
        }
        reach!("end");
    }
    fn c21_borrow() {
        let k = Desc::nd();
        let v = CpyE::make(&k);
        let a = v.into_tagged_box();
        let b = a;
        unsafe {
            CpyE::ref_from_tagged_box(&a, |r| {
                check!(*r == v, "view through one copy");
                check!(CpyE::from_tagged_box(b) == v, "extracting another copy meanwhile");
                check!(*r == v, "the view is still valid");
            })
        };
        let k = <TaggedBox<CpyE> as Clone>::clone(&b);
        check!(CpyE::from_tagged_box(k) == v && CpyE::from_tagged_box(a) == v, "a clone next to copies");
        reach!("end");
    }
    fn c21_repeated() {
        // the same copy extracted many times, other boxes coming and going in between
        let k = Desc::nd();
        let v = CpyE::make(&k);
        let a = v.into_tagged_box();
        let mut i = 0u32;
        while i < 12 {
            let other = CpyE::make(&Desc { i: 1, x: i, y: 0, e: 0 }).into_tagged_box();
            check!(CpyE::from_tagged_box(a) == v, "extraction can be repeated at will");
            check!(CpyE::from_tagged_box(other).desc().x == i, "other boxes are themselves");
            i += 1;
        }
        reach!("end");
    }
    fn c21_order() {
        let k = Desc::nd();
        let v = CpyE::make(&k);
        let h = [v.into_tagged_box(); 3];
        let mut i = 0;
        while i < 3 {
            let k = nd::u8_();
            nd::assume(k < 3);
            match nd::u8_() {
                0 => check!(CpyE::from_tagged_box(h[k as usize]) == v, "extract"),
                1 => check!(h[k as usize] == h[0], "compare"),
                _ => unsafe { CpyE::ref_from_tagged_box(&h[k as usize], |r| check!(*r == v, "borrow")) },
            }
            i += 1;
        }
        reach!("end");
    }
    fn c21_poke() {
        // the copies are handles to one value
        let mut k = Desc::nd();
        nd::assume(k.numbered() > 0);
        let mut a = CpyE::make(&k).into_tagged_box();
        let b = a;
        CpyE::poke(&mut a, &mut k, nd::u32_());
        check!(CpyE::from_tagged_box(b).desc() == k, "what is written through one copy is read through another");
        check!(CpyE::from_tagged_box(a).desc() == k, "and through itself");
        reach!("end");
    }
    fn c21_long() {
        let k = Desc::of(1);
        let v = CpyE::make(&k);
        let a = v.into_tagged_box();
        let mut i = 0u32;
        while i < 1100 {
            let b = a;
            check!(CpyE::from_tagged_box(b) == v, "extraction can be repeated at will");
            i += 1;
        }
        check!(CpyE::from_tagged_box(a) == v, "and once more");
        reach!("end");
    }
}
