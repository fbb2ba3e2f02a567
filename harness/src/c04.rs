//! C04: equality, order, hash
use crate::spec::*;
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};

/// records everything it is fed
struct Rec { buf: [u8; 32], n: usize }
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            if self.n < 32 { self.buf[self.n] = b[i]; }
            self.n += 1;
            i += 1;
        }
    }
}
fn fed(t: TaggedPointer) -> Rec {
    let mut r = Rec { buf: [0; 32], n: 0 };
    t.hash(&mut r);
    r
}
fn same(a: &Rec, b: &Rec) -> bool {
    let mut s = a.n == b.n;
    let mut i = 0;
    while i < 32 { s &= a.buf[i] == b.buf[i]; i += 1; }
    s
}

harnesses! {
    fn c04_eq() {
        let (p, d, q, e) = (addr(), disc(), addr(), disc());
        let (a, b) = (TaggedPointer::new(p, d), TaggedPointer::new(q, e));
        let eq = p == q && d == e;
        check!((a == b) == eq, "== iff pointers and tags equal");
        check!((a != b) == !eq, "!= iff they differ");
        check!((b == a) == eq, "== is symmetric");
        let c = a;
        
        let g = a.clone();
        check!(c == a && c.as_raw_u64() == a.as_raw_u64(), "a copy is identical");
        check!(g == a && g.as_raw_u64() == a.as_raw_u64(), "a clone is identical");
        reach!("end");
    }
    fn c04_ord() {
        let (p, d, q, e) = (addr(), disc(), addr(), disc());
        let (a, b) = (TaggedPointer::new(p, d), TaggedPointer::new(q, e));
        let o = if d < e { Ordering::Less } else if d > e { Ordering::Greater }
            else if p < q { Ordering::Less } else if p > q { Ordering::Greater } else { Ordering::Equal };
        check!(a.cmp(&b) == o, "cmp is the order of (tag, pointer)");
        check!(a.partial_cmp(&b) == Some(o), "partial_cmp agrees");
        check!((a < b) == (o == Ordering::Less), "< agrees");
        check!((a <= b) == (o != Ordering::Greater), "<= agrees");
        check!((a > b) == (o == Ordering::Greater), "> agrees");
        check!((a >= b) == (o != Ordering::Less), ">= agrees");
        check!((a == b) == (o == Ordering::Equal), "== agrees with cmp");
        check!(a.max(b) == if o == Ordering::Greater { a } else { b }, "max agrees");
        check!(a.min(b) == if o == Ordering::Greater { b } else { a }, "min agrees");
        reach!("end");
    }
    fn c04_ord_total() {
        let (a, b, c) = (TaggedPointer::new(addr(), disc()), TaggedPointer::new(addr(), disc()), TaggedPointer::new(addr(), disc()));
        check!(!(a <= b && b <= c) || a <= c, "<= is transitive");
        check!(!(a < b && b < c) || a < c, "< is transitive");
        check!(a <= b || b <= a, "<= is total");
        check!(!(a <= b && b <= a) || a == b, "<= is antisymmetric");
        check!(a.cmp(&b) == b.cmp(&a).reverse(), "cmp reverses");
        reach!("end");
    }
    fn c04_hash() {
        let (p, d, q, e) = (addr(), disc(), addr(), disc());
        let (a, b) = (TaggedPointer::new(p, d), TaggedPointer::new(q, e));
        let (x, y) = (fed(a), fed(b));
        check!(x.n <= 32, "hash input fits the recorder");
        check!(same(&x, &y) == (p == q && d == e), "hash input equal iff the pointers are equal");
        reach!("end");
    }
}
