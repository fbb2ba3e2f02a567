//! C26: boxes inside boxes
use crate::nd;
use crate::spec::*;
use crate::types::*;
use core::cmp::Ordering;
use tagged_box::{TaggableContainer, TaggableInner};

tagged_box! { #[derive(Clone, PartialEq, PartialOrd)] pub struct In, pub enum InE { N(u32), U, P(u8, u32), R { a: u16, b: u64 }, } }
tagged_box! {
    #[derive(Clone, PartialEq, PartialOrd)]
    struct Out, enum OutE { C(In), Pair(TaggedBox<InE>, u8, In), B(TaggedBox<InE>), Rec { a: u8, b: In, c: TaggedBox<InE>, }, U, }
}
tagged_box! { #[derive(Clone, PartialEq, Eq, PartialOrd, Ord)] pub struct List, pub enum ListE { Cons(u32, List), Nil, } }
tagged_box! { #[derive(Clone, PartialEq)] struct Tree, enum TreeE { Node { l: Tree, v: u16, r: TaggedBox<TreeE>, }, Leaf(D), } }

/// what an inner value is
type Key = (u8, u32, u64);
fn key() -> Key {
    match nd::u8_() {
        0 => (0, nd::u32_(), 0),
        1 => (1, 0, 0),
        2 if MAXD >= 2 => (2, nd::u32_(), nd::u8_() as u64),
        _ if MAXD >= 3 => (3, nd::u16_() as u32, nd::u64_()),
        _ => (1, 0, 0),
    }
}
impl InE {
    fn of(k: Key) -> InE { match k.0 { 0 => InE::N(k.1), 1 => InE::U, 2 => InE::P(k.2 as u8, k.1), _ => InE::R { a: k.1 as u16, b: k.2 } } }
    fn key(&self) -> Key { match self { InE::N(x) => (0, *x, 0), InE::U => (1, 0, 0), InE::P(x, y) => (2, *y, *x as u64), InE::R { a, b } => (3, *a as u32, *b) } }
}
/// what an outer value is: its variant, its number, what it holds
#[derive(Clone, Copy)]
struct Full { i: u8, n: u8, k: Key, l: Key }
impl Full {
    fn nd() -> Full {
        match nd::u8_() {
            0 => Full { i: 0, n: 0, k: key(), l: (1, 0, 0) },
            1 => Full { i: 1, n: nd::u8_(), k: key(), l: key() },
            2 if MAXD >= 2 => Full { i: 2, n: 0, k: key(), l: (1, 0, 0) },
            3 if MAXD >= 3 => Full { i: 3, n: nd::u8_(), k: key(), l: key() },
            _ if MAXD >= 4 => Full { i: 4, n: 0, k: (1, 0, 0), l: (1, 0, 0) },
            _ => Full { i: 0, n: 0, k: (1, 0, 0), l: (1, 0, 0) },
        }
    }
    fn make(&self) -> OutE {
        match self.i {
            0 => OutE::C(In::from(InE::of(self.k))),
            1 => OutE::Pair(InE::of(self.k).into_tagged_box(), self.n, In::from(InE::of(self.l))),
            2 => OutE::B(InE::of(self.k).into_tagged_box()),
            3 => OutE::Rec { a: self.n, b: In::from(InE::of(self.k)), c: InE::of(self.l).into_tagged_box() },
            _ => OutE::U,
        }
    }
    /// takes the value apart
    fn matches(&self, v: OutE) -> bool {
        match v {
            OutE::C(x) => self.i == 0 && x.into_inner().key() == self.k,
            OutE::Pair(x, n, y) => self.i == 1 && n == self.n && x.discriminant() as u64 == self.k.0 as u64 && InE::from_tagged_box(x).key() == self.k && y.into_inner().key() == self.l,
            OutE::B(x) => self.i == 2 && x.discriminant() as u64 == self.k.0 as u64 && InE::from_tagged_box(x).key() == self.k,
            OutE::Rec { a, b, c } => self.i == 3 && a == self.n && b.into_inner().key() == self.k && InE::from_tagged_box(c).key() == self.l,
            OutE::U => self.i == 4,
        }
    }
    /// looks at it through inner views
    fn shows(&self, v: &OutE) -> bool {
        fn at(b: &TaggedBox<InE>, k: Key) -> bool {
            let (mut n, mut same) = (0, false);
            unsafe { InE::ref_from_tagged_box(b, |r| { n += 1; same = r.key() == k; }) };
            n == 1 && same
        }
        match v {
            OutE::C(x) => self.i == 0 && x.clone().into_inner().key() == self.k,
            OutE::Pair(x, n, y) => self.i == 1 && *n == self.n && at(x, self.k) && *y == In::from(InE::of(self.l)),
            OutE::B(x) => self.i == 2 && at(x, self.k),
            OutE::Rec { a, b, c } => self.i == 3 && *a == self.n && *b == In::from(InE::of(self.k)) && at(c, self.l),
            OutE::U => self.i == 4,
        }
    }
    /// order of the plain values
    fn order(&self, o: &Full) -> Ordering {
        fn plain(a: Key, b: Key) -> Ordering { match a.0.cmp(&b.0) { Ordering::Equal => if a.0 == 2 { (a.2, a.1).cmp(&(b.2, b.1)) } else { (a.1, a.2).cmp(&(b.1, b.2)) }, x => x } }
        let (a, b) = (plain(self.k, o.k), plain(self.l, o.l));
        match self.i.cmp(&o.i) {
            Ordering::Equal => match self.i { 1 => a.then(self.n.cmp(&o.n)).then(b), 3 => self.n.cmp(&o.n).then(a).then(b), _ => a },
            x => x,
        }
    }
}

/// a list of the first n of x
fn list(n: usize, x: &[u32; 3]) -> List {
    let mut l = List::from(ListE::Nil);
    let mut i = n;
    while i > 0 { i -= 1; l = List::from((x[i], l)); }
    l
}
fn is(mut l: List, n: usize, x: &[u32; 3]) -> bool {
    let mut i = 0;
    loop {
        match l.into_inner() {
            ListE::Nil => return i == n,
            ListE::Cons(v, t) => {
                if i >= n || v != x[i] { return false; }
                i += 1;
                l = t;
            }
        }
    }
}
fn length() -> usize { match nd::u8_() { 0 => 0, 1 => 1, 2 => 2, _ => 3 } }
fn three() -> [u32; 3] { [nd::u32_(), nd::u32_(), nd::u32_()] }

fn leaf(x: u32) -> TreeE { TreeE::Leaf(D(x)) }
/// ((a v b) w c)
fn tree(x: &[u32; 3], v: u16, w: u16) -> TaggedBox<TreeE> {
    let l = TreeE::Node { l: Tree::from(leaf(x[0])), v, r: leaf(x[1]).into_tagged_box() };
    TreeE::Node { l: Tree::from(l), v: w, r: leaf(x[2]).into_tagged_box() }.into_tagged_box()
}
/// takes it apart; the leaves' owner drops them
fn grown(t: TaggedBox<TreeE>, x: &[u32; 3], v: u16, w: u16) -> bool {
    fn d(e: TreeE) -> u32 { match e { TreeE::Leaf(D(n)) => n, _ => 0xdead } }
    if let TreeE::Node { l, v: w2, r } = TreeE::from_tagged_box(t) {
        let c = d(TreeE::from_tagged_box(r));
        if let TreeE::Node { l: a, v: v2, r: b } = l.into_inner() {
            return d(a.into_inner()) == x[0] && d(TreeE::from_tagged_box(b)) == x[1] && c == x[2] && v2 == v && w2 == w;
        }
    }
    false
}

/// one box against another
fn compare(f: Full, g: Full) {
    let (a, b) = (f.make().into_tagged_box(), g.make().into_tagged_box());
    let o = f.order(&g);
    check!((a == b) == (o == Ordering::Equal) && (a != b) == (o != Ordering::Equal), "equality follows the structure");
    check!(a.partial_cmp(&b) == Some(o), "order follows the structure");
    check!((a < b) == (o == Ordering::Less) && (a >= b) == (o != Ordering::Less), "so do the operators");
    check!(f.matches(OutE::from_tagged_box(a)) && g.matches(OutE::from_tagged_box(b)), "comparison leaves every level");
}

harnesses! {
    fn c26_round_trip() {
        let f = Full::nd();
        let v = f.make();
        if nd::bool_() {
            let b = v.into_tagged_box();
            check!(b.discriminant() as u64 == f.i as u64, "the outer tag is the outer variant's");
            check!(f.matches(OutE::from_tagged_box(b)), "every level comes back");
        } else {
            check!(f.matches(Out::from(v).into_inner()), "every level comes back from a container");
        }
        reach!("end");
    }
    fn c26_view() {
        let f = Full::nd();
        let b = f.make().into_tagged_box();
        let (bits, blocks) = (word(&b), nd::blocks());
        let mut n = 0;
        unsafe { OutE::ref_from_tagged_box(&b, |r| { n += 1; check!(f.i == 0 || f.shows(r), "views inside a view show the inner values") }) };
        check!(n == 1 && word(&b) == bits, "the outer box stays");
        check!(f.i == 0 || nd::blocks() >= blocks, "no block is returned");
        check!(f.matches(OutE::from_tagged_box(b)), "every level comes back afterwards");
        reach!("end");
    }
    fn c26_clone() {
        let f = Full::nd();
        let a = f.make().into_tagged_box();
        let b = a.clone();
        check!(a == b && word(&a) == word(&a), "a clone is equal");
        check!(b.discriminant() == a.discriminant(), "with the same tag");
        if nd::bool_() {
            check!(f.matches(OutE::from_tagged_box(a)), "the original gives every level");
            check!(f.matches(OutE::from_tagged_box(b)), "then so does the clone");
        } else {
            check!(f.matches(OutE::from_tagged_box(b)), "the clone gives every level");
            check!(f.matches(OutE::from_tagged_box(a)), "then so does the original");
        }
        reach!("end");
    }
    fn c26_clone_deep() {
        // the inner box is copied too: overwriting the one inside the original leaves the clone
        let (x, y) = (nd::u32_(), nd::u32_());
        let n = nd::blocks();
        let mut a = OutE::C(In::from(x)).into_tagged_box();
        check!(nd::blocks() == n + 2, "two levels, two blocks");
        let b = a.clone();
        check!(nd::blocks() == n + 4, "a clone copies both levels");
        unsafe {
            let inner = a.as_mut_ref::<TaggedBox<InE>>();
            *inner.as_mut_ref::<u32>() = y;
        }
        check!((a == b) == (x == y), "a change inside the original does not show in the clone");
        check!(matches!(OutE::from_tagged_box(b), OutE::C(i) if i.clone().into_inner().key() == (0, x, 0)), "the clone keeps the value");
        check!(matches!(OutE::from_tagged_box(a), OutE::C(i) if i.clone().into_inner().key() == (0, y, 0)), "the original has the new one");
        reach!("end");
    }
    fn c26_compare() {
        let (f, g) = (Full::nd(), Full::nd());
        nd::assume(f.i != 1 && f.i != 3 && g.i != 3);
        nd::assume(g.i != 1 || (f.i == 0 && g.k.0 < 2 && g.l.0 < 2));
        compare(f, g);
        reach!("end");
    }
    fn c26_compare_pair() {
        let (f, g) = (Full::nd(), Full::nd());
        nd::assume((f.i == 1 || f.i == 3) && g.i == f.i);
        nd::assume((f.k.0 == 0 || f.k.0 == 2) && f.l.0 < 2 && g.k.0 == f.k.0 && g.l.0 < 2);
        compare(f, g);
        reach!("end");
    }
    fn c26_replace() {
        // an inner box exchanged for another through the outer one's mutable access
        let (k, l) = (key(), key());
        let mut a = Full { i: if MAXD >= 2 { 2 } else { 0 }, n: 0, k, l: (1, 0, 0) }.make().into_tagged_box();
        let old = core::mem::replace(unsafe { a.as_mut_ref::<TaggedBox<InE>>() }, InE::of(l).into_tagged_box());
        check!(InE::from_tagged_box(old).key() == k, "what was inside is what was put there");
        check!(Full { i: if MAXD >= 2 { 2 } else { 0 }, n: 0, k: l, l: (1, 0, 0) }.matches(OutE::from_tagged_box(a)), "what is inside now is the other");
        reach!("end");
    }
    fn c26_list() {
        let (n, x) = (length(), three());
        let b = nd::blocks();
        let l = list(n, &x);
        check!(nd::blocks() == b + n as u64, "one block per element, none for the end");
        check!(is(l, n, &x), "a list gives its elements in order");
        reach!("end");
    }
    fn c26_list_clone() {
        let (n, x) = (length(), three());
        let l = list(n, &x);
        let b = nd::blocks();
        let m = l.clone();
        check!(nd::blocks() == b + n as u64, "a clone has blocks of its own, one per element");
        check!(l == m && l.cmp(&m) == Ordering::Equal, "and is equal");
        if nd::bool_() {
            check!(is(l, n, &x), "the original gives its elements");
            check!(is(m, n, &x), "then the clone");
        } else {
            check!(is(m, n, &x), "the clone gives its elements");
            check!(is(l, n, &x), "then the original");
        }
        reach!("end");
    }
    fn c26_list_compare() {
        let (n, x, m, y) = (length(), three(), length(), three());
        let (l, k) = (list(n, &x), list(m, &y));
        // Cons is declared first, so at the first difference in shape the longer list is the lesser
        let mut o = Ordering::Equal;
        let mut i = 0;
        while o == Ordering::Equal && (i < n || i < m) {
            o = if i >= n { Ordering::Greater } else if i >= m { Ordering::Less } else { x[i].cmp(&y[i]) };
            i += 1;
        }
        check!(l.cmp(&k) == o && l.partial_cmp(&k) == Some(o), "order of lists");
        check!((l == k) == (o == Ordering::Equal) && (l <= k) == (o != Ordering::Greater), "and the operators");
        check!(is(l, n, &x) && is(k, m, &y), "both lists stay");
        reach!("end");
    }
    fn c26_tree() {
        log::reset();
        let (x, v, w) = (three(), nd::u16_(), nd::u16_());
        let t = tree(&x, v, w);
        check!(log::drops() == 0, "building drops nothing");
        check!(grown(t, &x, v, w), "every level comes back");
        check!(log::drops() == 3 && log::drop_sum() == x[0].wrapping_add(x[1]).wrapping_add(x[2]), "each leaf is dropped once, by its owner");
        reach!("end");
    }
    fn c26_tree_clone() {
        log::reset();
        let (x, v, w) = (three(), nd::u16_(), nd::u16_());
        let t = tree(&x, v, w);
        let b = nd::blocks();
        let u = t.clone();
        check!(nd::blocks() == b + 5, "a clone copies every level");
        check!(log::clones() == 3 && log::drops() == 0, "each leaf is cloned once, none is dropped");
        check!(t == u, "a clone is equal");
        check!(grown(u, &x, v, w), "the clone gives every level");
        check!(log::drops() == 3, "its leaves are dropped");
        check!(grown(t, &x, v, w), "the original gives every level afterwards");
        check!(log::drops() == 6, "its leaves are dropped");
        reach!("end");
    }
    fn c26_tree_views() {
        log::reset();
        let (x, v, w) = (three(), nd::u16_(), nd::u16_());
        let t = tree(&x, v, w);
        let (bits, mut n) = (word(&t), 0);
        unsafe {
            TreeE::ref_from_tagged_box(&t, |e| if let TreeE::Node { v: w2, r, .. } = e {
                n += 1;
                check!(*w2 == w, "the outer level shows");
                TreeE::ref_from_tagged_box(r, |e| { n += 1; check!(matches!(e, TreeE::Leaf(d) if d.0 == x[2]), "the inner level shows") });
                TreeE::ref_from_tagged_box(&t, |e| { n += 1; check!(matches!(e, TreeE::Node { v: w3, .. } if *w3 == w), "the outer level shows again") });
            });
        }
        check!(n == 3 && log::drops() == 0 && word(&t) == bits, "views take nothing, at any depth");
        check!(grown(t, &x, v, w), "every level comes back");
        reach!("end");
    }
    fn c26_box_of_box() {
        // a box kept in a box, several deep, under different tags
        enum E {}
        let (x, d, e, f) = (nd::u64_(), disc(), disc(), disc());
        let a: TaggedBox<E> = TaggedBox::new(x, d);
        let aw = word(&a);
        let b: TaggedBox<E> = TaggedBox::new(a, e);
        let bw = word(&b);
        let c: TaggedBox<E> = TaggedBox::new(b, f);
        check!(c.discriminant() == f, "the outermost tag");
        let b2: TaggedBox<E> = unsafe { TaggedBox::into_inner(c) };
        check!(word(&b2) == bw && b2.discriminant() == e, "the middle box comes out whole");
        check!(word(unsafe { b2.as_ref::<TaggedBox<E>>() }) == aw, "the inner one shows through it");
        let a2: TaggedBox<E> = *unsafe { TaggedBox::into_box::<TaggedBox<E>>(b2) };
        check!(word(&a2) == aw && a2.discriminant() == d, "the inner box comes out whole");
        check!(unsafe { TaggedBox::into_inner::<u64>(a2) } == x, "with its value");
        reach!("end");
    }
    fn c26_list_long() {
        // twelve levels, cloned, compared and taken apart
        let (x, n) = (nd::u32_(), 12u32);
        let mut l = List::from(ListE::Nil);
        let mut i = 0;
        while i < n { l = List::from((x.wrapping_add(i), l)); i += 1; }
        let m = l.clone();
        check!(l == m && l.cmp(&m) == Ordering::Equal, "equal at every level");
        // another list, different at one level only
        let (at, y) = (nd::u8_(), nd::u32_());
        nd::assume((at as u32) < n);
        let mut k = List::from(ListE::Nil);
        let mut i = 0;
        while i < n { k = List::from((if i == at as u32 { y } else { x.wrapping_add(i) }, k)); i += 1; }
        let o = x.wrapping_add(at as u32).cmp(&y);
        check!(l.cmp(&k) == o && l.partial_cmp(&k) == Some(o) && (l == k) == (o == Ordering::Equal), "a difference at any level shows");
        let (mut l, mut m) = (l, m);
        let mut i = n;
        while i > 0 {
            i -= 1;
            match (l.into_inner(), m.into_inner()) {
                (ListE::Cons(a, s), ListE::Cons(b, t)) => {
                    check!(a == x.wrapping_add(i) && b == a, "each level in turn");
                    l = s;
                    m = t;
                }
                _ => { check!(false, "as many levels as were put in"); return; }
            }
        }
        check!(matches!(l.into_inner(), ListE::Nil) && matches!(m.into_inner(), ListE::Nil), "and no more");
        reach!("end");
    }
}
