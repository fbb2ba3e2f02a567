#!/usr/bin/env python3
"""Writes harness/src/c09_arity.rs and c12_arity.rs (committed; rerun by hand only)."""
import os
H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "src")
MIX = ["u8", "u32", "u16", "u64", "bool", "u8", "u64", "u16", "u32"]

def ty(kind, n, i):
    return "u8" if kind == "s" else MIX[(n * 2 + i) % len(MIX)]
def val(t, i):
    return "f[%d] & 1 == 1" % i if t == "bool" else "f[%d] as %s" % (i, t)

def enum(kind, lo, hi):
    nm = "%s%d" % (kind.upper(), lo)
    vs = []
    for n in range(lo, hi + 1):
        vs.append("        V%d(%s)," % (n, ", ".join(ty(kind, n, i) for i in range(n))))
    s = "tagged_box! {\n    pub struct C%s, pub enum E%s {\n%s\n    }\n}\n" % (nm, nm, "\n".join(vs))
    s += "fn mk_%s(k: u8, f: &[u64; 32]) -> E%s {\n    match k {\n" % (nm.lower(), nm)
    for j, n in enumerate(range(lo, hi + 1)):
        pat = "_" if n == hi else str(j)
        s += "        %s => E%s::V%d(%s),\n" % (pat, nm, n, ", ".join(val(ty(kind, n, i), i) for i in range(n)))
    s += "    }\n}\n"
    s += "fn is_%s(k: u8, e: &E%s, f: &[u64; 32]) -> bool {\n    match e {\n" % (nm.lower(), nm)
    for j, n in enumerate(range(lo, hi + 1)):
        conds = ["k == %d" % j if n != hi else "k >= %d" % j]
        for i in range(n):
            t = ty(kind, n, i)
            conds.append("*x%d == (%s)" % (i, val(t, i)))
        s += "        E%s::V%d(%s) => %s,\n" % (nm, n, ", ".join("x%d" % i for i in range(n)), " && ".join(conds))
    s += "    }\n}\n"
    return nm, s

def main():
    out = ["//! C09, generated by engine/gen_arity.py: tuple variants of every arity from 0 to 32",
           "use crate::nd;", "use crate::spec::*;", "use tagged_box::{TaggableContainer, TaggableInner};", "",
           "static mut SEEN: u32 = 0;",
           "fn fields() -> [u64; 32] {", "    let mut f = [0u64; 32];", "    let mut i = 0;",
           "    while i < 32 { f[i] = nd::u64_(); i += 1; }", "    f", "}",
           "fn pick(n: u8) -> u8 {", "    let k = nd::u8_();", "    nd::assume(k < n && k as u64 <= MAXD);", "    k", "}", ""]
    names = []
    for kind in "sm":
        for lo, hi in [(0, 7), (8, 15), (16, 23), (24, 32)]:
            nm, s = enum(kind, lo, hi)
            out.append(s)
            names.append((nm, hi - lo + 1))
    out.append("harnesses! {")
    for nm, n in names:
        l = nm.lower()
        out.append("""    fn c09_arity_%(l)s_container() {
        let (k, f) = (pick(%(n)d), fields());
        let c = C%(nm)s::from(mk_%(l)s(k, &f));
        check!(is_%(l)s(k, &c.into_inner(), &f), "container into_inner yields the same variant and fields");
        reach!("end");
    }
    fn c09_arity_%(l)s_from_tagged() {
        let (k, f) = (pick(%(n)d), fields());
        let b = mk_%(l)s(k, &f).into_tagged_box();
        check!(is_%(l)s(k, &E%(nm)s::from_tagged_box(b), &f), "from_tagged_box yields the same variant and fields");
        reach!("end");
    }
    fn c09_arity_%(l)s_view() {
        let (k, f) = (pick(%(n)d), fields());
        let b = mk_%(l)s(k, &f).into_tagged_box();
        unsafe {
            SEEN = 0;
            E%(nm)s::ref_from_tagged_box(&b, |r| {
                SEEN += 1;
                check!(is_%(l)s(k, r, &f), "the borrowed view shows the same variant and fields");
            });
            check!(SEEN == 1, "the borrowed view was shown");
        }
        reach!("end");
    }""" % dict(l=l, nm=nm, n=n))
    out.append("}")
    open(os.path.join(H, "c09_arity.rs"), "w").write("\n".join(out) + "\n")

    out = ["//! C12, generated by engine/gen_arity.py: From tuples of every arity from 0 to 32",
           "use crate::nd;", "use crate::spec::*;", "use tagged_box::TaggableContainer;", ""]
    hs = []
    for lo, hi in [(0, 7), (8, 15), (16, 23), (24, 32)]:
        nm, s = enum("m", lo, hi)
        s = s.split("fn mk_")[0] + "fn is_" + s.split("fn is_")[1]
        out.append(s)
        l = nm.lower()
        body = ""
        for j, n in enumerate(range(lo, hi + 1)):
            pat = "_" if n == hi else str(j)
            vals = [val(ty("m", n, i), i) for i in range(n)]
            arg = vals[0] if n == 1 else "(" + ", ".join(vals) + ")"
            body += "            %s => C%s::from(%s),\n" % (pat, nm, arg)
        hs.append("""    fn c12_arity_%s() {
        let k = nd::u8_();
        nd::assume(k < %d && k as u64 <= MAXD);
        let mut f = [0u64; 32];
        let mut i = 0;
        while i < 32 { f[i] = nd::u64_(); i += 1; }
        let c = match k {
%s        };
        let w = unsafe { core::mem::transmute_copy::<C%s, u64>(&c) };
        check!(w >> W == k as u64, "the tag of the variant that declares the payload");
        check!(is_%s(k, &c.into_inner(), &f), "the fields in declaration order");
        reach!("end");
    }""" % (l, hi - lo + 1, body, nm, l))
    out.append("harnesses! {")
    out += hs
    out.append("}")
    open(os.path.join(H, "c12_arity.rs"), "w").write("\n".join(out) + "\n")
main()
