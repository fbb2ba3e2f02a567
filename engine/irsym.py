"""irsym: symbolic execution of the LLVM IR rustc emits for /repo's crate and the harness crate.

Every path is explored (depth first, forking on every condition the solver finds undecided); harness inputs
(nd_*) and the addresses returned by the allocator are bit-vector variables. Memory is a set of disjoint byte
arrays; every access is resolved to one of them by the solver, and out-of-bounds, dangling, misaligned and
uninitialised uses, bad frees and undefined arithmetic are reported. A report carries a model.
"""
import bisect
import copy
import re
import struct
import subprocess
import sys
import time

import z3

import llparse
from llparse import (Module, Reg, Sym, UNDEF, Unsupported, P, sizeof, storesize, alignof, bits, PTR, VOID)

M64 = (1 << 64) - 1
FBASE, GBASE, SBASE, RHI = 0x540000000000, 0x548000000000, 0x550000000000, 0x560000000000
# addresses a native replay can map (normally empty on Linux x86-64)
NAT_LO, NAT_HI = 0x100000000000, 0x200000000000


class Bytes:
    """a partially initialised scalar"""
    __slots__ = ('cells',)

    def __init__(self, cells):
        self.cells = cells


class Callee:
    __slots__ = ('mod', 'name', 'target')

    def __init__(self, mod, name):
        self.mod, self.name, self.target = mod, name, None


class PathEnd(Exception):
    """this path is finished"""


class Inconclusive(Exception):
    pass


class Obj:
    __slots__ = ('id', 'base', 'size', 'align', 'cells', 'kind', 'live', 'owner', 'k')

    def __init__(self, id, base, size, align, cells, kind, owner):
        self.id, self.base, self.size, self.align = id, base, size, align
        self.cells, self.kind, self.live, self.owner, self.k = cells, kind, True, owner, 0

    def copy(self, owner):
        o = Obj(self.id, self.base, self.size, self.align, list(self.cells), self.kind, owner)
        o.live, o.k = self.live, self.k
        return o


class Frame:
    __slots__ = ('fn', 'blk', 'ip', 'regs', 'lab', 'prev', 'allocas', 'kind')

    def __init__(self, fn, kind=None):
        self.fn = fn
        self.lab = fn.entry
        self.blk = fn.blocks[fn.entry]
        self.ip = 0
        self.regs = {}
        self.prev = None
        self.allocas = []
        self.kind = kind

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.blk, f.ip, f.regs, f.lab, f.prev = self.fn, self.blk, self.ip, dict(self.regs), self.lab, self.prev
        f.allocas, f.kind = list(self.allocas), self.kind
        return f

    def jump(self, lab):
        self.prev = self.lab
        self.lab = lab
        self.blk = self.fn.blocks[lab]
        self.ip = 0


class State:
    __slots__ = ('frames', 'mem', 'sb', 'heap', 'pc', 'model', 'known', 'nds', 'allocs', 'mode', 'sp', 'token',
                 'resc', 'events', 'steps', 'nalloc', 'last', 'dirty', 'decisions', 'apart', 'lazy')

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.sb = list(self.sb)
        s.heap = list(self.heap)
        s.pc = list(self.pc)
        s.apart, s.lazy = dict(self.apart), list(self.lazy)
        s.model = self.model
        s.known = dict(self.known)
        s.nds = list(self.nds)
        s.allocs = list(self.allocs)
        s.mode, s.sp = self.mode, self.sp
        s.resc = dict(self.resc)
        s.events = list(self.events)
        s.steps, s.nalloc, s.last, s.dirty = self.steps, self.nalloc, self.last, self.dirty
        s.decisions = self.decisions + 1
        self.decisions += 1
        s.token = object()
        self.token = object()
        return s


def demangle(names):
    if not names:
        return {}
    r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    out = r.stdout.split('\n')
    return {n: re.sub(r'\[[0-9a-f]{8,16}\]', '', d) for n, d in zip(names, out)}


class Program:
    def __init__(self, mods, std=()):
        """mods: .ll files of the code under test; std: .ll of core, used for functions the first lack"""
        self.mods = [Module(p) for p in mods]
        self.std = [Module(p) for p in std]
        self.defs = {}
        for m in self.mods:
            for n in m.defs:
                if n not in m.local:
                    self.defs.setdefault(n, m)
        self.gdefs = {}
        for m in self.mods:
            for n in m.globals:
                if n not in m.local and ' external ' not in m.globals[n][:len(n) + 24]:
                    self.gdefs.setdefault(n, m)
        self.stdnames = None
        self.dm = {}
        self.funcs = {}
        self.gaddr = {}
        self.gobjs = {}
        self.gbases = []
        self.gnext = GBASE
        self.faddr = {}
        self.fbyaddr = {}
        self.fnext = FBASE
        allext = set()
        for m in self.mods:
            allext.update(n[1:] for n in m.decls)
        self.dm = demangle(sorted(allext))

    def demangled(self, name):
        n = name.lstrip('@')
        if n not in self.dm:
            self.dm.update(demangle([n]))
        return self.dm[n]

    def std_lookup(self, name):
        if self.stdnames is None:
            self.stdnames = {}
            for m in self.std:
                ns = [n[1:] for n in m.defs]
                d = demangle(ns)
                for n in ns:
                    self.stdnames.setdefault(d[n], []).append((m, '@' + n))
        c = self.stdnames.get(self.demangled(name))
        if c and len(c) == 1:
            return c[0]
        return None

    def find(self, mod, name):
        """module that defines function `name` as seen from `mod`, and the name there"""
        if name in mod.defs:
            return mod, name
        if name in self.defs:
            return self.defs[name], name
        return None

    def func(self, mod, name):
        k = (mod, name)
        f = self.funcs.get(k)
        if f is None:
            f = mod.func(name)
            for lab, ins in f.blocks.items():
                f.blocks[lab] = [self.fix(mod, x) for x in ins]
            self.funcs[k] = f
        return f

    def fix(self, mod, x):
        if x[0] == 'call' and isinstance(x[3], Sym):
            return (x[0], x[1], x[2], Callee(mod, str(x[3])), self.fixv(mod, x[4]), x[5], x[6])
        if x[0] == 'switch':
            return x[:3] + (self.fixv(mod, x[3]),) + x[4:]
        if x[0] == 'phi':
            return x[:3] + ({k: self.fixv(mod, v) for k, v in x[3].items()},)
        return tuple(self.fixv(mod, v) for v in x)

    def fixv(self, mod, v):
        c = v.__class__
        if c is Sym:
            return self.addr(mod, str(v))
        if c is tuple:
            if len(v) == 3 and v[0] == 'gepc':
                return (self.fixv(mod, v[1]) + v[2]) & M64
            if v and isinstance(v[0], str) and v[0] in ('i', 'ptr', 'f', 'arr', 'st', 'void') and not isinstance(v[0], (Reg, Sym)):
                return v
            return tuple(self.fixv(mod, e) for e in v)
        return v

    def addr(self, mod, name):
        if name in mod.globals and (name in mod.local or ' external ' not in mod.globals[name][:len(name) + 24]):
            return self.gobj(mod, name)
        if name in self.gdefs:
            return self.gobj(self.gdefs[name], name)
        # function
        d = self.find(mod, name)
        k = d if d else (None, name)
        if k not in self.faddr:
            a = self.fnext
            self.fnext += 16
            self.faddr[k] = a
            c = Callee(mod, name)
            self.fbyaddr[a] = c
        return self.faddr[k]

    def gobj(self, mod, name):
        k = (mod, name)
        if k in self.gaddr:
            return self.gaddr[k]
        l = mod.globals[name]
        llparse.NAMED = mod.types
        p = P(l)
        p.next()
        p.need('=')
        ro = False
        while True:
            x = p.next()
            if x == 'constant':
                ro = True
                break
            if x == 'global':
                break
            if p.peek() == '(':
                p.skip_paren()
        t = p.type()
        v = p.value(t)
        al = 1
        while p.peek():
            if p.next() == 'align':
                al = int(p.next())
                break
        size = sizeof(t)
        al = max(al, 16)
        a = (self.gnext + al - 1) // al * al
        self.gnext = a + size + 16
        self.gaddr[k] = a
        o = Obj(a, a, size, al, [], 'ro' if ro else 'g', None)
        self.gobjs[a] = o
        self.gbases.append(a)
        cells = []
        self.flatten(mod, t, v, cells)
        assert len(cells) == size, (name, len(cells), size)
        o.cells = cells
        return a

    def flatten(self, mod, t, v, cells):
        if v is UNDEF:
            cells.extend([None] * sizeof(t))
        elif t[0] == 'arr':
            if t[2] == ('i', 8) and (not v or isinstance(v[0], int)):
                cells.extend(v)
            else:
                for e in v:
                    self.flatten(mod, t[2], e, cells)
        elif t[0] == 'st':
            o = len(cells)
            for i, e in enumerate(t[1]):
                if not t[2]:
                    a = alignof(e)
                    while (len(cells) - o) % a:
                        cells.append(None)
                self.flatten(mod, e, v[i], cells)
            while len(cells) - o < sizeof(t):
                cells.append(None)
        else:
            x = self.fixv(mod, v)
            cells.extend(x.to_bytes(sizeof(t), 'little'))


ABORTS = ('core::panicking::panic_misaligned', 'core::panicking::panic_null', 'core::panicking::panic_nounwind',
          'core::panicking::panic_cannot_unwind', 'core::panicking::panic_in_cleanup',
          'core::panicking::panic_invalid_enum', 'std::process::abort', 'std::process::exit', 'core::intrinsics::abort',
          'core::panicking::panic_immediate_abort')
PANICS = ('core::panicking::', 'core::option::expect_failed', 'core::option::unwrap_failed', 'core::result::unwrap_failed',
          'core::slice::index::slice_', 'core::str::slice_error_fail', 'core::cell::panic', 'core::alloc::',
          'alloc::alloc::handle_alloc_error', 'alloc::raw_vec::handle_error', 'alloc::raw_vec::capacity_overflow',
          'std::panicking::', 'core::slice::copy_from_slice_impl::len_mismatch', 'core::num::')


def tobool(v):
    if isinstance(v, int):
        return z3.BoolVal(bool(v))
    return v


def tobv(v, n):
    if isinstance(v, int):
        return z3.BitVecVal(v, n)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
    return v


def norm(e):
    """simplify; constants become ints"""
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) else v


class Engine:
    def __init__(self, prog, width, seed=0, max_paths=20000, max_steps=3000000, time_limit=600, query_ms=120000,
                 fixed=None, prefer=None, keep_unsat=None):
        self.prog, self.W = prog, width
        self.max_paths, self.max_steps, self.time_limit, self.query_ms = max_paths, max_steps, time_limit, query_ms
        self.fixed = fixed          # (nds, addrs): concrete re-execution
        self.solver = None
        self.fp = False
        self.stack = []
        self.queries = 0
        self.solver_s = 0.0
        self.seed = seed
        self.keep_unsat = keep_unsat
        self.ops = {n[3:]: getattr(self, n) for n in dir(self) if n.startswith('op_')}
        self.seen = {}

    # ---- solver -------------------------------------------------------------------------------
    def new_solver(self):
        self.deadline = float('inf')
        self.slow = False
        self.symbols = {}
        self.reset()

    def reset(self):
        self.solver = z3.Solver() if self.fp else z3.SolverFor('QF_BV')
        self.solver.set('timeout', min(self.query_ms, 300))
        self.solver.set('random_seed', self.seed)
        self.stack = []

    def sync(self, pc):
        s, k = self.stack, 0
        n = min(len(s), len(pc))
        while k < n and s[k] is pc[k]:
            k += 1
        if k < len(s):
            self.solver.pop(len(s) - k)
            del s[k:]
        for c in pc[k:]:
            self.solver.push()
            self.solver.add(c)
            s.append(c)

    def query(self, st, *cs, ms=None):
        """model of pc, cs and the blocks' disjointness, or None

        That two blocks do not overlap (st.apart) rarely decides a query and is expensive to reason about: each such
        constraint is given to the solver when a model first violates it. (Leaving constraints out can only add models:
        unsat stays unsat, and a model is returned only when it satisfies all of them.)"""
        t = time.time()
        self.queries += 1
        lazy = st.lazy
        end = min(t + (ms or self.query_ms) / 1000, self.deadline)
        near = self.between(st, cs)
        if lazy:
            cs = cs + tuple(lazy)
        cs = cs + near
        while True:
            m = s = None
            r = z3.unknown
            if not self.slow:
                self.sync(st.pc)
                s = self.solver
                r = s.check(*cs)
                if r == z3.unknown:
                    # hard for the incremental solver: from here on ask only about what a query depends on (and start
                    # with a new one next time: popping the one that gave up can take forever)
                    self.reset()
                    self.slow = True
            if r == z3.unknown:
                r, m, s = self.sliced(st, cs, end)
            if r == z3.unknown:
                left = int((end - time.time()) * 1000)
                if left <= 0:
                    self.solver_s += time.time() - t
                    raise Inconclusive('solver: time limit')
                s = z3.Solver() if self.fp else z3.SolverFor('QF_BV')
                s.set('timeout', left)
                s.set('random_seed', self.seed)
                s.add(*st.pc)
                s.add(*cs)
                r = s.check()
            if r != z3.sat:
                break
            if m is None:
                m = s.model()
            new = [c for c in st.apart.values() if not z3.is_true(m.eval(c, model_completion=True))]
            if not new:
                self.solver_s += time.time() - t
                return m
            if time.time() > end:
                self.solver_s += time.time() - t
                raise Inconclusive('solver: time limit')
            cs = cs + tuple(new)
            have = {c.get_id() for c in lazy}
            lazy.extend(c for c in new if c.get_id() not in have)
        self.solver_s += time.time() - t
        if r == z3.unsat:
            if self.keep_unsat is not None and len(self.keep_unsat) < 400:
                s2 = z3.Solver()
                s2.add(*st.pc)
                s2.add(*cs)
                self.keep_unsat.append(s2.to_smt2())
            return None
        raise Inconclusive('solver: %s' % s.reason_unknown())

    def names(self, e):
        """the symbols in e"""
        h = self.symbols.get(e.get_id())
        if h is None:
            out, todo, seen = set(), [e], set()
            while todo:
                x = todo.pop()
                i = x.get_id()
                if i not in seen:
                    seen.add(i)
                    if x.num_args():
                        todo += x.children()
                    elif z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        out.add(x.decl().name())
            h = self.symbols[e.get_id()] = (e, frozenset(out))
        return h[1]

    def sliced(self, st, cs, end):
        """cs with only those path constraints they share symbols with, directly or through others. Unsat of a part is
        unsat; a model of the part, with the state's model for the rest, counts when it satisfies everything."""
        want = set()
        for c in cs:
            want |= self.names(c)
        rest, part, grown = st.pc, [], True
        while grown:
            grown, left = False, []
            for c in rest:
                v = self.names(c)
                if v and want.isdisjoint(v):
                    left.append(c)
                else:
                    part.append(c)
                    if not v <= want:
                        want |= v
                        grown = True
            rest = left
        ms = int((end - time.time()) * 1000)
        if ms <= 0:
            return z3.unknown, None, None
        s = z3.Solver() if self.fp else z3.SolverFor('QF_BV')
        s.set('timeout', min(ms, 20000))
        s.set('random_seed', self.seed)
        s.add(*part)
        s.add(*cs)
        r = s.check()
        if r != z3.sat:
            return r, None, s
        got = s.model()
        m = copy.copy(st.model)
        for d in got.decls():
            m.update_value(d, got[d])
        if all(z3.is_true(m.eval(c, model_completion=True)) for l in (st.pc, cs) for c in l):
            return r, m, s
        return z3.unknown, None, s

    def between(self, st, cs):
        """the disjointness constraints between the few blocks whose addresses cs names"""
        hs, todo, n = set(), list(cs), 0
        while todo:
            e = todo.pop()
            n += 1
            if n > 60 or len(hs) > 3:
                return ()
            if e.num_args():
                todo += e.children()
            elif z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                x = e.decl().name()
                if x[0] == 'h' and x[1:].isdigit():
                    hs.add(int(x[1:]))
        if len(hs) < 2:
            return ()
        hs = sorted(hs)
        return tuple(c for i, a in enumerate(hs) for b in hs[i + 1:] for c in (st.apart.get((a, b)),) if c is not None)

    def add(self, st, c, model=None):
        st.pc.append(c)
        if model is not None:
            st.model = model

    def mval(self, st, e):
        """value of e in the state's model"""
        if isinstance(e, int):
            return e
        v = st.model.eval(e, model_completion=True)
        if z3.is_bool(v):
            if z3.is_true(v):
                return 1
            if z3.is_false(v):
                return 0
        elif z3.is_bv_value(v):
            return v.as_long()
        v = z3.simplify(v)
        if z3.is_true(v) or z3.is_false(v):
            return int(z3.is_true(v))
        if z3.is_bv_value(v):
            return v.as_long()
        raise Inconclusive('model value of %s' % e)

    def decide(self, st, c):
        """truth of c on this path; forks when both are possible. Call before any side effect of the instruction."""
        if isinstance(c, int):
            return bool(c)
        if c is UNDEF or isinstance(c, Bytes):
            self.error(st, 'uninit', 'control flow depends on an uninitialised value')
        k = c.get_id()
        h = st.known.get(k)
        if h is not None:
            return h[1]
        v = bool(self.mval(st, c))
        other = z3.Not(c) if v else c
        m = self.query(st, other)
        if m is None:
            st.known[k] = (c, v)
            return v
        sib = st.fork()
        sib.pc.append(other)
        sib.model = m
        sib.known[k] = (c, not v)
        self.work.append(sib)
        st.pc.append(c if v else z3.Not(c))
        st.known[k] = (c, v)
        return v

    def must(self, st, c, kind, what):
        """c must hold on every continuation, else report"""
        if isinstance(c, int):
            if not c:
                self.error(st, kind, what)
            return
        k = c.get_id()
        h = st.known.get(k)
        if h is not None and h[1]:
            return
        nc = z3.Not(c)
        m = st.model if not self.mval(st, c) else self.query(st, nc)
        if m is not None:
            sib = State.fork(st)
            sib.model = m
            sib.pc.append(nc)
            self.report(sib, kind, what)
            m2 = st.model if self.mval(st, c) else self.query(st, c)
            if m2 is None:
                raise PathEnd
            st.pc.append(c)
            st.model = m2
        st.known[k] = (c, True)

    def unique(self, st, e):
        """a concrete value for e; forks over the alternatives"""
        if isinstance(e, int):
            return e
        if e is UNDEF or isinstance(e, Bytes):
            self.error(st, 'uninit', 'use of an uninitialised value')
        v = self.mval(st, e)
        c = e == v
        if self.decide(st, c):
            return v
        raise AssertionError

    # ---- reports ------------------------------------------------------------------------------
    def error(self, st, kind, what):
        self.report(st, kind, what)
        raise PathEnd

    def trace(self, st):
        return [f.fn.name for f in st.frames]

    def witness(self, st, extra=(), ms=3000):
        """concrete inputs for this path, preferring addresses a native run can realise"""
        m = st.model
        nat = True
        cs = []
        for (b, size, align, *_) in st.allocs:
            if not isinstance(b, int):
                cs += [z3.UGE(b, NAT_LO), z3.ULT(b, NAT_HI)]

        def holds(m):
            return all(z3.is_true(m.eval(c, model_completion=True)) for l in (cs, extra, st.pc, st.apart.values()) for c in l)
        if cs and not holds(m):
            # spread out, the rest as it is? otherwise the solver finds addresses
            m2 = copy.copy(m)
            a = NAT_LO
            for (b, size, align, *v) in st.allocs:
                if v:
                    a = (a + 0x100000 + align - 1) // align * align
                    m2.update_value(v[0], z3.BitVecVal(a >> (align.bit_length() - 1), v[0].size()))
                    a += size
            if not holds(m2):
                try:
                    m2 = self.query(st, *cs, *extra, ms=ms)
                except Inconclusive:
                    m2 = None
            if m2 is not None:
                m = m2
            else:
                nat = False
        def ev(e):
            if isinstance(e, int):
                return e
            return m.eval(e, model_completion=True).as_long()
        for (b, *_) in st.allocs:
            if isinstance(b, int) and b != 0 and not NAT_LO <= b < NAT_HI:
                nat = False
        return {'nds': [ev(e) for e in st.nds], 'addrs': [ev(a[0]) for a in st.allocs], 'native': nat}

    def report(self, st, kind, what):
        where = ''
        for f in reversed(st.frames):
            where = f.fn.name
            if 'tagged_box' in where:
                break
        key = (kind, what)
        self.nviol += 1
        if self.seen.get(key, 0) >= 3:
            return
        self.seen[key] = self.seen.get(key, 0) + 1
        w = self.witness(st, ms=30000)
        w.update(kind=kind, label=what, harness=self.harness, trace=self.trace(st)[-12:], events=list(st.events))
        self.reports.append(w)

    # ---- memory -------------------------------------------------------------------------------
    def getobj(self, st, id):
        o = st.mem.get(id)
        return o if o is not None else self.prog.gobjs[id]

    def wobj(self, st, o):
        if o.owner is not st.token:
            o = o.copy(st.token)
            st.mem[o.id] = o
        return o

    def concrete_obj(self, st, a, n):
        if a >= SBASE:
            b = st.sb
        else:
            b = self.prog.gbases
        i = bisect.bisect_right(b, a) - 1
        if i >= 0:
            o = self.getobj(st, b[i])
            if a + n <= o.base + o.size and a - o.base <= o.size:
                return o, a - o.base
        return None

    def resolve(self, st, a, n, al, write, what):
        """the object and offset an access of n>0 bytes at address a falls into"""
        if a is UNDEF or isinstance(a, Bytes):
            self.error(st, 'memory', '%s through an uninitialised pointer' % what)
        if isinstance(a, int):
            if GBASE <= a < RHI:
                r = self.concrete_obj(st, a, n)
                if r is None:
                    self.error(st, 'memory', '%s outside any live object' % what)
                if write and r[0].kind == 'ro':
                    self.error(st, 'memory', 'write to constant memory')
                if al > 1 and a % al:
                    self.error(st, 'memory', 'misaligned %s' % what)
                return r
            if a < 4096:
                self.error(st, 'memory', '%s through a null or dangling pointer' % what)
            return self.heap_resolve(st, z3.BitVecVal(a, 64), n, al, write, what)
        k = a.get_id()
        h = st.resc.get(k)
        if h is None:
            h = self.heap_resolve(st, a, n, al, write, what, k)
            return h
        _, id, off = h
        o = self.getobj(st, id)
        self.check_access(st, o, off, n, al, write, what, a)
        return o, off

    def check_access(self, st, o, off, n, al, write, what, a):
        if not o.live:
            self.error(st, 'memory', '%s of freed memory' % what)
        if off < 0 or off + n > o.size:
            self.error(st, 'memory', '%s outside its block' % what)
        if write and o.kind == 'ro':
            self.error(st, 'memory', 'write to constant memory')
        if al > 1 and not (o.align % al == 0 and off % al == 0):
            if isinstance(a, int):
                c = int(a % al == 0)
            else:
                c = norm(a & (al - 1) == 0)
            self.must(st, c, 'memory', 'misaligned %s' % what)

    def heap_resolve(self, st, a, n, al, write, what, key=None):
        # structural: a - base is a constant for some block
        for id in st.heap:
            o = st.mem[id]
            if isinstance(o.base, int):
                d = norm(a - o.base)
            elif a.eq(o.base):
                d = 0
            else:
                d = norm(a - o.base)
            if isinstance(d, int):
                d = sgn(d, 64)
                if abs(d) < 1 << 32:
                    if key is not None:
                        st.resc[key] = (a, id, d)
                    self.check_access(st, o, d, n, al, write, what, a)
                    return o, d
        v = self.mval(st, a)
        # the object the model's address falls in
        best = None
        for id in st.heap:
            o = st.mem[id]
            b = self.mval(st, o.base)
            if b <= v < b + max(o.size, 1):
                best = (o, v - b)
                break
        if best is None:
            r = self.concrete_obj(st, v, n) if GBASE <= v < RHI else None
            if r is None:
                self.error(st, 'memory', '%s outside any live object' % what)
            best = r
        o, off = best
        if not self.decide(st, norm(a == o.base + off)):
            raise AssertionError
        # (when other offsets or objects are possible, the sibling re-executes and resolves those)
        if key is not None:
            st.resc[key] = (a, o.id, off)
        self.check_access(st, o, off, n, al, write, what, a)
        return o, off

    def load_cells(self, st, a, n, al, what='read'):
        o, off = self.resolve(st, a, n, al, False, what)
        return o.cells[off:off + n]

    def store_cells(self, st, a, cells, al, what='write'):
        o, off = self.resolve(st, a, len(cells), al, True, what)
        o = self.wobj(st, o)
        o.cells[off:off + len(cells)] = cells

    @staticmethod
    def cells_value(cells, t):
        try:
            return int.from_bytes(cells, 'little')
        except TypeError:
            pass
        n = len(cells)
        c0 = cells[0]
        if c0.__class__ is tuple and c0[1] == 0:
            e = c0[0]
            if e.size() == 8 * n:
                for i in range(1, n):
                    c = cells[i]
                    if c.__class__ is not tuple or c[0] is not e or c[1] != i:
                        break
                else:
                    return e
        if all(c is None for c in cells):
            return UNDEF
        if any(c is None for c in cells):
            return Bytes(list(cells))
        # group runs of bytes of the same expression
        parts = []
        i = 0
        while i < n:
            c = cells[i]
            if c.__class__ is int:
                j = i
                v = 0
                while j < n and cells[j].__class__ is int:
                    v |= cells[j] << (8 * (j - i))
                    j += 1
                parts.append(z3.BitVecVal(v, 8 * (j - i)))
            else:
                e, k = c
                j = i + 1
                while j < n and cells[j].__class__ is tuple and cells[j][0] is e and cells[j][1] == k + j - i:
                    j += 1
                parts.append(z3.Extract(8 * (k + j - i) - 1, 8 * k, e))
            i = j
        return norm(z3.Concat(*reversed(parts)) if len(parts) > 1 else parts[0])

    def load(self, st, t, a, al):
        if t[0] == 'st' or t[0] == 'arr':
            return self.load_agg(st, t, a, al)
        n = storesize(t)
        if n == 0:
            return 0
        v = self.table_load(st, a, n, al) if a.__class__ is not int else None
        if v is None:
            cells = self.load_cells(st, a, n, al)
            v = self.cells_value(cells, t)
        w = bits(t)
        if w != 8 * n and v is not UNDEF:
            if isinstance(v, int):
                v &= (1 << w) - 1
            else:
                v = norm(z3.Extract(w - 1, 0, v))
                if w == 1:
                    v = norm(v == 1) if not isinstance(v, int) else v
        return v

    def table_load(self, st, a, n, al):
        """read at a symbolic position of a constant table: one expression instead of a fork per entry"""
        if a is UNDEF or a.__class__ is Bytes or n > 8 or a.get_id() in st.resc:
            return None
        v = self.mval(st, a)
        if not GBASE <= v < SBASE:
            return None
        r = self.concrete_obj(st, v, n)
        if r is None or r[0].kind != 'ro' or not 1 < r[0].size <= 256:
            return None
        o = r[0]
        if not all(c.__class__ is int for c in o.cells):
            return None
        if not self.decide(st, norm(z3.And(z3.UGE(a, o.base), z3.ULE(a, o.base + o.size - n)))):
            return None
        if al > 1:
            self.must(st, norm(a & (al - 1) == 0), 'memory', 'misaligned read')
        e = None
        for off in range(o.size - n, -1, -1):
            if off % max(al, 1):
                continue
            c = z3.BitVecVal(int.from_bytes(bytes(o.cells[off:off + n]), 'little'), 8 * n)
            e = c if e is None else z3.If(a == o.base + off, c, e)
        return norm(e)

    def load_agg(self, st, t, a, al):
        n = sizeof(t)
        cells = self.load_cells(st, a, n, al) if n else []

        def go(t, o):
            if t[0] == 'st':
                r = []
                p = o
                for e in t[1]:
                    if not t[2]:
                        al = alignof(e)
                        p = (p + al - 1) // al * al
                    r.append(go(e, p))
                    p += sizeof(e)
                return tuple(r)
            if t[0] == 'arr':
                s = sizeof(t[2])
                return tuple(go(t[2], o + i * s) for i in range(t[1]))
            return self.cells_value(cells[o:o + storesize(t)], t)
        return go(t, 0)

    def to_cells(self, t, v):
        if t[0] == 'st':
            out = [None] * sizeof(t)
            o = 0
            for e, x in zip(t[1], v):
                if not t[2]:
                    al = alignof(e)
                    o = (o + al - 1) // al * al
                c = self.to_cells(e, x)
                out[o:o + len(c)] = c
                o += len(c)
            return out
        if t[0] == 'arr':
            out = []
            for x in v:
                out.extend(self.to_cells(t[2], x))
            return out
        n = storesize(t)
        if v.__class__ is int:
            return list(v.to_bytes(n, 'little'))
        if v is UNDEF:
            return [None] * n
        if v.__class__ is Bytes:
            return list(v.cells)
        if z3.is_bool(v):
            v = tobv(v, 8)
        elif v.size() != 8 * n:
            v = z3.ZeroExt(8 * n - v.size(), v)
        return [(v, i) for i in range(n)]

    # ---- instructions -------------------------------------------------------------------------
    def op_alloca(self, st, fr, x):
        al = max(x[3], 1)
        a = (st.sp + al - 1) // al * al
        st.sp = a + x[2] + 16
        n = x[2]
        st.mem[a] = Obj(a, a, n, al, [None] * n, 's', st.token)
        st.sb.append(a)
        fr.allocas.append(a)
        fr.regs[x[1]] = a
        fr.ip += 1

    def op_load(self, st, fr, x):
        a = x[3]
        if a.__class__ is Reg:
            a = fr.regs[a]
        fr.regs[x[1]] = self.load(st, x[2], a, x[4])
        fr.ip += 1

    def op_store(self, st, fr, x):
        v, a = x[3], x[4]
        if v.__class__ is Reg:
            v = fr.regs[v]
        if a.__class__ is Reg:
            a = fr.regs[a]
        c = self.to_cells(x[2], v)
        if c:
            self.store_cells(st, a, c, x[5])
        fr.ip += 1

    # Atomics: one thread at a time runs in these harnesses, so an atomic access is an ordinary one
    def op_rmw(self, st, fr, x):
        how, a, t, v = x[2], self.aggval(fr, x[3]), x[4], self.aggval(fr, x[5])
        n = bits(t)
        al = sizeof(t)
        old = self.load(st, t, a, al)
        if how == 'xchg':
            new = v
        elif how in ('add', 'sub', 'and', 'or', 'xor'):
            new = self.binop(st, how, n, old, v)
        elif how == 'nand':
            new = self.binop(st, 'xor', n, self.binop(st, 'and', n, old, v), (1 << n) - 1)
        elif how in ('max', 'min', 'umax', 'umin'):
            c = self.icmp({'max': 'sgt', 'min': 'slt', 'umax': 'ugt', 'umin': 'ult'}[how], n, old, v)
            new = UNDEF if c is UNDEF else (old if c else v) if c.__class__ in (int, bool) else norm(z3.If(tobool(c), tobv(old, n), tobv(v, n)))
        else:
            raise Unsupported('atomicrmw ' + how)
        self.store_cells(st, a, self.to_cells(t, new), al)
        fr.regs[x[1]] = old
        fr.ip += 1

    def op_cmpxchg(self, st, fr, x):
        a, t, e, v = self.aggval(fr, x[2]), x[3], self.aggval(fr, x[4]), self.aggval(fr, x[5])
        al = sizeof(t)
        old = self.load(st, t, a, al)
        c = self.icmp('eq', bits(t), old, e)
        if c is UNDEF:
            raise Unsupported('cmpxchg on uninitialised memory')
        ok = bool(c) if c.__class__ is int else self.decide(st, c)
        if ok:
            self.store_cells(st, a, self.to_cells(t, v), al)
        fr.regs[x[1]] = (old, 1 if ok else 0)
        fr.ip += 1

    def op_gep(self, st, fr, x):
        a = x[2]
        if a.__class__ is Reg:
            a = fr.regs[a]
        c = x[3]
        for v, w, sz in x[4]:
            if v.__class__ is Reg:
                v = fr.regs[v]
            if v.__class__ is int:
                c += sgn(v, w) * sz
            elif v is UNDEF:
                a = UNDEF
            elif a is not UNDEF:
                if z3.is_bool(v):
                    v = tobv(v, 8)
                    w = 8
                if w < 64:
                    v = z3.SignExt(64 - w, v)
                elif w > 64:
                    v = z3.Extract(63, 0, v)
                if a.__class__ is int:
                    a = z3.BitVecVal(a, 64)
                a = a + v * sz
        if a is UNDEF or a.__class__ is Bytes:
            r = UNDEF
        elif a.__class__ is int:
            r = (a + c) & M64
        elif c or x[4]:
            r = norm(a + (c & M64))
        else:
            r = a
        fr.regs[x[1]] = r
        fr.ip += 1

    def op_jmp(self, st, fr, x):
        fr.jump(x[2])

    def op_br(self, st, fr, x):
        c = x[2]
        if c.__class__ is Reg:
            c = fr.regs[c]
        if c.__class__ is not int:
            c = self.decide(st, c)
        fr.jump(x[3] if c else x[4])

    def op_switch(self, st, fr, x):
        v = x[3]
        if v.__class__ is Reg:
            v = fr.regs[v]
        if v.__class__ is int:
            fr.jump(x[6].get(v, x[4]))
            return
        if v is UNDEF or v.__class__ is Bytes:
            self.error(st, 'uninit', 'control flow depends on an uninitialised value')
        n = bits(x[2])
        for cv, lab in x[5]:
            if n == 1:
                c = v if cv else norm(z3.Not(v))
            else:
                c = norm(v == cv)
            if self.decide(st, c):
                fr.jump(lab)
                return
        fr.jump(x[4])

    def op_ret(self, st, fr, x):
        v = x[2]
        if v.__class__ is Reg:
            v = fr.regs[v]
        elif v.__class__ is tuple:
            v = self.aggval(fr, v)
        self.pop(st)
        self.resume_caller(st, fr, v)

    def resume_caller(self, st, fr, v):
        if not st.frames:
            raise PathEnd
        up = st.frames[-1]
        c = up.blk[up.ip]
        if fr.kind == 'try':
            v = 0
        if c[1] is not None:
            up.regs[c[1]] = v
        if c[5] is not None:
            up.jump(c[5])
        else:
            up.ip += 1

    def pop(self, st):
        fr = st.frames.pop()
        if fr.allocas:
            for a in fr.allocas:
                del st.mem[a]
            # allocas of the innermost frame are the last ones in sb
            del st.sb[len(st.sb) - len(fr.allocas):]
        return fr

    def unwind(self, st):
        while True:
            fr = self.pop(st)
            if not st.frames:
                st.events.append('PANIC')
                if not self.mp:
                    self.reportp(st, 'panic', st.last_panic if hasattr(st, 'last_panic') else 'panic')
                raise PathEnd
            up = st.frames[-1]
            c = up.blk[up.ip]
            if fr.kind == 'try':
                if c[1] is not None:
                    up.regs[c[1]] = 1
                if c[5] is not None:
                    up.jump(c[5])
                else:
                    up.ip += 1
                return
            if c[6] is not None:
                up.jump(c[6])
                return

    def op_resume(self, st, fr, x):
        self.unwind(st)

    def op_lpad(self, st, fr, x):
        fr.regs[x[1]] = (0xdead0000, 1)
        fr.ip += 1

    def op_unreachable(self, st, fr, x):
        self.error(st, 'ub', 'unreachable code is reached')

    def op_unsupported(self, st, fr, x):
        raise Unsupported(x[2])

    def op_nop(self, st, fr, x):
        fr.ip += 1

    def op_asm(self, st, fr, x):
        if x[1] is not None:
            raise Unsupported('asm')
        fr.ip += 1

    def aggval(self, fr, v):
        if v.__class__ is Reg:
            return fr.regs[v]
        if v.__class__ is tuple:
            return tuple(self.aggval(fr, e) for e in v)
        return v

    def op_extract(self, st, fr, x):
        v = self.aggval(fr, x[2])
        for i in x[3]:
            v = v[i] if v is not UNDEF else UNDEF
        fr.regs[x[1]] = v
        fr.ip += 1

    def op_insert(self, st, fr, x):
        a = self.aggval(fr, x[2])
        v = self.aggval(fr, x[3])

        def ins(a, idx):
            if not idx:
                return v
            l = list(a)
            l[idx[0]] = ins(l[idx[0]], idx[1:])
            return tuple(l)
        fr.regs[x[1]] = ins(a, x[4])
        fr.ip += 1

    def op_phi(self, st, fr, x):
        # evaluate all phis of the block at once
        vals = []
        i = fr.ip
        while i < len(fr.blk) and fr.blk[i][0] == 'phi':
            p = fr.blk[i]
            vals.append((p[1], self.aggval(fr, p[3][fr.prev])))
            i += 1
        for d, v in vals:
            fr.regs[d] = v
        fr.ip = i

    def op_select(self, st, fr, x):
        c, a, b = self.aggval(fr, x[2]), self.aggval(fr, x[4]), self.aggval(fr, x[5])
        if c is UNDEF or c.__class__ is Bytes:
            r = UNDEF
        elif c.__class__ is int:
            r = a if c else b
        elif a.__class__ in (tuple, Bytes) or b.__class__ in (tuple, Bytes) or a is UNDEF or b is UNDEF:
            r = a if self.decide(st, c) else b
        elif x[3] == ('i', 1):
            r = norm(z3.If(c, tobool(a), tobool(b)))
        else:
            n = bits(x[3])
            r = norm(z3.If(c, tobv(a, n), tobv(b, n)))
        fr.regs[x[1]] = r
        fr.ip += 1

    def op_icmp(self, st, fr, x):
        a, b = x[4], x[5]
        if a.__class__ is Reg:
            a = fr.regs[a]
        if b.__class__ is Reg:
            b = fr.regs[b]
        fr.regs[x[1]] = self.icmp(x[2], bits(x[3]), a, b)
        fr.ip += 1

    def icmp(self, c, n, a, b):
        if a.__class__ is int and b.__class__ is int:
            if c[0] == 's':
                a, b = sgn(a, n), sgn(b, n)
            k = c if c in ('eq', 'ne') else c[1:]
            return int(a == b if k == 'eq' else a != b if k == 'ne' else a < b if k == 'lt' else a <= b if k == 'le'
                       else a > b if k == 'gt' else a >= b)
        if a is UNDEF or b is UNDEF or a.__class__ is Bytes or b.__class__ is Bytes:
            return UNDEF
        if n == 1:
            a, b = tobool(a), tobool(b)
            if c == 'eq':
                return norm(a == b)
            if c == 'ne':
                return norm(z3.Xor(a, b))
            a, b = tobv(a, 1), tobv(b, 1)
        else:
            a, b = tobv(a, n), tobv(b, n)
        if c == 'eq':
            e = a == b
        elif c == 'ne':
            e = a != b
        elif c == 'ult':
            e = z3.ULT(a, b)
        elif c == 'ule':
            e = z3.ULE(a, b)
        elif c == 'ugt':
            e = z3.UGT(a, b)
        elif c == 'uge':
            e = z3.UGE(a, b)
        elif c == 'slt':
            e = a < b
        elif c == 'sle':
            e = a <= b
        elif c == 'sgt':
            e = a > b
        else:
            e = a >= b
        return norm(e)

    def op_fcmp(self, st, fr, x):
        a, b = self.aggval(fr, x[4]), self.aggval(fr, x[5])
        c, n = x[2], bits(x[3])
        if a is UNDEF or b is UNDEF or a.__class__ is Bytes or b.__class__ is Bytes:
            r = UNDEF
        elif a.__class__ is int and b.__class__ is int:
            f = '<d' if n == 64 else '<f'
            p, q = struct.unpack(f, a.to_bytes(n // 8, 'little'))[0], struct.unpack(f, b.to_bytes(n // 8, 'little'))[0]
            nan = p != p or q != q
            base = {'eq': p == q, 'ne': p != q, 'lt': p < q, 'le': p <= q, 'gt': p > q, 'ge': p >= q}
            if c in ('ord', 'uno'):
                r = int(nan == (c == 'uno'))
            elif c[0] == 'o':
                r = int(not nan and base[c[1:]])
            else:
                r = int(nan or base[c[1:]])
        else:
            if not self.fp:
                self.fp = True
                self.new_solver()
            s = z3.Float64() if n == 64 else z3.Float32()
            p, q = z3.fpBVToFP(tobv(a, n), s), z3.fpBVToFP(tobv(b, n), s)
            nan = z3.Or(z3.fpIsNaN(p), z3.fpIsNaN(q))
            if c in ('ord', 'uno'):
                e = nan if c == 'uno' else z3.Not(nan)
            else:
                k = c[1:]
                e = {'eq': lambda: z3.fpEQ(p, q), 'ne': lambda: z3.Not(z3.fpEQ(p, q)), 'lt': lambda: z3.fpLT(p, q),
                     'le': lambda: z3.fpLEQ(p, q), 'gt': lambda: z3.fpGT(p, q), 'ge': lambda: z3.fpGEQ(p, q)}[k]()
                e = z3.And(z3.Not(nan), e) if c[0] == 'o' else z3.Or(nan, e)
            r = norm(e)
        fr.regs[x[1]] = r
        fr.ip += 1

    def op_bin(self, st, fr, x):
        a, b = x[4], x[5]
        if a.__class__ is Reg:
            a = fr.regs[a]
        if b.__class__ is Reg:
            b = fr.regs[b]
        fr.regs[x[1]] = self.binop(st, x[2], bits(x[3]), a, b, x[6], x[3][0] == 'f')
        fr.ip += 1

    def binop(self, st, op, n, a, b, fl=(), isf=False):
        if a is UNDEF or b is UNDEF or a.__class__ is Bytes or b.__class__ is Bytes:
            return UNDEF
        if isf:
            if op == 'fneg':
                return (a ^ (1 << (n - 1))) if isinstance(a, int) else norm(a ^ (1 << (n - 1)))
            raise Unsupported('float ' + op)
        m = (1 << n) - 1
        if a.__class__ is int and b.__class__ is int:
            if op == 'add':
                r = a + b
                if fl and ('nuw' in fl and r > m or 'nsw' in fl and not -(1 << n - 1) <= sgn(a, n) + sgn(b, n) < 1 << n - 1):
                    self.error(st, 'ub', 'overflow in unchecked arithmetic')
                return r & m
            if op == 'sub':
                r = a - b
                if fl and ('nuw' in fl and r < 0 or 'nsw' in fl and not -(1 << n - 1) <= sgn(a, n) - sgn(b, n) < 1 << n - 1):
                    self.error(st, 'ub', 'overflow in unchecked arithmetic')
                return r & m
            if op == 'mul':
                r = a * b
                if fl and ('nuw' in fl and r > m or 'nsw' in fl and not -(1 << n - 1) <= sgn(a, n) * sgn(b, n) < 1 << n - 1):
                    self.error(st, 'ub', 'overflow in unchecked arithmetic')
                return r & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op in ('shl', 'lshr', 'ashr'):
                if b >= n:
                    self.error(st, 'ub', 'shift by the width of the type or more')
                return (a << b) & m if op == 'shl' else a >> b if op == 'lshr' else (sgn(a, n) >> b) & m
            if b == 0:
                self.error(st, 'ub', 'division by zero')
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            p, q = sgn(a, n), sgn(b, n)
            if q == -1 and p == -(1 << n - 1):
                self.error(st, 'ub', 'division overflow')
            d = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
            if op == 'sdiv':
                return d & m
            return (p - d * q) & m
        if n == 1:
            p, q = tobool(a), tobool(b)
            if op == 'and':
                return norm(z3.And(p, q))
            if op == 'or':
                return norm(z3.Or(p, q))
            if op in ('xor', 'add', 'sub'):
                return norm(z3.Xor(p, q))
            raise Unsupported('i1 ' + op)
        p, q = tobv(a, n), tobv(b, n)
        if op in ('add', 'sub', 'mul') and fl:
            for f in fl:
                s = f == 'nsw'
                if op == 'add':
                    c = z3.BVAddNoOverflow(p, q, s)
                    if s:
                        c = z3.And(c, z3.BVAddNoUnderflow(p, q))
                elif op == 'sub':
                    c = z3.BVSubNoUnderflow(p, q, s)
                    if s:
                        c = z3.And(c, z3.BVSubNoOverflow(p, q))
                else:
                    c = z3.BVMulNoOverflow(p, q, s)
                    if s:
                        c = z3.And(c, z3.BVMulNoUnderflow(p, q))
                self.must(st, norm(c), 'ub', 'overflow in unchecked arithmetic')
        if op in ('shl', 'lshr', 'ashr'):
            if b.__class__ is int:
                if b >= n:
                    self.error(st, 'ub', 'shift by the width of the type or more')
            else:
                self.must(st, norm(z3.ULT(q, n)), 'ub', 'shift by the width of the type or more')
        if op in ('udiv', 'urem', 'sdiv', 'srem') and b.__class__ is not int:
            self.must(st, norm(q != 0), 'ub', 'division by zero')
        e = (p + q if op == 'add' else p - q if op == 'sub' else p * q if op == 'mul' else p & q if op == 'and' else
             p | q if op == 'or' else p ^ q if op == 'xor' else p << q if op == 'shl' else
             z3.LShR(p, q) if op == 'lshr' else p >> q if op == 'ashr' else z3.UDiv(p, q) if op == 'udiv' else
             z3.URem(p, q) if op == 'urem' else p / q if op == 'sdiv' else z3.SRem(p, q))
        return norm(e)

    def op_cast(self, st, fr, x):
        v = self.aggval(fr, x[4])
        fr.regs[x[1]] = self.cast(st, x[2], x[3], v, x[5], x[6])
        fr.ip += 1

    def cast(self, st, op, t, v, u, fl):
        if v is UNDEF or v.__class__ is Bytes:
            if op in ('bitcast', 'ptrtoint', 'inttoptr', 'freeze') and bits(t) == bits(u):
                return v
            if op == 'trunc' and v.__class__ is Bytes and bits(u) % 8 == 0:
                return self.cells_value(v.cells[:bits(u) // 8], u)
            return UNDEF
        if op in ('bitcast', 'freeze'):
            return v
        n, m = bits(t), bits(u)
        if op in ('ptrtoint', 'inttoptr'):
            op = 'trunc' if m < n else 'zext'
            if m == n:
                return v
            fl = ()
        if op == 'trunc':
            if v.__class__ is int:
                r = v & ((1 << m) - 1)
                if 'nuw' in fl and r != v:
                    self.error(st, 'ub', 'a value outside its type (such as a bool that is neither 0 nor 1)')
                return r
            if m == 1:
                if z3.is_app_of(v, z3.Z3_OP_ITE):
                    a, b = v.arg(1), v.arg(2)
                    if z3.is_bv_value(a) and z3.is_bv_value(b) and a.as_long() == 1 and b.as_long() == 0:
                        return v.arg(0)
                if 'nuw' in fl:
                    self.must(st, norm(z3.ULE(v, 1)), 'ub', 'a bool that is neither 0 nor 1')
                    return norm(v == 1)
                return norm(z3.Extract(0, 0, v) == 1)
            if 'nuw' in fl:
                self.must(st, norm(z3.ULE(v, (1 << m) - 1)), 'ub', 'a value outside its type')
            return norm(z3.Extract(m - 1, 0, v))
        if op == 'zext':
            if v.__class__ is int:
                return v
            if n == 1:
                return tobv(v, m)
            return norm(z3.ZeroExt(m - n, v))
        if op == 'sext':
            if v.__class__ is int:
                return sgn(v, n) & ((1 << m) - 1)
            if n == 1:
                return z3.If(v, z3.BitVecVal((1 << m) - 1, m), z3.BitVecVal(0, m))
            return norm(z3.SignExt(m - n, v))
        raise Unsupported('cast ' + op)

    # ---- calls --------------------------------------------------------------------------------
    def op_call(self, st, fr, x):
        c = x[3]
        if c.__class__ is Callee:
            t = c.target
            if t is None:
                t = c.target = self.bind(c)
        else:
            if c.__class__ is Reg:
                c = fr.regs[c]
            a = self.unique(st, c)
            cal = self.prog.fbyaddr.get(a)
            if cal is None:
                self.error(st, 'memory', 'call through a bad function pointer')
            t = cal.target
            if t is None:
                t = cal.target = self.bind(cal)
        args = [(fr.regs[v] if v.__class__ is Reg else v) for _, v in x[4]]
        if t.__class__ is tuple:
            r = t[0](self, st, fr, x, args, t[1])
            if r is NORET:
                return
            if x[1] is not None:
                fr.regs[x[1]] = r
            if x[5] is not None:
                fr.jump(x[5])
            else:
                fr.ip += 1
            return
        self.enter(st, t, args)

    def enter(self, st, f, args, kind=None):
        n = Frame(f, kind)
        regs = n.regs
        for (p, _), v in zip(f.params, args):
            regs[p] = v
        if len(st.frames) > 300:
            raise Unsupported('call depth')
        st.frames.append(n)
        self.entered.add(f.name)

    def bind(self, c):
        """Func, or (model, name)"""
        d = self.prog.find(c.mod, c.name)
        n = c.name.lstrip('@').strip('"')
        if n.startswith('llvm.'):
            return (Engine.x_llvm, n)
        m = getattr(Engine, 'x_' + n, None)
        if m:
            return (m, n)
        mm = re.search(r'7___rustc\d+_(_*rust_\w+)$', n)
        if mm:
            k = mm.group(1).lstrip('_')
            m = getattr(Engine, 'x_' + k, None)
            if m:
                return (m, k)
        if n in ('memcmp', 'bcmp'):
            return (Engine.x_memcmp_, n)
        if n in ('memcpy', 'memmove'):
            return (Engine.x_memcpy_, n)
        dn = self.prog.demangled(n)
        g = re.sub(r'^<(.*)>::', r'\1::', dn)
        if not d or d[0] in self.prog.std:
            for p in ABORTS:
                if g.startswith(p):
                    return (Engine.x_abort, g)
            for p in PANICS:
                if g.startswith(p) and c.mod.noreturn(c.name):
                    return (Engine.x_panic, g)
        if 'maybe_is_nonoverlapping::runtime' in dn:
            f = d or self.prog.std_lookup(c.name)
            if f:
                return (Engine.x_nonoverlap, self.prog.func(*f))
        if d:
            return self.prog.func(*d)
        if c.mod.noreturn(c.name):
            return (Engine.x_panic, g)
        s = self.prog.std_lookup(c.name)
        if s:
            return self.prog.func(*s)
        return (Engine.x_missing, g)

    def place(self, st, a):
        """(object, constant offset) when the address is syntactically a constant away from one"""
        if isinstance(a, int):
            if GBASE <= a < RHI:
                return self.concrete_obj(st, a, 0)
            return None
        if a is UNDEF or isinstance(a, Bytes):
            return None
        for id in st.heap:
            o = st.mem[id]
            d = 0 if o.base is a else norm(a - o.base)
            if isinstance(d, int) and abs(sgn(d, 64)) < 1 << 32:
                return o, sgn(d, 64)
        return None

    def x_nonoverlap(self, st, fr, x, args, fn):
        """core::ub_checks::maybe_is_nonoverlapping: ranges inside two different objects are disjoint (their addresses
        are constrained so); anything else runs core's own code"""
        a, b, k, c = args
        if isinstance(k, int) and isinstance(c, int):
            n = k * c
            p, q = self.place(st, a), self.place(st, b)
            if p and q and 0 <= p[1] and p[1] + n <= p[0].size and 0 <= q[1] and q[1] + n <= q[0].size:
                if p[0].id != q[0].id:
                    return 1
                return int(abs(p[1] - q[1]) >= n)
        self.enter(st, fn, args)
        return NORET

    def x_missing(self, st, fr, x, args, name):
        raise Unsupported('external function ' + name)

    def x_abort(self, st, fr, x, args, name):
        self.error(st, 'abort', name.split('<')[0])

    def x_panic(self, st, fr, x, args, name):
        st.dirty = name
        loc = self.location(st, args)
        self.panic_info = '%s%s' % (name.split('::')[-1], loc)
        self.do_panic(st, self.panic_info, 'handle_alloc_error' in name)
        return NORET

    def do_panic(self, st, info, oom=False):
        if oom:
            st.events.append('OOM')
        st.last = dict(st.last, panic=info)
        while True:
            fr = self.top_unwind(st)
            return

    def top_unwind(self, st):
        # as `unwind`, but the panicking call may itself be an invoke
        up = st.frames[-1]
        c = up.blk[up.ip]
        if c[6] is not None:
            up.jump(c[6])
            return
        self.unwind(st)

    def reportp(self, st, kind, what):
        self.report(st, 'panic', 'panics: %s' % st.last.get('panic', '?'))

    def location(self, st, args):
        """file:line of a &'static Location argument"""
        for a in reversed(args):
            try:
                if isinstance(a, int) and GBASE <= a < SBASE:
                    r = self.concrete_obj(st, a, 24)
                    if r:
                        o, off = r
                        p, n = int.from_bytes(o.cells[off:off + 8], 'little'), int.from_bytes(o.cells[off + 8:off + 16], 'little')
                        line = int.from_bytes(o.cells[off + 16:off + 20], 'little')
                        if 0 < n < 300:
                            s = self.string(st, p, n)
                            return ' at %s:%d' % (s, line)
            except Exception:
                pass
        return ''

    def string(self, st, p, n):
        o, off = self.concrete_obj(st, p, n)
        return bytes(o.cells[off:off + n]).decode('utf-8', 'replace')

    # intrinsics
    def x_llvm(self, st, fr, x, args, n):
        p = n.split('.')
        k = p[1]
        if k in ('memcpy', 'memmove'):
            return self.x_memcpy_(st, fr, x, args, n, self.arg_align(x))
        if k == 'memset':
            n = self.unique(st, args[2])
            if n:
                v = args[1]
                if isinstance(v, int):
                    c = [v] * n
                elif v is UNDEF:
                    c = [None] * n
                else:
                    c = [(v, 0)] * n
                self.store_cells(st, args[0], c, 1)
            return None
        if k in ('lifetime', 'dbg', 'experimental', 'invariant', 'prefetch', 'donothing'):
            return 0
        if k == 'assume':
            self.must(st, args[0] if not args[0] is UNDEF else 0, 'ub', 'an assumption handed to the compiler is false')
            return None
        if k == 'expect':
            return args[0]
        if k == 'is':
            return 0
        if k in ('trap', 'debugtrap', 'ubsantrap'):
            self.error(st, 'abort', 'trap')
        w = bits(x[4][0][0]) if x[4] else 64
        if any(a is UNDEF or a.__class__ is Bytes for a in args):
            if 'with' in p:
                return (UNDEF, UNDEF)
            return UNDEF
        conc = all(isinstance(a, int) for a in args)
        if 'with' in p:
            op = k[1:]
            s = k[0] == 's'
            a, b = args
            if conc:
                p_, q_ = (sgn(a, w), sgn(b, w)) if s else (a, b)
                r = p_ + q_ if op == 'add' else p_ - q_ if op == 'sub' else p_ * q_
                ok = (-(1 << w - 1) <= r < 1 << w - 1) if s else 0 <= r < 1 << w
                return (r & ((1 << w) - 1), int(not ok))
            P_, Q_ = tobv(a, w), tobv(b, w)
            r = P_ + Q_ if op == 'add' else P_ - Q_ if op == 'sub' else P_ * Q_
            ex = (z3.SignExt if s else z3.ZeroExt)(w, P_), (z3.SignExt if s else z3.ZeroExt)(w, Q_)
            big = ex[0] + ex[1] if op == 'add' else ex[0] - ex[1] if op == 'sub' else ex[0] * ex[1]
            o = big != (z3.SignExt if s else z3.ZeroExt)(w, r)
            return (norm(r), norm(o))
        if k in ('ucmp', 'scmp'):
            rw = bits(x[2])
            lt = self.icmp('ult' if k == 'ucmp' else 'slt', w, args[0], args[1])
            eq = self.icmp('eq', w, args[0], args[1])
            if isinstance(lt, int) and isinstance(eq, int):
                return (1 << rw) - 1 if lt else 0 if eq else 1
            return norm(z3.If(tobool(lt), z3.BitVecVal(-1, rw), z3.If(tobool(eq), z3.BitVecVal(0, rw), z3.BitVecVal(1, rw))))
        if k in ('umin', 'umax', 'smin', 'smax'):
            c = self.icmp(k[0] + ('lt' if k[1:] == 'min' else 'gt'), w, args[0], args[1])
            if isinstance(c, int):
                return args[0] if c else args[1]
            return norm(z3.If(c, tobv(args[0], w), tobv(args[1], w)))
        if k in ('ctpop', 'ctlz', 'cttz', 'bswap', 'bitreverse'):
            a = args[0]
            if isinstance(a, int):
                if k == 'ctpop':
                    return bin(a).count('1')
                if k == 'ctlz':
                    return w - a.bit_length()
                if k == 'cttz':
                    return w if a == 0 else (a & -a).bit_length() - 1
                if k == 'bswap':
                    return int.from_bytes(a.to_bytes(w // 8, 'little'), 'big')
                return int(bin(a)[2:].zfill(w)[::-1], 2)
            if k == 'ctpop':
                e = z3.BitVecVal(0, w)
                for i in range(w):
                    e = e + z3.ZeroExt(w - 1, z3.Extract(i, i, a))
                return norm(e)
            if k == 'bswap':
                return norm(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a) for i in range(w // 8)]))
            if k == 'bitreverse':
                return norm(z3.Concat(*[z3.Extract(i, i, a) for i in range(w)]))
            e = z3.BitVecVal(w, w)
            rng = range(w) if k == 'ctlz' else reversed(range(w))
            for i in rng:
                e = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(w - 1 - i if k == 'ctlz' else i, w), e)
            return norm(e)
        if k in ('fshl', 'fshr'):
            a, b, c = args
            if not isinstance(c, int):
                c = self.unique(st, c)
            c %= w
            if c == 0:
                return a if k == 'fshl' else b
            l = c if k == 'fshl' else w - c
            return self.binop(st, 'or', w, self.binop(st, 'shl', w, a, l), self.binop(st, 'lshr', w, b, w - l))
        if k in ('uadd', 'usub') and p[2] == 'sat':
            a, b = args
            if conc:
                return min(a + b, (1 << w) - 1) if k == 'uadd' else max(a - b, 0)
            P_, Q_ = tobv(a, w), tobv(b, w)
            if k == 'uadd':
                return norm(z3.If(z3.ULT(P_ + Q_, P_), z3.BitVecVal(-1, w), P_ + Q_))
            return norm(z3.If(z3.ULT(P_, Q_), z3.BitVecVal(0, w), P_ - Q_))
        if k == 'abs':
            if conc:
                return abs(sgn(args[0], w)) & ((1 << w) - 1)
            return norm(z3.If(args[0] < 0, -args[0], args[0]))
        if k == 'ptrmask':
            return self.binop(st, 'and', 64, args[0], args[1])
        raise Unsupported('intrinsic ' + n)

    def arg_align(self, x):
        return 1

    def x_memcpy_(self, st, fr, x, args, n, al=1):
        d, s, n = args[0], args[1], self.unique(st, args[2])
        if n:
            self.resolve(st, d, n, 1, True, 'write')
            c = self.load_cells(st, s, n, 1)
            self.store_cells(st, d, c, 1)
        return d

    def x_memcmp_(self, st, fr, x, args, n):
        k = self.unique(st, args[2])
        if not k:
            return 0
        a, b = self.load_cells(st, args[0], k, 1), self.load_cells(st, args[1], k, 1)
        if any(c is None for c in a + b):
            self.error(st, 'uninit', 'comparison of uninitialised memory')
        if all(isinstance(c, int) for c in a + b):
            a, b = bytes(a), bytes(b)
            return 0 if a == b else 1 if a > b else 0xffffffff
        e = z3.BitVecVal(0, 32)
        for p, q in reversed(list(zip(a, b))):
            P_ = tobv(self.cells_value([p], None), 8)
            Q_ = tobv(self.cells_value([q], None), 8)
            e = z3.If(P_ == Q_, e, z3.If(z3.ULT(P_, Q_), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32)))
        return norm(e)

    # allocator
    def x_rust_no_alloc_shim_is_unstable_v2(self, st, fr, x, args, n):
        return None
    x_rust_no_alloc_shim_is_unstable = x_rust_no_alloc_shim_is_unstable_v2

    def x_rust_alloc(self, st, fr, x, args, n, zero=False):
        size, al = self.unique(st, args[0]), self.unique(st, args[1])
        if al == 0 or al & (al - 1):
            self.error(st, 'memory', 'allocation with a bad alignment')
        if size == 0:
            self.error(st, 'memory', 'zero-sized allocation')
        return self.alloc(st, size, al, zero)

    def alloc(self, st, size, al, zero):
        k = st.nalloc
        if st.mode == 3:
            st.nalloc += 1
            st.allocs.append((0, size, al))
            return 0
        if st.mode == 4:
            # the block freed last that fits is handed out again
            for id in reversed(st.heap):
                o = st.mem[id]
                if not o.live and o.size == size and o.align == al:
                    o = self.wobj(st, o)
                    o.live, o.cells = True, [0 if zero else None] * size
                    st.nalloc += 1
                    st.allocs.append((o.base, size, al))
                    st.last = dict(st.last, size=size, align=al, addr=o.base)
                    return o.base
        if self.fixed:
            a = self.fixed[1][k] if k < len(self.fixed[1]) else (NAT_LO + 0x100000 * (k + 1))
            st.nalloc += 1
            st.allocs.append((a, size, al))
            if a == 0:
                return 0
            base = a
        else:
            if st.mode == 1:
                f = z3.Bool('fail%d' % k)
                if self.decide(st, f):
                    st.nalloc += 1
                    st.allocs.append((0, size, al))
                    return 0
            W = 64 if st.mode == 2 else self.W
            lo = al.bit_length() - 1
            v = z3.BitVec('h%d' % k, W - lo)
            parts = []
            if W < 64:
                parts.append(z3.BitVecVal(0, 64 - W))
            parts.append(v)
            if lo:
                parts.append(z3.BitVecVal(0, lo))
            base = z3.Concat(*parts) if len(parts) > 1 else v
            cs = [z3.UGE(base, max(4096, al)), z3.ULE(base, (1 << W) - size),
                  z3.Or(z3.ULE(base, FBASE - size), z3.UGE(base, RHI))]
            for id in st.heap:
                o = st.mem[id]
                b = o.base if not isinstance(o.base, int) else z3.BitVecVal(o.base, 64)
                st.apart[o.k, k] = (z3.Or(z3.ULE(b + (o.size - 1), base - 1), z3.ULE(base + (size - 1), b - 1)))
            c = z3.And(*cs)
            m = self.place_block(st, v, lo, size, W)
            if m is None:
                m = self.query(st, c)
            if m is None:
                raise Inconclusive('no address left')
            st.pc.append(c)
            st.model = m
            st.nalloc += 1
            st.allocs.append((base, size, al, v))
        id = -1 - len(st.heap)
        o = Obj(id, base, size, al, [0 if zero else None] * size, 'h', st.token)
        o.k = k
        st.mem[id] = o
        st.heap.append(id)
        st.last = dict(st.last, size=size, align=al, addr=base)
        return base

    def place_block(self, st, v, lo, size, W):
        """the state's model, extended with a free address for the new block (nothing else constrains it yet)"""
        if W < 48 or size > 0x80000:
            return None
        used = []
        for id in st.heap:
            o = st.mem[id]
            b = self.mval(st, o.base)
            used.append((b, b + o.size))
        for k in range(st.nalloc + 1, st.nalloc + 200):
            a = NAT_LO + 0x100000 * k
            if a + size >= NAT_HI:
                return None
            if all(e <= a or a + size <= b for b, e in used):
                m = copy.copy(st.model)
                m.update_value(v, z3.BitVecVal(a >> lo, v.size()))
                return m
        return None

    def x_rust_alloc_zeroed(self, st, fr, x, args, n):
        return self.x_rust_alloc(st, fr, x, args, n, True)

    def find_block(self, st, a, what):
        if isinstance(a, int) and a < 4096:
            self.error(st, 'memory', '%s of a null or dangling pointer' % what)
        if isinstance(a, int) and FBASE <= a < RHI:
            self.error(st, 'memory', '%s of memory that is not on the heap' % what)
        o, off = self.resolve_any(st, a, what)
        if not o.live:
            self.error(st, 'memory', 'double free')
        if o.kind != 'h' or off != 0:
            self.error(st, 'memory', '%s of a pointer that is not the start of a block' % what)
        return o

    def resolve_any(self, st, a, what):
        """as resolve, without access checks"""
        if a is UNDEF or isinstance(a, Bytes):
            self.error(st, 'memory', '%s of an uninitialised pointer' % what)
        e = a if not isinstance(a, int) else z3.BitVecVal(a, 64)
        for id in st.heap:
            o = st.mem[id]
            d = norm(e - o.base)
            if isinstance(d, int) and abs(sgn(d, 64)) < 1 << 32:
                return o, sgn(d, 64)
        v = self.mval(st, a)
        for id in st.heap:
            o = st.mem[id]
            b = self.mval(st, o.base)
            if b <= v < b + max(o.size, 1):
                if self.decide(st, norm(e == o.base + (v - b))):
                    return o, v - b
        self.error(st, 'memory', '%s of a pointer that is not the start of a block' % what)

    def x_rust_dealloc(self, st, fr, x, args, n):
        size, al = self.unique(st, args[1]), self.unique(st, args[2])
        o = self.find_block(st, args[0], 'free')
        if o.size != size or o.align != al:
            self.error(st, 'memory', 'free with a layout other than the requested one')
        o = self.wobj(st, o)
        o.live = False
        return None

    def x_rust_realloc(self, st, fr, x, args, n):
        size, al, new = self.unique(st, args[1]), self.unique(st, args[2]), self.unique(st, args[3])
        o = self.find_block(st, args[0], 'realloc')
        if o.size != size or o.align != al:
            self.error(st, 'memory', 'realloc with a layout other than the requested one')
        old = list(o.cells)
        base = self.alloc(st, new, al, False)
        if isinstance(base, int) and base == 0:
            return 0
        nid = st.heap[-1]
        no = self.wobj(st, st.mem[nid])
        k = min(size, new)
        no.cells[:k] = old[:k]
        o = self.wobj(st, st.mem[o.id])
        o.live = False
        return base

    # harness interface
    def nd(self, st, w):
        i = len(st.nds)
        if self.fixed:
            v = self.fixed[0][i] if i < len(self.fixed[0]) else 0
            v &= (1 << w) - 1
        else:
            v = z3.BitVec('nd%d_%d' % (i, w), w)
        st.nds.append(v)
        return v

    def x_nd_u8(self, st, fr, x, args, n):
        return self.nd(st, 8)

    def x_nd_u16(self, st, fr, x, args, n):
        return self.nd(st, 16)

    def x_nd_u32(self, st, fr, x, args, n):
        return self.nd(st, 32)

    def x_nd_u64(self, st, fr, x, args, n):
        return self.nd(st, 64)

    def x_nd_assume(self, st, fr, x, args, n):
        c = args[0]
        if isinstance(c, int):
            if not c:
                st.events = None
                raise PathEnd
            return None
        m = st.model if self.mval(st, c) else self.query(st, c)
        if m is None:
            st.events = None
            raise PathEnd
        st.pc.append(c)
        st.model = m
        st.known[c.get_id()] = (c, True)
        return None

    def x_nd_check(self, st, fr, x, args, n):
        lab = self.string(st, args[1], args[2])
        c = args[0]
        self.checks.add(lab)
        self.nchecks += 1
        if c is UNDEF or c.__class__ is Bytes:
            self.error(st, 'check', lab + ' (uninitialised)')
        if isinstance(c, int):
            if not c:
                self.report(st, 'check', lab)
                st.events.append('FAIL ' + lab)
                raise PathEnd
            return None
        self.must(st, c, 'check', lab)
        return None

    def x_nd_returned(self, st, fr, x, args, n):
        lab = self.string(st, args[0], args[1])
        self.checks.add(lab)
        self.error(st, 'returned', lab)

    def x_nd_reach(self, st, fr, x, args, n):
        lab = self.string(st, args[0], args[1])
        self.reached.add(lab)
        st.events.append(lab)
        return None

    def x_nd_try(self, st, fr, x, args, n):
        a = self.unique(st, args[0])
        cal = self.prog.fbyaddr[a]
        if cal.target is None:
            cal.target = self.bind(cal)
        self.enter(st, cal.target, [args[1]], 'try')
        return NORET

    def x_nd_panic(self, st, fr, x, args, n):
        self.do_panic(st, 'user code panics')
        return NORET

    def x_nd_blocks(self, st, fr, x, args, n):
        return sum(1 for id in st.heap if st.mem[id].live)

    def x_nd_allocs(self, st, fr, x, args, n):
        return st.nalloc

    def x_nd_last_size(self, st, fr, x, args, n):
        return st.last.get('size', 0)

    def x_nd_last_align(self, st, fr, x, args, n):
        return st.last.get('align', 0)

    def x_nd_last_addr(self, st, fr, x, args, n):
        return st.last.get('addr', 0)

    def x_nd_alloc_mode(self, st, fr, x, args, n):
        st.mode = self.unique(st, args[0])
        return None

    # ---- driver -------------------------------------------------------------------------------
    def run(self, harness):
        prog = self.prog
        self.harness = harness
        self.mp = harness.endswith('_mp')
        self.reports, self.paths, self.work = [], [], []
        self.checks, self.reached, self.entered = set(), set(), set()
        self.nchecks = self.nviol = 0
        self.unsupported, self.incomplete = {}, []
        self.steps = self.npaths = self.nforks = 0
        self.seen = {}
        self.new_solver()
        t0 = time.time()
        self.deadline = t0 + self.time_limit
        d = None
        for m in prog.mods:
            if '@' + harness in m.defs:
                d = m
        st = State()
        st.frames, st.mem, st.sb, st.heap, st.pc, st.known = [], {}, [], [], [], {}
        st.apart, st.lazy = {}, []
        st.nds, st.allocs, st.mode, st.sp, st.token, st.resc = [], [], 0, SBASE, object(), {}
        st.events, st.steps, st.nalloc, st.last, st.dirty, st.decisions = [], 0, 0, {}, None, 0
        self.solver.check()
        st.model = self.solver.model()
        self.enter(st, prog.func(d, '@' + harness), [])
        self.work.append(st)
        ops = self.ops
        while self.work:
            if self.npaths >= self.max_paths:
                self.incomplete.append('path limit (%d)' % self.max_paths)
                break
            if time.time() - t0 > self.time_limit:
                self.incomplete.append('time limit (%ds)' % self.time_limit)
                break
            st = self.work.pop()
            n = 0
            try:
                while True:
                    fr = st.frames[-1]
                    x = fr.blk[fr.ip]
                    n += 1
                    ops[x[0]](st, fr, x)
                    if n & 0x3fff == 0:
                        if st.steps + n > self.max_steps:
                            raise Inconclusive('step limit (%d)' % self.max_steps)
                        if time.time() - t0 > self.time_limit:
                            raise Inconclusive('time limit (%ds)' % self.time_limit)
            except PathEnd:
                self.npaths += 1
                st.steps += n
                if st.events is not None:
                    self.done(st)
            except Unsupported as e:
                k = str(e)[:200]
                self.unsupported[k] = self.unsupported.get(k, 0) + 1
                self.npaths += 1
            except Inconclusive as e:
                self.incomplete.append(str(e))
                self.npaths += 1
            except z3.Z3Exception as e:
                self.incomplete.append('z3: %s' % e)
                self.npaths += 1
            self.steps += n
        return self

    def done(self, st):
        if len(self.paths) < self.max_witness and not any(e.startswith('FAIL') for e in st.events):
            try:
                w = self.witness(st)
            except Inconclusive:
                return
            w['events'] = list(st.events)
            w['panic'] = st.last.get('panic') if 'PANIC' in st.events else None
            w['oom'] = 'OOM' in st.events
            self.paths.append(w)

    max_witness = 40


NORET = object()
