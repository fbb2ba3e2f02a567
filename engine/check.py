#!/usr/bin/env python3
"""check.py ID: decide property ID for /repo's current tree (see DESIGN.md).

Builds the harnesses of that property with /repo's crate to LLVM IR for each configuration, executes them
symbolically (irsym), replays every counterexample against the real build, validates path witnesses the same way
and writes evidence/ID.json. Exit 0: held on everything explored; 1: VIOLATION; 2: the check could not answer.
"""
import fcntl
import glob
import hashlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
TARGET = 'x86_64-unknown-linux-gnu'
sys.path.insert(0, HERE)
import irsym  # noqa: E402

ALL = list(range(48, 64))
# widths (debug assertions on) x (off) explored by the quick tier; thorough takes every width both ways
HEAVY = ([60, 48, 51, 54, 56, 58, 62, 63], [60, 48, 63])
QUICK = {'C13': HEAVY, 'C14': HEAVY, 'C15': ([60, 48, 54, 63], [60, 48]), 'C16': ([60, 48], [60]), 'C21': HEAVY, 'C23': ([60, 48, 56, 62], [60, 63]), 'C26': HEAVY, 'C27': (ALL, [60, 63])}
QUICK_DEFAULT = (ALL, [48, 60, 62, 63])
# harnesses the quick tier leaves to the thorough one
SLOW = re.compile(r'^c23_steps3_|_deep(_mp)?$')
# harnesses over many layouts or many variants, which the quick tier runs in these configurations only
LONG = re.compile(r'_grid_|^c06_pair_|_clone_from$|_storage$|^c10_crowd_(view|container)$|^c21_order|^c23_repeat|^c23_shapes2|_pad$|_refused$|_long$')
LONG_QUICK = {(60, True), (48, True), (62, True), (60, False)}
# properties whose harnesses are also built with large payloads in the shape enums, and where
BIG = {'C08', 'C11', 'C13', 'C14', 'C15', 'C17', 'C18', 'C21', 'C22', 'C23'}
BIG_QUICK = [(60, True), (62, False)]
BIG_THOROUGH = [(w, d) for w in (48, 56, 60, 62, 63) for d in (True, False)]
# settings that must behave as 60bits (C03)
ODD = [None, '', 'banana', '60', '64bits', '47bits', '60 bits', '60BITS']
# properties whose statement promises that the harness programs compile
COMPILES = {'C03', 'C09', 'C12'}
LIMITS = {'quick': dict(time_limit=240, max_paths=20000, query_ms=60000, max_witness=12),
          'thorough': dict(time_limit=5400, max_paths=200000, query_ms=600000, max_witness=60)}
NPROC = os.cpu_count() or 4


def log(*a):
    print(*a, flush=True)


def base_env():
    e = {k: v for k, v in os.environ.items()
         if not (k.startswith('CARGO_') and k not in ('CARGO_HOME',)) and
         k not in ('RUSTFLAGS', 'RUSTDOCFLAGS', 'RUSTC_WRAPPER', 'RUSTC', 'MIRIFLAGS', 'TBV_WIDTH', 'TAGGED_BOX_RESERVED_WIDTH')}
    e.update(RUSTC_BOOTSTRAP='1', CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable', CARGO_TERM_COLOR='never')
    return e


class Cfg:
    """a build configuration of the crate"""

    def __init__(self, width, da, setting='=', big=False):
        self.width, self.da, self.big = width, da, big
        self.setting = '%dbits' % width if setting == '=' else setting
        self.odd = setting != '='
        self.name = '%d%s%s%s' % (width, '' if da else '-nodebug', '-' + odd_name(self.setting) if self.odd else '', '-big' if big else '')
        self.base = width == 60 and da and not self.odd and not big

    def feats(self, f):
        return f + ',big' if self.big else f

    def env(self):
        e = base_env()
        e['TBV_WIDTH'] = str(self.width)
        if self.setting is not None:
            e['TAGGED_BOX_RESERVED_WIDTH'] = self.setting
        if not self.da:
            e['CARGO_PROFILE_DEV_DEBUG_ASSERTIONS'] = 'false'
            e['CARGO_PROFILE_DEV_OVERFLOW_CHECKS'] = 'false'
        return e

    def describe(self):
        s = '%d pointer bits, debug assertions and overflow checks %s' % (self.width, 'on' if self.da else 'off')
        if self.odd:
            s += ', TAGGED_BOX_RESERVED_WIDTH %s' % ('unset' if self.setting is None else '= "%s"' % self.setting)
        if self.big:
            s += ', large payloads in the shape enums'
        return s


def odd_name(s):
    return 'unset' if s is None else 'env%d' % ODD.index(s)


def configs(pid, tier):
    if tier == 'thorough':
        on, off = ALL, ALL
    else:
        on, off = QUICK.get(pid, QUICK_DEFAULT)
    c = [Cfg(w, True) for w in on] + [Cfg(w, False) for w in off]
    if pid == 'C03':
        c += [Cfg(60, True, s) for s in ODD]
    if pid in BIG:
        c += [Cfg(w, d, big=True) for w, d in (BIG_THOROUGH if tier == 'thorough' else BIG_QUICK)]
    return c


def std_ir():
    """LLVM IR of the installed core and alloc libraries, for functions the crate calls but does not instantiate"""
    e = base_env()
    v = subprocess.run(['rustc', '-vV'], env=e, capture_output=True, text=True).stdout
    os.makedirs(BUILD, exist_ok=True)
    outs = []
    with open(os.path.join(BUILD, 'std.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for lib in ('core', 'alloc'):
            out = os.path.join(BUILD, '%s-%s.ll' % (lib, hashlib.sha256(v.encode()).hexdigest()[:12]))
            outs.append(out)
            if os.path.exists(out):
                continue
            sysroot = subprocess.run(['rustc', '--print', 'sysroot'], env=e, capture_output=True, text=True).stdout.strip()
            t = out + '.tmp'
            r = subprocess.run(['rustc', '--edition', '2024', '--crate-name', lib, '--crate-type', 'rlib',
                                '--emit=llvm-ir', '-C', 'debuginfo=0', '-C', 'no-prepopulate-passes', '-C', 'opt-level=0',
                                '-C', 'overflow-checks=off', '-C', 'debug-assertions=off', '-C', 'codegen-units=1',
                                '-Zshare-generics=n', '-C', 'symbol-mangling-version=v0', '--cap-lints', 'allow',
                                '-Zforce-unstable-if-unmarked',
                                sysroot + '/lib/rustlib/src/rust/library/%s/src/lib.rs' % lib, '-o', t],
                               env=e, capture_output=True, text=True)
            if r.returncode:
                if lib == 'core':
                    raise SystemExit('core IR: ' + r.stderr[-2000:])
                outs.pop()      # without it, code that needs it is reported as unsupported
                continue
            os.replace(t, out)
    return outs


class BuildFailed(Exception):
    pass


def build(cfg, feats, kind, work, rel=False):
    """kind 'ir' -> list of .ll; 'replay' -> path of the native replay binary. Always from scratch."""
    d = os.path.join(work, '%s%s-%s' % (kind, '-release' if rel else '', cfg.name))
    shutil.rmtree(d, ignore_errors=True)
    e = cfg.env()
    cmd = ['cargo', 'build', '--offline', '--locked', '--target', TARGET, '--target-dir', d, '--features', kind + ',' + cfg.feats(feats)]
    if kind == 'ir':
        e['RUSTFLAGS'] = '--emit=llvm-ir -C debuginfo=0 -Zshare-generics=n -C no-prepopulate-passes --cap-lints allow'
        cmd.append('--lib')
    else:
        e['RUSTFLAGS'] = '--cap-lints allow'
        cmd += ['--bin', 'replay'] + (['--release'] if rel else [])
    r = subprocess.run(cmd, cwd=os.path.join(VERIF, 'harness'), env=e, capture_output=True, text=True)
    if r.returncode:
        raise BuildFailed(r.stderr)
    b = os.path.join(d, TARGET, 'release' if rel else 'debug')
    if kind == 'ir':
        return glob.glob(os.path.join(b, 'deps', '*.ll'))
    return os.path.join(b, 'replay')


def crate_builds(cfg, work):
    d = os.path.join(work, 'crate-' + cfg.name)
    shutil.rmtree(d, ignore_errors=True)
    e = cfg.env()
    r = subprocess.run(['cargo', 'build', '--offline', '--lib', '--target-dir', d, '--manifest-path', REPO + '/Cargo.toml'],
                       env=e, capture_output=True, text=True)
    shutil.rmtree(d, ignore_errors=True)
    return r.returncode == 0, r.stderr


# ---- symbolic execution of one harness, in a worker process ------------------------------------------------
PROGS = {}


def execute(task):
    name, h, width, seed, lim, keep = task
    prog = PROGS[name]
    kept = [] if keep else None
    e = irsym.Engine(prog, width, seed=seed, keep_unsat=kept, **{k: v for k, v in lim.items() if k != 'max_witness'})
    e.max_witness = lim['max_witness']
    t = time.time()
    try:
        e.run(h)
    except Exception as x:      # an engine failure is no verdict
        import traceback
        return dict(cfg=name, harness=h, crashed=traceback.format_exc()[-1500:], wall=time.time() - t)
    return dict(cfg=name, harness=h, wall=time.time() - t, paths=e.npaths, steps=e.steps, queries=e.queries,
                solver_s=e.solver_s, checks=sorted(e.checks), nchecks=e.nchecks, reached=sorted(e.reached),
                entered=sorted(e.entered), unsupported=e.unsupported, incomplete=e.incomplete, reports=e.reports,
                witnesses=e.paths, kept=kept or [], forks=e.npaths)


def worker(conn):
    while True:
        task = conn.recv()
        if task is None:
            return
        conn.send(execute(task))


def schedule(tasks, deadline, hard):
    """runs the tasks on NPROC worker processes; one that exceeds the hard limit (the solver not answering) is ended and
    its task tried once more with another seed. Returns results and the names of what did not finish."""
    ctx = mp.get_context('fork')
    todo, busy, idle, results, late = list(tasks), {}, [], [], []
    tries = {}

    def start():
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b,), daemon=True)
        p.start()
        b.close()
        return a, p

    def stop(w):
        w[1].kill()
        w[1].join()
        w[0].close()
    idle = [start() for _ in range(min(NPROC, len(tasks)))]
    while todo or busy:
        while todo and idle:
            w, t = idle.pop(), todo.pop(0)
            w[0].send(t)
            busy[w[0]] = (w, t, time.time())
        now = time.time()
        if now >= deadline:
            break
        ready = mp.connection.wait(list(busy), timeout=min(5, deadline - now))
        for c in ready:
            w, t, _ = busy.pop(c)
            try:
                results.append(c.recv())
                idle.append(w)
            except EOFError:
                stop(w)
                idle.append(start())
                results.append(dict(cfg=t[0], harness=t[1], crashed='the worker process ended', wall=0))
        now = time.time()
        for c, (w, t, s) in list(busy.items()):
            if now - s > hard:
                del busy[c]
                stop(w)
                idle.append(start())
                k = t[:2]
                tries[k] = tries.get(k, 0) + 1
                if tries[k] < 2:
                    todo.append(t[:3] + (t[3] + 1,) + t[4:])
                else:
                    results.append(dict(cfg=t[0], harness=t[1], crashed='the solver does not answer', wall=now - s))
    late = ['%s (%s)' % (t[1], t[0]) for t in todo + [x[1] for x in busy.values()]]
    for w in idle + [x[0] for x in busy.values()]:
        stop(w)
    return results, late


def concrete(task):
    """re-execution of the IR on one concrete input"""
    name, h, width, nds, addrs = task
    e = irsym.Engine(PROGS[name], width, fixed=(nds, addrs))
    try:
        e.run(h)
    except Exception:
        return []
    return [(r['kind'], r['label']) for r in e.reports]


# ---- native runs -------------------------------------------------------------------------------------------
def native(binary, cases, work):
    """list of event lists"""
    f = os.path.join(work, 'cases-%d' % (hash((binary, len(cases), time.time())) & 0xffffffff))
    with open(f, 'w') as o:
        for h, nds, addrs in cases:
            o.write('%s;%s;%s\n' % (h, ','.join(map(str, nds)), ','.join(map(str, addrs))))
    r = subprocess.run([binary, f], capture_output=True, cwd=work)
    os.unlink(f)
    out = []
    for l in r.stdout.decode('utf-8', 'replace').split('\n'):
        if l.startswith('CASE '):
            out.append([])
        elif l.startswith('  ') and out:
            out[-1].append(l.strip())
    return out


def failed(ev, h):
    """the failure a native run shows, or None"""
    for x in ev:
        if x.startswith('FAIL ') or x.startswith('MEM '):
            return x
        if x.startswith('CRASH') and not ('CRASH 6' == x and 'OOM' in ev):
            return x
    if 'PANIC' in ev and not h.endswith('_mp'):
        return next((x for x in ev if x.startswith('PANICAT')), 'PANIC')
    return None


def miri(cfg, feats, h, nds, addrs, work):
    e = cfg.env()
    e['RUSTUP_TOOLCHAIN'] = 'nightly'
    e['MIRIFLAGS'] = '-Zmiri-permissive-provenance -Zmiri-ignore-leaks'
    e['RUSTFLAGS'] = '--cap-lints allow'
    try:
        r = subprocess.run(['cargo', 'miri', 'run', '--offline', '--features', 'replay,' + cfg.feats(feats), '--bin', 'replay',
                            '--target-dir', os.path.join(work, 'miri-' + cfg.name), '--', '--direct', h,
                            ','.join(map(str, nds)), ','.join(map(str, addrs))],
                           cwd=os.path.join(VERIF, 'harness'), env=e, capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return None
    m = re.search(r'Undefined Behavior: (.*)', r.stderr)
    if m:
        return 'Miri: undefined behaviour: ' + m.group(1)
    ev = [l.strip() for l in r.stdout.split('\n') if l.startswith('  ')]
    f = failed(ev, h)
    return 'Miri: ' + f if f else None


def known_findings():
    out = []
    for l in open(os.path.join(VERIF, 'known_findings.txt')):
        m = re.match(r'known: property=(\S+) harness=(\S+) label="([^"]*)" (.*)', l)
        if m:
            out.append(dict(zip(('property', 'harness', 'label', 'what'), m.groups())))
    return out


def main():
    pid = sys.argv[1]
    if pid == '--setup':
        log(*std_ir())
        return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    lim = LIMITS[tier]
    feats = pid.lower()
    work = os.path.join(BUILD, 'work', pid + '-' + tier)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rep_dir = os.path.join(VERIF, 'replays', pid)
    shutil.rmtree(rep_dir, ignore_errors=True)
    cfgs = configs(pid, tier)
    bycfg = {c.name: c for c in cfgs}
    violations, errors, notes, kf_hits = [], [], [], []

    def violation(what, **kw):
        os.makedirs(rep_dir, exist_ok=True)
        p = os.path.join(rep_dir, '%d.json' % (len(violations) + 1))
        with open(p, 'w') as f:
            json.dump(dict(property=pid, what=what, **kw), f, indent=1)
        violations.append((p, what))
        log('violation: ' + what)
        log('VIOLATION property=%s replay=%s' % (pid, p))

    # ---- build
    base = next(c for c in cfgs if c.base)
    bins = {}
    with ThreadPoolExecutor(NPROC) as ex:
        std = ex.submit(std_ir)
        irs = {c.name: ex.submit(build, c, feats, 'ir', work) for c in cfgs}
        nat = {(base.name, rel): ex.submit(build, base, feats, 'replay', work, rel) for rel in (False, True)}
        std = std.result()
        lls = {}
        for n, f in irs.items():
            try:
                lls[n] = f.result()
            except BuildFailed as x:
                c = bycfg[n]
                ok, why = crate_builds(c, work)
                if ok and pid in COMPILES:
                    violation('programs using the crate no longer compile at %s' % c.describe(), configuration=c.describe(),
                              build_log=str(x)[-6000:])
                elif not ok and pid == 'C03' and c is not base:
                    violation('the crate does not compile at %s' % c.describe(), configuration=c.describe(), build_log=why[-6000:])
                elif c is base or ok:
                    errors.append('harness build failed (%s): %s' % (n, str(x)[-1500:]))
                else:
                    notes.append('the crate does not compile at %s (see C03)' % c.describe())
        for k, f in nat.items():
            try:
                bins[k] = f.result()
            except BuildFailed as x:
                errors.append('native build failed: %s' % str(x)[-1500:])
    build_s = time.time() - t0

    def binary(c, rel):
        k = (c.name, rel)
        if k not in bins:
            bins[k] = build(c, feats, 'replay', work, rel)
        return bins[k]

    # ---- symbolic execution
    tasks = []
    for n, files in lls.items():
        PROGS[n] = p = irsym.Program(files, std)
        hs = sorted(d[1:] for m in p.mods for d in m.defs if re.match('@%s_' % pid.lower(), d))
        if tier == 'quick':
            hs = [h for h in hs if not SLOW.search(h)]
            if (bycfg[n].width, bycfg[n].da) not in LONG_QUICK or bycfg[n].odd or bycfg[n].big:
                hs = [h for h in hs if not LONG.search(h)]
        tasks += [(n, h, bycfg[n].width, seed, lim, tier == 'thorough' and n == base.name) for h in hs]
    random.Random(seed).shuffle(tasks)
    tasks.sort(key=lambda t: not re.search(r'_(order|by_hand|lawless|cmp|steps\d|shapes2|repeat|debug|display|distinct|pad|long|grid|storage|clone_from|crowd|pair)', t[1]))
    deadline = t0 + (780 if tier == 'quick' else 1e9)
    results, late = schedule(tasks, deadline, lim['time_limit'] * 1.25 + 15)
    if late:
        notes.append('deadline: %d of %d harness runs not finished: %s' % (len(late), len(tasks), ', '.join(late)[:500]))
    explore_s = time.time() - t0 - build_s

    # ---- judge
    known = [k for k in known_findings() if k['property'] == pid]
    reports, undecided = [], []
    for r in results:
        if 'crashed' in r:
            undecided.append('engine failure in %s (%s): %s' % (r['harness'], r['cfg'], r['crashed']))
            continue
        if not r['reached'] and not r['reports']:
            if r['unsupported'] or r['incomplete']:
                undecided.append('%s (%s): nothing decided: %s' % (r['harness'], r['cfg'], list(r['unsupported'])[:2] + r['incomplete'][:2]))
            else:
                errors.append('%s (%s): vacuous, no witness reached' % (r['harness'], r['cfg']))
        for rep in r['reports']:
            k = next((k for k in known if k['harness'] == rep['harness'] and k['label'] == rep['label']), None)
            if k:
                if k not in kf_hits:
                    kf_hits.append(k)
                continue
            reports.append((r['cfg'], rep))
    # a few harness runs without an answer narrow what was covered (they are listed); many leave the property undecided
    missing = len(tasks) - len(results)
    if not results or len(undecided) + missing > len(tasks) / 4:
        errors += undecided[:20]
        if missing:
            errors.append('%d of %d harness runs not finished' % (missing, len(tasks)))
    else:
        notes += ['undecided: ' + u for u in undecided]
    for k in kf_hits:
        log('KNOWN-FINDING: property=%s %s (%s)' % (pid, k['what'], k['harness']))
    # one counterexample per harness, kind and label is enough; prefer the base configuration
    best = {}
    for n, rep in sorted(reports, key=lambda x: (x[0] != base.name, not x[1]['native'])):
        best.setdefault((rep['harness'], rep['kind'], rep['label']), []).append((n, rep))
    confirmed = 0
    for (h, kind, label), cands in list(best.items()):
        if confirmed >= 8:
            break
        how = None
        for n, rep in cands[:6]:
            c = bycfg[n]
            nds, addrs = rep['nds'], rep['addrs']
            if rep['native']:
                for rel in ((False, True) if c.da else (True, False)):
                    try:
                        ev = native(binary(c, rel), [(h, nds, addrs)], work)[0]
                    except (BuildFailed, IndexError):
                        continue
                    f = failed(ev + (['OOM'] if 'OOM' in rep['events'] else []), h)
                    if rel and 'COUNTS' in ev and f and f.startswith('FAIL'):
                        continue
                    if f and not any(k['harness'] == h and f == 'FAIL ' + k['label'] for k in known):
                        how = 'native %s build: %s' % ('release' if rel else 'dev', f)
                        break
            if not how and kind in ('memory', 'uninit', 'ub', 'abort'):
                how = miri(c, feats, h, nds, addrs, work)
            if not how:
                with mp.get_context('fork').Pool(1) as p:
                    got = p.apply(concrete, ((n, h, c.width, nds, addrs),))
                if (kind, label) in got:
                    if not rep['native'] or kind in ('memory', 'uninit', 'ub'):
                        how = 'concrete re-execution of the IR (addresses or kind of error a native run cannot show)'
                    elif kind == 'check' and any('(uninitialised)' in label for _ in (0,)):
                        how = 'concrete re-execution of the IR: the value is uninitialised'
            if how:
                break
        if how:
            confirmed += 1
            violation('%s: %s %s [%s]' % (h, kind, label, how), harness=h, kind=kind, label=label, configuration=c.describe(),
                      inputs=nds, heap_addresses=addrs, reproduced=how, call_stack=rep['trace'], events=rep['events'],
                      rerun='cd %s/harness && %s RUSTC_BOOTSTRAP=1 cargo run --offline --features replay,%s --bin replay -- --direct %s %s "%s"' % (
                          VERIF, ' '.join('%s="%s"' % kv for kv in c.env().items() if kv[0] in ('TAGGED_BOX_RESERVED_WIDTH', 'TBV_WIDTH')),
                          c.feats(feats), h, ','.join(map(str, nds)), ','.join(map(str, addrs))))
        else:
            errors.append('counterexample does not reproduce: %s %s %s inputs=%s addrs=%s (%s)' % (h, kind, label, cands[0][1]['nds'], cands[0][1]['addrs'], cands[0][0]))

    # ---- validate path witnesses against the real build
    validated = mismatches = unrealisable = 0
    samples = []
    for rel in (False, True):
        if (base.name, rel) not in bins:
            continue
        cases, want = [], []
        for r in results:
            if r.get('cfg') != base.name or 'crashed' in r:
                continue
            for w in r['witnesses']:
                if w['native'] and not (any(e.startswith('FAIL') for e in w['events'])):
                    cases.append((r['harness'], w['nds'], w['addrs']))
                    want.append(w)
        if not cases:
            continue
        got = native(bins[(base.name, rel)], cases, work)
        for (h, nds, addrs), w, ev in zip(cases, want, got):
            if any(x.startswith('UNREALISABLE') for x in ev):
                unrealisable += 1
                continue
            f = failed(ev + (['OOM'] if w['oom'] else []), h)
            if rel and 'COUNTS' in ev and f and f.startswith('FAIL'):
                unrealisable += 1       # the harness counts allocations, some of which the optimiser left out
                continue
            if f and any(k['harness'] == h and f == 'FAIL ' + k['label'] for k in known):
                continue
            a = [x for x in w['events'] if x.startswith('REACH')]
            b = [x for x in ev if x.startswith('REACH')]
            if w['oom'] and 'CRASH 6' in ev:
                a = a[:len(b)]          # handle_alloc_error may unwind (as the engine has it) or abort
            same = a == b and not f and (w['oom'] or ('PANIC' in w['events']) == ('PANIC' in ev)) and 'ASSUME not met' not in ev
            if same:
                validated += 1
                if len(samples) < 6 and (not samples or samples[-1]['harness'] != h):
                    samples.append(dict(harness=h, inputs=nds, heap_addresses=addrs, events=w['events'], native=ev,
                                        build='release' if rel else 'dev'))
            else:
                mismatches += 1
                if f and not violations:
                    violation('%s fails in the real %s build: %s' % (h, 'release' if rel else 'dev', f), harness=h, inputs=nds,
                              heap_addresses=addrs, reproduced=f, configuration=base.describe(), predicted=w['events'])
                elif not violations and len(errors) < 20:
                    errors.append('the real build disagrees with the symbolic run: %s inputs=%s addrs=%s predicted %s got %s' % (h, nds, addrs, w['events'], ev))

    # ---- second solver
    cross = None
    if tier == 'thorough':
        qs = [q for r in results for q in r.get('kept', [])]
        cross = second_solver(qs, seed, work)
        if cross['disagree']:
            errors.append('cvc5 disagrees with z3 on %d queries' % cross['disagree'])

    ok = [r for r in results if 'crashed' not in r]
    inc = [dict(harness=r['harness'], configuration=r['cfg'], unsupported=r['unsupported'], incomplete=sorted(set(r['incomplete'])))
           for r in ok if r['unsupported'] or r['incomplete']]
    for i in inc:
        log('INCOMPLETE (outside what this run covers): %s' % json.dumps(i)[:400])
    ent = sorted({f for r in ok for f in r['entered']})
    dm = irsym.demangle(ent)
    fns = sorted({re.sub(r'<impl at .*?>', '<impl>', dm[f]) for f in ent if 'tagged_box' in dm[f] or 'tbv' in dm[f]})
    own = [f for f in fns if re.match(r'<?(<impl )?tagged_box', f) or 'tagged_box::' in f]
    if not samples:
        samples = [dict(harness=r['harness'], configuration=r['cfg'], paths=r['paths'], checks=r['checks']) for r in ok[:3]]
    ev = dict(
        property=pid, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=sum(r['paths'] for r in ok), transitions=sum(r['steps'] for r in ok),
            traces_validated_against_impl=validated, samples=samples,
            states_are='complete symbolic paths; transitions: IR instructions executed on them',
            harness_runs=len(ok), harnesses=sorted({r['harness'] for r in ok}),
            configurations=[c.describe() for c in cfgs if c.name in lls],
            solver_queries=sum(r['queries'] for r in ok), solver_s=round(sum(r['solver_s'] for r in ok), 2),
            obligations=sum(r['nchecks'] for r in ok), labels=sorted({l for r in ok for l in r['checks']}),
            witnesses_reached=sum(len(r['reached']) for r in ok),
            functions_encoded=len(fns), crate_functions_encoded=own[:400],
            trace_mismatches=mismatches, traces_not_realisable=unrealisable,
            bounds=bounds(pid, tier), limits=lim, incomplete=inc, second_solver=cross,
            build_s=round(build_s, 1), explore_s=round(explore_s, 1), notes=notes,
            known_findings=[k['harness'] for k in kf_hits], errors=[e[:600] for e in errors]),
        assumptions=ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(violations))
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    log('%s %s: %d harness runs in %d configurations, %d paths, %d instructions, %d queries (%.1f s solver), %d obligations, '
        '%d traces validated, %d mismatches; build %.1f s, explore %.1f s, total %.1f s' % (
            pid, tier, len(ok), len(lls), ev['coverage']['states'], ev['coverage']['transitions'], ev['coverage']['solver_queries'],
            ev['coverage']['solver_s'], ev['coverage']['obligations'], validated, mismatches, build_s, explore_s, ev['wall_s']))
    for n in notes:
        log('note: ' + n)
    for e in errors:
        log('error: ' + e)
    if violations:
        sys.exit(1)
    sys.exit(2 if errors else 0)


def second_solver(qs, seed, work):
    rng = random.Random(seed)
    rng.shuffle(qs)
    qs = qs[:400]
    res = dict(checked=0, agree=0, unknown=0, disagree=0)

    def one(i_q):
        i, q = i_q
        p = os.path.join(work, 'q%d.smt2' % i)
        with open(p, 'w') as f:
            f.write('(set-logic ALL)\n' + q)
        try:
            return subprocess.run(['cvc5', '--tlimit=20000', p], capture_output=True, text=True, timeout=60).stdout.strip()
        except subprocess.TimeoutExpired:
            return 'timeout'
    with ThreadPoolExecutor(NPROC) as ex:
        for o in ex.map(one, enumerate(qs)):
            res['checked'] += 1
            res['agree' if o == 'unsat' else 'disagree' if o == 'sat' else 'unknown'] += 1
    return res


ASSUMPTIONS = [
    'the LLVM IR rustc emits before optimisation, and the semantics engine/irsym gives it, represent the code (path witnesses are replayed against real dev and release builds)',
    'the allocator returns an aligned block disjoint from live blocks and from code, globals and stack, at any address below 2^width (or fails, where the harness says so); freed addresses are not reused, except where the harness has the last freed block of the size handed out again',
    'stack and global objects have fixed addresses; 64-bit little-endian x86-64',
    'panic machinery (formatting and printing of panic messages) is not executed: a panic unwinds at its call; drop code and landing pads are',
]


def bounds(pid, tier):
    b = ['every value of every harness input (integers of the stated types) and every allocator address below 2^width: symbolic, no sampling',
         'types, enums, operation shapes and loop counts: those written in harness/src/%s*.rs' % pid.lower(),
         'no loop or path bound was hit unless listed under "incomplete"']
    if pid == 'C23':
        b.append('operation sequences of length 1 and 2' + (' and 3' if tier == 'thorough' else '') + ' on two boxes')
    if pid == 'C26':
        b.append('boxes in boxes up to three levels, lists of up to three elements (twelve with one number), trees of five nodes')
    return b


if __name__ == '__main__':
    main()
