#!/usr/bin/env python3
"""Turns a description of a planted bug into /verif/seeded/<id>/ after confirming, in a scratch copy of /repo, that it
builds, passes the stable tests, and that its demonstration tells it from the unchanged tree.
usage: seedtool.py SPECS.py [id...]    SPECS.py defines SEEDS = {id: dict(property, width, profile, edits, needs, breaks, main)}"""
import json, os, shutil, subprocess, sys, runpy
BASE = json.load(open('/opt/vp/BASELINE.json'))
DEMO = '''#!/bin/bash
# Run in /repo: builds main.rs beside this file against the crate there and runs it ({cfg}).
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
tagged-box = {{ path = "$repo" }}
[workspace]
T
export PATH=$PATH:/root/.cargo/bin CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" RUSTC_WRAPPER=
export RUSTFLAGS="-A semicolon_in_expressions_from_macros" TAGGED_BOX_RESERVED_WIDTH={width}bits
cd "$d" && cargo +stable build --offline -q {flag} || exit 1
exec_dir="$d/target/{dir}"
timeout 60 "$exec_dir/demo"
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def tests(wt):
    vp = wt + '.vp'
    os.makedirs(vp, exist_ok=True)
    for f in ('build.sh', 'test.sh', 'env.sh', 'nextest.toml', 'results.py'):
        s = open('/opt/vp/' + f).read().replace('/repo', wt).replace('. /opt/vp/env.sh', '. ' + vp + '/env.sh')
        open(vp + '/' + f, 'w').write(s)
    r = sh(f'bash {vp}/build.sh')
    if r.returncode: return 'build failed:\n' + r.stdout[-1500:]
    sh(f'bash {vp}/test.sh {vp}/out.json')
    o = json.load(open(vp + '/out.json'))
    shutil.rmtree(vp)
    passed = set(o.get('passed', o))
    want = set(BASE['stable'])
    miss = want - passed
    return 'stable tests lost: %s' % sorted(miss) if miss or not want else None
def one(sid, s):
    wt = '/tmp/seedwt/' + sid
    shutil.rmtree(wt, ignore_errors=True)
    os.makedirs('/tmp/seedwt', exist_ok=True)
    sh(f'cp -a /repo {wt}')
    out = f'/tmp/seedwt/{sid}.out'
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    open(out + '/main.rs', 'w').write(s['main'])
    rel = s.get('profile') == 'release'
    open(out + '/demo.sh', 'w').write(DEMO.format(cfg='%s bits, %s' % (s.get('width', 60), s.get('profile', 'dev')), width=s.get('width', 60),
        flag='--release' if rel else '', dir='release' if rel else 'debug'))
    try:
        r0 = sh(f'bash {out}/demo.sh', cwd=wt)
        if r0.returncode: return 'demo fails on the unchanged tree:\n' + r0.stdout[-2500:]
        for f, a, b, *n in s['edits']:
            t = open(wt + '/' + f).read()
            c = t.count(a)
            if c == 0: return 'text not found: %s: %r' % (f, a[:80])
            if n and n[0] == 'all': t = t.replace(a, b)
            else:
                k = n[0] if n else 0
                if not n and c > 1: return 'ambiguous (%d): %r' % (c, a[:80])
                parts = t.split(a)
                t = a.join(parts[:k + 1]) + b + a.join(parts[k + 1:])
            open(wt + '/' + f, 'w').write(t)
        e = tests(wt)
        if e: return e
        r1 = sh(f'bash {out}/demo.sh', cwd=wt)
        if r1.returncode == 0: return 'demo does not notice the change:\n' + r1.stdout[-800:]
        p = subprocess.run('git diff -- src', shell=True, cwd=wt, stdout=subprocess.PIPE, text=True).stdout
        open(out + '/patch.diff', 'w').write(p)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        dst = '/verif/seeded/' + sid
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return 'ok (demo with the change: rc %d, %s)' % (r1.returncode, (r1.stdout.strip().splitlines() or [''])[-1][:150])
    finally:
        shutil.rmtree(wt, ignore_errors=True); shutil.rmtree(wt + '.vp', ignore_errors=True); shutil.rmtree(out, ignore_errors=True)
if __name__ == '__main__':
    from multiprocessing.pool import ThreadPool
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    ids = sys.argv[2:] or list(seeds)
    def f(i):
        try: return i, one(i, seeds[i])
        except Exception as e: return i, 'EXC %r' % e
    for i, r in ThreadPool(4).imap_unordered(f, ids): print(i, '->', r, flush=True)
