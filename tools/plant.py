#!/usr/bin/env python3
"""Writes planted bugs into /verif/seeded and runs them (never used by a check).

plant.py write FILE...       FILE: python with calls of bug(...)
plant.py run ID...           apply, build + stable tests, demo, quick check, undo
plant.py clean ID...         demos on the unchanged tree must exit 0
"""
import json, os, re, subprocess, sys, shutil, tempfile, difflib
SEED = '/verif/seeded'
RS = '''#!/bin/bash
# Exit 0 when the library behaves, nonzero when it does not.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
. /opt/vp/env.sh
D=/repo/target/debug
rustc --edition 2021 -A warnings "$here/demo.rs" -o "$tmp/demo" -L dependency=$D/deps \\
  --extern d10=$D/libd10.rlib --extern d10_core=$D/libd10_core.rlib --extern d10_ops=$D/libd10_ops.rlib \\
  --extern d10_codecs=$D/libd10_codecs.rlib --extern d10_commands=$D/libd10_commands.rlib || exit 99
cd "$tmp" && timeout 120 ./demo "$tmp"
'''
PY = '''#!/bin/bash
# Exit 0 when the module behaves, nonzero when it does not.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp /repo/target/debug/libd10.so "$tmp/d10.so" || exit 99
cd "$tmp" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$tmp" timeout 120 /opt/vp/venv/bin/python "$here/demo.py" "$tmp"
'''
PRE = '''#![allow(unused_imports)]
use d10::*;
use d10_core::color::*;
use d10_core::pixelbuffer::PixelBuffer;
fn close(a: f32, b: f32) -> bool { (a - b).abs() < 1e-3 }
'''
SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cd "$tmp"
'''
HEAD = subprocess.run(['git', '-C', '/repo', 'rev-parse', 'HEAD'], capture_output=True, text=True).stdout.strip()
def show(f, rev=None):
    return subprocess.run(['git', '-C', '/repo', 'show', f'{rev or HEAD}:{f}'], capture_output=True, text=True, check=True).stdout
def bug(id, prop, edits, needs, breaks, rs=None, py=None, sh=None, pre=True):
    files = {}
    for f, old, new in edits:
        t = files.get(f) or show(f)
        assert t.count(old) == 1, (id, f, t.count(old), old)
        files[f] = t.replace(old, new)
    diff = ''
    for f, t in files.items():
        diff += f'diff --git a/{f} b/{f}\n' + ''.join(difflib.unified_diff(show(f).splitlines(True), t.splitlines(True), f'a/{f}', f'b/{f}'))
        base = show(f, '834ca2b')
        for l in difflib.ndiff(show(f).splitlines(), t.splitlines()):
            if l.startswith('- ') and l[2:].strip() and l[2:] not in base.splitlines():
                print('WARNING', id, 'touches a line of a fix:', l)
    d = f'{SEED}/{id}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(f'{d}/patch.diff', 'w').write(diff)
    if rs is not None:
        open(f'{d}/demo.rs', 'w').write((PRE if pre else '') + rs.strip('\n') + '\n'); s = RS
    elif py is not None:
        open(f'{d}/demo.py', 'w').write(py.strip('\n') + '\n'); s = PY
    else:
        s = SH + sh.strip('\n') + '\n'
    open(f'{d}/demo.sh', 'w').write(s); os.chmod(f'{d}/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def run(ids, extra=()):
    for i in ids:
        d = f'{SEED}/{i}'; prop = json.load(open(f'{d}/meta.json'))['property']
        assert not sh('git -C /repo status --porcelain').stdout.strip()
        a = sh(f'git -C /repo apply {d}/patch.diff')
        if a.returncode: print(i, 'APPLY FAIL', a.stderr, flush=True); continue
        try:
            t = sh('bash /tmp/tst.sh').stdout.strip()
            ok = "missing []" in t
            dm = sh(f'cd /repo && bash {d}/demo.sh')
            r = {}
            for p in [prop, *extra]:
                c = sh(f'cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./check.sh {p} quick')
                v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
                r[p] = (c.returncode, v[:1])
        finally:
            sh('git -C /repo checkout -- .')
        caught = all(x[0] == 1 and x[1] for x in r.values())
        print(i, 'CAUGHT' if caught else 'MISSED', 'tests', 'ok' if ok else t[-600:], 'demo', dm.returncode, (dm.stdout + dm.stderr)[-160:].replace('\n', ' | '), r, flush=True)
        with open('/tmp/plant.log', 'a') as l: l.write(json.dumps([i, prop, caught, ok, dm.returncode]) + '\n')
def clean(ids):
    sh('bash /tmp/tst.sh')
    for i in ids:
        dm = sh(f'cd /repo && bash {SEED}/{i}/demo.sh')
        if dm.returncode: print(i, 'CLEAN DEMO FAILS', dm.returncode, (dm.stdout + dm.stderr)[-600:], flush=True)
    print('clean done', len(ids))
if __name__ == '__main__':
    cmd, rest = sys.argv[1], sys.argv[2:]
    if cmd == 'write':
        for f in rest: exec(open(f).read())
    else:
        ids = rest or sorted(os.listdir(SEED))
        if cmd == 'run': clean(ids); run(ids); sh('bash /tmp/tst.sh')
        else: clean(ids)
