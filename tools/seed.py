#!/usr/bin/env python3
"""Development tool: builds and confirms planted bugs from tools/seeds_def.py, and runs checks against them.

  seed.py make [ID...]     writes seeded/<id>/ after confirming it in a scratch copy (builds, tests pass, demo 0 -> nonzero)
  seed.py check [ID...]    runs the property's quick check against a scratch copy with the bug
  seed.py all ID           runs every check against one bug
"""
import sys, os, subprocess, shutil, json, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = os.path.join(V, 'seeded')
DEMO = '''#!/bin/bash
# exit 0: the property's example behaves as it should; nonzero otherwise
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O0 -g -w %s -ISource "$D/demo.cpp" %s -o "$T/demo" -lpthread || exit 8
timeout 60 "$T/demo"
'''
LIB = "$(find Source -name '*.cpp' ! -name '*.Windows.cpp' ! -path '*UnitTest*')"
def sh(c, cwd=None, env=None): return subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
def copy(patch=None):
    d = tempfile.mkdtemp(prefix='seed-', dir='/tmp'); r = os.path.join(d, 'repo')
    subprocess.check_call(['git', 'clone', '-q', '/repo', r])
    if patch:
        p = sh('git apply %s' % patch, r)
        if p.returncode: shutil.rmtree(d); raise Exception('does not apply: ' + p.stdout)
    return d, r
def tests(d, r):
    c = os.path.join(d, 'cmake'); os.makedirs(c); t = open('/opt/vp/cmake/CMakeLists.txt').read().replace('set(REPO /repo)', 'set(REPO %s)' % r); open(c + '/CMakeLists.txt', 'w').write(t)
    p = sh('CC=gcc CXX=g++ cmake -S %s -B %s/b -G Ninja -DCMAKE_BUILD_TYPE= -DCMAKE_CXX_FLAGS=-g && ninja -C %s/b' % (c, d, d))
    if p.returncode: return 'build failed\n' + p.stdout[-2000:]
    p = sh('TZ=UTC timeout 120 %s/b/UnitTest /R' % d)
    return None if p.returncode == 0 else 'tests fail: ' + ' | '.join(l for l in p.stdout.splitlines() if '31m' in l)[-300:]
def make(b):
    out = os.path.join(S, b['id']); d, r = copy()
    try:
        for f, old, new in b['edits']:
            p = os.path.join(r, f); t = open(p).read(); n = t.count(old)
            if n != 1: return '%s: %d matches of %r' % (b['id'], n, old[:60])
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=r, text=True)
        w = os.path.join(d, 'seed'); os.makedirs(w)
        for n, t in b['files'].items(): open(os.path.join(w, n), 'w').write(t)
        open(os.path.join(w, 'demo.sh'), 'w').write(DEMO % ('-fsanitize=address' if b.get('asan') else '', b.get('lib', LIB)))
        os.chmod(os.path.join(w, 'demo.sh'), 0o755)
        e = tests(d, r)
        if e: return b['id'] + ': ' + e
        bad = sh('bash %s/demo.sh' % w, r); sh('git checkout -q -- .', r); good = sh('bash %s/demo.sh' % w, r)
        if good.returncode != 0: return b['id'] + ': demo fails on the unchanged tree: ' + good.stdout[-1500:]
        if bad.returncode in (0, 8, 9): return b['id'] + ': demo passes with the bug (%d) %s' % (bad.returncode, bad.stdout[-1500:])
        open(os.path.join(w, 'patch.diff'), 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(w, 'meta.json'), 'w'), indent=1)
        shutil.rmtree(out, ignore_errors=True); shutil.copytree(w, out)
        return b['id'] + ': ok'
    finally: shutil.rmtree(d, ignore_errors=True)
def check(id, props, jobs=8, tier='quick'):
    d, r = copy(os.path.join(S, id, 'patch.diff')); res = []
    try:
        for p in props:
            e = dict(os.environ, VS_REPO=r, VS_OUT=os.path.join(d, 'out'), VS_JOBS=str(jobs)); os.makedirs(e['VS_OUT'], exist_ok=True)
            c = sh('python3 %s/run.py %s --tier %s' % (V, p, tier), V, e); res.append((p, c.returncode, [l for l in c.stdout.splitlines() if 'VIOLATION' in l or 'counterexample' in l.lower()][:2] or c.stdout.splitlines()[-2:]))
    finally: shutil.rmtree(d, ignore_errors=True)
    return id, res
if __name__ == '__main__':
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); import seeds_def
        bs = [b for b in seeds_def.BUGS if (b['id'] in ids if ids else not os.path.exists(os.path.join(S, b['id'])))]
        with ThreadPoolExecutor(3) as ex:
            for x in ex.map(make, bs): print(x, flush=True)
    elif cmd == 'check':
        ids = ids or sorted(os.listdir(S))
        with ThreadPoolExecutor(2) as ex:
            for id, res in ex.map(lambda i: check(i, [json.load(open(os.path.join(S, i, 'meta.json')))['property']], 4), ids):
                for p, rc, l in res: print('%-7s %s %s exit %d %s' % ('CAUGHT' if rc == 1 else 'MISSED', id, p, rc, l[0][:150] if l else ''), flush=True)
    elif cmd == 'all':
        props = sorted(os.path.basename(f)[:-4] for f in glob.glob(os.path.join(V, 'harness', '[A-Z][0-9][0-9].cpp')))
        for id in ids:
            _, res = check(id, props); print(id, 'caught by', [p for p, rc, _ in res if rc == 1], 'no answer', [p for p, rc, _ in res if rc not in (0, 1)])
