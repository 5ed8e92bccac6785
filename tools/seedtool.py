"""Maintains /verif/seeded from tools/seeds.py:
  seedtool.py make [ID..]   write patch.diff, demo.sh, meta.json (tries them in a scratch copy: builds, demo passes before, fails after)
  seedtool.py catch [ID..]  run the property's check against the scratch copy with the change, print verdicts"""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwt'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def prep():
    if not os.path.isdir(W):
        sh('git -C /repo worktree prune')
        r = sh('git clone -q /repo %s' % W); assert r.returncode == 0, r.stderr
    r = sh('git -C %s fetch -q origin && git -C %s reset -q --hard && git -C %s checkout -q --detach $(git -C /repo rev-parse HEAD)' % (W, W, W)); assert r.returncode == 0, r.stderr
    if not os.path.isdir(W + '/_build'):
        r = sh('cd %s && CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Release -DCMAKE_CXX_FLAGS="-include cstdint" -Wno-dev' % W); assert r.returncode == 0, r.stderr
def build():
    return sh('ninja -C %s/_build' % W)
def apply(s):
    for f, old, new in s['edits']:
        p = os.path.join(W, f); t = open(p, newline='').read()
        crlf = '\r\n' in t
        if crlf: t = t.replace('\r\n', '\n')
        assert t.count(old) == 1, (f, t.count(old), old)
        t = t.replace(old, new)
        open(p, 'w', newline='').write(t.replace('\n', '\r\n') if crlf else t)
def reset(): sh('git -C %s reset -q --hard' % W)
def write(i, s):
    d = os.path.join(V, 'seeded', i); os.makedirs(d, exist_ok=True)
    apply(s); open(os.path.join(d, 'patch.diff'), 'w', newline='').write(subprocess.run(['git', '-C', W, 'diff'], capture_output=True).stdout.decode()); reset()
    open(os.path.join(d, 'demo.sh'), 'w').write(s['demo'] if s['demo'].startswith('#!') else '#!/bin/bash\n' + s['demo'])
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    for n, t in s.get('files', {}).items(): open(os.path.join(d, n), 'w').write(t)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    return d
def demo(d): return sh('bash %s/demo.sh' % d, cwd=W, timeout=300)
def main():
    ids = sys.argv[2:] or list(SEEDS)
    prep()
    b = build(); assert b.returncode == 0, b.stdout[-2000:]
    for i in ids:
        s = SEEDS[i]; d = os.path.join(V, 'seeded', i)
        if sys.argv[1] == 'make':
            d = write(i, s); build(); r0 = demo(d)
        apply(s)
        try:
            if sys.argv[1] == 'make':
                b = build(); r1 = demo(d) if b.returncode == 0 else None
                print(i, s['property'], 'build', b.returncode, 'demo clean', r0.returncode, 'demo with', r1 and r1.returncode,
                      '' if r0.returncode == 0 and r1 and r1.returncode else 'BAD ' + r0.stdout[-500:] + r0.stderr[-500:] + (b.stdout[-1500:] if b.returncode else ''))
            else:
                r = sh('python3 %s/tools/check.py %s' % (V, s['property']), env=dict(os.environ, VF_REPO=W))
                print(i, s['property'], 'rc', r.returncode, '; '.join(l for l in (r.stdout + r.stderr).split('\n') if l)[-260:], flush=True)
        finally:
            reset()
    if sys.argv[1] == 'make': build()
main()
