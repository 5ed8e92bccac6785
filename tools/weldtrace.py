"""Runs the real welder on generated programs and turns each run into a case for WelderTrace.tla"""
import os, random, re, subprocess
from decimal import Decimal
import vf, gcode, gen_weld
from concurrent.futures import ThreadPoolExecutor

def run_welder(binary, text, a, name):
    d = os.path.join(vf.scratch(), 'w'); os.makedirs(d, exist_ok=True)
    s, t = os.path.join(d, name + '.gcode'), os.path.join(d, name + '.out')
    open(s, 'w', newline='').write(text)
    try:
        r = subprocess.run([binary] + a + ['-p=NONE', '-l=ERROR', s, t], capture_output=True, text=True, errors='replace', timeout=60)
    except subprocess.TimeoutExpired:
        return None, 'timeout', -1
    out = open(t, newline='', errors='surrogateescape').read() if os.path.exists(t) else None
    for f in (s, t):
        if os.path.exists(f): os.remove(f)
    return out, r.stdout + r.stderr, r.returncode

def split(text):
    l = text.split('\n')
    if l and l[-1] == '': l.pop()
    return l

HEAD = '; Postprocessed by [ArcWelder]'
def strip_header(lines):
    """lines without the program's header, and the header (None if there is not exactly one)"""
    k = [i for i, l in enumerate(lines) if l.startswith(HEAD)]
    if len(k) != 1: return lines, None, -1
    e = k[0]
    while e < len(lines) and lines[e].startswith(';'): e += 1
    if e < len(lines) and lines[e] == '': return lines[:k[0]] + lines[e + 1:], lines[k[0]:e + 1], k[0]
    return lines[:k[0]] + lines[e:], lines[k[0]:e], k[0]

def opts(o):
    u = lambda v, s: int((Decimal(str(v)) * 10 ** s).to_integral_value())
    return dict(half=u(o.get('r', .05), 5) // 2, tol=u(o.get('t', .05), 6), maxr=min(999900000, u(o.get('m', 9999), 5)),
                minseg=o.get('a', 0), mmseg=u(o.get('s', 0), 5), d3=bool(o.get('z')), travel=bool(o.get('y')), dyn=bool(o.get('d')),
                px=o.get('x', 3), pe=o.get('e', 5), var=u(o.get('v', .05), 6), maxlen=o.get('c', 0))

def cfg(g90e=False, n=8):
    return dict(g90e=bool(g90e), ne=n, zb=True, rel=False, erel=False, tool=0, fx=[0] * n, fy=[0] * n, home=[0, 0, 0],
                homeNone=[True] * 3, rl=[10] * n, zl=[100] * n, prime=0, minlayer=0, hinc=0, bound=False, circ=False,
                bx=[0, 0], by=[0, 0], bz=[0, 0])

def cms_of(line):
    k = line.find(';')
    return [] if k < 0 else line[k + 1:].split(' - ')

NEVER = dict(c='', p={}, n=[], cs='', empty=True, dx=0, de=0)
def arc_item(r, line):
    p, d, bad = dict(r['p']), dict(r['d']), False
    for l in ('X', 'Y', 'I', 'J'):
        if l not in p: p[l] = 0; d[l] = -1
    big = any(abs(p[l]) > 200000000 for l in ('X', 'Y', 'Z', 'E') if l in p and l != 'E') or \
        (p['I'] / 1e5) ** 2 + (p['J'] / 1e5) ** 2 > 1.44e8 or abs(p.get('E', 0)) > 1500000000 \
        or abs(p.get('F', 0)) > 1500000000
    if big:
        for l in p: p[l] = max(-100000, min(100000, p[l]))
    return dict(t=r['t'], c=r['c'], p=p, n=r['n'], cs=r['cs'], empty=False, d=d, len=r['len'], cms=cms_of(line), big=big)

def case_of(text, out, o):
    ids = {}
    def rec(l):
        r = gcode.tokenize(l); r['t'] = ids.setdefault(gcode.norm(l), len(ids) + 1); return r
    sl = split(text)
    src = [rec(l) for l in sl]
    ol, head, at = strip_header(split(out))
    orec = [rec(l) for l in ol]
    steps, cost = gcode.align(src, orec)
    used = {s['o']: s['op'] for s in steps if s['o']}
    items = []
    for k, r in enumerate(orec):
        items.append(arc_item(r, ol[k]) if used.get(k + 1) == 'arc' else dict(t=r['t']))
    for r in src:
        for k in ('d', 'len'): r.pop(k, None)
    return dict(cfg=cfg(o.get('g')), o=opts(o), src=src, out=items, steps=steps), cost

def one(binary, seed, prof, k):
    rng = random.Random('%s/%d/%d' % (prof.get('name', ''), seed, k))
    text, o, p = gen_weld.program(rng, prof)
    r = produce(binary, text, o, 'c%d' % k)
    if 'case' in r:
        n = len(r['case']['src'])
        r['case']['hint'] = [p.hints.get(q, 0) for q in range(n)]
        r['case']['circ'] = [[max(-10**9, min(10**9, int(round(v * 1e5)))) for v in c] for c in p.circles]
    return r

def produce(binary, text, o, name):
    a = gen_weld.args(o)
    out, log, rc = run_welder(binary, text, a, name)
    if out is None or rc != 0:
        return dict(fail='exit %d: %s' % (rc, log[-500:]), text=text, o=o, args=a, out=out)
    case, cost = case_of(text, out, o)
    return dict(case=case, cost=cost, text=text, o=o, args=a, out=out)

def many(binary, seed, prof, n):
    from concurrent.futures import ProcessPoolExecutor
    with ProcessPoolExecutor(8) as ex:
        return list(ex.map(_one, [(binary, seed, prof, k, vf.scratch()) for k in range(n)], chunksize=8))
def _one(a):
    vf._scratch = a[4]
    return one(a[0], a[1], a[2], a[3])
