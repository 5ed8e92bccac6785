"""Runs the real straightener on generated programs and turns each run into a case for StraightTrace.tla"""
import os, random, subprocess, heapq
import vf, gcode, gen_arc, weldtrace as wt

def run(binary, text, a, name, target=True):
    d = os.path.join(vf.scratch(), 's'); os.makedirs(d, exist_ok=True)
    s, t = os.path.join(d, name + '.gcode'), os.path.join(d, name + '.out')
    open(s, 'w', newline='').write(text)
    try:
        r = subprocess.run([binary] + a + [s, t], capture_output=True, text=True, errors='replace', timeout=60)
    except subprocess.TimeoutExpired:
        return None, 'timeout', -1
    out = open(t, newline='', errors='surrogateescape').read() if os.path.exists(t) else None
    for f in (s, t):
        if os.path.exists(f): os.remove(f)
    return out, r.stdout + r.stderr, r.returncode

HEAD = '; Postprocessed by [ArcStraightener]'
def strip_header(lines):
    if not lines or not lines[0].startswith(HEAD): return lines, None
    e = 0
    while e < len(lines) and lines[e].startswith('; '): e += 1
    return (lines[e + 1:], lines[:e]) if e < len(lines) and lines[e] == '' else (lines, None)

def align(src, out):
    """a witness: copy, arc with n moves, drop, ins.  Dijkstra as in gcode.align"""
    ends, rels, m = [], [], gcode.Modal()
    for r in src: rels.append(m.rel); ends.append(m.step(r))
    n, k = len(src), len(out)
    best, prev, heap = {(0, 0): 0}, {}, [(0, 0, 0, 0)]
    while heap:
        cost, neg, i, j = heapq.heappop(heap)
        if best.get((i, j), 1 << 30) < cost: continue
        if i == n and j == k: break
        def push(ni, nj, c, step):
            if best.get((ni, nj), 1 << 30) > cost + c:
                best[(ni, nj)] = cost + c; prev[(ni, nj)] = (i, j, step)
                heapq.heappush(heap, (cost + c, -(ni + nj), ni, nj))
        arc = i < n and src[i]['c'] in gcode.ARC
        if i < n and j < k and src[i]['t'] == out[j]['t']:
            push(i + 1, j + 1, 500 if arc else 0, dict(op='copy', n=1))
        if arc:
            x, y = ends[i - 1] if i else (None, None)
            ex, ey = ends[i]
            cnt, q, es = 0, j, None
            want = src[i]['p'].get('E')
            while True:
                fit = None not in (x, y, ex, ey) and max(abs(x - ex), abs(y - ey)) <= 600
                near = fit and max(abs(x - ex), abs(y - ey)) <= 52
                e = 1 if cnt and (want is not None) != (es is not None) else 0
                if es:       # the filament of the moves, as a sum or as a final value
                    sure = abs(es[0] - (want or 0)) <= cnt + 2 or (abs(es[1] - want) <= 10 + abs(want) // 2000000 if want is not None else es[3] - es[2] <= 10 + abs(es[1]) // 2000000)
                    if not sure: e += 6
                push(i + 1, q, (0 if near else 1 if fit else 20) + (3 if cnt == 0 else 0) + e, dict(op='arc', n=cnt))
                if q >= k or out[q]['c'] != 'G1' or cnt >= 3000: break
                p = out[q]['p']
                if 'E' in p:
                    e = p['E']; es = (es[0] + e, e, min(es[2], e), max(es[3], e)) if es else (e, e, e, e)
                if x is None or y is None: x, y = p.get('X', x), p.get('Y', y)
                elif rels[i]: x, y = x + p.get('X', 0), y + p.get('Y', 0)
                else: x, y = p.get('X', x), p.get('Y', y)
                q += 1; cnt += 1
        if i < n: push(i + 1, j, 100, dict(op='drop', n=1))
        if j < k: push(i, j + 1, 100, dict(op='ins', n=0))
    steps, at = [], (n, k)
    while at != (0, 0):
        i, j, s = prev[at]; steps.append(s); at = (i, j)
    steps.reverse()
    return steps, best[(n, k)]

def opts(s):
    v = gen_arc.effective(s)
    u = lambda k, sc: int(round(v[k] * sc))
    return dict(mm=u('mm', 1e5), minmm=u('minmm', 1e5), maxmm=u('maxmm', 1e5), minper=u('minper', 1e5), perr=u('perr', 1e5), err=u('err', 1e5),
                persec=u('persec', 1e3), minseg=v['minseg'], mincirc=v['mincirc'], ncorr=v['ncorr'])

def case_of(text, out, s):
    ids = {}
    def rec(l):
        r = gcode.tokenize(l); r['t'] = ids.setdefault(l, len(ids) + 1); return r
    ol, head = strip_header(wt.split(out))
    src, o = [rec(l) for l in wt.split(text)], [rec(l) for l in ol]
    steps, cost = align(src, o)
    for r in src + o:
        for k in ('d', 'len', 'dx', 'de', 'empty'): r.pop(k, None)
    return dict(cfg=wt.cfg(gen_arc.g90e(s), 1), fw=s['fw'], o=opts(s), src=src, out=o, steps=steps), cost, head

def produce(binary, text, s, name):
    a = gen_arc.args(s)
    out, log, rc = run(binary, text, a, name)
    if out is None or rc != 0: return dict(fail='exit %d: %s' % (rc, log[-500:]), text=text, o=s, args=a, out=out)
    case, cost, head = case_of(text, out, s)
    return dict(case=case, cost=cost, head=head, text=text, o=s, args=a, out=out, log=log)

def one(binary, seed, prof, k):
    rng = random.Random('%s/%d/%d' % (prof.get('name', ''), seed, k))
    text, s, p = gen_arc.program(rng, prof)
    return produce(binary, text, s, 's%d' % k)
def _one(a):
    vf._scratch = a[4]
    return one(*a[:4])
def many(binary, seed, prof, n):
    from concurrent.futures import ProcessPoolExecutor
    with ProcessPoolExecutor(8) as ex:
        return list(ex.map(_one, [(binary, seed, prof, k, vf.scratch()) for k in range(n)], chunksize=8))
