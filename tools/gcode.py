"""Reading of gcode for the trace checks: a line becomes a record with exact integer values.
Only recording is done here; every judgement is made by the TLA+ specifications."""
import re, heapq
from decimal import Decimal, ROUND_HALF_EVEN

PARSABLE = {"G0","G1","G2","G3","G10","G11","G20","G21","G28","G29","G80","G90","G91","G92","M82","M83",
            "M104","M105","M106","M109","M114","M116","M140","M141","M190","M191","M207","M208","M218",
            "M240","M400","M563","T"}
CMD = re.compile(r'^ *([GMT]) *([0-9]*)(\.[0-9]+)?')
PAR = re.compile(r' *([A-Z])([-+]?[0-9]*\.?[0-9]*)')
LIM = 1000000000      # what is further away than this is only known to be far away
FAR = Decimal(10) ** 12

def to_int(text, scale):
    """exact decimal text -> integer in units of 10^-scale (ties to even beyond)"""
    d = Decimal(text)
    if abs(d) >= FAR: return LIM if d > 0 else -LIM
    return max(-LIM, min(LIM, int((d * (Decimal(10) ** scale)).quantize(Decimal(1), rounding=ROUND_HALF_EVEN))))

def decimals(text):
    return len(text.split('.')[1]) if '.' in text else 0

def norm(line):
    """what may be normalised: carriage returns and a lone ';' at the end"""
    line = line.replace('\r', '')
    k = line.find(';')
    if k >= 0 and k == len(line) - 1:
        line = line[:k]
    return line

def tokenize(line):
    """record {c, p, n, cs, empty, dx, de, d, len} of a line"""
    line = line.replace('\r', '')
    k = line.find(';')
    body, comment = (line, '') if k < 0 else (line[:k], line[k + 1:])
    rec = dict(c='', p={}, n=[], cs=comment, empty=body.strip(' \t') == '', dx=0, de=0, d={}, len=len(body))
    m = CMD.match(body.upper())
    if not m:
        return rec
    letter, num, frac = m.group(1), m.group(2), m.group(3) or ''
    rest = body.upper()[m.end():]
    if letter == 'T':
        rec['c'] = 'T'
        if num:
            rec['p']['T'] = int(num[:9]); rec['n'] = ['T']
        return rec
    if not num:
        return rec
    rec['c'] = letter + num + frac
    if rec['c'] not in PARSABLE:
        return rec
    pos = 0
    while pos < len(rest):
        m = PAR.match(rest, pos)
        if not m or m.end() == pos:
            break
        l, t = m.group(1), m.group(2)
        if t in ('', '-', '+', '.'):
            # a parameter without a number takes the text up to the end
            rec['n'].append(l)
            for ch in rest[pos:]:
                if ch in 'XYZE' and ch not in rec['n']:
                    rec['n'].append(ch)
            break
        rec['n'].append(l)
        rec['p'][l] = to_int(t, 3 if l == 'F' else 5)
        rec['d'][l] = decimals(t)
        if l in 'XYZ': rec['dx'] = max(rec['dx'], rec['d'][l])
        if l == 'E': rec['de'] = max(rec['de'], rec['d'][l])
        pos = m.end()
    return rec

class Modal:
    """just enough of a printer to know where a line ends; an untrusted helper of the aligner"""
    def __init__(self): self.x = self.y = None; self.rel = False
    def step(self, r):
        if r['c'] in ('G0', 'G1', 'G2', 'G3'):
            for l in 'XY':
                if l in r['p']:
                    a = l.lower(); v = r['p'][l]
                    if self.rel: v = v + getattr(self, a) if getattr(self, a) is not None else None
                    setattr(self, a, v)
        elif r['c'] == 'G90': self.rel = False
        elif r['c'] == 'G91': self.rel = True
        elif r['c'] == 'G92':
            for l in 'XY':
                if l in r['n'] or not r['n']: setattr(self, l.lower(), r['p'].get(l, 0))
        elif r['c'] in ('G28',): self.x = self.y = None
        return (self.x, self.y)

ARC = ('G2', 'G3')
def align(src, out):
    """A witness: steps explaining every line of out (list of records with 't') by lines of src.
    Dijkstra over (lines consumed, items consumed); 0-cost where everything fits."""
    ends = []
    m = Modal()
    for r in src: ends.append(m.step(r))
    n, k = len(src), len(out)
    best = {(0, 0): 0}; prev = {}
    heap = [(0, 0, 0, 0)]
    while heap:
        cost, neg, i, j = heapq.heappop(heap)
        if best.get((i, j), 1 << 30) < cost: continue
        if i == n and j == k: break
        def push(ni, nj, c, step):
            if best.get((ni, nj), 1 << 30) > cost + c:
                best[(ni, nj)] = cost + c
                prev[(ni, nj)] = (i, j, step)
                heapq.heappush(heap, (cost + c, -(ni + nj), ni, nj))
        if i < n and j < k and src[i]['t'] == out[j]['t']:
            push(i + 1, j + 1, 0, dict(op='copy', o=j + 1, n=1))
        elif j < k and out[j]['c'] in ARC:
            extra, moves, q = 0, 0, i
            while q < n and extra <= 6 and q - i < 400:
                r = src[q]
                blank = r['empty'] and r['cs'] == '' and r['c'] == ''
                if not blank:
                    moves += 1
                    if r['c'] not in ('G0', 'G1'): extra += 2
                q += 1
                if moves >= 1:
                    ex, ey = ends[q - 1]
                    d = out[j]['d']
                    # a zero is written without decimals, and so says nothing of their number
                    said = [d[l] for l in 'XYIJ' if d.get(l, -1) >= 0 and out[j]['p'].get(l)] or [3]
                    tol = 10 ** max(0, 5 - min(said))
                    fit = ex is not None and ey is not None and abs(ex - out[j]['p'].get('X', LIM)) <= tol \
                          and abs(ey - out[j]['p'].get('Y', LIM)) <= tol
                    # ties between two fitting ends go to the nearer one, then to the one which extrudes as the arc does
                    near = fit and max(abs(ex - out[j]['p'].get('X', LIM)), abs(ey - out[j]['p'].get('Y', LIM))) <= tol // 2 + 1
                    same = ('E' in out[j]['p']) == ('E' in src[q - 1]['p'])
                    push(q, j + 1, 20 * (extra + (0 if fit else 3) + (0 if moves > 1 else 1)) + (0 if near else 2) + (0 if same or blank else 1), dict(op='arc', o=j + 1, n=q - i))
        if i < n: push(i + 1, j, 100, dict(op='drop', o=0, n=1))
        if j < k: push(i, j + 1, 100, dict(op='ins', o=j + 1, n=0))
    steps, at = [], (n, k)
    while at != (0, 0):
        i, j, s = prev[at]
        steps.append(s); at = (i, j)
    steps.reverse()
    return steps, best[(n, k)]
