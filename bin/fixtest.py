#!/usr/bin/env python3
"""Self-test of the arithmetic: TLA+ definitions = overrides = Python integers."""
import json, os, random, subprocess, sys, tempfile, math
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'bin'))
import tlcrun
from fix import enc_int, ONE

def rs(p):
    return -((-p + (1 << 59)) >> 60) if p < 0 else (p + (1 << 59)) >> 60

def main():
    rnd = random.Random(7)
    def num():
        k = rnd.random()
        if k < .05: return None
        if k < .12: return 0
        if k < .2: return rnd.choice([1, -1, 1 << 59, ONE, -ONE, (1 << 60) - 1, 1 << 15, (1 << 15) - 1, -(1 << 45)])
        return rnd.randrange(-(1 << rnd.randrange(1, 100)), (1 << rnd.randrange(1, 100)))
    E = enc_int
    def lift(f):
        return lambda *a: None if any(x is None for x in a) else f(*a)
    add = lift(lambda a, b: a + b); sub = lift(lambda a, b: a - b); mul = lift(lambda a, b: rs(a * b))
    def divf(a, b):
        if a is None or b is None or b == 0: return None
        q = (abs(a) << 60) // abs(b)
        return q if (a < 0) == (b < 0) else -q
    def sq(a): return None if a is None or a < 0 else math.isqrt(a << 60)
    def cmp(a, b): return 2 if a is None or b is None else (a > b) - (a < b)
    def dot(u, v):
        s = 0
        for a, b in zip(u, v): s = add(s, mul(a, b))
        return s
    EV = lambda v: [E(x) for x in v]
    EM = lambda m: [EV(r) for r in m]
    def vec(n): return [num() for _ in range(n)]
    def vmax(v): return None if any(x is None for x in v) else max([0] + [abs(x) for x in v])
    cases = []
    for _ in range(120):
        a, b = num(), num()
        cases += [dict(op='add', a=E(a), b=E(b), r=E(add(a, b))), dict(op='sub', a=E(a), b=E(b), r=E(sub(a, b))),
                  dict(op='mul', a=E(a), b=E(b), r=E(mul(a, b))), dict(op='cmp', a=E(a), b=E(b), r=cmp(a, b)),
                  dict(op='lt', a=E(a), b=E(b), r=cmp(a, b) == -1), dict(op='le', a=E(a), b=E(b), r=cmp(a, b) in (0, -1))]
    for _ in range(25):
        a, b = num(), num()
        cases += [dict(op='div', a=E(a), b=E(b), r=E(divf(a, b))), dict(op='sqrt', a=E(a), r=E(sq(a)))]
    for _ in range(12):
        m, n, p = (rnd.randrange(1, 4) for _ in range(3))
        A = [vec(n) for _ in range(m)]; B = [vec(p) for _ in range(n)]; C = [vec(n) for _ in range(m)]
        v, w, s = vec(n), vec(n), num()
        cases += [dict(op='mmul', a=EM(A), b=EM(B), r=EM([[dot(r, [B[k][j] for k in range(n)]) for j in range(p)] for r in A])),
                  dict(op='madd', a=EM(A), b=EM(C), r=EM([[add(x, y) for x, y in zip(r, q)] for r, q in zip(A, C)])),
                  dict(op='msub', a=EM(A), b=EM(C), r=EM([[sub(x, y) for x, y in zip(r, q)] for r, q in zip(A, C)])),
                  dict(op='mscale', a=E(s), b=EM(A), r=EM([[mul(s, x) for x in r] for r in A])),
                  dict(op='mv', a=EM(A), b=EV(v), r=EV([dot(r, v) for r in A])),
                  dict(op='mt', a=EM(A), r=EM([list(c) for c in zip(*A)])),
                  dict(op='vadd', a=EV(v), b=EV(w), r=EV([add(x, y) for x, y in zip(v, w)])),
                  dict(op='vsub', a=EV(v), b=EV(w), r=EV([sub(x, y) for x, y in zip(v, w)])),
                  dict(op='vscale', a=E(s), b=EV(v), r=EV([mul(s, x) for x in v])),
                  dict(op='dot', a=EV(v), b=EV(w), r=E(dot(v, w))),
                  dict(op='vmax', a=EV(v), r=E(vmax(v))),
                  dict(op='mmax', a=EM(A), r=E(vmax(sum(A, [])))) ]
    bad = 0
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 't.json'); json.dump(cases, open(f, 'w'))
        cfg = os.path.join(d, 't.cfg'); open(cfg, 'w').write('INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n')
        for ov in (True, False):
            r = tlcrun.tlc('FixTest', cfg, d, env={'TRACE': f}, overrides=ov, workers=8)
            ok = r.finished and r.distinct == 2 * len(cases)
            print('overrides' if ov else 'pure TLA+', 'cases', len(cases), 'ok' if ok else 'FAILED', '%.1fs' % r.wall)
            if not ok: print(r.out[-3000:]); bad = 1
    return bad

if __name__ == '__main__':
    sys.exit(main())
