"""Mass matrices (M04)."""
from lib import *
from numpy import array, dot, diag, eye, zeros
import arboris.massmatrix as Mm
import arboris.homogeneousmatrix as Hg

def solid(kind, a, mass):
    if kind == 'box': return Mm.box(array(a[:3]), mass)
    if kind == 'ellipsoid': return Mm.ellipsoid(array(a[:3]), mass)
    if kind == 'sphere': return Mm.sphere(a[0], mass)
    return Mm.cylinder(a[0], a[1], mass)

def pose(r, scale):
    return dot(Hg.transl(*[r.uniform(-scale, scale) for i in range(3)]), Hg.rotzyx(*[r.choice([0., r.uniform(-4, 4), 1.5707963267948966]) for i in range(3)]))

def inertia(r):
    """A regular mass matrix about its center of mass, in principal axes."""
    k = r.randrange(4)
    m = r.choice([1., r.uniform(.1, 50)])
    if k == 0: s = [1.] * 3
    elif k == 1: s = [1., 1., 2.]
    elif k == 2: s = [1., 1. + 1e-9, 2.]
    else: s = [r.uniform(.1, 5) for i in range(3)]
    r.shuffle(s)
    c = r.choice([1., .01, 10.])
    return diag([(s[1] + s[2])*c, (s[0] + s[2])*c, (s[0] + s[1])*c, m, m, m])

def case(spec):
    r = random.Random(spec['seed'])
    ev = []
    def attempt(f):
        try: ev.append(f())
        except Exception as x: ev.append({'f': 'crash', 'res': why(x)})
    for k in range(spec['n']):
        def f():
            kind = r.choice(['box', 'ellipsoid', 'sphere', 'cylinder'])
            a = [r.choice([1., r.uniform(.01, 5)]) for i in range(3)]
            m = r.choice([1., r.uniform(.01, 80)])
            return {'f': 'solid', 'kind': kind, 'a': num(a), 'mass': num(m), 'm': num(solid(kind, a, m))}
        attempt(f)
        def f():
            M = inertia(r)
            if r.random() < .6: M = Mm.transport(M, pose(r, r.choice([0., 1., 20.])))
            M = (M + M.T) / 2
            H, K = pose(r, 3.), M.copy()
            N = Mm.transport(M, H)
            return {'f': 'transport', 'from': num(M), 'h': num(H), 'm': num(N), 'kept': bool((K == M).all())}
        attempt(f)
        def f():
            M = inertia(r)
            if r.random() < .8: M = Mm.transport(M, pose(r, r.choice([0., 1., 20.])))
            M = (M + M.T) / 2
            K = M.copy()
            return {'f': 'principal', 'from': num(M), 'h': num(Mm.principalframe(M)), 'kept': bool((K == M).all())}
        attempt(f)
        def f():
            M = inertia(r)
            k = r.randrange(8)
            if k <= 1: M = Mm.transport(M, pose(r, 1.))
            M = (M + M.T) / 2
            if k == 2: M[r.randrange(3), r.randrange(3, 6)] += .5            # asymmetric
            if k == 3: i = r.randrange(3, 6); M[i, i] *= 2                   # anisotropic
            if k == 4: M[3:6, 3:6] = 0                                       # massless
            if k == 5: i = r.randrange(6); M[i, i] = -M[i, i]; M[3:, 3:] = M[i, i]*eye(3) if i > 2 else M[3:, 3:]
            if k == 6: i = r.randrange(3); M[i, i] = 0
            if k == 7: M[0, 1] = M[1, 0] = 3 * (M[0, 0] + M[1, 1])           # indefinite, positive diagonal
            return {'f': 'valid', 'm': num(M), 'res': bool(Mm.ismassmatrix(M)), 'semi': bool(Mm.ismassmatrix(M, semi=True))}
        attempt(f)
        def f():
            M = r.choice([eye(5), eye(7), zeros((6, 5)), eye(3), zeros(6)])
            return {'f': 'badshape', 'res': bool(Mm.ismassmatrix(M)), 'semi': bool(Mm.ismassmatrix(M, True))}
        if k == 0: attempt(f)
    return {'ev': ev}
main(case)
