"""P01: descriptions of the same system."""
from plans import plan
import plan_step as S, worlds as W, rigid as G
from math import cos, sin

def rot(i, a):
    j, k = (i + 1) % 3, (i + 2) % 3
    H = [[float(x == y) for y in range(4)] for x in range(4)]
    H[j][j] = H[k][k] = cos(a)
    H[j][k], H[k][j] = -sin(a), sin(a)
    return H
# the displacements of MCEquiv.tla
DISP = [rot(0, 0.), G.mul(G.transl([.5, 0., -1.]), rot(2, 1.)), G.mul(G.transl([0., 1., .5]), G.mul(rot(0, 2.), rot(1, -1.)))]
def numbers(o):
    o = dict(o)
    d = o.pop('d', 0)
    if o['op'] in ('place', 'origin'): o['H'] = DISP[d]
    elif o['op'] == 'scale': o['a'] = 1.25
    elif o['op'] == 'split': o.update(P=DISP[d], Q=DISP[(d + 1) % 3], a=.25)
    return o

def timeline(r, s, n):
    dt = S.dts(r)
    tl = [r.choice([0., 0., 1.5])]
    for i in range(n): tl.append(tl[-1] + (dt if r.random() < .7 else S.dts(r)))
    s['tl'] = tl

def model_case(r, b):
    """The world of a behaviour of MCEquiv."""
    w, nb = b['w'], len(b['w']['par'])
    d = dict(bodies=[dict(m=W.mass(r), b=[r.uniform(-.5, .5) for i in range(12)]) for k in range(nb)], links=[])
    for j in range(1, nb + 1):
        t = w['ty'][j-1]
        n = W.ndof(t)
        H = lambda k: [x for row in DISP[k % 3] for x in row]
        d['links'].append(dict(parent=w['par'][j-1], child=j, type=t, H0=H(w['fr'] + j), H1=H(w['fr'] + 2*j + 1),
                               q=H(1 + j % 2) if t == 'FreeJoint' else [(3*j - 2*m) / 4. for m in range(1, n + 1)], v=[1. - j + m for m in range(1, n + 1)]))
    n = W.dofs(d)
    s = dict(world=d, ctl=S.controllers(r, d, n) if n else [], cons=[], arrays=[])
    s['arrays'] = [S.custom(r, n) if x['t'] == 'custom' else None for x in s['ctl']]
    timeline(r, s, 3)
    s['variants'] = [dict(seed=r.randrange(10**9), ops=[numbers(o) for o in b['ops']])]
    return s

def free_case(r, deep):
    d = S.base(r, maxdof=9, nb=r.choice([1, 2, 3, 4]))
    W.unname(d)
    n = W.dofs(d)
    s = dict(world=d, ctl=S.controllers(r, d, n), cons=[])
    if r.random() < .5:
        # the only constraint is solved exactly
        def lim():
            k = [k for k in S.linear(d) if len(d['links'][k-1]['q']) == 1]
            return S.limits(r, d, r.choice(k)) if k else None
        x = r.choice([lambda: S.ball(r, d, r.choice([0., .01])), lambda: S.contact(r, d, s), lim])()
        if x: s['cons'] = [x]
    s['arrays'] = [S.custom(r, n) if x['t'] == 'custom' else None for x in s['ctl']]
    timeline(r, s, r.choice([2, 3, 5]) if not s['cons'] else r.choice([2, 3]))
    s['variants'] = [dict(seed=r.randrange(10**9), n=r.choice([1, 1, 2, 3, 5, 8])) for k in range(4)]
    return s

@plan('P01')
def equiv(c):
    r = c.rng
    b = c.behaviours(c.design('MCEquiv', env=dict(NB='2', DEPTH='1', RANDOM='0'), what='each rewriting keeps the poses, the velocities, the mass matrix and the forces of the worlds of two bodies'))
    n = 2000 if c.thorough else 250
    if len(b) > n: b = r.sample(b, n)
    deep = c.behaviours(c.design('MCEquiv', cfg='MCEquivSim', env=dict(NB='3', DEPTH='4', RANDOM='1'),
                                 args=['-simulate', 'num=%d' % (1500 if c.thorough else 60), '-depth', '5', '-seed', str(c.seed)],
                                 what='sequences of rewritings of the worlds of three bodies'))
    n = 1500 if c.thorough else 100
    if len(deep) > n: deep = r.sample(deep, n)
    c.conform('equiv', 'EquivTrace', [model_case(r, x) for x in b + deep], label='rewritings of the model')
    c.conform('equiv', 'EquivTrace', [free_case(r, c.thorough) for k in range(1500 if c.thorough else 160)], label='rewritings')
