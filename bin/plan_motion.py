"""M01-M04, J01-J03: displacements, twists, masses and joints alone."""
from math import pi
from plans import plan

ANGLES = [0., pi / 2, -pi / 2, pi, -pi, 2 * pi, pi / 2 - 1e-8, -pi / 2 + 1e-8, pi / 2 + 1e-11, 1e-9, -1e-12, 20., -7.3, 100.]
JTYPES = ['RzRyRxJoint', 'RzRyJoint', 'RzRxJoint', 'RyRxJoint', 'RzJoint', 'RyJoint', 'RxJoint', 'TxTyTzJoint', 'TxJoint', 'TyJoint', 'TzJoint',
          'FixedJoint', 'FreeJoint']
NDOF = {'RzRyRxJoint': 3, 'RzRyJoint': 2, 'RzRxJoint': 2, 'RyRxJoint': 2, 'TxTyTzJoint': 3, 'FixedJoint': 0, 'FreeJoint': 6}

def tiny(r): return r.choice([-1, 1]) * 10.**r.uniform(-7, -2)
def angle(r): return tiny(r) if r.random() < .1 else r.choice(ANGLES) if r.random() < .5 else r.uniform(-4, 4)
def coord(r): return tiny(r) if r.random() < .15 else r.choice([0., 1., -1., 1e-9, 50.]) if r.random() < .4 else r.uniform(-3, 3)

def unit(r):
    while 1:
        v = [r.choice([0., 1., -1.]) if r.random() < .4 else r.uniform(-1, 1) for i in range(3)]
        if r.random() < .2: v[r.randrange(3)] = r.choice([1e-8, -1e-12])
        n = sum(x * x for x in v) ** .5
        if n > .1: return [x / n for x in v]

def letter(r):
    f = r.choice(['transl', 'rotx', 'roty', 'rotz', 'rotzyx', 'rotzyx', 'rotzy', 'rotzx', 'rotyx', 'zaligned', 'inv'])
    if f == 'transl':
        small = r.random() < .2
        return [f, [tiny(r) if small else coord(r) for i in range(3)]]
    if f == 'zaligned': return [f, unit(r)]
    if f == 'inv': return [f, []]
    if f == 'rotzyx' and r.random() < .4:
        # near the singularity of the pitch, at all scales
        return [f, [angle(r), r.choice([-1, 1])*pi/2 + r.choice([-1, 1]) * 10.**r.uniform(-8, -1), angle(r)]]
    return [f, [angle(r) for i in range({'rotx': 1, 'roty': 1, 'rotz': 1, 'rotzyx': 3}.get(f, 2))]]

EXACT = {'rotx': ['rotx', [pi / 2]], 'roty': ['roty', [pi / 2]], 'rotz': ['rotz', [pi / 2]], 'inv': ['inv', []]}
for _k, _x in enumerate('xyz'):
    EXACT['t' + _x] = ['transl', [float(i == _k) for i in range(3)]]
    EXACT['-t' + _x] = ['transl', [-float(i == _k) for i in range(3)]]

@plan('M01', 'M02')
def disp(c):
    b = c.behaviours(c.design('MCRigid', env=dict(MAXLEN='6' if c.thorough else '5'), workers=1,
                              what='group laws, adjoint and adjacency laws on the group generated by quarter turns and unit translations'))
    n = 4000 if c.thorough else 300
    # the words are prefix closed: keep the longest ones
    b.sort(key=lambda w: -len(w))
    if len(b) > n: b = b[:n // 2] + c.rng.sample(b, n // 2)
    specs = [dict(word=[EXACT[g] for g in w]) for w in b]
    c.conform('disp', 'DispTrace', specs, label='quarter turns')
    r = c.rng
    specs = [dict(word=[letter(r) for i in range(r.randint(1, 6))]) for k in range(4000 if c.thorough else 250)]
    c.conform('disp', 'DispTrace', specs, label='random words')

GRID = {0: 0., 1: 1., 2: -2.5}
VGRID = {0: 0., 1: 1., 2: -2.}

def state(r, t):
    n = NDOF.get(t, 1)
    if t == 'FreeJoint': q = [angle(r) for i in range(3)] + [coord(r) for i in range(3)]
    else: q = [angle(r) if t[0] == 'R' else coord(r) for i in range(n)]
    slow = r.random() < .1
    v = [tiny(r) if slow else r.choice([0., 1., -1., 1e-9]) if r.random() < .3 else r.uniform(-5, 5) for i in range(n)]
    return q, v

def duration(r): return r.choice([0., 1e-3, 1e-2, .1, 1., 1e-6, 10., -.01])

@plan('J01', 'J02', 'J03')
def joints(c):
    b = c.behaviours(c.design('MCJoints', workers=8, what='derivatives of the joint motions against closed forms'))
    r = c.rng
    if c.prop == 'J02':
        n = len(b) if c.thorough else 500
        for x in b if len(b) <= n else c.rng.sample(b, n): pass
        specs = []
        for x in (b if len(b) <= n else c.rng.sample(b, n)):
            q, v = [GRID[k] for k in x['q']], [VGRID[k] for k in x['v']]
            if x['type'] == 'FreeJoint': q = [q[0], q[1], 0., q[2], 1., 0.]
            specs.append(dict(type=x['type'], q=q, v=v, kind='array', ops=[]))
        c.conform('joint', 'JointTrace', specs, label='grid')
    specs = []
    for k in range(8000 if c.thorough else 520):
        t = JTYPES[k % len(JTYPES)]
        n = NDOF.get(t, 1)
        q, v = state(r, t)
        kind = r.choice(['list', 'tuple', 'array', 'int', 'intarray', 'col', 'f32'] + (['scalar'] if n == 1 else []))
        if kind in ('int', 'intarray'): q, v = [round(x) for x in q], [round(x) for x in v]
        if kind in ('f32', 'intarray', 'col') and t == 'FreeJoint': kind = 'int' if r.random() < .5 else 'array'
        if r.random() < .15: q = None
        if r.random() < .15: v = None
        ops = []
        if c.prop == 'J02': ops = [['set'] + list(state(r, t)) for i in range(2)]
        else:
            for i in range(r.randint(1, 12 if c.prop == 'J03' else 3)):
                if r.random() < .25: ops.append(['set'] + list(state(r, t)))
                else: ops.append(['integrate', state(r, t)[1], duration(r)])
        specs.append(dict(type=t, q=q, v=v, kind=kind, ops=ops, inworld=r.random() < .5))
    c.conform('joint', 'JointTrace', specs, label='random')
    if c.prop == 'J03':
        # long motions of a free joint
        specs = []
        for k in range(20 if c.thorough else 7):
            q, v = state(r, 'FreeJoint')
            specs.append(dict(type='FreeJoint', q=q, v=v, kind='array', inworld=True,
                              ops=[['integrate', [r.uniform(-4, 4) for i in range(6)], r.choice([.001, .01, .2])] for i in range(2000 if c.thorough else 150)]))
        c.conform('joint', 'JointTrace', specs, label='long motions')

def direction(r):
    v = unit(r)
    return v
MAGNITUDES = [0., 1e-300, 1e-15, 1e-9, 1e-6, 1e-4, 5e-4, 9e-4, 9.99e-4, 1e-3 - 1e-12, 1e-3, 1e-3 + 1e-12, 1.1e-3, 2e-3, 1e-2, .1, 1., 3., 3.141592653589793, 3.2,
              6.283185307179586, 6.5, 9., 30., 100.]

@plan('M03')
def exponentials(c):
    c.design('MCExp', what='rigidity, one-parameter group, generator of the exponential')
    r = c.rng
    specs = []
    for k in range(3000 if c.thorough else 210):
        tw = []
        for i in range(5):
            t = r.choice(MAGNITUDES) * r.choice([1., 1., r.uniform(.5, 1.5)])
            d = r.choice([0., 1e-6, 1., 10., r.uniform(0, 3)])
            s = r.choice([.5, .3, 1., 0., -1., r.uniform(0, 1)])
            tw.append([[t * x for x in direction(r)] + [d * x for x in direction(r)], s, r.choice([1 - s, .25, -s])])
        specs.append(dict(tw=tw))
    c.conform('exps', 'ExpTrace', specs, label='twists')

@plan('M04')
def masses(c):
    c.design('MCMass', what='second moments of the solids against integrals over slices, parallel axes, energy')
    c.conform('masses', 'MassTrace', [dict(n=8) for k in range(1500 if c.thorough else 140)], label='masses')
