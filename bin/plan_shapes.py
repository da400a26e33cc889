"""G01, G02: distances between shapes, pairs of shapes."""
from math import sqrt
from plans import plan
import worlds as W
import rigid as G
from plan_step import place

TURN = [G.I4,
        [[1., 0., 0., 1.], [0., 0., -1., 0.], [0., 1., 0., 0.], [0., 0., 0., 1.]],
        [[0., -1., 0., 0.], [1., 0., 0., .5], [0., 0., 1., -1.], [0., 0., 0., 1.]],
        [[.6, 0., .8, 0.], [0., 1., 0., 0.], [-.8, 0., .6, 1.], [0., 0., 0., 1.]]]
def carrier(r, s):
    s['carrier'] = r.choice(['ground', 'body', 'sub'])
    if s['carrier'] == 'sub': s['local'] = W.pose(r)

def grid_case(r, b):
    """A state of MCShapes."""
    a = dict(t=b['t'], M=G.flat(TURN[b['o']]))
    if b['t'] == 'Sphere': a['r'] = .5
    if b['t'] == 'Plane': a['c'] = [0., .6, .8, .25]
    if b['t'] == 'Box': a['e'] = [1., .5, .75]; a['tup'] = r.random() < .5
    c = G.pdot(TURN[b['o']], [x / 2. for x in b['p']])
    s = dict(t='Sphere' if b['r'] else 'Point', M=G.flat(G.transl(c)))
    if b['r']: s['r'] = .25
    if s['t'] == 'Point' == a['t']: return None
    # the normal is not defined
    if a['t'] in ('Sphere', 'Point') and b['p'] == [0, 0, 0]: return None
    l = [a, s]
    for x in l: carrier(r, x)
    if r.random() < .5: l.reverse()
    return dict(op='solve', s=l, moves=[W.pose(r, 3.)] if r.random() < .7 else [])

def shape(r, scale=1.):
    t = r.choice(['Sphere', 'Sphere', 'Point', 'Box', 'Plane'])
    s = dict(t=t)
    k = r.random()
    if t == 'Sphere' and k < .9: s['r'] = scale * r.choice([0., .05, .5, r.uniform(.01, 2)])
    if t == 'Box' and k < .9:
        s['e'] = [scale * r.choice([.5, r.uniform(.05, 2)]) for i in range(3)]
        s['tup'] = r.random() < .3
    if t == 'Plane' and k < .9:
        n = r.choice([[0., 1., 0.], [0., 0., -1.], [1., 1., 0.], G.unit(r), G.unit(r), [3. * x for x in G.unit(r)]])
        s['c'] = list(n) + [r.choice([0., scale * r.uniform(-2, 2)])]
    return s
def full(s):
    """With the default dimensions, as plan_step.place wants them."""
    x = dict(s)
    if s['t'] == 'Sphere': x['r'] = s.get('r', 1.)
    if s['t'] == 'Box': x['e'] = s.get('e', [1.]*3)
    if s['t'] == 'Plane':
        c = s.get('c', [0., 1., 0., 0.])
        k = sqrt(sum(y*y for y in c[0:3]))
        x['n'], x['d'] = [y / k for y in c[0:3]], c[3] / k
    return x
OK = [('Sphere', 'Sphere'), ('Sphere', 'Point'), ('Sphere', 'Plane'), ('Sphere', 'Box'), ('Point', 'Plane'), ('Point', 'Box')]
def random_case(r):
    scale = r.choice([1., 1., 1., 1e-2, 30.])
    while True:
        a, b = shape(r, scale), shape(r, scale)
        if {a['t'], b['t']} <= {'Sphere', 'Point'} and .0 in (a.get('r'), b.get('r')): continue
        if (a['t'], b['t']) in OK or (b['t'], a['t']) in OK: break
    H = G.pose6(W.pose(r, r.choice([0., 1., 1., 20.])))
    k = r.random()
    if k < .25: Q = G.pose6(W.pose(r, 2 * scale))
    elif k < .35: Q = G.mul(H, G.pose6(W.pose(r, scale)))
    else:
        d = scale * r.choice([0., 1e-3, -1e-3, 1e-7, -1e-7, .1, -.02, -.05, -.3, r.uniform(-1, 1), r.uniform(0, 5)])
        if {a['t'], b['t']} <= {'Sphere', 'Point'} and full(a).get('r', 0.) + full(b).get('r', 0.) + d < 1e-4 * scale: d = abs(d) + 1e-3 * scale
        Q = place(r, full(a), H, full(b), d)
    a['M'], b['M'] = G.flat(H), G.flat(Q)
    l = [a, b]
    for x in l: carrier(r, x)
    if r.random() < .5: l.reverse()
    return dict(op='solve', s=l, moves=[W.pose(r, 5.) for i in range(r.choice([0, 1, 2]))])

@plan('G01')
def collisions(c):
    b = c.behaviours(c.design('MCShapes', env=dict(DEPTH='all' if c.thorough else 'few'),
                              what='signed distances against sampled surfaces, Lipschitz bound, displacements, uniqueness of the witnesses'))
    r = c.rng
    if not c.thorough: b = r.sample(b, 500)
    c.conform('coll', 'CollTrace', [s for s in (grid_case(r, x) for x in b) if s], label='grid')
    c.conform('coll', 'CollTrace', [random_case(r) for k in range(8000 if c.thorough else 600)], label='random poses')

TYPES = ['Sphere', 'Point', 'Plane', 'Box', 'Cylinder']
def chain(r, nb):
    d = W.world(r, nb=max(nb, 1), maxdof=8)
    return d
def calls(r):
    l = [dict(mu=r.choice([0., .3, r.uniform(0, 2)]), prox=r.choice([None, 0., .5, r.uniform(0, 1)]), cls=r.random() < .3, register=r.random() < .5)
         for k in range(r.choice([1, 1, 2]))]
    return l
def list_case(r, sh, nb):
    l = []
    for x in sh:
        s = dict(shape_of(r, x['t']), b=x['b'])
        if r.random() < .5: s['H'] = W.pose(r); s['mov'] = r.random() < .4
        l.append(s)
    return dict(op='all', world=chain(r, nb), s=l, extra=[r.randint(0, nb)] if r.random() < .3 else [], calls=calls(r))
def shape_of(r, t):
    while True:
        s = shape(r)
        if s['t'] == t: return s
        if t == 'Cylinder': return dict(t=t, r=.5, len=1.)

@plan('G02')
def pairs(c):
    b = c.behaviours(c.design('MCPairs', env=dict(MAXLEN='3', NB='2' if c.thorough else '1'), what='symmetry of the table of pairs, enumeration independent of the order, one pair at a time'))
    r = c.rng
    c.conform('coll', 'CollTrace', [dict(op='choose', s=[shape_of(r, t), shape_of(r, u)]) for t in TYPES for u in TYPES for k in range(3)], label='pairs of types')
    if len(b) > 400 and not c.thorough: b = r.sample(b, 400)
    c.conform('coll', 'CollTrace', [list_case(r, x, 2 if c.thorough else 1) for x in b], label='small lists')
    l = []
    for k in range(1000 if c.thorough else 100):
        nb = r.randint(1, 6)
        l.append(list_case(r, [dict(t=r.choice(TYPES), b=r.randint(0, nb)) for i in range(r.randint(2, 9))], nb))
    c.conform('coll', 'CollTrace', l, label='random lists')
