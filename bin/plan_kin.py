"""K01-K04, D01, D02, A01, O04: models of worlds."""
from plans import plan
import worlds as W

FR = [(None, None), ([1., 0., 0., .5, 0., -1.], None), ([0., 0., 2., 0., 1., .5], [0., -1., 0., 0., .5, 1.])]
def qof(j, m, x): return [0., (3*j + m) / 4., float(m - 2*j)][x]
def vof(j, m, x): return [float(m), float(1 - j - m), (2*m - j) / 2.][x]

def grid_world(b):
    """The world of a state of MCTree (the masses are other ones)."""
    bodies, links = [], []
    for j, (p, t) in enumerate(zip(b['par'], b['ty']), 1):
        n = W.ndof(t)
        x = b['st']
        q = [qof(j, 1, x), 0., qof(j, 2, x), qof(j, 3, x), 1., qof(j, 1, x)] if t == 'FreeJoint' else [qof(j, m, x) for m in range(1, n + 1)]
        bodies.append(dict(m=None if j == 2 and b['fr'] == 1 else [float(j), .3, .1, .2*j, 0., float(j), 0., .5, -j/3., .1], b=[1., 0., .5, 0., 0., 1., 0., 1., 0., 0., 0., 1.]))
        H0, H1 = FR[(b['fr'] + j) % 3]
        links.append(dict(parent=p, child=j, type=t, q=q, v=[vof(j, m, x) for m in range(1, n + 1)], H0=H0, H1=H1))
    return dict(bodies=bodies, links=links)

def spec_for(c, r, d):
    s = dict(world=d)
    p = c.prop
    k = 2 if p in ('K02', 'K03', 'D01', 'D02', 'O04') else 3
    s['states'] = [[[l['q'] for l in d['links']], [l['v'] for l in d['links']]]] + [list(W.states(r, d)) for i in range(k - 1)]
    nb = len(d['bodies'])
    if p == 'A01':
        s['gravity'] = [r.choice([None, None, -1.6, 9.81, 0., r.uniform(-20, 20)]) for i in range(r.choice([1, 1, 1, 2, 3]))]
        s['regular'] = all(b['m'] for b in d['bodies']) and W.dofs(d) > 0
        if r.random() < .4:
            t = r.choice(['RzJoint', 'TxJoint', 'RzRxJoint', 'FixedJoint', 'FixedJoint'])
            q, v = W.state(r, t)
            s['late'] = dict(inited=r.random() < .6, parent=r.randrange(nb + 1), type=t, q=q, v=v, m=W.special(r) if r.random() < .2 and not s['regular'] else W.mass(r), H=W.pose(r))
            s['states'] = [[st[0] + [q], st[1] + [v]] for st in s['states']]
    if p in ('D01', 'D02', 'A01', 'O04'):
        for st in s['states'][1:]:
            if r.random() < .3: st.append(W.remass(r, d, W.light if p == 'O04' or p == 'A01' and s['regular'] else None, visc=p != 'O04'))
    if p == 'O04':
        heavy = [k + 1 for k, b in enumerate(d['bodies']) if b['m']]
        if not heavy: return None
        g = [[list(range(1, nb + 1)), True], [[r.choice(heavy)], r.random() < .5]]
        sub = r.sample(range(1, nb + 1), r.randint(1, nb))
        if set(sub) & set(heavy): g.append([sub, True])
        s['groups'] = g
    if p == 'K04':
        nf = r.randint(1, 4)
        s['frames'] = [dict(body=r.randint(0, nb), H=W.pose(r) if r.random() < .85 else None, moving=r.random() < .5, register=r.random() < .5) for i in range(nf)]
        ops = [dict(op='eval', q=s['states'][0][0], v=s['states'][0][1])]
        for i in range(r.randint(2, 8)):
            k = r.choice(['eval', 'eval', 'move', 'move', 'badmove', 'badnew', 'scribble'])
            o = dict(op=k)
            if k == 'eval': o['q'], o['v'] = W.states(r, d)
            if k in ('move', 'badmove'): o['f'] = r.randint(1, nf)
            if k == 'move': o['H'] = W.pose(r)
            ops.append(o)
        ops.append(dict(op='eval', q=s['states'][1][0], v=s['states'][1][1]))
        s['ops'] = ops
        del s['states']
    return s

@plan('K01', 'K02', 'K03', 'K04', 'D01', 'D02', 'A01', 'O04')
def kin(c):
    what = 'jets against the recursion over the tree, Newton-Euler against Lagrange, power balance, weight against the gradient of the potential energy'
    if c.thorough:
        b = c.behaviours(c.design('MCTree', env=dict(TYPES='all', NB='2'), what=what))
        b += c.behaviours(c.design('MCTree', env=dict(TYPES='few', NB='3'), what=what))
    else:
        b = c.behaviours(c.design('MCTree', env=dict(TYPES='few', NB='2'), what=what))
    r = c.rng
    n = 6000 if c.thorough else 150
    if len(b) > n: b = r.sample(b, n)
    specs = [s for s in (spec_for(c, r, grid_world(x)) for x in b) if s]
    c.conform('kin', 'KinTrace', specs, label='small trees')
    specs = [s for s in (spec_for(c, r, W.tilt(r, W.world(r, maxdof=18 if c.thorough and k % 4 == 0 else 10, odd=.15, definite=c.prop == 'O04'))) for k in range(3000 if c.thorough else 170)) if s]
    c.conform('kin', 'KinTrace', specs, label='random trees')
    # long chains and stars
    specs = []
    for k in range(200 if c.thorough else 8):
        s = spec_for(c, r, W.world(r, nb=r.randint(11, 16), maxdof=r.choice([6, 12]), shape=['chain', 'chain', 'star', 'fan'][k % 4], massless=.4, frames=.4, visc=.2, definite=c.prop == 'O04'))
        if s and 'states' in s: s['states'] = s['states'][:2]
        if s: specs.append(s)
    c.conform('kin', 'KinTrace', specs, label='large trees')
