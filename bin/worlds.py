"""Random descriptions of worlds (see drivers/worldlib.py)."""
from math import pi
LINEAR = ['RzRyRxJoint', 'RzRyJoint', 'RzRxJoint', 'RyRxJoint', 'RzJoint', 'RyJoint', 'RxJoint', 'TxTyTzJoint', 'TxJoint', 'TyJoint', 'TzJoint']
ALL = LINEAR + ['FixedJoint', 'FreeJoint', 'FreeJoint']
NDOF = {'RzRyRxJoint': 3, 'RzRyJoint': 2, 'RzRxJoint': 2, 'RyRxJoint': 2, 'TxTyTzJoint': 3, 'FixedJoint': 0, 'FreeJoint': 6}
def ndof(t): return NDOF.get(t, 1)

def pose(r, scale=1.):
    k = r.random()
    if k < .15: return [0.] * 3 + [r.uniform(-scale, scale) for i in range(3)]
    if k < .3: return [r.choice([0., pi/2, -pi/2, pi]) for i in range(3)] + [r.choice([0., 1., -1.]) * scale for i in range(3)]
    return [r.uniform(-pi, pi) for i in range(3)] + [r.uniform(-scale, scale) for i in range(3)]

def mass(r, kind=None):
    k = r.random() if kind is None else kind
    m = r.choice([1., r.uniform(.2, 5.)])
    s = [m * r.uniform(.02, .5) for i in range(3)]
    if k < .3: return [m] + s + [0.] * 6
    if k < .6: return [m] + s + [0.] * 3 + [r.uniform(-.6, .6) for i in range(3)]
    return [m] + s + pose(r, .6)

def special(r):
    """Masses which are degenerate, or of another scale than the other ones."""
    m = 10. ** r.uniform(-6, 2)
    k = r.random()
    if k < .35: return [m] + [0.] * 9                              # a point mass
    if k < .55:                                                    # a rod along an axis
        s = [0.] * 3
        s[r.randrange(3)] = m * r.uniform(.01, .5)
        return [m] + s + [0.] * 6
    s = [m * r.uniform(.002, .5) for i in range(3)]
    return [m] + s + ([0.] * 3 + [r.uniform(-.6, .6) for i in range(3)] if k < .8 else pose(r, .6))

def light(r):
    """A regular mass of another scale."""
    m = 10. ** r.uniform(-3.5, 1.7)
    return [m] + [m * r.uniform(.02, .5) for i in range(3)] + ([0.] * 3 + [r.uniform(-.6, .6) for i in range(3)] if r.random() < .6 else pose(r, .6))

def naming(r, d):
    """Names are not identities: bodies may have no name, or all the same one."""
    k = r.random()
    if k < .6: return d
    x = r.choice([None, 'x', 'ground'])
    for b in d['bodies']: b['name'] = x if k < .9 or r.random() < .5 else None
    if r.random() < .5:
        for l in d['links']: l['name'] = 'j'
    return d

def unname(d):
    """The loggers need different names: the default ones."""
    for x in d['bodies'] + d['links']: x.pop('name', None)

def tiny(r): return r.choice([-1, 1]) * 10.**r.uniform(-7, -2)

def state(r, t, still=False, slow=None):
    """slow: all motions are small."""
    n = ndof(t)
    if slow is None: slow = r.random() < .05
    if slow: return [tiny(r) for i in range(n)], [0. if still else tiny(r) for i in range(n)]
    if t[0] == 'R' and r.random() < .04: q = [r.uniform(-40, 40) for i in range(n)]
    elif t == 'FreeJoint': q = pose(r)
    elif t[0] == 'R': q = [r.choice([0., pi/2, -pi/2, pi]) if r.random() < .2 else r.uniform(-3.2, 3.2) for i in range(n)]
    else: q = [r.uniform(-1, 1) for i in range(n)]
    k = r.random()
    v = [0. if still or k < .1 else r.choice([0., r.uniform(-3, 3), r.uniform(-3, 3)]) for i in range(n)]
    return q, v

def world(r, nb=None, types=None, maxdof=12, massless=.15, frames=.5, visc=.3, regular=False, odd=0., named=False, definite=False, shape=None):
    """A tree of nb bodies. regular: the mass matrix of the world is regular."""
    nb = nb or r.choice([1, 2, 3, 3, 4, 5, 6])
    bodies, links, tot = [], [], 0
    slow = True if r.random() < .04 else None
    for k in range(1, nb + 1):
        t = r.choice(types or ALL)
        while tot + ndof(t) > maxdof: t = r.choice(['RzJoint', 'FixedJoint', 'RxJoint', 'TyJoint']) if tot < maxdof else 'FixedJoint'
        tot += ndof(t)
        m = None if (not regular and r.random() < massless) else (light if regular or definite else special)(r) if r.random() < odd else mass(r)
        bodies.append(dict(m=m, b=[r.uniform(-.5, .5) if r.random() < .5 else 0. for i in range(12)] if r.random() < visc else None))
        p = r.choice([k-1, r.randrange(k), r.randrange(k)]) if not shape else k-1 if shape == 'chain' else 0 if shape == 'star' else min(1, k-1)
        q, v = state(r, t, slow=slow)
        links.append(dict(parent=p, child=k, type=t, q=q, v=v, H0=pose(r) if r.random() < frames else None,
                          H1=pose(r) if r.random() < frames else None, mov=r.random() < .2))
    # the links are attached parents first, the children in any order
    if nb > 1 and r.random() < .5:
        done, rest, out = {0}, links[:], []
        while rest:
            l = r.choice([x for x in rest if x['parent'] in done])
            rest.remove(l); out.append(l); done.add(l['child'])
        links = out
    d = dict(bodies=bodies, links=links)
    return d if named else naming(r, d)

def tilt(r, d):
    """Another vertical axis, in some worlds."""
    if r.random() < .3:
        u = r.choice([[0., 0., 1.], [1., 0., 0.], [0., -1., 0.], [.6, .8, 0.]]) if r.random() < .5 else [r.uniform(-1, 1) for i in range(3)]
        n = sum(x*x for x in u) ** .5
        d['up'] = [x / n for x in u]
    return d

def remass(r, d, pick=None, visc=True):
    """Other masses for some bodies."""
    l = []
    for k in r.sample(range(1, len(d['bodies']) + 1), r.randint(1, len(d['bodies']))):
        if not d['bodies'][k-1]['m'] and pick is light: continue
        x = dict(body=k, m=(pick or special)(r) if r.random() < .5 else mass(r), inplace=r.random() < .5)
        if visc and r.random() < .3: x['b'] = [r.uniform(-.5, .5) for i in range(12)]
        l.append(x)
    return l

def states(r, d, still=False):
    slow = True if r.random() < .1 else None
    s = [state(r, l['type'], still, slow) for l in d['links']]
    return [x[0] for x in s], [x[1] for x in s]
def dofs(d): return sum(ndof(l['type']) for l in d['links'])
