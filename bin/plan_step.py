"""A02, A03, T01, C01-C06: steps of worlds with controllers and constraints."""
from plans import plan
import worlds as W
import rigid as G

def symm(r, n, scale, psd=True):
    A = [[r.uniform(-1, 1) for j in range(n)] for i in range(n)]
    return [[scale * sum(A[i][k]*A[j][k] for k in range(n)) for j in range(n)] for i in range(n)]

def pd(r, d, links=None):
    ok = [k + 1 for k, l in enumerate(d['links']) if l['type'] not in ('FixedJoint', 'FreeJoint')]
    if links: ok = links
    if not ok: return None
    ks = r.sample(ok, r.randint(1, min(len(ok), 4)))
    n = sum(W.ndof(d['links'][k-1]['type']) for k in ks)
    x = dict(t='pd', joints=ks)
    def gain(scale):
        m = r.random()
        if m < .15: return None
        if m < .4: return [[scale * r.random() if i == j else 0. for j in range(n)] for i in range(n)]
        if m < .7: return symm(r, n, scale)
        A = symm(r, n, scale)
        return [[A[i][j] + (scale * r.uniform(-.3, .3)) for j in range(n)] for i in range(n)]
    x['kp'], x['kd'] = gain(r.choice([1., 10., 50.])), gain(r.choice([.1, 1., 5.]))
    x['qd'] = None if r.random() < .2 else [r.uniform(-2, 2) for i in range(n)]
    x['vd'] = None if r.random() < .2 else [r.uniform(-2, 2) for i in range(n)]
    return x

def custom(r, n):
    Z = symm(r, n, r.choice([0., .1, 1.]))
    return [[r.uniform(-5, 5) for i in range(n)], [[-Z[i][j] + (r.uniform(-.05, .05) if Z[0][0] else 0.) for j in range(n)] for i in range(n)]]

def dts(r): return r.choice([.001, .005, .01, .01, .02, .05, r.uniform(1e-4, .1)])

def base(r, nb=None, maxdof=9, types=None, still=False, visc=.3):
    while True:
        d = W.world(r, nb=nb or r.choice([1, 2, 2, 3, 3, 4]), types=types, maxdof=maxdof, regular=True, frames=.5, visc=visc, odd=.08)
        if W.dofs(d): break
    if r.random() < .5 or still:
        for l in d['links']: l['v'] = [0.] * len(l['v']) if still else [.3 * x for x in l['v']]
    return W.tilt(r, d)

def controllers(r, d, n, many=True):
    ctl = []
    if r.random() < .6: ctl.append(dict(t='weight', g=r.choice([None, None, -1.6, 9.81])))
    while r.random() < (.55 if many else .2):
        x = pd(r, d) if r.random() < .6 else dict(t='custom')
        if x: ctl.append(x)
    r.shuffle(ctl)
    return ctl

def late(r, d, s):
    t = r.choice(['RzJoint', 'TxJoint', 'RzRxJoint', 'FixedJoint'])
    q, v = W.state(r, t)
    s['late'] = dict(inited=r.random() < .6, parent=r.randrange(len(d['bodies']) + 1), type=t, q=q, v=v, m=W.mass(r), H=W.pose(r))
    return W.ndof(t)

def steps(r, s, n, k, dt=None):
    cus = sum(x['t'] == 'custom' for x in s.get('ctl', ()))
    fixed = [custom(r, n) for i in range(cus)]
    for i in range(k):
        o = dict(op='step', dt=dt or dts(r))
        if cus: o['custom'] = fixed if r.random() < .4 else [custom(r, n) for j in range(cus)]
        if r.random() < .2: o['again'] = r.choice([1, 2])
        s['ops'].append(o)

def ctl_case(c, r):
    d = base(r, nb=r.choice([1, 2, 3, 4, 5]))
    n = W.dofs(d)
    s = dict(world=d, ops=[])
    if c.prop == 'A02':
        ctl = [x for x in [pd(r, d) for i in range(r.choice([1, 1, 1, 2]))] if x]
        if not ctl: return None
        if r.random() < .3: ctl.append(dict(t='weight', g=None))
        s['ctl'] = ctl
    else: s['ctl'] = controllers(r, d, n)
    if r.random() < .4: n += late(r, d, s)
    if c.prop == 'T01' and r.random() < .5: add_constraints(r, d, n, s)
    steps(r, s, n, r.choice([1, 2, 3, 4]), dt=10.**r.uniform(-6, -3) if r.random() < .15 else None)
    if r.random() < .3: s['ops'].insert(1, dict(op='init'))
    return s

# ------------------------------------------------------------- constraints
def limits(r, d, k):
    l = d['links'][k-1]
    x = dict(t='limits', link=k, min=[], max=[], prox=r.choice([None, None, [r.choice([.001, .05, .3]) for q in l['q']]]))
    for q in l['q']:
        m = r.random()
        w = r.choice([.02, .3, 1., 5.])
        if m < .4: a = q - r.choice([0., .001, .005, .02, -.01])
        elif m < .6: a = q - r.uniform(.05, 3.)
        else: a = q + r.choice([0., .001, .005, .02, -.01]) - w
        x['min'].append(a); x['max'].append(a + w)
    return x

def frame(r, b): return dict(body=b, H=None if b and r.random() < .3 else W.pose(r))

def connected(d):
    """Pairs of distinct bodies which are not rigidly linked."""
    root = {0: 0}
    todo = d['links'][:]
    while todo:
        for l in todo:
            if l['parent'] in root:
                root[l['child']] = root[l['parent']] if l['type'] == 'FixedJoint' else l['child']
                todo.remove(l); break
    n = len(d['bodies'])
    return [(a, b) for a in range(n + 1) for b in range(n + 1) if root[a] != root[b]]

def ball(r, d, gap):
    """A ball and its socket, apart by gap."""
    pairs = connected(d)
    if not pairs: return None
    a, b = r.choice(pairs)
    P = G.poses(d)
    f0, f1 = frame(r, a), frame(r, b)
    if gap is not None:
        # the second center is put near the first one
        p = G.mul(P[a], G.pose6(f0.get('H')))
        p = [p[i][3] + gap * r.uniform(-1, 1) for i in range(3)]
        x = G.pdot(G.inv(P[b]), p)
        f1['H'] = (W.pose(r)[0:3] if r.random() < .6 else [0.]*3) + x
    return dict(t='ball', f0=f0, f1=f1)

def shape(r):
    t = r.choice(['Sphere', 'Sphere', 'Sphere', 'Point', 'Box', 'Plane'])
    if t == 'Sphere': return dict(t=t, r=r.choice([.05, .2, .5, r.uniform(.05, .6)]))
    if t == 'Box': return dict(t=t, e=[r.uniform(.1, .6) for i in range(3)])
    if t == 'Plane': return dict(t=t, n=r.choice([[0., 1., 0.], [0., 0., 1.], [-1., 0., 0.], G.unit(r), [2*x for x in G.unit(r)]]), d=r.choice([0., 0., r.uniform(-1, 1)]))
    return dict(t=t)
PAIRS = [('Sphere', 'Sphere'), ('Sphere', 'Point'), ('Sphere', 'Plane'), ('Sphere', 'Box'), ('Point', 'Plane'), ('Point', 'Box')]
def pair(r):
    while True:
        a, b = shape(r), shape(r)
        if a['t'] != 'Point' or b['t'] != 'Point':
            if (a['t'], b['t']) in PAIRS or (b['t'], a['t']) in PAIRS: return a, b

def place(r, a, P, b, dist):
    """Pose of the shape b at this distance of the shape a, which has the pose P."""
    t, u = a['t'], b['t']
    n = G.unit(r)
    rb, ra = b.get('r', 0.), a.get('r', 0.)
    R = G.pose6(W.pose(r))
    if t in ('Sphere', 'Point') and u in ('Sphere', 'Point'):
        c = [P[i][3] + (ra + rb + dist)*n[i] for i in range(3)]
    elif t == 'Plane':
        k = sum(x*x for x in a['n'])**.5
        m = [x/k for x in a['n']]
        o = [r.uniform(-1, 1) for i in range(3)]
        h = a['d']/k + rb + dist - sum(o[i]*m[i] for i in range(3))
        c = G.pdot(P, [o[i] + h*m[i] for i in range(3)])
    elif t == 'Box':
        e = a['e']
        kind = r.random()
        x = [r.uniform(-e[i], e[i]) for i in range(3)]
        i = r.randrange(3)
        if kind < .6 or dist + rb < 0:
            x[i] = r.choice([-1, 1]) * (e[i] + rb + dist)
        else:
            s = [r.choice([-1, 1]) for j in range(3)]
            m = [abs(z) for z in n]
            if kind < .8: m[i] = 0.
            k = sum(z*z for z in m)**.5
            x = [s[j]*(e[j] + (rb + dist)*m[j]/k) if m[j] else x[j] for j in range(3)]
        c = G.pdot(P, x)
    else:
        # b is the plane or the box: place a relative to it, and invert
        Q = place(r, b, G.I4, a, dist)
        # the shape a has the pose Q when b is at the origin
        H = G.mul(P, G.inv(Q))
        return H
    return G.mul(G.transl(c), G.mul(G.inv(G.transl([R[i][3] for i in range(3)])), R))

def contact(r, d, s, pairs=None, dist=None, mu=None):
    pairs = pairs or connected(d)
    if not pairs: return None
    a, b = r.choice(pairs)
    P = G.poses(d)
    A, Bs = pair(r)
    if r.random() < .5: A, Bs = Bs, A
    fa = frame(r, a)
    if dist is None: dist = r.choice([0., 1e-4, -1e-4, .005, .015, .019, .05, -.01, -.03, r.uniform(-.03, .1)])
    H = place(r, A, G.mul(P[a], G.pose6(fa.get('H'))), Bs, dist)
    A['frame'] = fa
    Bs['frame'] = dict(body=b, M=G.flat(G.mul(G.inv(P[b]), H)))
    sh = s.setdefault('shapes', [])
    sh += [A, Bs]
    k = [len(sh) - 1, len(sh)]
    if r.random() < .5: k.reverse()
    if mu is None: mu = r.choice([0., .1, .3, .5, 1., 2., r.uniform(0, 1.5)])
    return dict(t='contact', s=k, mu=mu, prox=r.choice([None, None, .001, .1, .5]))

def probe(r, n):
    k = r.randint(1, 3)
    return dict(t='probe', J=[[r.choice([0., 0., 1., r.uniform(-1, 1)]) for i in range(n)] for j in range(k)],
                force=[r.uniform(-3, 3) for j in range(k)], warm=r.random() < .5)

def linear(d): return [k + 1 for k, l in enumerate(d['links']) if l['type'] not in ('FixedJoint', 'FreeJoint')]

def add_constraints(r, d, n, s, probes=.5):
    cons = []
    lin = linear(d)
    r.shuffle(lin)
    for k in range(r.choice([0, 0, 1, 2])):
        if lin: cons.append(limits(r, d, lin.pop()))
    if r.random() < .35: cons.append(ball(r, d, r.choice([0., .01, .1])))
    for k in range(r.choice([0, 0, 1, 1, 2])):
        cons.append(contact(r, d, s))
    for k in range(r.choice([0, 1, 2])):
        if r.random() < probes: cons.append(probe(r, n))
    s['cons'] = [x for x in cons if x]
    r.shuffle(s['cons'])

def toggles(r, s):
    """Constraints which are disabled, enabled, inactive at some steps."""
    m = len(s['cons'])
    out = []
    for o in s['ops']:
        for k in range(m):
            if r.random() < .25: out.append(dict(op=r.choice(['disable', 'enable']), c=k + 1))
        if o['op'] == 'step' and r.random() < .5: o['active'] = [r.random() < .6 for k in range(m)]
        out.append(o)
    s['ops'] = out

def c01_case(c, r):
    d = base(r, maxdof=8, nb=r.choice([1, 2, 3]))
    s = dict(world=d, ops=[], ctl=controllers(r, d, W.dofs(d), many=False))
    n = W.dofs(d)
    add_constraints(r, d, n, s, probes=.9)
    if not s['cons']: return None
    s['tight'] = r.random() < .7
    steps(r, s, n, r.choice([2, 3, 4]))
    toggles(r, s)
    return s

def c02_case(c, r):
    d = base(r, maxdof=8, types=W.LINEAR + ['FreeJoint'])
    n = W.dofs(d)
    lin = linear(d)
    if not lin: return None
    r.shuffle(lin)
    s = dict(world=d, ops=[], ctl=controllers(r, d, n, many=False))
    m = r.choice([1, 1, 1, 2, 3])
    s['cons'] = [limits(r, d, k) for k in lin[:m]]
    if r.random() < .2: s['cons'].append(probe(r, n))
    one = len(s['cons']) == 1 and W.ndof(d['links'][s['cons'][0]['link']-1]['type']) == 1
    s['tight'] = not one and r.random() < .9
    steps(r, s, n, r.choice([1, 3, 6]), dt=r.choice([None, .01]))
    if r.random() < .2: toggles(r, s)
    return s

def c03_case(c, r):
    d = base(r, maxdof=9, nb=r.choice([1, 2, 3, 4]))
    n = W.dofs(d)
    x = ball(r, d, r.choice([0., 0., 0., .001, .1, 1., None]))
    if not x: return None
    s = dict(world=d, ops=[], ctl=controllers(r, d, n, many=False), cons=[x])
    # at least three independent directions: checked by the specification of the
    # block of the admittance, see drivers/steplib.py
    steps(r, s, n, r.choice([1, 3, 6]), dt=r.choice([None, .005]))
    s['regular'] = True
    return s

def contact_world(r):
    """A contact between two bodies which can move in all directions, or not."""
    k = r.random()
    if k < .5:
        nb = r.choice([1, 1, 2, 3])
        while True:
            d = W.world(r, nb=nb, maxdof=9, regular=True, frames=.3, visc=.1, odd=.05)
            d['links'][0].update(type='FreeJoint', parent=0) if d['links'][0]['child'] == 1 or True else None
            l = d['links'][0]
            q, v = W.state(r, 'FreeJoint')
            l['q'], l['v'] = q, v
            if W.dofs(d) <= 10: return d
    return base(r, maxdof=9, visc=.1)

def contact_case(c, r):
    d = contact_world(r)
    slow = r.choice([0., .05, .3, 1.])
    for l in d['links']: l['v'] = [slow * x for x in l['v']]
    n = W.dofs(d)
    s = dict(world=d, ops=[], ctl=controllers(r, d, n, many=False))
    s['cons'] = []
    x = contact(r, d, s)
    if not x: return None
    s['cons'].append(x)
    if r.random() < (.5 if c.prop == 'C06' else .2):
        y = contact(r, d, s) if r.random() < .6 else limits(r, d, r.choice(linear(d))) if linear(d) else None
        if y: s['cons'].append(y)
    s['tight'] = len(s['cons']) > 1
    steps(r, s, n, r.choice([1, 1, 3, 6]), dt=r.choice([None, .01]))
    if r.random() < .1: toggles(r, s)
    return s

# ------------------------------------------ small systems, whose steps are computed
GAINS = ['one', 'one', 'swapped', 'sum']
def dress_carts(r, x, s, hist):
    g = r.choice(GAINS)
    d = dict(kind='carts', x=x, s=s, hist=hist, type=r.choice(['TxJoint', 'TyJoint', 'TzJoint', 'RxJoint', 'RyJoint', 'RzJoint']), gains=g,
             frames=r.random() < .6, other=r.choice([None, None, 'first', 'last']), swap=r.random() < .5, again=r.random() < .3)
    if r.random() < .3: d['names'] = ['a', 'a']
    return d
def random_carts(r, prop, n):
    u = lambda a: r.uniform(-a, a)
    m = [10. ** r.uniform(-1, 1), 10. ** r.uniform(-1, 1)]
    k = r.random()
    scale = r.choice([.5, 10., 200.])
    kp = symm(r, 2, scale) if k < .8 else [[0., 0.], [0., 0.]]
    kd = symm(r, 2, r.choice([.1, 2., 20.])) if k > .3 else [[0., 0.], [0., 0.]]
    if r.random() < .4 and prop == 'A02': kp[0][1] += .1 * scale * r.random()
    lim = [r.random() < .7, r.random() < .7] if prop in ('C02', 'T01') else [r.random() < .2, False]
    q = [u(1), u(1)]
    w = r.choice([.01, .3, 2.])
    mn = [a - r.choice([0., .001, .02, w]) for a in q]
    mx = [a + w for a in q]
    if r.random() < .3: mn, mx = [2*a - c for a, c in zip(q, mx)], [2*a - c for a, c in zip(q, mn)]
    x = dict(m=m, kp=kp, kd=kd, qd=[u(2), u(2)], vd=[u(1), u(1)], lim=lim, mn=mn, mx=mx, prox=r.choice([.001, .01, .1, .5]))
    s = dict(q=q, w=[u(3), u(3)], f=[0., 0.])
    f0 = [u(20), u(20)]
    hist = [dict(dt=dts(r), u=f0 if r.random() < .6 else [u(20), u(20)]) for i in range(n)]
    return dress_carts(r, x, s, hist)
def dress_pucks(r, x, s, hist): return dict(kind='pucks', x=x, s=s, hist=hist, frames=r.random() < .7, swap=r.random() < .5)
def random_pucks(r, pair, n):
    v3 = lambda a: [r.uniform(-a, a) for i in range(3)]
    m = 10. ** r.uniform(-1, 1)
    if pair:
        p = v3(1)
        gap = r.choice([0., 0., .01, .5])
        x = dict(kind='pair', m=m, m2=10. ** r.uniform(-1, 1))
        s = dict(p=p, v=v3(3), p2=[a + r.uniform(-gap, gap) for a in p], v2=v3(3), f=[0.]*3)
        return dress_pucks(r, x, s, [dict(dt=dts(r), u=[v3(10), v3(10)]) for i in range(n)])
    x = dict(kind='puck', m=m, mu=r.choice([0., .1, .3, .5, 1., 2.]), prox=r.choice([.001, .02, .1, 1.]), r=r.choice([.05, .25, 1.]))
    y = x['r'] + r.choice([0., 0., 1e-4, .01, .05, .3, -.002])
    s = dict(p=[r.uniform(-2, 2), y, r.uniform(-2, 2)], v=[r.choice([0., 1., 1e-3]) * a for a in v3(2)], f=[0.]*3)
    g = r.choice([0., -9.81, -9.81, -9.81, 2.]) * m
    side = r.choice([0., 0., .2, 1., 10.]) * m
    hist = []
    for i in range(n):
        if i == 0 or r.random() < .3: u = [side * r.uniform(-1, 1), g, side * r.uniform(-1, 1)]
        hist.append(dict(dt=dts(r) if r.random() < .3 else .01, u=u))
    return dress_pucks(r, x, s, hist)

def small(c):
    """Behaviours of the models of small systems, and random longer trajectories."""
    r, p = c.rng, c.prop
    carts, pucks = [], []
    m = 1500 if c.thorough else 120
    if p in ('A02', 'A03', 'T01', 'C01', 'C02'):
        b = c.behaviours(c.design('MCCarts', env=dict(MAXLEN='3' if c.thorough else '2'), timeout=1500,
                                  what='each step has one solution, which satisfies the discretised equations with implicit gains, stays within the bounds and creates no energy'))
        if p in ('A02', 'A03'): b = [x for x in b if any(z != [0] for y in x['x']['kp'] for z in y)]
        if p in ('C01', 'C02'): b = [x for x in b if any(x['x']['lim'])]
        carts = [dress_carts(r, **x) for x in r.sample(b, min(len(b), 8*m))]
        carts += [random_carts(r, p, r.choice([1, 3, 10, 25])) for k in range(m)]
    if p in ('T01', 'C01', 'C03', 'C04', 'C05'):
        b = c.behaviours(c.design('MCPucks', env=dict(MAXLEN='3' if c.thorough else '2'), timeout=1500,
                                  what='the computed steps satisfy the laws of contact and friction, no other force does; the ball stays above the plane, no energy is created'))
        kind = dict(C03='pair', C04='puck', C05='puck').get(p)
        b = [x for x in b if not kind or x['x']['kind'] == kind]
        for x in b:
            if x['x']['kind'] == 'pair':
                for h in x['hist']: h['u'] = [h['u'], [0., -10., 0.]]
        pucks = [dress_pucks(r, **x) for x in r.sample(b, min(len(b), 8*m))]
        pucks += [random_pucks(r, kind == 'pair' or not kind and r.random() < .3, r.choice([1, 3, 10, 25])) for k in range(m)]
    if carts:
        ev = [e for x in c.conform('carts', 'CartTrace', carts, label='carts') for e in x['ev'] if e['op'] == 'step']
        c.parts['carts'].update(steps_with_an_active_limit=sum(any(e['on']) for e in ev), steps_at_a_bound=sum(any(f != [0] for f in e['f']) for e in ev))
    if pucks:
        ev = [e for x in c.conform('carts', 'PuckTrace', pucks, label='balls') for e in x['ev'] if e['op'] == 'step']
        c.parts['balls'].update(steps_with_an_active_constraint=sum(e['on'] for e in ev), steps_with_a_force=sum(any(f != [0] for f in e['f']) for e in ev))

CASES = dict(A02=ctl_case, A03=ctl_case, T01=ctl_case, C01=c01_case, C02=c02_case, C03=c03_case, C04=contact_case, C05=contact_case, C06=contact_case)

@plan(*CASES)
def step(c):
    f, r = CASES[c.prop], c.rng
    specs = []
    while len(specs) < (3000 if c.thorough else 160):
        s = f(c, r)
        if s: specs.append(s)
    c.conform('step', 'StepTrace', specs, label='steps')
    if c.prop != 'C06': small(c)
    else: c.design('MCShapes', env=dict(DEPTH='all' if c.thorough else 'few'), what='signed distances and witnesses of shapes')
