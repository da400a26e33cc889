"""Several descriptions of the same system, simulated (P01)."""
from steplib import *
from arboris.core import simulate, Observer
import copy, random
from numpy import dot
from numpy.linalg import inv

AXES = {'RzRyRxJoint': (3, 2, 1), 'RzRyJoint': (3, 2), 'RzRxJoint': (3, 1), 'RyRxJoint': (2, 1), 'RzJoint': (3,), 'RyJoint': (2,), 'RxJoint': (1,),
        'TxTyTzJoint': (4, 5, 6), 'TxJoint': (4,), 'TyJoint': (5,), 'TzJoint': (6,)}
BY = {v[0]: k for k, v in AXES.items() if len(v) == 1}
I4, I6, Z6 = eye(4), eye(6), zeros((6, 6))
def hinv(H):
    K = eye(4)
    K[0:3, 0:3] = H[0:3, 0:3].T
    K[0:3, 3] = -dot(H[0:3, 0:3].T, H[0:3, 3])
    return K
def adj(H):
    A = zeros((6, 6))
    R, p = H[0:3, 0:3], H[0:3, 3]
    A[0:3, 0:3] = A[3:6, 3:6] = R
    A[3:6, 0:3] = dot(hat(p), R)
    return A
def transport(M, D):
    """The matrix of a body, from the frame D."""
    A = adj(D)
    return dot(A.T, dot(M, A))
def ndof(t): return 0 if t == 'FixedJoint' else 6 if t == 'FreeJoint' else len(AXES[t])

class Desc(object):
    """A description, with matrices, and the way the degrees of freedom of the first one are found in it."""
    def __init__(self, spec):
        d = spec['world']
        self.mass = [massmat(b.get('m')) for b in d['bodies']]
        self.visc = [viscmat(b.get('b')) for b in d['bodies']]
        self.links = [dict(parent=l['parent'], child=l['child'], type=l['type'], h0=pose6(l.get('H0')), h1=pose6(l.get('H1')),
                           q=pose6(l['q']) if l['type'] == 'FreeJoint' else list(l['q']), v=list(l['v'])) for l in d['links']]
        self.up = array(d.get('up') or [0., 1., 0.])
        self.shapes = copy.deepcopy(spec.get('shapes', []))
        self.cons = copy.deepcopy(spec.get('cons', []))
        self.ctl = copy.deepcopy(spec['ctl'])
        for f in self.frames(): f['M'] = matrix(f); f.pop('H', None)
        self.k = [[(j, m, 1.) for m in range(ndof(l['type']))] for j, l in enumerate(self.links)]
        self.a = 1.
        for x in self.ctl:
            if x['t'] == 'pd': x['at'] = [(j - 1, m) for j in x['joints'] for m in range(ndof(self.links[j-1]['type']))]
    def frames(self):
        for s in self.shapes: yield s['frame']
        for x in self.cons:
            if x['t'] == 'ball': yield x['f0']; yield x['f1']
    def copy(self): return copy.deepcopy(self)
    def parent_link(self, b): return [k for k, l in enumerate(self.links) if l['child'] == b][0]
    def kids(self, b): return [k for k, l in enumerate(self.links) if l['parent'] == b]
    def dofs(self, F):
        """F gives the new place and sign of each degree of freedom."""
        def go(x):
            j, m, s = x
            y = F(j, m)
            return y[0], y[1], s * (y[2] if len(y) > 2 else 1.)
        self.k = [[go(x) for x in l] for l in self.k]
    def moved(self, F):
        """F gives the new place of each link."""
        self.dofs(lambda j, m: (F(j), m))
        for x in self.cons:
            if x['t'] == 'limits': x['link'] = F(x['link'] - 1) + 1

    def apply(self, o, r):
        """Is the matrix of the nonlinear effects the same one (see DESIGN.md)?"""
        same = self.pure(o)
        getattr(self, 'do_' + o['op'])(o, r)
        return same
    def pure(self, o):
        if o['op'] == 'origin': X, m = array(o['H']), self.mass[o['b']-1]
        elif o['op'] == 'split':
            if o['b'] == 0: return True
            X, m = dot(array(o['P']), hinv(array(o['Q']))), self.mass[o['b']-1]
        elif o['op'] == 'merge':
            l = self.links[o['k']-1]
            X, m = dot(l['h0'], hinv(l['h1'])), self.mass[l['child']-1]
            return l['parent'] == 0 or not m.any()
        else: return True
        return not m.any() or abs(X[0:3, 3]).max() < 1e-12
    def do_place(self, o, r):
        H = array(o['H'])
        for l in self.links:
            if l['parent'] == 0: l['h0'] = dot(H, l['h0'])
        self.up = dot(H[0:3, 0:3], self.up)
        for f in self.frames():
            if f['body'] == 0: f['M'] = dot(H, f['M'])
    def do_order(self, o, r):
        p = [x - 1 for x in o['perm']]
        self.links = [self.links[x] for x in p]
        self.moved(p.index)
    def do_origin(self, o, r):
        b, D = o['b'], array(o['H'])
        K = hinv(D)
        for l in self.links:
            if l['parent'] == b: l['h0'] = dot(K, l['h0'])
            if l['child'] == b: l['h1'] = dot(K, l['h1'])
        self.mass[b-1], self.visc[b-1] = transport(self.mass[b-1], D), transport(self.visc[b-1], D)
        for f in self.frames():
            if f['body'] == b: f['M'] = dot(K, f['M'])
    def do_split(self, o, r):
        b, P, Q, a = o['b'], array(o['P']), array(o['Q']), o['a']
        X = dot(P, hinv(Q))
        K = hinv(X)
        n = len(self.mass) + 1
        pos = 0 if b == 0 else self.parent_link(b) + 1
        for k in o['kids']:
            l = self.links[k-1]
            l['parent'], l['h0'] = n, dot(K, l['h0'])
        # the frames may be on one part or on the other one
        for f in self.frames():
            if f['body'] == b and r.random() < .5: f['body'], f['M'] = n, dot(K, f['M'])
        self.links.insert(pos, dict(parent=b, child=n, type='FixedJoint', h0=P, h1=Q, q=[], v=[]))
        self.moved(lambda j: j if j < pos else j + 1)
        if b == 0: self.mass.append(Z6)
        else:
            self.mass.append(transport(a * self.mass[b-1], X))
            self.mass[b-1] = (1. - a) * self.mass[b-1]
        self.visc.append(Z6)
    def do_merge(self, o, r):
        k = o['k'] - 1
        l = self.links[k]
        x, p = l['child'], l['parent']
        X = dot(l['h0'], hinv(l['h1']))
        for f in self.frames():
            if f['body'] == x: f['body'], f['M'] = p, dot(X, f['M'])
        for g in self.links:
            if g['parent'] == x: g['parent'], g['h0'] = p, dot(X, g['h0'])
        if p:
            for s in (self.mass, self.visc): s[p-1] = s[p-1] + transport(s[x-1], hinv(X))
        del self.links[k], self.mass[x-1], self.visc[x-1]
        body = lambda y: y - 1 if y > x else y
        for g in self.links: g['parent'], g['child'] = body(g['parent']), body(g['child'])
        for f in self.frames(): f['body'] = body(f['body'])
        self.moved(lambda j: j if j < k else j - 1)
    def do_chain(self, o, r):
        k = o['k'] - 1
        l = self.links[k]
        ax = AXES[l['type']]
        n, nb = len(ax), len(self.mass)
        new = [dict(parent=l['parent'] if m == 0 else nb + m, child=l['child'] if m == n - 1 else nb + m + 1, type=BY[ax[m]],
                    h0=l['h0'] if m == 0 else I4, h1=l['h1'] if m == n - 1 else I4, q=[l['q'][m]], v=[l['v'][m]]) for m in range(n)]
        self.links[k:k+1] = new
        self.mass += [Z6] * (n - 1)
        self.visc += [Z6] * (n - 1)
        self.dofs(lambda j, m: (k + m, 0) if j == k else (j if j < k else j + n - 1, m))
        for x in self.cons:
            if x['t'] == 'limits' and x['link'] > k + 1: x['link'] += n - 1
    def turn(self, k, F):
        l = self.links[k]
        l['h0'], l['h1'] = dot(l['h0'], F), dot(l['h1'], F)
    def do_flip(self, o, r):
        k = o['k'] - 1
        l = self.links[k]
        a = (AXES[l['type']][0] - 1) % 3
        F = -eye(4)
        F[3, 3] = F[(a + 2) % 3, (a + 2) % 3] = 1.
        self.turn(k, F)
        l['q'], l['v'] = [-l['q'][0]], [-l['v'][0]]
        self.dofs(lambda j, m: (j, m, -1.) if j == k else (j, m))
        for x in self.cons:
            if x['t'] == 'limits' and x['link'] == o['k']: x['min'], x['max'] = [-y for y in x['max']], [-y for y in x['min']]
    def do_rename(self, o, r):
        k = o['k'] - 1
        l = self.links[k]
        s = (AXES[l['type']][0] - AXES[o['type']][0]) % 3
        F = zeros((4, 4))
        F[3, 3] = 1.
        # the column j of F is the axis j + s
        for j in range(3): F[(j + s) % 3, j] = 1.
        self.turn(k, F)
        l['type'] = o['type']
    def do_scale(self, o, r):
        self.mass, self.visc = [o['a'] * m for m in self.mass], [o['a'] * m for m in self.visc]
        self.a *= o['a']

    def spec(self, r=None):
        """For the building of the world. Names, the kind of the frames and the names of the axes are any ones."""
        name = r.choice([None, None, 'x', 'ground']) if r else None
        def frame(M):
            return None if (M == I4).all() and (r is None or r.random() < .7) else list(M.flatten())
        d = dict(up=list(self.up), bodies=[dict(m=list(m.flatten()), b=list(b.flatten())) for m, b in zip(self.mass, self.visc)],
                 links=[dict(parent=l['parent'], child=l['child'], type=l['type'], H0=frame(l['h0']), H1=frame(l['h1']),
                             q=list(l['q'].flatten()) if l['type'] == 'FreeJoint' else l['q'], v=l['v'], mov=r is not None and r.random() < .2) for l in self.links])
        if name:
            for b in d['bodies']: b['name'] = name
        s = dict(world=d, shapes=copy.deepcopy(self.shapes), cons=copy.deepcopy(self.cons), ctl=[])
        for f in [x['frame'] for x in s['shapes']] + [x[k] for x in s['cons'] if x['t'] == 'ball' for k in ('f0', 'f1')]:
            f['M'] = None if f['body'] and (f['M'] == I4).all() else list(f['M'].flatten())
        for x in self.ctl:
            x = dict(x)
            if x['t'] == 'pd':
                at = [self.k[j][m] for j, m in x.pop('at')]
                g = [y[2] for y in at]
                js = []
                for y in at:
                    if y[0] + 1 not in js: js.append(y[0] + 1)
                x['joints'] = js
                for n in ('kp', 'kd'):
                    if x.get(n) is not None: x[n] = [[self.a * g[i] * g[j] * x[n][i][j] for j in range(len(g))] for i in range(len(g))]
                for n in ('qd', 'vd'):
                    if x.get(n) is not None: x[n] = [a * b for a, b in zip(x[n], g)]
            s['ctl'].append(x)
        return s

def rotation(r):
    """A pose of the base of simple or of any numbers."""
    k = r.random()
    p = [r.uniform(-3, 3) for i in range(3)] if k < .6 else [r.choice([0., numpy.pi / 2, numpy.pi]) for i in range(3)] if k < .8 else [0.] * 3
    return pose6(p + [r.choice([0., r.uniform(-1.5, 1.5)]) for i in range(3)])

def draw(d, r, pure):
    """A rewriting of this description."""
    while True:
        o = draw1(d, r, pure)
        if not pure or d.pure(o): return o
def draw1(d, r, pure):
    L = d.links
    lim = [x['link'] - 1 for x in d.cons if x['t'] == 'limits']
    simple = [k for k, l in enumerate(L) if ndof(l['type']) == 1]
    fixed = [k for k, l in enumerate(L) if l['type'] == 'FixedJoint']
    many = [k for k, l in enumerate(L) if ndof(l['type']) in (2, 3) and k not in lim]
    pick = ['place', 'order', 'origin', 'origin', 'split', 'scale'] + ['merge'] * 2 * bool(fixed and len(L) > 1) + ['chain'] * 2 * bool(many) + ['flip', 'rename'] * bool(simple)
    t = r.choice(pick)
    o = dict(op=t)
    def H(turn=False):
        A = rotation(r)
        if turn: A[0:3, 3] = 0.
        return [list(x) for x in A]
    if t == 'place': o.update(H=H())
    elif t == 'scale': o.update(a=r.choice([.5, 2., 1.25, r.uniform(.3, 3)]))
    elif t == 'order':
        done, rest, p = {0}, list(range(len(L))), []
        while rest:
            k = r.choice([x for x in rest if L[x]['parent'] in done])
            rest.remove(k); p.append(k + 1); done.add(L[k]['child'])
        o.update(perm=p)
    elif t == 'origin': o.update(b=r.randint(1, len(d.mass)), H=H(pure))
    elif t == 'split':
        b = r.randint(0, len(d.mass))
        ks = [k + 1 for k in d.kids(b)]
        o.update(b=b, P=H(pure), Q=[list(x) for x in I4] if r.random() < .3 else H(pure), a=r.uniform(.1, .9), kids=[k for k in ks if r.random() < .6])
    elif t == 'merge': o.update(k=r.choice(fixed) + 1)
    elif t == 'chain': o.update(k=r.choice(many) + 1)
    elif t == 'flip': o.update(k=r.choice(simple) + 1)
    elif t == 'rename':
        k = r.choice(simple)
        trans = AXES[L[k]['type']][0] > 3
        o.update(k=k + 1, type=BY[r.randint(4, 6) if trans else r.randint(1, 3)])
    return o

class Snap(Observer):
    def __init__(self, s):
        Observer.__init__(self)
        self.s, self.out, self.wild, self.seen = s, [], False, []
    def init(self, world, timeline): pass
    def update(self, dt):
        w = self.s.w
        if w.ndof and not abs(w.gvel).max() < 1e2: self.wild = True
        if w.ndof and max(numpy.linalg.cond(w.mass), numpy.linalg.cond(w.admittance)) > 1e5: self.wild = True
        if not self.s.compatible(): self.wild = True
        for o in self.s.conobj:
            # with much friction, there may be several forces which solve the contact
            if isinstance(o, SoftFingerContact) and o.is_enabled() and o.is_active():
                j = o.jacobian
                y = dot(j, dot(w.admittance, j.T))
                if not 2. * self.s.spec['cons'][0]['mu'] * max(numpy.linalg.norm(y[0:3, 3]), numpy.linalg.norm(y[3, 0:3])) < y[3, 3]: self.wild = True
        self.out.append(dict(self.state(), gf=[num(w.gforce[j.dof]) if j.ndof else [] for j in self.s.joints]))
    def state(self):
        s = self.s
        self.seen.append(list(s.w.gvel))
        return dict(t=num(s.w.current_time), q=s.q(), v=s.v(), h=[num(b.pose) for b in s.bodies], w=[num(b.twist) for b in s.bodies])
    def finish(self): pass

def go(d, spec, r, tl, ref=None):
    """Simulate the system, whose first description was ref."""
    s = Stepped(d.spec(r))
    n = s.w.ndof
    ref = ref or s
    to, sg = numpy.arange(n), numpy.ones(n)
    for j, x in enumerate(d.k):
        for m, (i, k, g) in enumerate(x):
            at = ref.joints[j].dof.start + m
            to[at], sg[at] = s.joints[i].dof.start + k, g
    for o, a in zip(s.customs, [a for a in spec['arrays'] if a]):
        f, Z = zeros(n), zeros((n, n))
        f[to] = d.a * sg * array(a[0])
        Z[numpy.ix_(to, to)] = d.a * sg[:, None] * sg[None, :] * array(a[1])
        o.set(f, Z)
    snap = Snap(s)
    up = num(s.w.up)
    # before the simulation
    out = dict(desc=dict(nb=len(d.mass), links=s.links, mass=s.masses('')['mass'], visc=s.masses('')['visc'], up=up, q=s.q(), v=s.v()))
    simulate(s.w, tl, [snap])
    # the poses at the end
    v = abs(s.w.gvel).max() if n else 0.
    s.w.update_geometric()
    s.w.update_dynamic()
    out['st'] = snap.out + [snap.state()]
    out['wild'] = snap.wild or not v < 1e2
    # impulses which are undone afterwards hide the accelerations
    if tl[-1] - tl[0] < 1e-4 and n and max(abs(a - b) for st in snap.seen for a, b in zip(st, snap.seen[0])) > 5.: out['wild'] = True
    return s, out

def fixed(o):
    """The numbers of a rewriting."""
    o = dict(o)
    for k in ('H', 'P', 'Q'):
        if k in o: o[k] = num(array(o[k]))
    if 'a' in o: o['a'] = num(float(o['a']))
    return o

def case(spec):
    c = {'ev': [], 'contact': any(x['t'] == 'contact' for x in spec.get('cons', ()))}
    kind = 'reference'
    try:
        base = Desc(spec)
        # with tiny steps, the accelerations are observed
        tls = [spec['tl'], [spec['tl'][0] + k * 1e-5 for k in range(4)]]
        c['ref'] = []
        first = None
        for tl in tls:
            try: u, out = go(base, spec, None, tl)
            except numpy.linalg.LinAlgError: out = {'wild': True}
            else: first = first or u
            c['ref'].append({} if out['wild'] else out)
        for v in spec['variants']:
            r = random.Random(v['seed'])
            d = base.copy()
            ops, same = [], True
            given = list(v.get('ops', ()))
            pure = r.random() < .5
            for k in range(v.get('n', len(given))):
                o = given[k] if given else draw(d, r, pure)
                same = d.apply(o, r) and same
                ops.append(o)
            tiny = not same or r.random() < .1
            if not c['ref'][tiny]: continue
            kind = ' '.join(o['op'] for o in ops)
            s, out = go(d, spec, r, tls[tiny], first)
            if out['wild']: continue
            c['ev'].append(dict(out, op='run', tiny=tiny, kind=kind, ops=[fixed(o) for o in ops]))
    except Exception as x:
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
        c.setdefault('ref', [{}, {}])
        c['ev'].append({'op': 'crash', 'kind': kind, 'res': why(x)})
    return c
main(case)
