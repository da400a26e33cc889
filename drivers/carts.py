"""Trajectories of the small systems of Carts.tla and Pucks.tla."""
from steplib import *
from fix import dec

def val(t):
    """Numbers of the specification: limbs (of TLC) or floats (of the plans)."""
    if isinstance(t, list) and t and all(type(x) is int for x in t) and t[0] in (-1, 0, 1) and (t[0] != 0 or len(t) == 1): return dec(t)
    if isinstance(t, list): return [val(x) for x in t]
    if isinstance(t, dict): return {k: val(x) for k, x in t.items()}
    return t

AXIS = {'TxJoint': 0, 'TyJoint': 1, 'TzJoint': 2, 'RxJoint': 0, 'RyJoint': 1, 'RzJoint': 2}

def tight(w, dt, counter):
    w.update_constraints(dt, maxiters=MAXITERS, tol=1e-12)
    if counter.early(MAXITERS, 1e-12): raise RuntimeError('the iterations stop too early')
    return counter.converged()

def rate(M):
    """Contraction of the iterations of Gauss and Seidel on two directions."""
    return M[0, 1] ** 2 / (M[0, 0] * M[1, 1])

class Carts(object):
    def __init__(self, spec, r):
        self.x = x = val(spec['x'])
        s = val(spec['s'])
        self.w = w = World()
        t = spec['type']
        a = AXIS[t]
        turn = t[0] == 'R'
        self.b, self.j = [w.ground], []
        def body(m):
            # only the mass (or the inertia about the axis) matters
            if turn:
                k = [m / 2] * 3
                k[a] = r.choice([0., .3])
                c = [0.] * 3
                c[a] = r.uniform(-1, 1)
                return massmat([r.choice([1., .3])] + k + [0.] * 3 + c)
            return massmat([m] + [m * r.uniform(.1, .5) for i in range(3)] + [r.uniform(-1, 1) for i in range(6)])
        shift = [r.uniform(-1, 1)] * 3
        def place(two=False):
            p = [r.uniform(-1, 1) for i in range(6)]
            if two and turn: p = [0., 0., 0.] + [shift[i] if i == a else 0. for i in range(3)]
            return pose6(p)
        F = place(True)
        self.other = None
        if spec.get('other'):
            # another part of the world
            b = Body(mass=massmat([2., .1, .2, .3] + [0.] * 6))
            self.other = J.RzRxJoint(gpos=[.3, .2], gvel=[0., 0.])
        if self.other is not None and spec['other'] == 'first': w.add_link(w.ground, self.other, b)
        for k in range(2):
            B = Body(spec.get('names', [None, None])[k], mass=body(x['m'][k]))
            j = getattr(J, t)(gpos=[s['q'][k]], gvel=[s['w'][k]])
            f0 = (SubFrame(w.ground, place()) if spec.get('frames') else w.ground) if k == 0 else \
                 (SubFrame(self.b[1], F) if spec.get('frames') else self.b[1])
            f1 = SubFrame(B, F) if k == 0 and spec.get('frames') else B
            w.add_link(f0, j, f1)
            self.b.append(B)
            self.j.append(j)
        if self.other is not None and spec['other'] == 'last': w.add_link(w.ground, self.other, b)
        w.init()
        self.n = n = w.ndof
        self.d = [j.dof.start for j in self.j]
        reg = []
        kp, kd, qd, vd = (array(x[k], dtype=float) for k in ('kp', 'kd', 'qd', 'vd'))
        def pd(ks, P, D, v):
            i = numpy.ix_(ks, ks)
            return ProportionalDerivativeController([self.j[k] for k in ks], P[i], D[i], gpos_des=qd[ks], gvel_des=v[ks])
        g = spec['gains']
        if g == 'none': pass
        elif g == 'one': reg.append(pd([0, 1], kp, kd, vd))
        elif g == 'swapped': reg.append(pd([1, 0], kp, kd, vd))
        elif g == 'sum':
            P, D = array([[1., .5], [0., 2.]]), array([[.5, 0.], [.25, 1.]])
            # null velocities of reference for the second one
            reg += [pd([0, 1], P, kd, vd), pd([1, 0], kp - P, D, vd * 0)]
            self.extra = -D
            reg.append(Custom(n))
            Z = zeros((n, n))
            Z[numpy.ix_(self.d, self.d)] = D
            reg[-1].set(zeros(n), Z)
        self.u = Custom(n)
        reg.append(self.u)
        if spec.get('again'): reg.append(reg[0])
        r.shuffle(reg)
        for o in reg: w.register(o)
        self.lim = []
        for k in range(2):
            if x['lim'][k]:
                o = JointLimits(self.j[k], [x['mn'][k]], [x['mx'][k]], proximity=[x['prox']])
                self.lim.append(o)
            else: self.lim.append(None)
        cons = [o for o in self.lim if o]
        if spec.get('swap'): cons.reverse()
        for o in cons: w.register(o)
        self.counter = Counter(n, cons)
        w.register(self.counter)
        if r.random() < .5: w.register(Probe(zeros((1, n)), [0.], False))
        w.init()
    def step(self, h):
        w, x = self.w, self.x
        h = val(h)
        dt, u = h['dt'], h['u']
        f = zeros(self.n)
        f[self.d] = u
        self.u.set(f, zeros((self.n, self.n)))
        e = dict(op='step', dt=num(dt), u=num(u))
        w.update_dynamic()
        w.update_controllers(dt)
        Y = w.admittance[numpy.ix_(self.d, self.d)]
        if all(o is not None for o in self.lim) and rate(Y) > .98: return None
        ok = tight(w, dt, self.counter)
        if not ok: return None
        e['on'] = [bool(o.is_active()) if o else False for o in self.lim]
        f = zeros(self.n)
        for o in self.lim:
            if o and o.is_active(): f = f + o.gforce
        e['f'] = num(f[self.d])
        w.integrate(dt)
        e['q'], e['w'] = num([j.gpos[0] for j in self.j]), num(w.gvel[self.d])
        return e

class Pucks(object):
    """Balls which translate: on a plane, or held together."""
    def __init__(self, spec, r):
        self.x = x = val(spec['x'])
        s = val(spec['s'])
        self.w = w = World()
        self.pair = x['kind'] == 'pair'
        axes = spec.get('turn')
        def add(m, p, v):
            B = Body(mass=massmat([m] + [m * r.uniform(.1, .5) for i in range(3)] + [r.uniform(-1, 1) for i in range(6)]))
            # the axes of the joint are turned
            R = pose6([r.uniform(-1, 1) for i in range(3)] + [0.] * 3) if spec.get('frames') else eye(4)
            o = array([r.uniform(-1, 1) for i in range(3)]) if spec.get('frames') else zeros(3)
            H0 = R.copy()
            H0[0:3, 3] = o
            j = J.TxTyTzJoint(gpos=dot(R[0:3, 0:3].T, array(p) - o), gvel=dot(R[0:3, 0:3].T, v))
            w.add_link(SubFrame(w.ground, H0), j, B)
            return dict(B=B, R=R[0:3, 0:3], o=o, j=j)
        self.p = [add(x['m'], s['p'], s['v'])]
        if self.pair: self.p.append(add(x['m2'], s['p2'], s['v2']))
        w.init()
        self.u = Custom(w.ndof)
        w.register(self.u)
        if self.pair:
            fr = [SubFrame(q['B'], eye(4)) if r.random() < .5 else q['B'] for q in self.p]
            # a rotated socket
            H = pose6([r.uniform(-3, 3) for i in range(3)] + [0.] * 3)
            q = self.p[0]
            if spec.get('frames'): fr[0] = SubFrame(q['B'], H)
            self.c = BallAndSocketConstraint(tuple(fr))
        else:
            # a plane with other coordinates of its own
            if spec.get('frames'):
                T = pose6([r.uniform(-3, 3) for i in range(6)])
                n = dot(T[0:3, 0:3].T, [0., 1., 0.])
                d = -dot(T[0:3, 3], [0., 1., 0.])
                plane = S.Plane(SubFrame(w.ground, T), [n[0], n[1], n[2], d])
            else: plane = S.Plane(w.ground, [0., 1., 0., 0.])
            ball = S.Sphere(self.p[0]['B'], x['r'])
            for o in (plane, ball): w.register(o)
            l = [plane, ball]
            if spec.get('swap'): l.reverse()
            self.c = SoftFingerContact(tuple(l), x['mu'], proximity=x['prox'])
        w.register(self.c)
        self.counter = Counter(w.ndof, [self.c])
        w.register(self.counter)
        if r.random() < .5: w.register(Probe(zeros((1, w.ndof)), [0.], False))
        w.init()
    def step(self, h):
        w = self.w
        h = val(h)
        dt = h['dt']
        us = h['u'] if self.pair else [h['u']]
        f = zeros(w.ndof)
        for q, u in zip(self.p, us): f[q['j'].dof] = dot(q['R'].T, u)
        self.u.set(f, zeros((w.ndof, w.ndof)))
        e = dict(op='step', dt=num(dt), u=num(h['u']))
        w.update_dynamic()
        w.update_controllers(dt)
        if not tight(w, dt, self.counter): return None
        e['on'] = bool(self.c.is_active())
        g = self.c.gforce if e['on'] else zeros(w.ndof)
        q = self.p[-1]
        e['f'] = num(dot(q['R'], g[q['j'].dof]))
        e['f0'] = num(dot(self.p[0]['R'], g[self.p[0]['j'].dof]))
        w.integrate(dt)
        P = [(dot(q['R'], q['j'].gpos) + q['o'], dot(q['R'], q['j'].gvel)) for q in self.p]
        e['p'], e['v'] = num(P[0][0]), num(P[0][1])
        if self.pair: e['p2'], e['v2'] = num(P[1][0]), num(P[1][1])
        return e

def coded(x):
    """Numbers for TLC."""
    if isinstance(x, dict): return {k: coded(v) for k, v in x.items()}
    if isinstance(x, list): return [coded(v) for v in x]
    if isinstance(x, float): return num(x)
    return x

def case(spec):
    r = random.Random(spec['seed'])
    c = {'ev': [], 'x': coded(val(spec['x'])), 's': coded(val(spec['s']))}
    try:
        m = (Carts if spec['kind'] == 'carts' else Pucks)(spec, r)
        for h in spec['hist']:
            e = m.step(h)
            if e is None: break
            c['ev'].append(e)
    except Exception as x:
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
        c['ev'].append({'op': 'crash', 'res': why(x)})
    return c
main(case)
