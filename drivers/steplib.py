"""Worlds with controllers, shapes and constraints, stepped by hand."""
from worldlib import *
from arboris.controllers import WeightController, ProportionalDerivativeController
from arboris.core import Constraint, Controller
from arboris.constraints import JointLimits, BallAndSocketConstraint, SoftFingerContact, get_all_contacts
import arboris.shapes as S
from arboris.observers import RecordConstForce
logging.disable(logging.CRITICAL)
MAXITERS = 1500

class Custom(Controller):
    """A user's controller, which always gives the same arrays back."""
    def __init__(self, n):
        Controller.__init__(self)
        self.f, self.Z, self.n = zeros(n), zeros((n, n)), 0
    def init(self, world): pass
    def set(self, f, Z): self.f[:], self.Z[:] = f, Z
    def update(self, dt):
        self.n += 1
        return self.f, self.Z

class Probe(Constraint):
    """A user's constraint which applies a given force and records what it is given."""
    def __init__(self, J, force, warm):
        Constraint.__init__(self)
        self.J, self.goal, self.warm = array(J, dtype=float), array(force, dtype=float), warm
        self.now = zeros(len(J))
        self.active, self.calls = True, []
    def init(self, world): pass
    @property
    def ndol(self): return len(self.J)
    @property
    def jacobian(self): return self.J
    @property
    def gforce(self): return dot(self.J.T, self.now)
    def update(self, dt):
        if not self.warm: self.now = zeros(len(self.J))
        self.calls = []
    def is_active(self): return self.active
    def solve(self, vel, admittance, dt):
        d = self.goal - self.now
        self.now = self.goal.copy()
        self.calls.append((array(vel), array(admittance), dt))
        return d

class Counter(Probe):
    """Counts the iterations of the solver, and looks at its convergence: the velocities
    may be the same after all iterations while the forces do not converge.
    Its own velocity is the worldwide one."""
    def __init__(self, n, others):
        Probe.__init__(self, eye(n), zeros(n), False)
        self.others = others
    def init(self, world): self.w = world
    def update(self, dt):
        self.n, self.last, self.change = 0, None, 0.
        w = self.w
        f = array(w.gforce)
        for o in self.others:
            if o.is_enabled() and o.is_active(): f += o.gforce
        # before the iterations
        self.vel, self.moved = dot(w.admittance, dot(w.mass, w.gvel / dt) + f), 0.
    def forces(self): return array([o.gforce for o in self.others if o.is_enabled() and o.is_active()])
    def solve(self, vel, admittance, dt):
        self.n += 1
        self.moved = abs(vel - self.vel).max() if len(vel) else 0.
        self.vel = array(vel)
        f = self.forces()
        self.change = 1. if self.last is None else abs(f - self.last).max() / (1. + abs(f).max()) if f.size else 0.
        self.last = f
        return zeros(len(vel))
    def early(self, maxiters, tol):
        """Iterations have stopped while the velocities were still changing."""
        return self.n < maxiters and not self.moved <= tol
    def converged(self): return self.n < MAXITERS and self.change < 1e-9

def matrix(f):
    """Pose of a frame in its body: H, 6 numbers or M, 16 of them."""
    if f.get('M') is not None: return array(f['M'], dtype=float).reshape(4, 4)
    return pose6(f.get('H'))

class Stepped(Built):
    def __init__(self, spec):
        Built.__init__(self, spec['world'])
        w = self.w
        self.spec = spec
        self.frames = {}
        self.shapes, self.sh = [], []
        for s in spec.get('shapes', ()): self.add_shape(s)
        self.customs, self.ctl, self.ctlobj = [], [], []
        for x in spec.get('ctl', ()):
            if x['t'] != 'custom': self.add_ctl(x)
        if spec.get('late'): self.add_late(spec['late'])
        for x in spec.get('ctl', ()):
            if x['t'] == 'custom': self.add_ctl(x)
        self.cons, self.conobj = [], []
        for x in spec.get('cons', ()): self.add_con(x)
        self.counter = None
        if self.conobj:
            self.counter = Counter(w.ndof, self.conobj)
            w.register(self.counter)
            if len(self.conobj) % 2: w.register(Probe(zeros((1, w.ndof)), [0.], False))
        w.init()
    def frame(self, f):
        b = self.bodies[f['body']]
        H = matrix(f)
        if f.get('M') is None and f.get('H') is None: return b
        return SubFrame(b, H)
    def head_frame(self, f): return {'b': f['body'], 'h': num(matrix(f))}
    def add_shape(self, s):
        f = self.frame(s['frame'])
        t = s['t']
        if t == 'Sphere': o = S.Sphere(f, s['r'])
        elif t == 'Point': o = S.Point(f)
        elif t == 'Plane': o = S.Plane(f, s['n'] + [s['d']])
        elif t == 'Box': o = S.Box(f, array(s['e']))
        elif t == 'Cylinder': o = S.Cylinder(f, s['len'], s['r'])
        self.shapes.append(o)
        h = dict(t=t, frame=self.head_frame(s['frame']))
        if 'r' in s: h['r'] = num(s['r'])
        if t == 'Plane':
            n = numpy.sqrt(sum(x*x for x in s['n']))
            h['n'], h['d'] = num([x / n for x in s['n']]), num(s['d'] / n)
        if t == 'Box': h['e'] = num(s['e'])
        self.sh.append(h)
        self.w.register(o)
    def add_ctl(self, x):
        t = x['t']
        h = dict(t=t)
        if t == 'weight':
            o = WeightController() if x['g'] is None else WeightController(x['g'])
            h['g'] = num(-9.81 if x['g'] is None else x['g'])
        elif t == 'pd':
            a = {k: x[k] for k in ('kp', 'kd') if x.get(k) is not None}
            if x.get('qd') is not None: a['gpos_des'] = x['qd']
            if x.get('vd') is not None: a['gvel_des'] = x['vd']
            o = ProportionalDerivativeController([self.joints[k-1] for k in x['joints']], **a)
            n = sum(self.joints[k-1].ndof for k in x['joints'])
            z = zeros((n, n))
            h.update(joints=x['joints'], kp=mat(x['kp'] if x.get('kp') is not None else z), kd=mat(x['kd'] if x.get('kd') is not None else z),
                     qd=num(x['qd'] if x.get('qd') is not None else [0.]*n), vd=num(x['vd'] if x.get('vd') is not None else [0.]*n))
        else:
            o = Custom(self.w.ndof)
            self.customs.append(o)
        self.ctl.append(h)
        self.ctlobj.append(o)
        self.w.register(o)
    def add_late(self, l):
        """A link attached after the registration of the controllers."""
        if l.get('inited'): self.w.init()
        b = Body(mass=massmat(l['m']))
        self.bodies.append(b)
        H = pose6(l['H'])
        j = getattr(J, l['type'])(**(dict(gpos=l['q'], gvel=l['v']) if l['type'] != 'FixedJoint' else {}))
        self.w.add_link(SubFrame(self.bodies[l['parent']], H), j, b)
        self.joints.append(j)
        self.links.append(dict(parent=l['parent'], child=len(self.bodies) - 1, type=l['type'], h0=num(H), h1=num(eye(4))))
        self.w.init()
    def add_con(self, x):
        t = x['t']
        h = dict(t=t)
        w = self.w
        if t == 'limits':
            a = {} if x.get('prox') is None else dict(proximity=x['prox'])
            n = self.joints[x['link']-1].ndof
            o = JointLimits(self.joints[x['link']-1], x['min'], x['max'], **a)
            h.update(link=x['link'], min=num(x['min']), max=num(x['max']), prox=num([.01]*n if x.get('prox') is None else x['prox']))
        elif t == 'ball':
            o = BallAndSocketConstraint((self.frame(x['f0']), self.frame(x['f1'])))
            h.update(f0=self.head_frame(x['f0']), f1=self.head_frame(x['f1']))
        elif t == 'contact':
            before = list(w.itermovingsubframes())
            a = {} if x.get('prox') is None else dict(proximity=x['prox'])
            o = SoftFingerContact((self.shapes[x['s'][0]-1], self.shapes[x['s'][1]-1]), x['mu'], **a)
            h.update(s=x['s'], mu=num(x['mu']), prox=num(.02 if x.get('prox') is None else x['prox']))
        elif t == 'probe':
            o = Probe(array(x['J'], dtype=float).reshape(-1, w.ndof), x['force'], x.get('warm', False))
            h.update(J=mat(o.J), force=num(x['force']))
        self.cons.append(h)
        self.conobj.append(o)
        w.register(o)
        if t == 'contact':
            fr = [f for f in w.itermovingsubframes() if not any(f is g for g in before)]
            self.frames[len(self.conobj)] = fr
            h['bodies'] = [self.bodies.index(f.body) for f in fr]
    def head(self):
        h = Built.head(self)
        h.update(up=num(self.w.up), ctl=self.ctl, cons=self.cons, shapes=self.sh)
        return h

    def compatible(self):
        """The directions of the constraints which are active are independent."""
        w = self.w
        rows = [o.jacobian for o in self.conobj if o.is_enabled() and o.is_active() and not isinstance(o, Probe)]
        if not rows: return True
        j = numpy.vstack(rows)
        y = dot(j, dot(w.admittance, j.T))
        y = numpy.linalg.eigvalsh(y + y.T)
        # (and move with the world)
        return y[0] > 1e-5 * y[-1] and y[0] > 1e-12 * abs(w.admittance).max()

    def step(self, op):
        w, dt = self.w, op['dt']
        for k, o in enumerate(self.customs): o.set(*(array(a) for a in op['custom'][k]))
        for k, a in enumerate(op.get('active', ())):
            if isinstance(self.conobj[k], Probe): self.conobj[k].active = a
        w.update_dynamic()
        if numpy.linalg.cond(w.mass) > 1e7: return None
        e = {'op': 'step', 'dt': num(dt), 'q': self.q(), 'v': self.v(), 'w': num(w.gvel), 't1': num(w.current_time), 'nle': mat(w.nleffects)}
        if op.get('again'):
            # earlier updates with other durations do not matter
            w.update_controllers(.37 * dt)
            w.update_controllers(2. * dt)
            if op['again'] > 1: w.update_dynamic()
        for o in self.conobj:
            if isinstance(o, Probe): o.calls = []
        e['direct'] = [(lambda r: dict(f=num(r[0]), z=mat(r[1])))(o.update(dt)) for o in self.ctlobj]
        e['cf'] = [num(op['custom'][self.customs.index(o)][0]) if isinstance(o, Custom) else [] for o in self.ctlobj]
        e['cz'] = [mat(op['custom'][self.customs.index(o)][1]) if isinstance(o, Custom) else [] for o in self.ctlobj]
        w.update_controllers(dt)
        e['gf1'], e['Y'] = num(w.gforce), mat(w.admittance)
        if numpy.linalg.cond(w.admittance) > 1e7: return None
        rec = []
        for o in self.conobj:
            r = RecordConstForce(o)
            r.init(w, [0., 1.])
            rec.append(r)
        try:
            if self.spec.get('tight'): w.update_constraints(dt, maxiters=MAXITERS, tol=1e-11)
            else: w.update_constraints(dt)
        except Exception:
            if len(self.conobj) > 1 and not self.compatible(): return None
            raise
        # the only constraint is solved at once, but when it is made of several ones
        single = len(self.conobj) == 0 or len(self.conobj) == 1 and (self.cons[0]['t'] != 'limits' or len(self.cons[0]['min']) == 1)
        tight = bool(self.spec.get('tight'))
        e['conv'] = bool(self.counter.converged()) if tight and self.counter else single
        e['early'] = self.counter is not None and bool(self.counter.early(*((MAXITERS, 1e-11) if tight else (1000, 1e-4))))
        e['tight'] = tight or single
        e['cons'] = []
        for k, (o, r) in enumerate(zip(self.conobj, rec), 1):
            on = o.is_enabled()
            x = {'on': bool(on), 'act': bool(o.is_active()) if on else False}
            if isinstance(o, Probe):
                x['f'] = num(o.now)
                if on and x['act']:
                    x['first'], x['last'], x['adm'] = num(o.calls[0][0]), num(o.calls[-1][0]), mat(o.calls[-1][1])
                    x['dts'] = all(c[2] == dt for c in o.calls)
                x['n'] = len(o.calls)
            else:
                r.update(dt)
                x['f'] = num(r.get_record()[0])
            x['jac'] = mat(o.jacobian) if on else []
            x['gf'] = num(o.gforce) if on else []
            if k in self.frames: x['fr'] = [num(f.bpose) for f in self.frames[k]]
            e['cons'].append(x)
        e['gf2'] = num(w.gforce)
        w.integrate(dt)
        if self.conobj and not abs(w.gvel).max() <= 1e5 and not self.compatible(): return None
        e.update(q2=self.q(), v2=self.v(), w2=num(w.gvel), t2=num(w.current_time))
        return e

    def run(self, ops):
        ev = []
        for op in ops:
            k = op['op']
            if k == 'step':
                e = self.step(op)
                if e is None: break
                ev.append(e)
                if any(abs(x) > 1e4 for j in self.joints if j.ndof for x in j.gvel): break
            elif k in ('enable', 'disable'):
                getattr(self.conobj[op['c']-1], k)()
            elif k == 'set': self.set(op['q'], op['v'])
            elif k == 'init': self.w.init()
        return ev
