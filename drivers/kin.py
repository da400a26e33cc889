"""Kinematics and dynamics of worlds (K01-K04, D01, D02, A01, O04)."""
from worldlib import *
from arboris.controllers import WeightController

def lazy_observers():
    from arboris.observers import CoMObserver
    import logging
    logging.disable(logging.CRITICAL)
    return CoMObserver

class Frames(object):
    """Frames of the bodies, with the arrays which were given."""
    def __init__(self, s, descr):
        self.s, self.f, self.given, self.moving = s, [], [], []
        for d in descr:
            H = pose6(d['H'])
            C = MovingSubFrame if d['moving'] else SubFrame
            if d['H'] is None: f = C(s.bodies[d['body']])
            else:
                g = H.tolist() if d.get('list') and False else H.copy()
                f = C(s.bodies[d['body']], g, name=d.get('name'))
                self.given.append(g)
            if d.get('register'): s.w.register(f)
            self.f.append(f)
            self.moving.append(d['moving'])
    def head(self, descr): return {'fbody': [d['body'] for d in descr], 'fpose': [num(pose6(d['H'])) for d in descr]}
    def snap(self, e):
        e['bpose'] = [num(f.bpose) for f in self.f]
        e['body'] = [self.s.bodies.index(f.body) for f in self.f]
        return e

def attempt(f):
    try: f()
    except (ValueError, AssertionError, AttributeError, TypeError): return 'refused'
    return 'ok'

BAD = [lambda: 2 * eye(4), lambda: eye(3), lambda: zeros((4, 4)), lambda: diag([1., 1., -1., 1.]), lambda: eye(4) + array([[0.]*4]*3 + [[0., 0, .5, 0]]),
       lambda: diag([1., 1., 1., 2.])]

def frame_event(s, F, op, r):
    k = op['op']
    e = {'op': k, 'want': 'ok'}
    if k == 'eval':
        s.set(op['q'], op['v'])
        w = s.w
        w.update_dynamic()
        e.update(q=s.q(), v=s.v(), pose=[num(f.pose) for f in F.f], twist=[num(f.twist) for f in F.f],
                 jac=[mat(f.jacobian) for f in F.f], djac=[mat(f.djacobian) for f in F.f], res='ok')
    elif k == 'move':
        H = pose6(op['H'])
        f = F.f[op['f'] - 1]
        e.update(f=op['f'], h=num(H))
        if F.moving[op['f'] - 1]: 
            def act(): f.bpose = H
            F.given.append(H)
        else:
            e['op'], e['want'] = 'badmove', 'refused'
            def act(): f.bpose = H
        e['res'] = attempt(act)
    elif k == 'badmove':
        f = F.f[op['f'] - 1]
        def act(): f.bpose = r.choice(BAD)()
        e.update(want='refused', res=attempt(act))
    elif k == 'badnew':
        C = r.choice([SubFrame, MovingSubFrame])
        if r.random() < .5:
            def act(): C(r.choice([None, 'body', F.f[0], s.joints[0], s.w]), eye(4))
        else:
            def act(): C(r.choice(s.bodies), r.choice(BAD)())
        e.update(want='refused', res=attempt(act))
    elif k == 'scribble':
        for g in F.given: g += 3.
        for f in F.f + s.bodies:
            for a in (f.bpose, f.pose if not isinstance(f, Body) and f.body.pose is not None else zeros(3)): a += 7.
        e['res'] = 'ok'
    return F.snap(e)

def case(spec):
    r = random.Random(spec['seed'])
    prop = JOBPROP
    ev = []
    c = {'ev': ev}
    try:
        s = Built(spec['world'])
        w = s.w
        c.update(s.head())
        if prop == 'K04':
            F = Frames(s, spec['frames'])
            c.update(F.head(spec['frames']))
            for op in spec['ops']: ev.append(frame_event(s, F, op, r))
            return c
        if prop == 'A01':
            c['up'] = num(w.up)
            gs = spec['gravity']
            ctl = [WeightController() if g is None else WeightController(g) for g in gs]
            for a in ctl: w.register(a)
            if spec.get('late'):
                # a body linked after the registration
                l = spec['late']
                if l.get('inited'): w.init()
                b = Body(mass=massmat(l['m']))
                s.bodies.append(b)
                H = pose6(l['H'])
                j = getattr(J, l['type'])(**(dict(gpos=l['q'], gvel=l['v']) if l['type'] != 'FixedJoint' else {}))
                w.add_link(SubFrame(s.bodies[l['parent']], H), j, b)
                s.joints.append(j)
                s.links.append(dict(parent=l['parent'], child=len(s.bodies) - 1, type=l['type'], h0=num(H), h1=num(eye(4))))
                c.update(s.head())
            w.init()
        if prop == 'O04':
            CoM = lazy_observers()
            groups = [(g, [s.bodies[k] for k in g], jac) for g, jac in spec['groups']]
            obs = [CoM(list(bs), compute_Jacobians=jac) for g, bs, jac in groups]
            for o in obs: o.init(w, None)
        for n, op in enumerate(spec['states']):
            s.set(op[0], op[1])
            if len(op) > 2 and op[2]:
                # other masses, then everything which depends on them is initialised again
                s.remass(op[2])
                w.init()
                if prop == 'O04':
                    for o in obs: o.init(w, None)
            e = {'op': 'eval', 'q': s.q(), 'v': s.v()}
            e.update(s.masses())
            if prop == 'K01':
                w.update_geometric()
                e['geo'] = [num(b.pose) for b in s.bodies[1:]]
                e['ground'] = [num(w.ground.pose)]
                # other velocities do not matter
                if n % 2: s.set(op[0], [[x + 1 for x in v] for v in op[1]])
                w.update_dynamic()
                e['dyn'] = [num(b.pose) for b in s.bodies[1:]]
                e['ground'].append(num(w.ground.pose))
                (w.update_geometric if n % 3 else w.update_dynamic)()
                e['again'] = [num(b.pose) for b in s.bodies[1:]]
                e['ground'].append(num(w.ground.pose))
            else:
                w.update_dynamic()
                if n % 3 == 1: w.update_geometric()
            if prop == 'K02':
                e.update(gvel=num(w.gvel), twist=[num(b.twist) for b in s.bodies[1:]], jac=[mat(b.jacobian) for b in s.bodies[1:]],
                         gtwist=num(w.ground.twist), gjac=mat(w.ground.jacobian))
            if prop == 'K03': e['djac'] = [mat(b.djacobian) for b in s.bodies[1:]]
            if prop == 'D01': e.update(mass=mat(w.mass), visc=mat(w.viscosity))
            if prop == 'D02': e['nle'] = mat(w.nleffects)
            if prop == 'A01':
                k = n % len(ctl)
                f, Z = ctl[k].update(.01)
                e.update(g=num(-9.81 if gs[k] is None else gs[k]), force=num(f), imp=mat(Z), total=num(sum(-9.81 if g is None else g for g in gs)))
                # singular positions (gimbal lock) have no admittance
                if spec['regular'] and numpy.linalg.cond(w.mass) < 1e9:
                    w.update_controllers(.01)
                    e['gforce'] = num(w.gforce)
                else: e['gforce'], e['total'] = e['force'], e['g']
            if prop == 'O04':
                e['obs'] = []
                for (g, bs, jac), o in zip(groups, obs):
                    o.update(.01)
                    x = dict(bodies=g, jacobians=jac, pos=num(o.get_CoMPosition()), jac=mat(o.get_CoMJacobian()), djac=mat(o.get_CoMdJacobian()))
                    for a in (o.get_CoMPosition(), o.get_CoMJacobian(), o.get_CoMdJacobian()): a += 5
                    x['copies'] = num(o.get_CoMPosition()) == x['pos'] and mat(o.get_CoMJacobian()) == x['jac'] and mat(o.get_CoMdJacobian()) == x['djac']
                    e['obs'].append(x)
            ev.append(e)
    except Exception as x:
        ev.append({'op': 'crash', 'res': why(x)})
    return c
JOBPROP = json.load(open(sys.argv[1]))['prop']
main(case)
