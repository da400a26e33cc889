"""The same simulation, run in several ways (T03)."""
from steplib import *
from arboris.core import simulate, Observer
import arboris.observers as O

class Snap(Observer):
    """Records the state at the beginning of the steps."""
    def __init__(self, s): 
        Observer.__init__(self)
        self.s, self.out, self.singular = s, [], False
    def init(self, world, timeline): pass
    def update(self, dt):
        self.out.append(self.state())
        if self.s.w.ndof and max(numpy.linalg.cond(self.s.w.mass), numpy.linalg.cond(self.s.w.admittance)) > 1e7: self.singular = True
    def state(self): return dict(t=num(self.s.w.current_time), q=self.s.q(), v=self.s.v())
    def finish(self): pass
class Touch(Observer):
    """Reads everything, the arrays which are copies are overwritten."""
    def __init__(self, s):
        Observer.__init__(self)
        self.s = s
    def init(self, world, timeline): pass
    def finish(self): pass
    def update(self, dt):
        w = self.s.w
        for a in (w.gvel, w.gforce): a[...] = 7.
        w.admittance[...] = 3.
        for x in w.iterframes(): x.pose, x.twist, x.jacobian, x.djacobian, x.bpose
        for b in w.iterbodies(): b.nleffects, list(b.iter_descendant_bodies()), list(b.iter_ancestor_joints())
        for j in w.iterjoints():
            for a in ('pose', 'ipose', 'twist', 'itwist', 'adjoint', 'iadjoint', 'adjacency', 'dadjoint', 'idadjoint', 'jacobian', 'djacobian'): getattr(j, a)
            j.dof
        for l in (w.getbodies(), w.getframes(), w.getjoints(), w.getconstraints(), w.getcontrollers(), w.getshapes()): del l[:]
        w.mass, w.nleffects, w.viscosity, w.ndof, w.up

class Unit(object):
    def __init__(self, spec, order=None):
        sp = dict(spec)
        if order:
            c = [(x, a) for x, a in zip(spec['ctl'], spec['arrays'])]
            c = [c[k] for k in order]
            sp['ctl'] = [x for x, a in c]
            arrays = [a for x, a in c if x['t'] == 'custom']
        else: arrays = [a for x, a in zip(spec['ctl'], spec['arrays']) if x['t'] == 'custom']
        self.s = Stepped(sp)
        for o, a in zip(self.s.customs, arrays): o.set(*(array(y) for y in a))
        self.q0 = [j.gpos.copy() if j.ndof else None for j in self.s.joints]
        self.v0 = [j.gvel.copy() if j.ndof else None for j in self.s.joints]
    def reset(self):
        for j, q, v in zip(self.s.joints, self.q0, self.v0):
            if j.ndof: j.gpos[...] = q; j.gvel[...] = v
    def go(self, tl, watch=()):
        a = Snap(self.s)
        simulate(self.s.w, tl, list(watch) + [a])
        self.singular = a.singular
        return a.out + [a.state()]

def watchers(u, dir):
    s, w = u.s, u.s.w
    obs = [Touch(s), O.EnergyMonitor(), O.PerfMonitor(), O.SaveLogger(True, True, True, flat=True), O.PickleLogger(os.path.join(dir, 'log.pkl'), save_state=True, save_model=True),
           O.CoMObserver(s.bodies[1:])]
    for j in s.joints:
        if j.ndof: obs += [O.RecordJointGpos(j), O.RecordJointGvel(j)]
    for b in s.bodies: obs += [O.RecordFramePose(b), O.RecordFrameTwist(b)]
    for c in s.conobj:
        if not isinstance(c, Probe): obs.append(O.RecordConstForce(c))
    return obs

def variant(spec, k, tl, dir):
    t = k['kind']
    if t == 'order': return Unit(spec, k['order']).go(tl)
    u = Unit(spec)
    if t == 'twin': return u.go(tl)
    if t == 'again':
        u.go(tl)
        u.reset()
        return u.go(tl)
    if t == 'after':
        # where this leads does not matter
        try: u.go(k['tl'])
        except numpy.linalg.LinAlgError: return None
        u.reset()
        return u.go(tl)
    if t == 'split':
        out, last = [], 0
        for c in k['cuts'] + [len(tl) - 1]:
            out = out[:-1] + u.go(tl[last:c + 1])
            last = c
        return out
    if t == 'noobs':
        out = [u.go(tl[:1])[0]]
        w = u.s.w
        for a, b in zip(tl, tl[1:]):
            simulate(w, [a, b])
            out.append(Snap(u.s).state())
        return out
    if t == 'watch': return u.go(tl, watchers(u, dir))
    if t == 'repeat':
        w = u.s.w
        out = []
        w.init()
        for a, b in zip(tl, tl[1:]):
            dt = b - a
            w.update_geometric()
            w.update_dynamic()
            w.update_controllers(3.1 * dt)
            w.init() if k['init'] else None
            w.update_dynamic()
            w.update_dynamic()
            w.update_geometric()
            w.update_controllers(dt / 7.)
            w.update_controllers(dt)
            w.update_constraints(dt)
            out.append(dict(t=num(a), q=u.s.q(), v=u.s.v()))
            w.integrate(dt)
        out.append(dict(t=num(tl[-1]), q=u.s.q(), v=u.s.v()))
        return out

def case(spec):
    c = {'ev': []}
    dir = os.environ.get('VERIF_SCRATCH', '.')
    try:
        u = Unit(spec)
        c['pose'] = [isinstance(j, J.FreeJoint) for j in u.s.joints]
        tl = spec['tl']
        try: ref = u.go(tl)
        except numpy.linalg.LinAlgError: return dict(c, ref=[])
        # rounding errors are amplified: nothing is claimed
        if u.singular or not abs(u.s.w.gvel).max() < 1e3:
            return dict(c, ref=ref)
        c['ref'] = ref
        for k in spec['variants']:
            try:
                st = variant(spec, k, tl, dir)
                if st is not None: c['ev'].append(dict(op='run', kind=k['kind'], st=st))
            except Exception as x:
                if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
                c['ev'].append({'op': 'crash', 'kind': k['kind'], 'res': why(x)})
    except Exception as x:
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
        c['ref'] = []
        c['ev'].append({'op': 'crash', 'kind': 'reference', 'res': why(x)})
    return c
main(case)
