"""Replay construction histories (S01..S07) on the implementation."""
from lib import *
from numpy import eye, diag
import arboris.core as core
from arboris.core import World, Body, SubFrame, JointsList
import arboris.joints as J
import arboris.shapes as shapes
from arboris.constraints import SoftFingerContact
from arboris.controllers import WeightController
import arboris.homogeneousmatrix as Hg
from numpy.linalg import LinAlgError

TYPES = {0: [J.FixedJoint], 1: [J.RzJoint, J.RyJoint, J.RxJoint, J.TxJoint, J.TyJoint, J.TzJoint],
         2: [J.RzRyJoint, J.RzRxJoint, J.RyRxJoint], 3: [J.RzRyRxJoint, J.TxTyTzJoint], 6: [J.FreeJoint]}
REFUSALS = (ValueError, AssertionError)

class Visitor(object):
    def __init__(self, sim): self.sim, self.log = sim, []
    def init_parse(self, ground, up, current_time): pass
    def register(self, obj): self.log.append(self.sim.ident(obj))
    def add_link(self, f0, j, f1):
        k = self.sim.ident(j)
        if k[0] == 'joint' and tuple(j.frames) == (f0, f1): k = ['link', k[1]]
        self.log.append(k)

class Sim(object):
    def __init__(self, U, r):
        self.U, self.r = U, r
        self.w = World()
        self.bodies = [self.w.ground]
        # names are not identities: each own, none, or all the same one
        n = r.choice(['own', 'none', 'same', 'mixed'])
        name = lambda k: {'own': k, 'none': None, 'same': 'x', 'mixed': r.choice([k, None, 'x', 'ground'])}[n]
        for b in range(1, U['nb'] + 1):
            self.bodies.append(Body(name('b%d' % b), mass=diag([r.uniform(.1, 2) for i in range(3)] + [r.uniform(.5, 3)] * 3)))
        for b in range(1, U['nb'] + 1): # mass is isotropic
            m = self.bodies[b].mass
            m[3, 3] = m[4, 4] = m[5, 5]
        self.joints = []
        for m in U['nd']:
            t = r.choice(TYPES[m])
            if m == 0: j = t(name=name('j'))
            elif m == 6: j = t(name=name('j'), gpos=Hg.transl(r.random(), r.random(), r.random()), gvel=[r.uniform(-1, 1) for i in range(6)])
            else: j = t(name=name('j'), gpos=[r.uniform(-1, 1) for i in range(m)], gvel=[r.uniform(-1, 1) for i in range(m)])
            self.joints.append(j)
        moving = set(f for c in U['cf'] for f in c)
        self.sub = []
        for k, b in enumerate(U['fb']):
            if 101 + k in moving: self.sub.append(None)
            else:
                c = r.choice([core.SubFrame, core.MovingSubFrame])
                self.sub.append(c(self.bodies[b], Hg.transl(r.random(), r.random(), r.random()), name('f')))
        self.shapes = []
        for f in U['sf']:
            self.shapes.append(r.choice([shapes.Sphere, shapes.Point, shapes.Box])(self.frame(f), name=name('s')))
        self.cons = []
        for k, (a, b) in enumerate(U['cs']):
            # the contact solver depends on the types: use spheres at the same places
            pair = [s if isinstance(s, shapes.Sphere) else shapes.Sphere(s.frame) for s in (self.shapes[a-1], self.shapes[b-1])]
            c = SoftFingerContact(pair, .5)
            self.cons.append(c)
            for i, f in enumerate(U['cf'][k]):
                self.sub[f - 101] = None
        self.contact_frames = {}
        self.ctrls = [WeightController() for k in range(U['nc'])]
        self.known_ = None

    def frame(self, f): return self.bodies[f] if f < 100 else self.sub[f - 101]

    def ident(self, obj):
        """[kind, number] of an object of the universe."""
        for k, o in enumerate(self.bodies):
            if o is obj: return ['frame', k]
        for k, o in enumerate(self.sub):
            if o is obj: return ['frame', 101 + k]
        for kind, l in (('joint', self.joints), ('shape', self.shapes), ('cons', self.cons), ('ctrl', self.ctrls)):
            for k, o in enumerate(l):
                if o is obj: return [kind, k + 1]
        # the moving frames of a contact become known when it is registered
        for c in range(len(self.cons)):
            for i, f in enumerate(self.U['cf'][c]):
                if self.sub[f - 101] is None and c in self.registered and isinstance(obj, core.MovingSubFrame) \
                   and obj.body is self.bodies[self.U['fb'][f - 101]]:
                    if i == 1 and self.sub[self.U['cf'][c][0] - 101] is None: continue
                    self.sub[f - 101] = obj
                    return ['frame', f]
        return ['unknown', 0]
    registered = ()

    def ids(self, objs): return [self.ident(o)[1] if self.ident(o)[0] != 'unknown' else 999 for o in objs]

    def observe(self):
        w, U = self.w, self.U
        o = {}
        o['bodies'] = self.ids(w.iterbodies())
        o['getbodies'] = self.ids(w.getbodies())
        o['joints'] = self.ids(w.iterjoints())
        o['par'] = [self.ids([b.parentjoint])[0] if b.parentjoint is not None else 0 for b in self.bodies]
        o['kids'] = [self.ids(b.childrenjoints) for b in self.bodies]
        o['anc'] = [self.ids(b.iter_ancestor_bodies()) for b in self.bodies]
        o['ancj'] = [self.ids(b.iter_ancestor_joints()) for b in self.bodies]
        o['desc'] = [self.ids(b.iter_descendant_bodies()) for b in self.bodies]
        o['descj'] = [self.ids(b.iter_descendant_joints()) for b in self.bodies]
        o['fr'] = [self.ids(j.frames) if j.frame0 is not None or j.frame1 is not None else [] for j in self.joints]
        o['fr2'] = [self.ids([j.frame0, j.frame1]) if j.frame0 is not None or j.frame1 is not None else [] for j in self.joints]
        o['frames'] = self.ids(w.itersubframes())
        o['getframes'] = self.ids(w.getframes())
        o['iterframes'] = self.ids(w.iterframes())
        o['shapes'] = self.ids(w.itershapes())
        o['getshapes'] = self.ids(w.getshapes())
        o['cons'] = self.ids(w.iterconstraints())
        o['getcons'] = self.ids(w.getconstraints())
        o['ctrls'] = self.ids(w.getcontrollers())
        moving = [f for f in w.itersubframes() if isinstance(f, core.MovingSubFrame)]
        o['movingok'] = list(w.itermovingsubframes()) == moving
        o['ndof'] = int(w.ndof)
        dof = []
        for j in self.joints:
            try: dof.append([int(j.dof.start), int(j.dof.stop)])
            except ValueError: dof.append([-1, -1])
        o['dof'] = dof
        o['q'] = [fhex(j.gpos) for j in self.joints]
        o['v'] = [fhex(j.gvel) for j in self.joints]
        o['gvel'] = fhex(w.gvel)
        o['sizes'] = [list(numpy.shape(w.mass)), list(numpy.shape(w.viscosity)), list(numpy.shape(w.nleffects)),
                      list(numpy.shape(w.gforce)), list(numpy.shape(w.gvel))]
        return o

    def select(self):
        """dof of selections of joints (of an initialised world)."""
        js = list(self.w.iterjoints())
        out = []
        sels = [[], js, js[::-1]]
        for k in range(3):
            sels.append(self.r.sample(js, self.r.randint(0, len(js))))
        if len(js) > 1:
            a = self.r.randint(0, len(js) - 1)
            sels.append(js[a:])
        for s in sels:
            out.append({'js': self.ids(s), 'dof': dofs(JointsList(s).dof)})
        out.append({'js': self.ids(js), 'dof': dofs(self.w.getjoints().dof)})
        return out

    def run(self, op):
        """Run one operation; returns the operation as it was done."""
        w, k = self.w, op['op']
        op = dict(op)
        res = 'ok'
        try:
            if k == 'add':
                a = []
                for f0, j, f1 in op['links']: a += [self.frame(f0), self.joints[j-1], self.frame(f1)]
                w.add_link(*a)
            elif k == 'replace':
                a = []
                for f0, j, f1 in op['links']: a += [self.frame(f0), self.joints[j-1], self.frame(f1)]
                if op['short']: a = [self.joints[op['links'][0][1] - 1]]
                w.replace_joint(self.joints[op['old'] - 1], *a)
            elif k == 'frame': w.register(self.frame(op['id']))
            elif k == 'shape': w.register(self.shapes[op['id'] - 1])
            elif k == 'reframe': self.shapes[op['id'] - 1].frame = self.frame(op['f'])
            elif k == 'cons':
                self.registered = tuple(self.registered) + (op['id'] - 1,)
                w.register(self.cons[op['id'] - 1])
                self.ids(w.itersubframes())
            elif k == 'ctrl': w.register(self.ctrls[op['id'] - 1])
            elif k == 'joint': w.register(self.joints[op['id'] - 1])
            elif k == 'junk': w.register(self.r.choice([object(), 'name', 3, None, w]))
            elif k == 'init': w.init()
            elif k == 'setv':
                j = self.joints[op['id'] - 1]
                new = numpy.array([self.r.uniform(-1, 1) for i in range(j.ndof)])
                j.gvel[:] = new
                op['val'] = fhex(new)
            elif k == 'setq':
                j = self.joints[op['id'] - 1]
                if 0 < j.ndof < 6:
                    new = numpy.array([self.r.uniform(-1, 1) for i in range(j.ndof)])
                    j.gpos[:] = new
                op['val'] = fhex(j.gpos)
            elif k == 'step':
                w.update_dynamic()
                w.update_controllers(.01)
                w.integrate(.01)
                op['q'] = [fhex(j.gpos) for j in self.joints]
                op['v'] = [fhex(j.gvel) for j in self.joints]
            elif k == 'scribble':
                w.gvel[:] = 77.
                w.gforce[:] = 77.
                for l in (w.getbodies(), w.getframes(), w.getshapes(), w.getconstraints(), w.getcontrollers()):
                    l.append(self.bodies[0])
                    l.reverse()
                    del l[:]
                j = w.getjoints() if self.known_ else []
                del j[:]
        except REFUSALS as e:
            res = 'refused' if k in ('add', 'joint', 'junk') else why(e)
        except Exception as e:
            res = why(e)
        op['res'] = res
        return op

    def event(self, op):
        op = self.run(op)
        op['obs'] = self.observe()
        self.known_ = all(d != [-1, -1] for j, d in zip(self.joints, op['obs']['dof']) if j in list(self.w.iterjoints()))
        try:
            op['sel'] = self.select() if self.known_ and op['op'] in ('init', 'replace') else []
        except Exception as e:
            op['res'] = 'selection: ' + why(e)
            op['sel'] = []
        v = Visitor(self)
        try:
            self.w.parse(v)
        except Exception as e:
            op['res'] = 'parse: ' + why(e)
        op['log'] = v.log
        return op

def case(spec):
    s = Sim(spec['U'], random.Random(spec['seed']))
    c = {'U': spec['U'], 'q0': [fhex(j.gpos) for j in s.joints], 'v0': [fhex(j.gvel) for j in s.joints], 'ev': []}
    try:
        for op in spec['hist']: c['ev'].append(s.event(op))
    except Exception as e:
        # an observation which fails ends the history
        c['ev'].append({'op': 'crash', 'res': why(e)})
    return c
main(case)
