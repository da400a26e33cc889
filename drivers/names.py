"""Lists of named objects and naming of the elements of a world (S08)."""
from lib import *
import arboris.core as core
from arboris.core import NamedObject, NamedObjectsList, Body, World, SubFrame, DuplicateNameError, name_all_elements
import arboris.joints as J
import arboris.shapes as shapes
from arboris.controllers import WeightController
from arboris.constraints import BallAndSocketConstraint, JointLimits
NONE, FOREIGN = '<none>', '<foreign>'

class Lists(object):
    def __init__(self, names, r):
        self.r = r
        self.objs = []
        for n in names:
            if n == FOREIGN: o = r.choice([object(), [], {}, object()])
            else:
                n = None if n == NONE else n
                o = r.choice([lambda: NamedObject(n), lambda: Body(n), lambda: J.RzJoint(name=n), lambda: WeightController(name=n)])()
            self.objs.append(o)
        self.l = NamedObjectsList()
    def id(self, o):
        for k, p in enumerate(self.objs):
            if o is p: return k + 1
        return 999
    def names(self):
        return [FOREIGN if not isinstance(o, NamedObject) else (NONE if o.name is None else o.name) for o in self.objs]
    def run(self, op):
        k, l = op['op'], self.l
        op = dict(op)
        res = 'ok'
        ob = lambda n: self.objs[n - 1]
        try:
            if k == 'new': self.l = NamedObjectsList([ob(o) for o in op['objs']])
            elif k == 'append': l.append(ob(op['o']))
            elif k == 'extend': l.extend(ob(o) for o in op['objs'])
            elif k == 'insert': l.insert(op['k'] - 1, ob(op['o']))
            elif k == 'remove': del l[op['k'] - 1]
            elif k == 'replace': l[op['k'] - 1] = ob(op['o'])
            elif k == 'reverse': l.reverse()
            elif k == 'rename': ob(op['o']).name = None if op['x'] == NONE else op['x']
            elif k == 'nameall': name_all_elements((o for o in l) if op['iter'] else l, op['check'])
        except DuplicateNameError as e:
            str(e)
            res = 'DuplicateNameError'
        except Exception as e: res = why(e)
        op['res'] = res
        op['obs'] = self.observe()
        return op
    def observe(self):
        l = self.l
        o = {'s': [self.id(x) for x in l], 'len': len(l), 'names': self.names(), 'at': [self.id(l[k]) for k in range(len(l))]}
        keys = sorted(set(['a', 'b', '', 'absent'] + [n for n in o['names'] if n not in (NONE, FOREIGN)]))
        get, find = [], []
        for x in keys:
            try: get.append(self.id(l[x]))
            except KeyError: get.append(0)
            f = l.find(x)
            find.append([self.id(y) for y in f])
        o.update(keys=keys, get=get, find=find)
        try:
            d = l.as_dict()
            o['dict'] = [[n, self.id(x)] for n, x in d.items()]
            o['dictres'] = 'ok'
        except Exception as e:
            o['dict'] = []
            o['dictres'] = type(e).__name__
        return o

def world(spec):
    r = random.Random(spec['seed'])
    pool = ['a', 'b', 'c', 'd', 'ground', None, None, None, '', 'e', 'f', 'g', 'h', 'i', 'j'] if r.random() < .6 else \
           [None] * 5 + ['n%d' % k for k in range(60)]
    name = lambda: r.choice(pool)
    w = World()
    bodies = [w.ground]
    joints, frames, shp, cons, ctrl = [], [], [], [], []
    for k in range(r.randint(0, 4)):
        b = Body(name())
        f = r.choice([lambda: b, lambda: SubFrame(b, name=name()), lambda: core.MovingSubFrame(b, name=name())])()
        j = r.choice([J.RzJoint, J.TxJoint, J.RxJoint])(name=name())
        w.add_link(r.choice(bodies), j, f)
        joints.append(j)
        bodies.append(b)
    for k in range(r.randint(0, 3)): w.register(SubFrame(r.choice(bodies), name=name()))
    for k in range(r.randint(0, 3)): w.register(shapes.Sphere(r.choice(bodies), name=name()))
    for k in range(r.randint(0, 3)): w.register(WeightController(name=name()))
    if joints:
        for k in range(r.randint(0, 3)): w.register(JointLimits(r.choice(joints), -1., 1., name=name()))
    w.init() # the list of joints needs their dof
    lists = [list(w.iterjoints()), list(w.getframes()), list(w.itershapes()), list(w.iterconstraints()), list(w.getcontrollers())]
    L = Lists([], r)
    L.objs = []
    ids = []
    for l in lists:
        ids.append(list(range(len(L.objs) + 1, len(L.objs) + len(l) + 1)))
        L.objs += l
    c = {'names': L.names(), 'ev': []}
    for check in spec['checks']:
        try:
            w.name_all_elements(check_unicity=check) if check or r.random() < .5 else w.name_all_elements()
            res = 'ok'
        except Exception as e: res = type(e).__name__
        c['ev'].append({'op': 'world', 'check': check, 'lists': ids, 'res': res, 'obs': {'names': L.names()}})
    return c

def case(spec):
    if 'checks' in spec: return world(spec)
    L = Lists(spec['names'], random.Random(spec['seed']))
    c = {'names': spec['names'], 'ev': []}
    try:
        for op in spec['hist']: c['ev'].append(L.run(op))
    except Exception as e: c['ev'].append({'op': 'crash', 'res': why(e)})
    return c
main(case)
