"""Robots converted and written for Matlab (X01, X02)."""
from worldlib import *
import io, re
import numpy
from arboris.controllers import WeightController
from arboris.constraints import BallAndSocketConstraint
import arboris.shapes as SH
REPO = os.environ['PYTHONPATH'].split(os.pathsep)[0]
sys.path.insert(0, os.path.join(REPO, 'matlab'))
import convert_py2mat as M
logging.disable(logging.CRITICAL)

class Unreadable(Exception): pass
NUM = re.compile(r'[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?$')
def value(t):
    """A matrix of Matlab: rows are separated by ends of lines or semicolons."""
    t = t.strip()
    tr = t.endswith("'")
    if tr: t = t[:-1].strip()
    if re.match(r'eye\(\d+\)$', t): return eye(int(t[4:-1]))
    if t.startswith('['):
        if t.count('[') != t.count(']') or not t.endswith(']'): raise Unreadable('brackets: ' + t)
        rows = [re.sub(r'[\[\],]', ' ', l).split() for l in re.split(r'[\n;]', t)]
        rows = [r for r in rows if r]
        if not rows: return zeros((0, 0))
        if len(set(len(r) for r in rows)) != 1: raise Unreadable('rows of several lengths: ' + t)
    else: rows = [[t]]
    for r in rows:
        for x in r:
            if not NUM.match(x): raise Unreadable('number: ' + x)
    A = array([[float(x) for x in r] for r in rows])
    return A.T if tr else A
def assignments(text):
    """The statements 'name = value;' of a function."""
    out = []
    for m in re.finditer(r"^([A-Za-z_][\w.()]*) *=(.*?);[ \t]*(%[^\n]*)?$", text, re.M | re.S):
        out.append((m.group(1), m.group(2).replace('...\n', '').strip()))
    return out
def string(t):
    if not re.match(r"'([^']|'')*'$", t): raise Unreadable('string: ' + t)
    return t[1:-1].replace("''", "'")
def rows(A): return [num(list(r)) for r in A]
def robot(text, name):
    """What a function makes."""
    if 'SOMETHING WENT MAD' in text: raise Unreadable('marked as wrong')
    m = re.search(r'^function robot = create_(\w+)\(\)$(.*?)^end$', text, re.M | re.S)
    if not m or m.group(1) != name: raise Unreadable('no function ' + name)
    br, d = {}, {}
    def put(o, k, v):
        if k in o: raise Unreadable('given twice: ' + str(k))
        o[k] = v
    for n, v in assignments(m.group(2)):
        x = re.match(r'tree\.br\((\d+)\)(?:\.bd\((\d+)\))?(?:\.shape\((\d+)\))?\.(\w+)$', n)
        if x:
            b = br.setdefault(int(x.group(1)), dict(bd={}))
            if x.group(2): b = b['bd'].setdefault(int(x.group(2)), dict(shape={}))
            if x.group(3): b = b['shape'].setdefault(int(x.group(3)), {})
            put(b, x.group(4), v)
        else: put(d, n, v)
    def seq(o):
        if sorted(o) != list(range(1, len(o) + 1)): raise Unreadable('numbers: %s' % sorted(o))
        return [o[k] for k in sorted(o)]
    out = dict(name=string(d['tree.name']), br=[])
    for b in seq(br):
        x = re.match(r'\{ *(\d+)[ ,]+(\d+) *\}$', b['root_jk'])
        if not x: raise Unreadable('root_jk ' + b['root_jk'])
        o = dict(root=[int(x.group(1)), int(x.group(2))], bd=[])
        for l in seq(b['bd']):
            E = value(l['E'])
            s = [dict(t=string(y['type']), dims=num(list(value(y['dims']).ravel())), h=rows(value(y['H']))) for y in seq(l['shape'])]
            o['bd'].append(dict(name=string(l['name']), e=rows(E), h0=rows(value(l['H_0_0L1'])), h1=rows(value(l['H_1_1L0'])), m=rows(value(l['M'])), sh=s))
        out['br'].append(o)
    q, T = value(d['robot.model.q']), value(d['robot.model.T'])
    for a in (q, T):
        if a.size and a.shape[1] != 1: raise Unreadable('a column was expected')
    out.update(h0=rows(value(d['robot.model.H0'])), q=num(list(q.ravel())), t=num(list(T.ravel())))
    return out

class Unit(object):
    def __init__(self, spec):
        self.spec = spec
        self.s = s = Built(spec['world'])
        self.w = w = s.w
        self.bodies, self.joints = list(s.bodies), list(s.joints)
        self.shapes = []
        for x in spec['shapes']:
            b = self.bodies[x['body']]
            f = b if x['H'] is None else SubFrame(b, pose6(x['H']))
            t = x['t']
            if t == 'Sphere': o = SH.Sphere(f, x['d'][0])
            elif t == 'Point': o = SH.Point(f)
            elif t == 'Box': o = SH.Box(f, list(x['d']))
            elif t == 'Cylinder': o = SH.Cylinder(f, x['d'][0], x['d'][1])
            elif t == 'Plane': o = SH.Plane(f, (0., 1., 0., x['d'][0]))
            w.register(o)
            self.shapes.append(dict(t=t, body=x['body'], d=num(x['d']), h=rows(pose6(x['H']))))
        self.ctl = []
        for g in spec['weights']: w.register(WeightController(g))
        if spec.get('other'):
            class C(core.Controller):
                def init(self, world): pass
                def update(self, dt): return zeros(world.ndof), zeros((world.ndof,) * 2)
            w.register(C())
        if spec.get('con'): w.register(BallAndSocketConstraint((w.ground, self.bodies[-1])))
        w.init()
    def tree(self):
        """The links of the world, which are numbered as those of the description when they are the same ones."""
        w = self.w
        out = []
        for b in w.iterbodies():
            if not any(b is x for x in self.bodies): self.bodies.append(b)
        ix = lambda l, o: [k for k, x in enumerate(l) if x is o][0]
        for j in w.iterjoints():
            if not any(j is x for x in self.joints): self.joints.append(j)
            f0, f1 = j.frame0, j.frame1
            out.append(dict(id=ix(self.joints, j) + 1, parent=ix(self.bodies, f0.body), child=ix(self.bodies, f1.body), type=type(j).__name__, name=str(j.name),
                            h0=rows(f0.bpose), h1=rows(f1.bpose), q=[] if j.ndof == 0 else num(j.gpos), v=[] if j.ndof == 0 else num(j.gvel)))
        return dict(links=out, mass=[rows(b.mass) for b in self.bodies[1:]], nb=len(self.bodies) - 1)
    def root(self, k):
        b = self.bodies[self.spec['world']['links'][k - 1]['child']]
        while True:
            j = [x for x in self.w.iterjoints() if x.frame1.body is b][0]
            b = j.frame0.body
            if b is self.w.ground: return j
    def run(self, op):
        w, t = self.w, op['op']
        e = dict(op=t, tree=self.tree(), res='ok')
        if t in ('convert', 'robot'):
            # the joint which now attaches this robot to the ground
            j = self.root(op['root'])
            e['root'] = [k for k, x in enumerate(self.joints) if x is j][0] + 1
        before = dict(shapes=[id(x) for x in w.getshapes()], con=[id(x) for x in w.getconstraints()], ctl=len(w.getcontrollers()))
        st = io.StringIO()
        try:
            if t == 'convert':
                M.MatlabConverter().convert_robot(w, j)
                w.init()
                e['after'] = self.tree()
                # what was added for the base
                new = [x for x in w.getshapes() if id(x) not in before['shapes']]
                e['kept'] = len(new) == len(w.getshapes()) - len(before['shapes']) and len(w.getcontrollers()) == before['ctl']
                e['balls'] = []
                e['pairs'] = [type(x).__name__ for x in w.getconstraints() if id(x) not in before['con']]
                for x in new:
                    d = [x.radius] if isinstance(x, SH.Sphere) else list(x.half_extents)
                    e['balls'].append(dict(t=type(x).__name__, body=[k for k, b in enumerate(self.bodies) if b is x.frame.body][0], d=num(d), h=rows(x.frame.bpose)))
                self.shapes.extend(e['balls'])
            elif t == 'robot':
                e['shapes'], e['name'] = list(self.shapes), op['name']
                g = getattr(self, 'gen', None) if op.get('same') else None
                if g is None: g = self.gen = M.MatlabRobotGenerator(w)
                g.make_robot(j, st, op['name'])
                e['file'] = robot(st.getvalue(), op['name'])
            elif t == 'simulation':
                e.update(shapes=list(self.shapes), name='robot', up=num(w.up), tl=num(list(op['tl'])), root=[l['id'] for l in e['tree']['links'] if l['parent'] == 0][0] if any(l['parent'] == 0 for l in e['tree']['links']) else 0)
                e['weights'] = num([float(g) for g in self.spec['weights']])
                e['others'] = bool(self.spec.get('other'))
                e['cons'] = len(w.getconstraints())
                M.MatlabSimulationGenerator().generate_simulation(w, array(op['tl']) if op['kind'] == 'array' else list(op['tl']), st, 'exp')
                text = st.getvalue()
                d = {}
                head = text[:text.index('function robot')]
                for n in ('dt', 't_end', 't_start'):
                    x = re.search(r'^ *%s = ([^;\n]*);$' % n, head, re.M)
                    if not x or not NUM.match(x.group(1)): raise Unreadable(n)
                    d[n] = num(float(x.group(1)))
                x = re.search(r'GravityAcceleration *= *(.*?);$', head, re.M | re.S)
                e['sim'] = dict(d, g=num(list(value(x.group(1)).ravel())), cols=int(value(x.group(1)).shape[1]), calls='create_robot()' in head and "'exp'" in head)
                e['file'] = robot(text, 'robot')
        except Unreadable as x: e['res'], e['why'] = 'unreadable', str(x)[:200]
        except M.GenerationError as x: e['res'], e['why'] = 'refused', str(x)[:200]
        except Exception as x:
            if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
            e['res'], e['why'] = 'crash', why(x)
        e['wrote'] = st.getvalue() != ''
        e['marked'] = 'SOMETHING WENT MAD' in st.getvalue()
        return e

def case(spec):
    u = Unit(spec)
    return dict(ev=[u.run(op) for op in spec['ops']])
main(case)
