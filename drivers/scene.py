"""Drawings of worlds (V01, V02)."""
import types, sys
web = types.ModuleType('pydaenim')
class Socket(object):
    """Stands for the browser: keeps the messages."""
    made = []
    def __init__(self, host, port, timeout):
        self.host, self.port, self.sent, self.listening = host, port + 7, [], 0    # another port may be taken
        Socket.made.append((host, port, timeout))
    def listen(self): self.listening += 1
    def send_message(self, m): self.sent.append(m)
web.pydaenimWebSocket = Socket
SEEN = []
web.create_pydaenimViewer = lambda *a, **k: SEEN.append((a, k))
sys.modules['pydaenim'] = web
from worldlib import *
import io, contextlib, itertools, json, time
logging.disable(logging.CRITICAL)
import arboris.shapes as S
import arboris.visu.world_drawer as D
from arboris.core import simulate, Observer
import arboris.observers as O
import xml.etree.ElementTree as ET

NONE = '<none>'
def nm(x): return NONE if x is None else x
count = itertools.count()

class Recorder(D.DrawerDriver):
    """A driver which records what it is asked for."""
    def __init__(self, *a, **k):
        D.DrawerDriver.__init__(self, *a, **k)
        self.nodes, self.up, self.finished = [], [], 0
    def node(self, k, name=None, pose=None, const=False, t='', dims=(), color=()):
        self.nodes.append(dict(k=k, name=nm(name), ups=[], pose=[] if pose is None else num(pose), const=bool(const), t=t, dims=num(dims), pts=[], color=num(color)))
        return len(self.nodes)
    def add_ground(self, up):
        self.up = num(up)
        return self.node('ground')
    def init(self): pass
    def finish(self): self.finished += 1
    def create_transform(self, pose, is_constant, name=None): return self.node('transform', name, pose, is_constant)
    def create_inertia(self, inertia, color, name=None): return self.node('inertia', name, dims=inertia, color=color)
    def create_frame_arrows(self): return self.node('arrows')
    def create_line(self, start, end, color, name=None):
        n = self.node('line', name, t='Line', color=color)
        self.nodes[n-1]['pts'] = num([start, end])
        return n
    def create_ellipsoid(self, radii, color, name=None): return self.node('shape', name, t='Ellipsoid', dims=radii, color=color)
    def create_box(self, half_extents, color, name=None): return self.node('shape', name, t='Box', dims=half_extents, color=color)
    def create_plane(self, coeffs, color, name=None): return self.node('shape', name, t='Plane', dims=coeffs, color=color)
    def create_cylinder(self, length, radius, color, name=None): return self.node('shape', name, t='Cylinder', dims=(length, radius), color=color)
    def add_child(self, parent, child, category=None): self.nodes[child-1]['ups'].append(parent)
class Rich(Recorder):
    """With spheres and points of its own."""
    def create_sphere(self, radius, color, name=None): return self.node('shape', name, t='Sphere', dims=[radius], color=color)
    def create_point(self, color, name=None): return self.node('shape', name, t='Point', color=color)

class Drawn(Built):
    def __init__(self, spec):
        d = spec['world']
        self.spec = spec
        Built.__init__(self, d)
        w = self.w
        if spec.get('up'): w.up[...] = spec['up']
        self.frames = []
        for l, j, x in zip(self.links, self.joints, d['links']):
            for k, f in enumerate(j.frames):
                l['f%d' % k] = 0
                if not isinstance(f, Body):
                    self.frames.append(f)
                    l['f%d' % k] = len(self.frames)
        own = len(self.frames)
        for f in spec['frames']: self.frames.append((MovingSubFrame if f['moving'] else SubFrame)(self.bodies[f['body']], pose6(f['H'])))
        for o, n in zip(self.bodies[1:] + self.frames, spec['names'][1:]): o.name = n
        self.shapes, todo = [], list(self.frames[own:])
        for s in spec['shapes']:
            x = s['at']
            o = self.shape(s, self.bodies[x] if x < len(self.bodies) else self.frames[x - len(self.bodies)])
            self.shapes.append(o)
            todo.append(o)
        r = random.Random(spec['seed'])
        r.shuffle(todo)
        for o in todo: w.register(o)
        w.init()
        w.update_geometric()
        self.objects = self.bodies + self.frames
    def shape(self, s, f):
        a = dict(name=s['name'])
        d = s['dims']
        if s['t'] == 'Sphere': return S.Sphere(f, d[0], **a)
        if s['t'] == 'Point': return S.Point(f, **a)
        if s['t'] == 'Box': return S.Box(f, tuple(d), **a)
        if s['t'] == 'Cylinder': return S.Cylinder(f, d[0], d[1], **a)
        return S.Plane(f, array(d), **a)
    def head(self):
        sp = self.spec
        nb = len(self.bodies) - 1
        return dict(Built.head(self), frames=[dict(body=self.bodies.index(f.body), moving=isinstance(f, MovingSubFrame)) for f in self.frames],
                    shapes=[dict(t=s['t'], frame=s['at'], name=nm(s['name']), dims=num(o.coeffs) if s['t'] == 'Plane' else num(s['dims'])) for s, o in zip(sp['shapes'], self.shapes)],
                    flat=sp['flat'], up=num(sp.get('up') or [0., 1., 0.]), nbcol=sp['nbcol'] if sp['nbcol'] else nb + 1 if sp['kind'] == 'file' else 20,
                    cobj=[dict(x=x, color=num(c)) for x, c in sp['cobj']], cname=[dict(name=x, color=num(c)) for x, c in sp['cname']])
    def now(self): return dict(q=self.q(), h=[num(f.bpose) for f in self.frames])
    def poke(self, m):
        self.set(m['q'], m['v'])
        for k, H in m['h']:
            f = self.frames[k]
            f.bpose = pose6(H) if m['new'] else f.bpose
            if not m['new']: f.bpose[...] = pose6(H)
    def colors(self):
        sp = self.spec
        if not (sp['nbcol'] or sp['cobj'] or sp['cname']): return None
        all = dict((x, c) for x, c in sp['cname'])
        late = []
        for x, c in sp['cobj']:
            o = self.objects[x] if x >= 0 else self.shapes[-x-1]
            if sp['late']: late.append((o, c))
            else: all[o] = tuple(c)
        a = dict(nb_colors=sp['nbcol']) if sp['nbcol'] else dict(nb_colors=len(self.bodies)) if sp['kind'] == 'file' else {}
        g = D.ColorGenerator(dict((k, tuple(c)) for k, c in all.items()), **a) if all or not late else D.ColorGenerator(**a)
        for o, c in late: g.set_color(o, c)
        return g
    def names(self): return [nm(o.name) for o in self.objects]
    def options(self):
        a = dict(scale=self.spec.get('scale', 1.))
        if self.spec.get('options'): a['options'] = self.spec['options']
        return a

def event(u, **k):
    o = D.DrawerDriver.get_default_options(u.spec.get('scale', 1.)) if 0 else {}
    s = u.spec.get('scale', 1.)
    g = {'point radius': .008 * s, 'plane half extents': (1. * s, 1. * s), 'inertia factor': 5. * s, 'frame arrows length': .08 * s}
    g.update(u.spec.get('options') or {})
    return dict(u.now(), op='draw', names=u.names(), pr=num(g['point radius']), plane=num(g['plane half extents']), factor=num(g['inertia factor']), **k)

class Move(Observer):
    """Moves the moving frames, and notes the states."""
    def __init__(self, u, moves):
        Observer.__init__(self)
        self.u, self.moves, self.out = u, moves, []
    def init(self, world, timeline): self.k, self.wild = 0, False
    def update(self, dt):
        self.out.append(dict(self.u.now(), t=num(self.u.w.current_time)))
    def finish(self): pass
class Kick(Move):
    """The motion: the frames move at each step."""
    def update(self, dt):
        m = self.moves[self.k % len(self.moves)] if self.moves else []
        for k, H in m: self.u.frames[k].bpose = pose6(H)
        self.k += 1
        w = self.u.w
        self.wild = self.wild or w.ndof > 0 and (not abs(w.gvel).max() < 1e3 or numpy.linalg.cond(w.mass) > 1e9)

VIEWER = """#!%s -SE
import json, os, socket, sys, time
with open(sys.argv[0] + '.tmp', 'w') as f: json.dump(sys.argv[1:], f)
os.rename(sys.argv[0] + '.tmp', sys.argv[0] + '.args')
host, port = sys.argv[3], int(sys.argv[4])
for k in range(2000):
    s = socket.socket()
    try: s.connect((host, port))
    except OSError:
        s.close()
        time.sleep(.01)
    else: break
s.settimeout(20)
data = b''
while not data.endswith(b'close_connection'):
    try: d = s.recv(65536)
    except OSError: break
    if not d: break
    data += d
with open(sys.argv[0] + '.tmp', 'w') as f: f.write(data.decode())
os.rename(sys.argv[0] + '.tmp', sys.argv[0] + '.out')
"""
COPY = """#!%s -SE
import json, shutil, sys
shutil.copy(sys.argv[1], sys.argv[0] + '.dae')
with open(sys.argv[0] + '.args', 'w') as f: json.dump(sys.argv[1:], f)
"""
def viewed(dir, *a):
    """What the viewer is given: its arguments and the copy of its file."""
    import arboris.visu.visu_collada as C, tempfile
    prog = os.path.join(dir, 'viewer%d' % next(count))
    with open(prog, 'w') as f: f.write(COPY % sys.executable)
    os.chmod(prog, 0o755)
    tempfile.tempdir = dir
    C.view(*a, daenim_path=prog)
    with open(prog + '.args') as f: return json.load(f), prog + '.dae'
def view(u, dir, op):
    """View the world, or a file, without options."""
    import arboris.visu as V, tempfile
    what = u.w if op['what'] == 'world' else u.scene
    if u.spec['rich']: args, path = viewed(dir, what)
    else:
        tempfile.tempdir = dir
        del SEEN[:]
        V.view(what, **op['kw'])
        args, path = list(SEEN[0][0]), SEEN[0][0][0]
    ev = [dict(op='same', what='the arguments of the viewer', a=len(args) if op['what'] == 'world' else args, b=1 if op['what'] == 'world' else [u.scene])]
    if not u.spec['rich']: ev.append(dict(op='same', what='the options of the viewer', a=[len(SEEN), dict(SEEN[0][1], browser=str(SEEN[0][1].get('browser')))], b=[1, dict(op['kw'], browser=str(op['kw'].get('browser')))]))
    elif op['what'] == 'world': ev.append(dict(op='same', what='the file of the viewer is removed', a=os.path.exists(args[0]), b=False))
    if op['what'] == 'world': ev.append(file_event(u, path))
    return ev
class Peek(Move):
    def init(self, world, timeline): self.drawn = self.moves()
def daenim(u, dir, op, tol, kick, note):
    """A simulation shown by a viewer, which is another process."""
    import arboris.visu.visu_collada as C, tempfile, time
    from ports import base
    prog = os.path.join(dir, 'viewer%d' % next(count))
    with open(prog, 'w') as f: f.write(VIEWER % sys.executable)
    os.chmod(prog, 0o755)
    tempfile.tempdir = dir
    port = base()
    com = C.DaenimCom(None if op['own'] else u.scene, prog, port=port, timeout=20, options=op['options'], flat=u.spec['flat'])
    def args():
        with open(prog + '.args') as f: return json.load(f)
    peek = Peek(u, lambda: file_event(u, args()[0]) if op['own'] else None)
    simulate(u.w, op['tl'], [kick, note, com, peek])
    end = time.time() + 25
    while not os.path.exists(prog + '.out') and time.time() < end: time.sleep(.01)
    with open(prog + '.out') as f: data = f.read()
    if kick.wild: return []
    ev = [peek.drawn] if op['own'] else []
    same = lambda what, a, b: ev.append(dict(op='same', what=what, a=a, b=b))
    same('the command of the viewer', args()[0 if not op['own'] else 1:], ([] if op['own'] else [u.scene]) + ['-socket', '127.0.0.1', str(com.port)] + op['options'].split())
    same('the closing message', data[-16:], 'close_connection')
    lines = data[:-16].split('\n')
    same('full lines', lines[-1], '')
    lines, n = lines[:-1], len(note.out)
    same('as many transforms at each step', len(lines) % n, 0)
    if any(e['op'] == 'same' and e['a'] != e['b'] for e in ev): return ev
    k = len(lines) // n
    trs = []
    for j in range(n):
        l = [x.rsplit(' ', 12) for x in lines[j*k:(j + 1)*k]]
        trs.append([dict(name=x[0], pose=num(array([float(y) for y in x[1:]] + [0., 0., 0., 1.]).reshape(4, 4))) for x in l])
    return ev + check(u, note, [None]*n, trs, tol)
def anims(u, dir, op, tol):
    """Run a simulation which is logged."""
    f = op['from']
    kick, note = Kick(u, op['moves']), Move(u, [])
    flat = u.spec['flat']
    if f == 'daenim':
        try: return daenim(u, dir, op, tol, kick, note)
        except numpy.linalg.LinAlgError: return []
    path = os.path.join(dir, 'log%d' % next(count))
    if f == 'pickle': log = O.PickleLogger(path + '.pkl', flat=flat)
    elif f == 'hdf5': log = O.Hdf5Logger(path + '.h5', mode='w', flat=flat, group=op.get('group', '/'))
    else:
        import arboris.visu as V
        del SEEN[:]
        del Socket.made[:]
        log = V.pydaenimCom('scene.dae', flat=flat, **op.get('kw', {}))
        end = time.time() + 10
        while not SEEN and time.time() < end: time.sleep(.005)
        kw = dict(op.get('kw', {}))
        d = [kw.pop(k, v) for k, v in (('host', '127.0.0.1'), ('port', 5000), ('timeout', 5))]
        s = log.websocket
        opened = [dict(op='same', what='the connection', a=[list(map(list, Socket.made)), s.listening], b=[[d], 1]),
                  dict(op='same', what='the viewer', a=[[list(x), {k: str(v) for k, v in y.items()}] for x, y in SEEN], b=[[['scene.dae'], {k: str(v) for k, v in dict(dict(browser=None), host=s.host, port=s.port, **kw).items()}]])]
    tl = op['tl']
    if f == 'web': tail = opened
    else: tail = []
    try: simulate(u.w, tl, [kick, note, log])
    except numpy.linalg.LinAlgError: return []
    # singular configurations: nothing is claimed about the motion
    if kick.wild: return []
    at, trs = [], []
    if f == 'web':
        for x in log.websocket.sent:
            x = json.loads(x)
            assert x[0] == 'update_transforms' and len(x) == 3
            at.append(x[1])
            trs.append([dict(name=k, pose=num(array(list(v) + [0., 0., 0., 1.]).reshape(4, 4))) for k, v in x[2].items()])
    else:
        if u.spec['kind'] == 'file': return animated(u, dir, op, path + ('.pkl' if f == 'pickle' else '.h5'), note, tol)
        if f == 'pickle':
            import pickle
            with open(path + '.pkl', 'rb') as h: root = pickle.load(h)
        else:
            import h5py
            with h5py.File(path + '.h5', 'r') as h:
                g = h[op.get('group', '/')]
                root = dict(timeline=array(g['timeline']), transforms={k: array(v) for k, v in g['transforms'].items()})
        for k in range(len(root['timeline'])):
            at.append(root['timeline'][k])
            trs.append([dict(name=n, pose=num(v[k])) for n, v in root['transforms'].items()])
    return tail + check(u, note, at, trs, tol)
def check(u, note, at, trs, tol):
    ev = [dict(op='same', what='one set of transforms per step', a=len(note.out), b=len(trs))]
    for s, t, tr in zip(note.out, at, trs): ev.append(dict(s, op='anim', names=u.names(), tr=tr, at=s['t'] if t is None else num(t), tol=tol))
    return ev

# ------------------------------------------------------------------- files
NS = '{http://www.collada.org/2005/11/COLLADASchema}'
def floats(e): return [float(x) for x in (e.text or '').split()]
def local(node):
    """Product of the transformations of a node."""
    H = eye(4)
    sid = False
    for x in node:
        v = floats(x) if x.tag in (NS + 'matrix', NS + 'scale', NS + 'translate', NS + 'rotate') else None
        if x.tag == NS + 'matrix':
            H = dot(H, array(v).reshape(4, 4))
            sid = sid or x.get('sid') == 'matrix'
        elif x.tag == NS + 'scale': H = dot(H, diag(v + [1.]))
        elif x.tag == NS + 'translate':
            T = eye(4); T[0:3, 3] = v
            H = dot(H, T)
        elif x.tag == NS + 'rotate': raise ValueError('a rotation in a node')
    return H, sid
def read(path):
    root = ET.parse(path).getroot()
    byid = {x.get('id'): x for x in root.iter() if x.get('id')}
    meshes = {}
    for g in root.iter(NS + 'geometry'):
        m = g.find(NS + 'mesh')
        src = m.find(NS + 'vertices').find(NS + 'input').get('source')[1:]
        fa = [x for x in byid[src].iter(NS + 'float_array')][0]
        meshes[g.get('id')] = array(floats(fa)).reshape(-1, 3)
    colors = {}
    for m in root.iter(NS + 'material'):
        fx = byid[m.find(NS + 'instance_effect').get('url')[1:]]
        c = [floats(y)[0:3] for x in fx.iter(NS + 'diffuse') for y in x.iter(NS + 'color')]
        colors[m.get('id')] = c[0] if c else []
    nodes = []
    def add(**k):
        nodes.append(dict(dict(name=NONE, pose=[], const=False, t='', dims=[], pts=[], color=[], id=len(nodes)), **k))
        return len(nodes)
    def cat(node):
        for x in node.iter(NS + 'Description'): return x.text
        for x in node.iter('Description'): return x.text
        return ''
    def visit(node, up, H, depth=0):
        """up: the transform which is above, H: displacement from it."""
        if depth > 40: raise ValueError('loops in the scene')
        L, sid = local(node)
        if sid:
            up = [add(k='transform' if up else 'ground', name=nm(node.get('id')) if up else NONE, ups=up, pose=num(dot(H, L)))]
            H = eye(4)
        else: H = dot(H, L)
        for x in node:
            if x.tag == NS + 'node': visit(x, up, H, depth + 1)
            elif x.tag == NS + 'instance_node':
                n = byid[x.get('url')[1:]]
                if n.get('id') == 'frame_arrows': add(k='arrows', ups=up, dims=num(dot(H, local(n)[0])))
                else: visit(n, up, H, depth + 1)
            elif x.tag == NS + 'instance_geometry':
                g = x.get('url')[1:]
                V = meshes[g]
                t = g.split('_')[0].replace('sphere', 'ellipsoid').capitalize()
                P = dot(V, H[0:3, 0:3].T) + H[0:3, 3]
                if len(P) > 26:
                    # the outermost ones, and some others
                    keep = set(int(k) for a in range(3) for k in (P[:, a].argmin(), P[:, a].argmax())) | set(range(0, len(P), len(P) // 16))
                    P = P[sorted(keep)]
                c = []
                for b in x.iter(NS + 'instance_material'): c = colors[b.get('target')[1:]]
                k = cat(node)
                add(k='line' if t == 'Line' else 'inertia' if k == 'inertia' else 'shape', t=t, ups=up, name=nm(node.get('id')), pts=num(P), color=num(c))
    url = root.find(NS + 'scene').find(NS + 'instance_visual_scene').get('url')[1:]
    tops = byid[url].findall(NS + 'node')
    for x in tops: visit(x, [], eye(4))
    for x in nodes: x.pop('id')
    rigid = []
    for b in root.iter(NS + 'rigid_body'):
        t = b.find(NS + 'technique_common')
        f = t.find(NS + 'mass_frame')
        rot = {x.get('sid'): floats(x) for x in f.findall(NS + 'rotate')}
        order = [x.get('sid') for x in f]
        assert order == ['location', 'rotationZ', 'rotationY', 'rotationX'] and rot['rotationZ'][:3] == [0, 0, 1] and rot['rotationY'][:3] == [0, 1, 0] and rot['rotationX'][:3] == [1, 0, 0]
        rigid.append(dict(name=nm(b.get('sid')), mass=num(float(t.find(NS + 'mass').text)), com=num(floats(f.find(NS + 'translate'))),
                          zyx=num([rot[k][3] for k in ('rotationZ', 'rotationY', 'rotationX')]), inertia=num(floats(t.find(NS + 'inertia')))))
    up = root.find(NS + 'asset').find(NS + 'up_axis').text
    anim = []
    for a in root.iter(NS + 'animation'):
        ch = a.find(NS + 'channel')
        name, what = ch.get('target').split('/')
        assert what == 'matrix'
        sm = byid[ch.get('source')[1:]]
        src = {x.get('semantic'): byid[x.get('source')[1:]] for x in sm.findall(NS + 'input')}
        fl = lambda s: floats(src[s].find(NS + 'float_array'))
        anim.append((name, fl('INPUT'), array(fl('OUTPUT')).reshape(-1, 4, 4)))
    return dict(nodes=nodes, rigid=rigid, up=up, anim=anim)
UP = {'X_UP': [1., 0., 0.], 'Y_UP': [0., 1., 0.], 'Z_UP': [0., 0., 1.]}
FTOL = num(1e-5)
def module(u):
    import arboris.visu.dae_writer as A, arboris.visu.visu_collada as C
    return C if u.spec['rich'] else A
def file_event(u, path):
    f = read(path)
    up = UP[f['up']]
    if u.spec.get('up') and u.spec['up'] not in UP.values(): up = u.spec['up']    # not representable
    return event(u, file=True, nodes=f['nodes'], rigid=f['rigid'], up=num(up), finished=1, arrows=u.spec['rich'], lines=u.spec['rich'], inertias=u.spec['rich'], tol=FTOL)
def animated(u, dir, op, sim, note, tol):
    out = os.path.join(dir, 'anim%d.dae' % next(count))
    a = {}
    ev = []
    if op.get('group', '/') != '/': a['hdf5_group'] = op['group']
    if op.get('view'):
        args, out = viewed(dir, u.scene, sim, *a.values())
        ev.append(dict(op='same', what='the arguments of the viewer', a=[len(args), os.path.exists(args[0])], b=[1, False]))
    else: module(u).write_collada_animation(out, u.scene, sim, **a)
    f = read(out)
    s = read(u.scene)
    ev.append(dict(op='same', what='the scene of the animation', a=dict(s, anim=0), b=dict(f, anim=0)))
    n = len(note.out)
    ev.append(dict(op='same', what='the number of instants', a=[n] * (2 * len(f['anim'])), b=[x for k, t, v in f['anim'] for x in (len(t), len(v))]))
    if ev[-1]['a'] != ev[-1]['b']: return ev
    at = [f['anim'][0][1][k] if f['anim'] else None for k in range(n)]
    ev.append(dict(op='same', what='the instants', a=[t for k, t, v in f['anim']] == [at] * len(f['anim']), b=True))
    if not f['anim']: return ev
    return ev + check(u, note, at, [[dict(name=k, pose=num(v[j])) for k, t, v in f['anim']] for j in range(n)], tol)

def draw(u, dir, ev):
    sp = u.spec
    g = u.colors()
    if sp['kind'] == 'file':
        u.scene = os.path.join(dir, 'scene%d.dae' % next(count))
        a = dict(u.options(), flat=sp['flat'])
        if g is not None: a['color_generator'] = g
        with contextlib.redirect_stdout(io.StringIO()): module(u).write_collada_scene(u.w, u.scene, **a)
        return file_event(u, u.scene)
    dr = (Rich if sp['rich'] else Recorder)(**u.options())
    x = D.Drawer(dr, sp['flat'], g) if g is not None else D.Drawer(dr, sp['flat'])
    u.w.parse(x)
    x.finish()
    return event(u, file=False, nodes=dr.nodes, up=dr.up, finished=dr.finished, arrows=True, lines=True, inertias=True, tol=num(1e-9))

def item(dir, op):
    """A node made by hand with the driver of a file."""
    import arboris.visu.dae_writer as A, arboris.visu.visu_collada as C
    path = os.path.join(dir, 'item%d.dae' % next(count))
    dr = (C.DaenimColladaDriver if op['rich'] else A.pydaenimColladaDriver)(path, **op['opt'])
    G = dr.add_ground([0., 0., 1.])
    t, d, c = op['t'], op['dims'], tuple(op['color'])
    if t == 'Line': n = dr.create_line(d[0], d[1], c, op['name'])
    elif t == 'Box': n = dr.create_box(d, c, op['name'])
    elif t == 'Ellipsoid': n = dr.create_ellipsoid(d, c, op['name'])
    elif t == 'Sphere': n = dr.create_sphere(d[0], c, op['name'])
    elif t == 'Point': n = dr.create_point(c, op['name'])
    elif t == 'Cylinder': n = dr.create_cylinder(d[0], d[1], c, op['name'])
    else: n = dr.create_plane(array(d), c, op['name'])
    dr.add_child(G, n)
    dr.finish()
    f = read(path)
    x = [y for y in f['nodes'] if y['pts']]
    if len(x) != 1: return dict(op='same', what='one mesh', a=len(x), b=1)
    s = op['opt'].get('scale', 1.)
    p = dict({'point radius': .008 * s, 'plane half extents': (1. * s, 1. * s)}, **(op['opt'].get('options') or {}))
    return dict(op='item', t=t, dims=num(d), node=x[0], color=num(c), name=nm(op['name']), tol=FTOL, pr=num(p['point radius']), plane=num(p['plane half extents']))

def case(spec):
    dir = os.environ.get('VERIF_SCRATCH', '.')
    if spec['kind'] == 'hsv':
        ev = []
        for x in spec['x']:
            try: ev.append(dict(op='hsv', hsv=num(x), rgb=num(D.hsv_to_rgb(tuple(x)))))
            except Exception as e: ev.append(dict(op='crash', res=why(e)))
        return dict(ev=ev)
    if spec['kind'] == 'items':
        ev = []
        for x in spec['items']:
            try: ev.append(item(dir, x))
            except Exception as e:
                if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
                ev.append(dict(op='crash', res=why(e)))
        return dict(ev=ev)
    try:
        u = Drawn(spec)
        c = dict(u.head(), ev=[])
    except Exception as x:
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
        return dict(ev=[dict(op='crash', res=why(x))])
    tol = num(1e-9) if spec['kind'] != 'file' else FTOL
    for op in spec['ops']:
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if op['op'] == 'draw': c['ev'].append(draw(u, dir, c['ev']))
                elif op['op'] == 'poke':
                    u.poke(op)
                    u.w.update_geometric()
                elif op['op'] == 'view': c['ev'] += view(u, dir, op)
                else: c['ev'] += anims(u, dir, op, tol)
        except Exception as x:
            if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
            c['ev'].append(dict(op='crash', res=why(x)))
            break
    return c
if __name__ == '__main__': main(case)
