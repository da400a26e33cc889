"""Robots described by URDF files (U01, U02)."""
import types, sys
sys.modules['pydaenim'] = types.ModuleType('pydaenim')
sys.modules['pydaenim'].pydaenimWebSocket = sys.modules['pydaenim'].create_pydaenimViewer = None
from worldlib import *
from urdfxml import Writer
import io, contextlib, itertools
import arboris.shapes as S
from arboris.constraints import JointLimits
logging.disable(logging.CRITICAL)
NONE = '<none>'
count = itertools.count()
KEYS = ('ixx', 'ixy', 'ixz', 'iyy', 'iyz', 'izz')
def nm(x): return NONE if x is None else x
def opt(x, f=lambda x: x): return [] if x is None else [f(x)]
def hx(x): return float(x).hex()
def hxs(v): return [hx(x) for x in v]

# ------------------------------------------------- the description, as written
def w_origin(o): return opt(o, lambda o: dict(xyz=opt(o['xyz'], hxs), rpy=opt(o['rpy'], hxs)))
def w_geom(g):
    if g['t'] == 'box': return ['box'] + hxs(g['size'])
    if g['t'] == 'sphere': return ['sphere', hx(g['radius'])]
    if g['t'] == 'cylinder': return ['cylinder', hx(g['radius']), hx(g['length'])]
    return ['mesh', g['filename']] + (hxs(g['scale']) if g['scale'] else [])
def w_mat(m): return opt(m, lambda m: dict(name=nm(m['name']), color=opt(m['color'], hxs), texture=opt(m['texture'])))
def w_nums(keys, x): return opt(x, lambda x: {k: opt(x[k], hx) for k in keys})
LIM, DYN, SAF, CAL = ('lower', 'upper', 'effort', 'velocity'), ('damping', 'friction'), ('soft_lower_limit', 'soft_upper_limit', 'k_position', 'k_velocity'), ('rising', 'falling')
def written(d):
    links, joints, mats = [], [], []
    for e in d['elements']:
        if e['k'] == 'link':
            links.append(dict(name=e['name'], visual=opt(e['visual'], lambda v: dict(geometry=w_geom(v['geometry']), origin=w_origin(v['origin']), material=w_mat(v['material']))),
                              collision=opt(e['collision'], lambda v: dict(geometry=w_geom(v['geometry']), origin=w_origin(v['origin']))),
                              inertial=opt(e['inertial'], lambda i: dict(mass=opt(i['mass'], hx), I=opt(i['I'], hxs), origin=w_origin(i['origin'])))))
        elif e['k'] == 'joint':
            m = e['mimic']
            joints.append(dict(name=e['name'], type=e['type'], parent=e['parent'], child=e['child'], axis=opt(e['axis'], hxs), origin=w_origin(e['origin']),
                               limits=w_nums(LIM, e['limits']), dynamics=w_nums(DYN, e['dynamics']), safety=w_nums(SAF, e['safety']), calibration=w_nums(CAL, e['calibration']),
                               mimic=opt(m, lambda m: dict(joint=m['joint'], multiplier=opt(m['multiplier'], hx), offset=opt(m['offset'], hx)))))
        elif e['k'] == 'material': mats += w_mat(e)
    return dict(name=d['name'], links=links, joints=joints, materials=mats)
# ------------------------------------------------------- the robot, as parsed
def p_origin(o): return opt(o, lambda o: dict(xyz=opt(o.position, hxs), rpy=opt(o.rotation, hxs)))
def p_geom(g):
    t = type(g).__name__.lower()
    if t == 'box': return ['box'] + hxs(g.dims)
    if t == 'sphere': return ['sphere', hx(g.radius)]
    if t == 'cylinder': return ['cylinder', hx(g.radius), hx(g.length)]
    return ['mesh', g.filename] + (hxs(g.scale) if g.scale is not None else [])
def p_mat(m): return opt(m, lambda m: dict(name=nm(m.name), color=opt(m.color, lambda c: hxs(c.rgba)), texture=opt(m.texture)))
def p_nums(keys, x): return opt(x, lambda x: {k: opt(getattr(x, a), hx) for k, a in keys})
def parsed(u):
    links = [dict(name=l.name, visual=opt(l.visual, lambda v: dict(geometry=p_geom(v.geometry), origin=p_origin(v.origin), material=p_mat(v.material))),
                  collision=opt(l.collision, lambda v: dict(geometry=p_geom(v.geometry), origin=p_origin(v.origin))),
                  inertial=opt(l.inertial, lambda i: dict(mass=hx(i.mass), I=[hx(i.matrix[k]) for k in KEYS], origin=p_origin(i.origin)))) for l in u.links.values()]
    joints = [dict(name=j.name, type=j.joint_type, parent=j.parent, child=j.child, axis=opt(j.axis, lambda s: hxs(s.split() if isinstance(s, str) else s)), origin=p_origin(j.origin),
                   limits=p_nums(list(zip(LIM, LIM)), j.limits), dynamics=p_nums(list(zip(DYN, DYN)), j.dynamics),
                   safety=p_nums(list(zip(SAF, ('lower', 'upper', 'position', 'velocity'))), j.safety), calibration=p_nums(list(zip(CAL, CAL)), j.calibration),
                   mimic=opt(j.mimic, lambda m: dict(joint=m.joint_name, multiplier=opt(m.multiplier, hx), offset=opt(m.offset, hx)))) for j in u.joints.values()]
    mats = [p_mat(m)[0] for m in u.materials.values()]
    assert list(u.links) == [l['name'] for l in links] and list(u.joints) == [j['name'] for j in joints]
    return dict(name=u.name, links=links, joints=joints, materials=mats)

def plain(d):
    """Names and types of a description, with the numbers of its geometry."""
    o = lambda o: opt(o, lambda o: dict(xyz=opt(o['xyz'], num), rpy=opt(o['rpy'], num)))
    def g(x):
        if x['t'] == 'box': return dict(t='Box', dims=num([a/2 for a in x['size']]), file='', scale=[])
        if x['t'] == 'sphere': return dict(t='Sphere', dims=num([x['radius']]), file='', scale=[])
        if x['t'] == 'cylinder': return dict(t='Cylinder', dims=num([x['length'], x['radius']]), file='', scale=[])
        return dict(t='Mesh', dims=[], file=x['filename'], scale=opt(x['scale'], num))
    sh = lambda v: opt(v, lambda v: dict(geometry=g(v['geometry']), origin=o(v['origin'])))
    lim = lambda e, k: [] if e['limits'] is None else opt(e['limits'][k], num)
    return dict(links=[dict(name=e['name'], visual=sh(e['visual']), collision=sh(e['collision']),
                            inertial=opt(e['inertial'], lambda i: dict(mass=num(i['mass'] or 0.), I=num(i['I'] or [0.]*6), origin=o(i['origin'])))) for e in d['elements'] if e['k'] == 'link'],
                joints=[dict(name=e['name'], type=e['type'], parent=e['parent'], child=e['child'], axis=opt(e['axis'], num), origin=o(e['origin']),
                             limited=e['limits'] is not None, lower=lim(e, 'lower'), upper=lim(e, 'upper'), effort=lim(e, 'effort'), velocity=lim(e, 'velocity')) for e in d['elements'] if e['k'] == 'joint'])

def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)
def attempt(f, *a, **k):
    try: return 'ok', quiet(f, *a, **k)
    except Exception as e:
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
        return 'refused', e

def parse_case(spec):
    from arboris.robots.urdf import urdf_parser as P
    r = random.Random(spec['seed'])
    d = spec['robot']
    text = Writer(spec['seed']).robot(d)
    if r.random() < .5:
        path = os.path.join(os.environ.get('VERIF_SCRATCH', '.'), 'r%d.urdf' % next(count))
        with open(path, 'w') as f: f.write(text)
        u = P.URDF.load_xml_file(path, *r.choice([[], [False]]))
    else: u = P.URDF.parse_xml_string(text, *r.choice([[], [False]]))
    c = dict(robots=[dict(D=plain(d))], ev=[])
    ev = c['ev']
    ev.append(dict(op='parsed', doc=written(d), got=parsed(u)))
    s = str(u)
    ev.append(dict(op='told', missing=[x.name for x in list(u.links.values()) + list(u.joints.values()) if x.name not in s]))
    v = P.URDF.parse_xml_string(u.to_xml())
    ev.append(dict(op='again', doc=parsed(u), got=parsed(v)))
    if r.random() < .5: u = v
    if spec.get('tree'):
        res, x = attempt(u.get_root)
        ev.append(dict(op='root', res=res, root=x if res == 'ok' else ''))
    names = [l['name'] for l in c['robots'][0]['D']['links']]
    for a, n, k in spec.get('chains', []):
        args = dict(joints=k[0], links=k[1], fixed=k[2])
        if k == [True, True, True] and r.random() < .5: args = {}
        res, x = attempt(u.get_chain, names[a], names[n], **args)
        ev.append(dict(op='chain', up=names[a], low=names[n], joints=k[0], links=k[1], fixed=k[2], res=res, got=x if res == 'ok' else []))
    return c

class Loaded(object):
    def __init__(self, spec):
        self.spec = spec
        self.base = Built(spec['base']) if spec['base'] else None
        self.w = self.base.w if self.base else World()
        self.own = set(b.name for b in self.w.iterbodies())
    def world(self):
        w = self.w
        def body(f): return f if isinstance(f, Body) else f.body
        P = {}
        w.update_geometric()
        return dict(bodies=[dict(name=b.name, mass=mat(b.mass), pose=num(b.pose)) for b in w.iterbodies() if b.name not in self.own],
                    joints=[dict(name=nm(j.name), ndof=j.ndof, parent=body(j.frames[0]).name, child=body(j.frames[1]).name) for j in w.getjoints() if body(j.frames[1]).name not in self.own],
                    base=[dict(name=b.name, pose=num(b.pose), mass=mat(b.mass)) for b in w.iterbodies() if b.name in self.own],
                    nconst=len([k for k in w.iterconstraints() if isinstance(k, JointLimits)]),
                    shapes=[self.shape(s) for s in w.itershapes()], ndof=w.ndof)
    def shape(self, s):
        f = s.frame
        b = f if isinstance(f, Body) else f.body
        H = eye(4) if isinstance(f, Body) else f.bpose
        d = dict(Box=lambda: s.half_extents, Sphere=lambda: [s.radius], Cylinder=lambda: [s.length, s.radius])[type(s).__name__]()
        return dict(t=type(s).__name__, body=b.name, h=num(H), dims=num(list(d)))

def load_case(spec):
    from arboris.robots.urdf import URDFConverter
    dir = os.environ.get('VERIF_SCRATCH', '.')
    u = Loaded(spec)
    w = u.w
    c = dict(robots=[], ev=[])
    first = u.world()
    ev = c['ev']
    for k, x in enumerate(spec['robots']):
        r = random.Random('%s/%d' % (spec['seed'], k))
        c['robots'].append(dict(D=plain(x['robot']), prefix=x['prefix'], suffix=x['suffix'], fixed=x['fixed'], h=num(pose6(x['h'])), root=x['root'], save=x['save'], path=dir + os.sep))
        path = os.path.join(dir, 'r%d.urdf' % next(count))
        with open(path, 'w') as f: f.write(Writer(spec['seed']).robot(x['robot']))
        a = dict(prefix=x['prefix'], suffix=x['suffix'], fixed_base=x['fixed'], root_joint_name=x['root'], save_joint_limits=x['save'])
        if x['h'] is not None: a['H_init'] = pose6(x['h'])
        for key, default in (('prefix', ''), ('suffix', ''), ('fixed_base', False), ('root_joint_name', 'root_joint'), ('save_joint_limits', True)):
            if a[key] == default and r.random() < .5: del a[key]
        how = r.randint(0, 2)
        if how == 0: res, v = attempt(URDFConverter, path, w, **a)
        else:
            v = URDFConverter(**a) if how == 1 else quiet(URDFConverter, path, **a)
            if how == 1: quiet(v.parseURDF, path)
            res, y = attempt(v.load_in_world, w)
        ev.append(dict(op='load', robot=k + 1, res=res, before=first, after=u.world() if res == 'ok' else first))
        if res != 'ok': break
        J = [dict(name=n, pose=[list(t) for t in ts]) for n, ts in ()]
        dicts = [v.get_joint_limits(), v.get_effort_limits(), v.get_velocity_limits()]
        ev.append(dict(op='dicts', robot=k + 1, limits=[dict(name=n, lower=num(t[0]), upper=num(t[1])) for n, t in dicts[0].items()],
                       effort=[dict(name=n, value=num(t)) for n, t in dicts[1].items()], velocity=[dict(name=n, value=num(t)) for n, t in dicts[2].items()]))
        for what, f in (('visual', v.get_visual_shapes), ('collision', v.get_collision_shapes)):
            ev.append(dict(op='shapes', robot=k + 1, what=what, got=[dict(t=g['shape'].capitalize(), frame=g['frame'], h=num(g['transform']), file=g['mesh'] if g['shape'] == 'mesh' else '',
                           scale=num(list(g['scale']) if hasattr(g['scale'], '__len__') else [g['scale']]*3) if g['shape'] == 'mesh' else []) for g in quiet(f)]))
    else:
        joints = [j for j in w.getjoints() if j.name is not None and (j.frames[1] if isinstance(j.frames[1], Body) else j.frames[1].body).name not in u.own and j.ndof]
        for m in spec['moves']:
            r = random.Random(m)
            q = []
            for j in joints:
                if isinstance(j, arboris.joints.FreeJoint): j.gpos[...] = pose6([r.uniform(-3, 3) for i in range(6)])
                else: j.gpos[...] = r.choice([r.uniform(-4, 4), r.uniform(-1, 1), 0.])
                q.append(dict(name=j.name, q=num(j.gpos)))
            a = u.world()
            ev.append(dict(op='move', q=q, poses=[dict(name=b['name'], pose=b['pose']) for b in a['bodies']]))
        L = [k for k in w.iterconstraints() if isinstance(k, JointLimits)]
        for x, R in zip(spec['robots'], c['robots']):
            for e in x['robot']['elements']:
                if e['k'] != 'joint' or e['type'] not in ('revolute', 'prismatic'): continue
                j = [j for j in joints if j.name == x['prefix'] + e['name'] + x['suffix']]
                if not j: continue
                l = e['limits'] or {}
                at = [0., 100., -100.] + [l[k] + s for k in ('lower', 'upper') if l.get(k) is not None for s in (-.02, .02)]
                for y in at:
                    # the others are far from their limits, or out of them
                    n0 = self_active(spec, L, joints, j[0], y)
                    ev.append(dict(op='limit', robot=c['robots'].index(R) + 1, joint=e['name'], x=num(y), active=n0))
    return c
def self_active(spec, L, joints, j, y):
    """How many constraints does the joint activate there ? (the others are where nothing is active)"""
    for x in spec['robots']:
        for e in x['robot']['elements']:
            if e['k'] != 'joint': continue
            l = e['limits'] or {}
            for o in joints:
                if o.name == x['prefix'] + e['name'] + x['suffix'] and e['type'] in ('revolute', 'prismatic'):
                    lo, up = l.get('lower'), l.get('upper')
                    o.gpos[...] = (lo + up)/2 if lo is not None and up is not None else 0.
    j.gpos[...] = y
    n = 0
    for k in L:
        k.update(.01)
        n += 1 if k.is_active() else 0
    return n

import arboris.joints
def case(spec):
    try: return parse_case(spec) if spec['kind'] == 'parse' else load_case(spec)
    except Exception as x:
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
        return dict(ev=[dict(op='crash', res=why(x))])
main(case)
