"""Builders of robots (R01, R02)."""
from worldlib import *
from arboris.shapes import Box, Sphere, Cylinder, Plane, Point
from arboris.robots.simplearm import add_simplearm
from arboris.robots.snake import add_snake
from arboris.robots import simpleshapes, icub, human36
logging.disable(logging.CRITICAL)
NONE, GROUND = '<none>', '<ground>'
def name(o): return NONE if o.name is None else o.name
def ids(l): return set(map(id, l))
def items(w): return (list(w.iterbodies()), list(w.iterjoints()), list(w.itersubframes()), list(w.itershapes()))
def dims(s):
    if isinstance(s, Plane): return num(s.coeffs)
    if isinstance(s, Box): return num(s.half_extents)
    if isinstance(s, Cylinder): return num([s.length, s.radius])
    if isinstance(s, Sphere): return num([s.radius])
    return []
def mark(w):
    """Everything which was there (but the poses, which are updated)."""
    b, j, f, s = items(w)
    at = lambda x: (id(x.body), fhex(x.bpose))
    return dict(b=[(id(x), x.name, fhex(x.mass), fhex(x.viscosity)) for x in b],
                j=[(id(x), x.name, x.ndof, fhex(x.gpos) if x.ndof else [], fhex(x.gvel) if x.ndof else [], [at(y) for y in x.frames]) for x in j],
                f=[(id(x), x.name) + at(x) for x in f],
                s=[(id(x), x.name, str(dims(x))) + at(x.frame) for x in s])

def built(w, before, old):
    """The new content of a world; bodies are named by their name or their rank."""
    b, j, f, s = items(w)
    new = [[x for x in l if id(x) not in o] for l, o in zip((b, j, f, s), old)]
    keys = {id(w.ground): GROUND}
    for k, x in enumerate(new[0], 1): keys[id(x)] = '#%d' % k if x.name is None else x.name
    key = lambda x: keys.get(id(x), '<old>')
    e = {}
    lead = {id(x.frames[1].body): x for x in new[1]}
    e['bodies'] = []
    for x in new[0]:
        q = lead[id(x)]
        e['bodies'].append(dict(key=key(x), name=name(x), mass=num(x.mass), visc=num(x.viscosity), parent=key(q.frames[0].body), h0=num(q.frames[0].bpose), h1=num(q.frames[1].bpose),
                                jt=type(q).__name__, jn=name(q), q=num(q.gpos), v=num(q.gvel)))
    e['nj'] = len(new[1])
    e['frames'] = [dict(name=name(x), body=key(x.body), h=num(x.bpose)) for x in new[2]]
    e['shapes'] = [dict(name=name(x), t=type(x).__name__, body=key(x.frame.body), h=num(x.frame.bpose), dims=dims(x)) for x in new[3]]
    after = mark(w)
    # nothing moved nor changed (order may)
    e['kept'] = all(x in after[k] for k in before for x in before[k])
    return e

def tables():
    j = icub.get_joints_data()
    return dict(solids=[dict(b=b, dims=num(d), m=enc(m), h=num(H)) for b, l in icub.get_bodies_data().items() for d, m, H in l],
                joints=[dict(n=n, parent=p, h=num(H), child=c) for n, (p, H, c) in j.items()],
                shapes=[dict(b=b, dims=num(d), h=num(H)) for b, l in icub.get_bodies_shapes_data().items() for d, H in l],
                contacts=[dict(n=n, b=b, dims=num(d), h=num(H)) for n, (b, d, H) in icub.get_contact_data().items()])
def limits():
    def rows(d): return [dict(n=k, lo=enc(v[0]), hi=enc(v[1])) for k, v in d.items()]
    return dict(rad=rows(icub.get_joint_limits()), deg=rows(icub.get_joint_limits(in_radian=False)), torque=[dict(n=k, t=enc(v)) for k, v in icub.get_torque_limits().items()])

def perform(w, op, e):
    k = op['op']
    if k == 'arm': 
        a = {x: op[x] for x in ('lengths', 'masses', 'name') if x in op}
        e.update(name=op.get('name', ''), lengths=num(op.get('lengths', (.5, .4, .2))), masses=num(op.get('masses', (1., .8, .2))), shaped=op['shaped'])
        add_simplearm(w, with_shapes=op['shaped'], **a)
    elif k == 'snake':
        n = op['n']
        e.update(lengths=num(op['lengths'] or [.5]*n), masses=num(op['masses'] or [2.]*n), q=num(op['q'] or [0.]*n), v=num(op['v'] or [0.]*n), fixed=op['fixed'])
        add_snake(w, n, lengths=op['lengths'], masses=op['masses'], gpos=op['q'], gvel=op['v'], is_fixed=op['fixed'])
    elif k == 'simple':
        t, d, a = op['t'], op['dims'], {}
        if op.get('name'): a['name'] = op['name']
        if op.get('mass'): a['mass'] = op['mass']
        e.update(t=t, dims=num(d or [1.]*{'Sphere': 1, 'Cylinder': 2, 'Box': 3}[t]), mass=enc(op.get('mass') or 1.), name=op.get('name') or {'Sphere': NONE}.get(t, t))
        if t == 'Sphere': simpleshapes.add_sphere(w, *(d or ()), **a)
        elif t == 'Box': simpleshapes.add_box(w, *([d] if d else []), **a)
        else: simpleshapes.add_cylinder(w, *(d or ()), **a)
    elif k == 'plane':
        e.update(up=num(w.up))
        simpleshapes.add_groundplane(w)
    elif k == 'icub':
        e.update(tables=tables(), limits=limits(), fixed=op['fixed'], shapes_=op['shapes'], contacts=op['contacts'])
        icub.add(w, is_fixed=op['fixed'], create_shapes=op['shapes'], create_contacts=op['contacts'])
    elif k == 'human':
        L = human36.anat_lengths_from_height(op['height'] if op['scale'] or op['given'] else 1.741)
        for x, f in op['scale'].items(): L[x] *= f
        a = dict(anat_lengths=L) if op['scale'] else dict(height=op['height']) if op['given'] else {}
        if op.get('mass'): a['mass'] = op['mass']
        e.update(L={x: enc(y) for x, y in L.items()}, mass=enc(op.get('mass') or 73), prefix=op['prefix'])
        human36.add_human36(w, prefix=op['prefix'], **a)
    elif k == 'user':
        # content which was not made by the builders
        b = Body(op['name'], mass=massmat([1., .1, .1, .1, 0., 0., 0., 0., 0., 0.]))
        w.add_link(SubFrame(w.ground, pose6(op['H'])), J.RzJoint(gpos=[.5], gvel=[1.], name=op['name']), b)
        w.register(Sphere(b, .1, op['name']))
        w.init()

def mirror(w, op):
    """Both sides of the humanoid moved alike: what the mirror shows."""
    js = {j.name: j for j in w.iterjoints() if j.name}
    q = iter(op['q'])
    for n in sorted(js):
        if n.startswith('l_'):
            x = next(q)
            js[n].gpos[...] = x
            js['r' + n[1:]].gpos[...] = x
    w.update_geometric()
    bs = {b.name: b for b in w.iterbodies()}
    return [dict(n=n, l=dict(pose=num(bs[n].pose), mass=num(bs[n].mass)), r=dict(pose=num(bs['r' + n[1:]].pose), mass=num(bs['r' + n[1:]].mass))) for n in sorted(x for x in bs if x and x.startswith('l_'))]

def case(spec):
    ev = []
    w = World()
    if spec.get('up'): w.up[...] = spec['up']
    try:
        w.init()
        for op in spec['ops']:
            e = dict(op=op['op'])
            if op['op'] == 'lengths':
                L = human36.anat_lengths_from_height(op['height'])
                e.update(h=enc(op['height']), L={x: enc(y) for x, y in L.items()})
                for x, f in op['scale'].items(): L[x] *= f
                e['scaled'] = {x: enc(y) for x, y in L.items()}
                e['legs'] = L['yfootR'] + L['ytibiaR'] + L['yfemurR'] == L['yfootL'] + L['ytibiaL'] + L['yfemurL']
                try: e['back'] = enc(human36.height_from_anat_lengths(L)); e['res'] = 'ok'
                except ValueError: e['res'] = 'ValueError'
                ev.append(e)
                continue
            if op['op'] == 'mirror':
                e['pairs'] = mirror(w, op)
                ev.append(e)
                continue
            before, old, nd = mark(w), [ids(l) for l in items(w)], w.ndof
            perform(w, op, e)
            e['new'] = built(w, before, old)
            w.update_dynamic()
            e['ndof'] = [nd, w.ndof, len(w.gvel), int(numpy.shape(w.mass)[0])]
            if op['op'] != 'user': ev.append(e)
    except Exception as x:
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
        ev.append({'op': 'crash', 'res': why(x)})
    return {'ev': ev}
main(case)
