"""Collision solvers and enumeration of the contacts (G01, G02)."""
from worldlib import *
import logging
logging.disable(logging.CRITICAL)
import arboris.shapes as S
from arboris.collisions import choose_solver
from arboris.constraints import get_all_contacts, SoftFingerContact

class Mine(SoftFingerContact):
    pass

def make(s, frame):
    t = s['t']
    if t == 'Sphere': return S.Sphere(frame, s['r']) if 'r' in s else S.Sphere(frame)
    if t == 'Point': return S.Point(frame)
    if t == 'Plane': return S.Plane(frame, s['c']) if 'c' in s else S.Plane(frame)
    if t == 'Box': return S.Box(frame, (tuple if s.get('tup') else array)(s['e'])) if 'e' in s else S.Box(frame)
    return S.Cylinder(frame, s.get('len', 1.), s.get('r', 1.))

def head(s, H):
    h = dict(t=s['t'], h=num(H))
    if s['t'] == 'Sphere': h['r'] = num(s.get('r', 1.))
    if s['t'] == 'Plane':
        c = s.get('c', [0., 1., 0., 0.])
        n = numpy.sqrt(sum(x*x for x in c[0:3]))
        h['n'], h['d'] = num([x / n for x in c[0:3]]), num(c[3] / n)
    if s['t'] == 'Box': h['e'] = num(s.get('e', [1., 1., 1.]))
    return h

def data(o): return repr(sorted((k, fhex(v)) for k, v in vars(o).items() if k[0] != '_' and isinstance(v, (float, tuple, numpy.ndarray)))) + repr(o.frame.pose.tolist())

def solve(spec):
    ev = []
    for G in [eye(4)] + [pose6(g) for g in spec['moves']]:
        w = World()
        frames, Hs = [], []
        for k, s in enumerate(spec['s']):
            M = dot(G, array(s['M'], dtype=float).reshape(4, 4))
            c = s['carrier']
            if c == 'ground': f = SubFrame(w.ground, M)
            else:
                L = pose6(s['local']) if c == 'sub' else eye(4)
                b = Body('b%d' % k, mass=eye(6))
                Li = eye(4)
                Li[0:3, 0:3] = L[0:3, 0:3].T
                Li[0:3, 3] = -dot(L[0:3, 0:3].T, L[0:3, 3])
                P = dot(M, Li)
                w.add_link(w.ground, J.FreeJoint(gpos=P), b)
                f = SubFrame(b, L) if c == 'sub' else b
                M = dot(P, L)
            frames.append(f)
            Hs.append(M)
        o = [make(s, f) for s, f in zip(spec['s'], frames)]
        for x in o: w.register(x)
        w.init()
        w.update_geometric()
        before = [data(x) for x in o]
        which = lambda p: [[y is x for y in o].index(True) + 1 for x in p]
        shapes, solver = choose_solver(o[0], o[1])
        d, h0, h1 = solver(shapes)
        e = dict(op='solve', s=[head(s, H) for s, H in zip(spec['s'], Hs)], order=which(shapes), d=num(float(d)), h0=num(h0), h1=num(h1))
        shapes2, solver2 = choose_solver(o[1], o[0])
        d2, g0, g1 = solver2(shapes2)
        e['order2'], e['d2'] = which(shapes2), num(float(d2))
        a = solver(shapes)
        e['again'] = bool(a[0] == d and (a[1] == h0).all() and (a[2] == h1).all())
        e['kept'] = [data(x) for x in o] == before
        e['size'] = num(float(max(1., abs(array(Hs)).max(), max([1.] + [max(s.get('e', [1.])) for s in spec['s']] + [s.get('r', 1.) for s in spec['s']]))))
        ev.append(e)
    return ev

def choose(spec):
    w = World()
    b = Body('b', mass=eye(6))
    w.add_link(w.ground, J.FreeJoint(), b)
    o = [make(s, f) for s, f in zip(spec['s'], [w.ground, b])]
    e = dict(op='choose', s=[s['t'] for s in spec['s']])
    try:
        shapes, solver = choose_solver(o[0], o[1])
        e['order'] = [[y is x for y in o].index(True) + 1 for x in shapes]
        e['callable'] = callable(solver)
        e['res'] = 'ok'
    except Exception as x:
        e['res'] = type(x).__name__
    return [e]

def everything(spec):
    B = Built(spec['world'])
    w = B.w
    o = []
    for s in spec['s']:
        f = B.bodies[s['b']]
        if s.get('H') is not None: f = (MovingSubFrame if s.get('mov') else SubFrame)(f, pose6(s['H']))
        o.append(make(s, f))
    # shapes which are not registered do not matter
    for k in spec['extra']: make(dict(t='Sphere'), B.bodies[k])
    for x in o: w.register(x)
    w.init()
    w.update_geometric()
    ev = []
    for call in spec['calls']:
        a = {}
        if call.get('cls'): a['contact_class'] = Mine
        a['friction_coeff'] = call['mu']
        if call.get('prox') is not None: a['proximity'] = call['prox']
        snap = lambda: repr((list(map(id, w.itershapes())), list(map(id, w.iterconstraints())), list(map(id, w.itersubframes())), list(map(id, w.itermovingsubframes())),
                             list(map(id, w.iterbodies())), fhex(w.gvel), [data(x) for x in o]))
        s0 = snap()
        c = get_all_contacts(w, **a)
        e = dict(op='all', sh=[dict(t=s['t'], b=s['b']) for s in spec['s']])
        e['kept'] = snap() == s0
        e['pairs'] = [[[y is x for y in o].index(True) + 1 for x in k._shapes] for k in c]
        e['par'] = [num([k._mu, k._proximity]) for k in c]
        e['want'] = num([call['mu'], .02 if call.get('prox') is None else call['prox']])
        e['cls'] = all(type(k) is (Mine if call.get('cls') else SoftFingerContact) for k in c)
        e['fresh'] = all(k.is_enabled() and not k._force.any() for k in c) and len(set(map(id, c))) == len(c)
        ev.append(e)
        if call.get('register'):
            for k in c: w.register(k)
            w.init()
            w.update_geometric()
    return ev

def case(spec):
    try: return {'ev': dict(solve=solve, choose=choose, all=everything)[spec['op']](spec)}
    except Exception as x:
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
        return {'ev': [{'op': 'crash', 'res': why(x)}]}
main(case)
