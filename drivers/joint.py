"""Joints alone (J01, J02, J03)."""
from lib import *
from numpy import array, eye, zeros, dot
import arboris.joints as J
import arboris.homogeneousmatrix as Hg
from arboris.core import World, Body

def snap(j):
    free = type(j).__name__ == 'FreeJoint'
    return num(j.gpos) if j.ndof else [], num(j.gvel) if j.ndof else []

def form(r, x, kind):
    """A way to give the vector x to a constructor."""
    x = array(x, dtype=float)
    if kind == 'list': return x.tolist()
    if kind == 'tuple': return tuple(x.tolist())
    if kind == 'array': return x
    if kind == 'col': return x.reshape((-1, 1))
    if kind == 'int': return [int(v) for v in x]
    if kind == 'intarray': return array([int(v) for v in x])
    if kind == 'scalar': return float(x[0])
    if kind == 'f32': return x.astype(numpy.float32)

def scribble(a):
    if isinstance(a, numpy.ndarray): a += 5
    elif isinstance(a, list): a[0] = 99

def pose6(r, p):
    """A displacement from 6 numbers."""
    return dot(Hg.rotzyx(p[0], p[1], p[2]), Hg.transl(p[3], p[4], p[5]))

def record(j, e):
    e['q'], e['v'] = snap(j)
    e['ndof'] = int(j.ndof)
    e['pose'], e['ipose'] = num(j.pose), num(j.ipose)
    tw = j.twist
    e['twist'], e['itwist'] = num(tw), num(j.itwist)
    n = j.ndof
    Jm, dJ = j.jacobian, j.djacobian
    e['jac'] = num(Jm) if n else [[] for i in range(len(Jm))]
    e['djac'] = num(dJ) if n else [[] for i in range(len(dJ))]
    e['adj'], e['iadj'] = num(j.adjoint), num(j.iadjoint)
    e['adjacency'], e['iadjacency'] = num(j.adjacency), num(j.iadjacency)
    e['dadj'], e['idadj'] = num(j.dadjoint), num(j.idadjoint)
    # what is given is not the state itself
    for a in (j.pose, j.ipose, j.twist, j.jacobian, j.djacobian, j.itwist):
        a[...] = 55.
    q, v = snap(j)
    e['isolated'] = q == e['q'] and v == e['v'] and num(j.pose) == e['pose'] and num(j.twist) == e['twist']
    return e

def case(spec):
    r = random.Random(spec['seed'])
    t = spec['type']
    C = getattr(J, t)
    ev = []
    c = {'type': t, 'ev': ev}
    try:
        n = {'FixedJoint': 0, 'FreeJoint': 6}.get(t) if t in ('FixedJoint', 'FreeJoint') else C().ndof
        q, v, a = spec['q'], spec['v'], {}
        if t == 'FixedJoint': j, q0, v0 = C(), [], []
        else:
            if q is None: q0 = eye(4) if t == 'FreeJoint' else zeros(n)
            elif t == 'FreeJoint':
                q0 = pose6(r, q) if spec.get('kind') != 'int' else array([[0, -1, 0, 1], [1, 0, 0, 2], [0, 0, 1, -3], [0, 0, 0, 1]])
                a['gpos'] = q0.tolist() if spec['kind'] in ('list', 'tuple') else q0.copy()
            else: a['gpos'] = form(r, q, spec['kind']); q0 = array(a['gpos'], dtype=float).reshape(-1).copy()
            if v is None: v0 = zeros(n)
            else: a['gvel'] = form(r, v, spec['kind']); v0 = array(a['gvel'], dtype=float).reshape(-1).copy()
            j = C(**a)
            q0, v0 = num(array(q0, dtype=float)), num(v0)
        e = {'op': 'new', 'q0': q0, 'v0': v0}
        if j.name is not None: e['q0'] = []
        record(j, e)
        for x in a.values(): scribble(x)
        e['q2'], e['v2'] = snap(j)
        ev.append(e)
        if spec.get('inworld'):
            w = World()
            w.add_link(w.ground, j, Body(mass=eye(6)))
            w.init()
        for op in spec['ops']:
            if op[0] == 'set' and n:
                e = {'op': 'set'}
                if t == 'FreeJoint': j.gpos[...] = pose6(r, op[1])
                else: j.gpos[...] = op[1][:n]
                j.gvel[:] = op[2][:n]
                ev.append(record(j, e))
            if op[0] == 'integrate':
                nv = array(op[1][:n], dtype=float)
                keep = nv.copy()
                e = {'op': 'integrate', 'dt': num(op[2]), 'newv': num(keep) if n else []}
                j.integrate(nv, op[2])
                e['argok'] = bool((nv == keep).all())
                ev.append(record(j, e))
    except Exception as x:
        ev.append({'op': 'crash', 'res': why(x)})
    return c
main(case)
