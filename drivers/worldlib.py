"""Worlds built from the descriptions made by bin/worlds.py."""
from lib import *
from numpy import array, eye, zeros, dot, diag, cos, sin
import arboris.joints as J
import arboris.core as core
from arboris.core import World, Body, SubFrame, MovingSubFrame

# displacements and masses are made here, not by the code under test
def _rot(a, i):
    H = eye(4)
    j, k = (i + 1) % 3, (i + 2) % 3
    H[j, j] = H[k, k] = cos(a)
    H[j, k], H[k, j] = -sin(a), sin(a)
    return H
def pose6(p):
    """The displacement Rz Ry Rx, then the position (or the 16 numbers of the matrix)."""
    if p is None: return eye(4)
    if len(p) == 16: return array(p, dtype=float).reshape((4, 4))
    H = dot(_rot(p[0], 2), dot(_rot(p[1], 1), _rot(p[2], 0)))
    H[0:3, 3] = p[3:6]
    return H
def hat(w): return array([[0., -w[2], w[1]], [w[2], 0., -w[0]], [-w[1], w[0], 0.]])
def massmat(m):
    """The mass matrix of [mass, second moments (3), frame of the center of mass (6)]."""
    if m is None: return zeros((6, 6))
    if len(m) == 36: return array(m, dtype=float).reshape((6, 6))
    m0, s, p = m[0], m[1:4], m[4:10]
    if not any(p): return diag([s[1] + s[2], s[0] + s[2], s[0] + s[1], m0, m0, m0])
    H = pose6(p)
    R, c = H[0:3, 0:3], H[0:3, 3]
    I = dot(R, dot(diag([s[1] + s[2], s[0] + s[2], s[0] + s[1]]), R.T))
    M = zeros((6, 6))
    C = hat(c)
    M[0:3, 0:3] = I - m0*dot(C, C)
    M[0:3, 3:6] = m0*C
    M[3:6, 0:3] = -m0*C
    M[3:6, 3:6] = m0*eye(3)
    return (M + M.T) / 2
def viscmat(v):
    """A positive semi-definite matrix from 12 numbers."""
    if v is None: return zeros((6, 6))
    if len(v) == 36: return array(v, dtype=float).reshape((6, 6))
    A = array(v, dtype=float).reshape((2, 6))
    return dot(A.T, A)

class Built(object):
    """The world of a description, with its elements in the order of the description."""
    def __init__(self, d):
        self.d = d
        self.w = w = World()
        if d.get('up'): w.up[...] = d['up']
        self.bodies = [w.ground]
        for k, b in enumerate(d['bodies']):
            self.bodies.append(Body(b.get('name', 'b%d' % (k+1)), mass=massmat(b.get('m')), viscosity=viscmat(b.get('b'))))
        self.joints = []
        self.links = []
        self.given = []
        for l in d['links']:
            C = getattr(J, l['type'])
            H0, H1 = pose6(l.get('H0')), pose6(l.get('H1'))
            a = {}
            if l['type'] != 'FixedJoint':
                a = dict(gpos=pose6(l['q']) if l['type'] == 'FreeJoint' else list(l['q']), gvel=list(l['v']))
            j = C(name=l.get('name'), **a)
            f0 = self.attach(self.bodies[l['parent']], H0, l.get('H0'), l.get('mov'))
            f1 = self.attach(self.bodies[l['child']], H1, l.get('H1'), l.get('mov') and l['mov'] != 'f0')
            w.add_link(f0, j, f1)
            self.joints.append(j)
            self.links.append(dict(parent=l['parent'], child=l['child'], type=l['type'], h0=num(H0), h1=num(H1)))
        w.init()
    def attach(self, body, H, given, mov):
        if given is None: return body
        return (MovingSubFrame if mov else SubFrame)(body, H)
    def masses(self, pre='b'): return {pre + 'mass': [num(b.mass) for b in self.bodies[1:]], pre + 'visc': [num(b.viscosity) for b in self.bodies[1:]]}
    def head(self): return dict(self.masses(''), nb=len(self.bodies) - 1, links=self.links)
    def remass(self, l):
        """Give another mass (and viscosity) to bodies, by assignment or in place."""
        for x in l:
            b = self.bodies[x['body']]
            for name, A in (('mass', massmat(x['m'])), ('viscosity', viscmat(x.get('b')))):
                if name == 'viscosity' and 'b' not in x: continue
                if x['inplace']: getattr(b, name)[...] = A
                else: setattr(b, name, A)
    def set(self, q, v):
        for j, x, y in zip(self.joints, q, v):
            if j.ndof == 0: continue
            j.gpos[...] = pose6(x) if isinstance(j, J.FreeJoint) else x
            j.gvel[...] = y
    def q(self): return [num(j.gpos) if j.ndof else [] for j in self.joints]
    def v(self): return [num(j.gvel) if j.ndof else [] for j in self.joints]

def mat(A, rows=None):
    """A matrix as a list of rows, whatever its number of columns."""
    A = numpy.asarray(A, dtype=float)
    return [num(list(r)) for r in A]
