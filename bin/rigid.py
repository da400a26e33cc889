"""Displacements in plain Python, to place things in the worlds."""
from math import cos, sin, sqrt
I4 = [[1. if i == j else 0. for j in range(4)] for i in range(4)]
def mul(A, B): return [[sum(A[i][k]*B[k][j] for k in range(4)) for j in range(4)] for i in range(4)]
def inv(H):
    R = [[H[j][i] for j in range(3)] for i in range(3)]
    return [R[i] + [-sum(R[i][k]*H[k][3] for k in range(3))] for i in range(3)] + [[0., 0., 0., 1.]]
def rot(a, i):
    H = [r[:] for r in I4]
    j, k = (i + 1) % 3, (i + 2) % 3
    H[j][j] = H[k][k] = cos(a)
    H[j][k], H[k][j] = -sin(a), sin(a)
    return H
def transl(p):
    H = [r[:] for r in I4]
    for i in range(3): H[i][3] = p[i]
    return H
def pose6(p):
    if p is None: return I4
    return mul(transl(p[3:6]), mul(rot(p[0], 2), mul(rot(p[1], 1), rot(p[2], 0))))
def joint(t, q):
    if t == 'FreeJoint': return pose6(q)
    H, k = I4, 0
    for a in t[:-5].split('J')[0] if False else [t[i:i+2] for i in range(0, len(t) - 5, 2)] if t != 'FixedJoint' else []:
        x = 'xyz'.index(a[1])
        H = mul(H, rot(q[k], x) if a[0] == 'R' else transl([q[k] if i == x else 0. for i in range(3)]))
        k += 1
    return H
def poses(d, q=None):
    """Poses of the bodies of a world."""
    P = {0: I4}
    todo = list(range(len(d['links'])))
    while todo:
        for k in todo:
            l = d['links'][k]
            if l['parent'] in P:
                P[l['child']] = mul(P[l['parent']], mul(pose6(l.get('H0')), mul(joint(l['type'], (q or [x['q'] for x in d['links']])[k]), inv(pose6(l.get('H1'))))))
                todo.remove(k)
                break
    return P
def flat(H): return [x for r in H for x in r]
def pdot(H, p): return [sum(H[i][k]*p[k] for k in range(3)) + H[i][3] for i in range(3)]
def vdot(H, p): return [sum(H[i][k]*p[k] for k in range(3)) for i in range(3)]
def unit(r):
    while True:
        v = [r.gauss(0, 1) for i in range(3)]
        n = sqrt(sum(x*x for x in v))
        if n > .1: return [x/n for x in v]
