"""Words of displacements (M01, M02): run the constructors and functions of
homogeneousmatrix, twistvector and adjointmatrix."""
from lib import *
from numpy import array, eye, dot
import arboris.homogeneousmatrix as Hg
import arboris.adjointmatrix as Am
from arboris.twistvector import adjacency

CTOR = {'transl': Hg.transl, 'rotx': Hg.rotx, 'roty': Hg.roty, 'rotz': Hg.rotz, 'rotzyx': Hg.rotzyx, 'rotzy': Hg.rotzy,
        'rotzx': Hg.rotzx, 'rotyx': Hg.rotyx}

def case(spec):
    r = random.Random(spec['seed'])
    H = eye(4)
    ev = []
    for f, a in spec['word']:
        try:
            e = {'f': f, 'a': num(a), 'step': num(eye(4))}
            if f == 'inv': H = Hg.inv(H)
            else:
                S = Hg.zaligned(array(a)) if f == 'zaligned' else CTOR[f](*a)
                e['step'] = num(S)
                H = dot(H, S)
            p = array([r.choice([0., 1., r.uniform(-10, 10)]) for i in range(3)])
            tw, tw2 = array([[r.choice([0., 1., r.uniform(-3, 3)]) for i in range(6)] for k in range(2)])
            if r.random() < .15: tw *= 10.**r.uniform(-6, -1)
            H0 = H.copy()
            Ad = Hg.adjoint(H)
            e.update(h=num(H), inv=num(Hg.inv(H)), p=num(p), pdot=num(Hg.pdot(H, p)), vdot=num(Hg.vdot(H, p)),
                     angles=num(Hg.rotzyx_angles(H)), adj=num(Ad), iadj=num(Hg.iadjoint(H)), adjinv=num(Am.inv(Ad)),
                     tw=num(tw), tw2=num(tw2), ad=num(adjacency(tw)), dadj=num(Hg.dAdjoint(Ad, tw)),
                     valid=bool(Hg.ishomogeneousmatrix(H)))
            bad = H.copy()
            bad[0:3, 0:3] *= r.choice([1.1, -1., .5, 0.])
            bad2 = H.copy()
            bad2[3, r.randrange(4)] += .5
            e['rejected'] = [not bool(Hg.ishomogeneousmatrix(m)) for m in (bad, bad2, H[0:3, 0:3], H[0:3, :])]
            e['kept'] = bool((H == H0).all())
            ev.append(e)
        except Exception as x:
            ev.append({'f': 'crash', 'res': why(x)})
            break
    return {'ev': ev}
main(case)
