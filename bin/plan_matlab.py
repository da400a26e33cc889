"""X01, X02: robots for Matlab."""
from plans import plan
import plan_step as S, worlds as W
from plan_equiv import DISP

REV, MULTI = ['RxJoint', 'RyJoint', 'RzJoint'], ['RzRyRxJoint', 'RzRyJoint', 'RzRxJoint', 'RyRxJoint']
def flat(H): return [x for row in H for x in row]
def rename(r, d):
    """Names, or none, for the bodies and for the joints: alone, or the same one several times."""
    k = r.random()
    for i, b in enumerate(d['bodies']): b['name'] = None if k < .3 or r.random() < .15 else 'same' if k < .4 else 'body %d' % i
    k = r.random()
    for i, l in enumerate(d['links']): l['name'] = None if k < .2 or r.random() < .15 else 'j%d' % i
def shapes(r, d, plane):
    out = []
    for k in range(r.choice([0, 0, 1, 2, 3, 5])):
        t = r.choice(['Sphere', 'Point', 'Box', 'Cylinder'] + (['Plane'] if plane else []))
        x = lambda: r.choice([.5, .1, r.uniform(.01, 2.), 1.e-7 * r.uniform(1., 9.)])
        out.append(dict(t=t, body=r.randrange(len(d['bodies']) + 1), H=None if r.random() < .4 else W.pose(r),
                        d=dict(Sphere=[x()], Point=[], Box=[x(), x(), x()], Cylinder=[x(), x()], Plane=[x()])[t]))
    return out
def spec(r, d, plane=False):
    return dict(world=d, shapes=shapes(r, d, plane), weights=[r.choice([-9.81, 1.62, 3.1234567891])] if r.random() < .6 else [], ops=[])

def model_case(r, b):
    """The world of a behaviour of MCMatlab, which is converted, then written."""
    nb = len(b['par'])
    d = dict(bodies=[dict(m=W.mass(r)) for k in range(nb)], links=[])
    for j in range(1, nb + 1):
        t = b['ty'][j-1]
        d['links'].append(dict(parent=b['par'][j-1], child=j, type=t, H0=flat(DISP[j % 3]), H1=flat(DISP[(2*j + 1) % 3]),
                               q=flat(DISP[2]) if t == 'FreeJoint' else [(3*j - 2*m) / 4. for m in range(1, W.ndof(t) + 1)], v=[1. - j + m for m in range(1, W.ndof(t) + 1)]))
    rename(r, d)
    s = spec(r, d)
    s['ops'] = [dict(op='robot', root=1, name='before'), dict(op='convert', root=1)]
    return s

def tree(r, nb, roots, types):
    """A world of which each body below the first ones is attached by a joint of the given types."""
    d = W.world(r, nb=nb, types=types, maxdof=200, frames=.6, visc=0.)
    for l in d['links']:
        if l['parent'] == 0:
            l['type'] = r.choice(roots)
            l['q'], l['v'] = W.state(r, l['type'])
    rename(r, d)
    return W.tilt(r, d)
def roots(d): return [k + 1 for k, l in enumerate(d['links']) if l['parent'] == 0]

def simulation(r, s):
    n, t0, dt = r.choice([2, 3, 10, 11, 37]), r.choice([0., 0., 1., -.35]), r.choice([.1, .01, 1. / 3, .005, r.uniform(.001, .5)])
    tl = r.choice([lambda: [t0 + k * dt for k in range(n)], lambda: [t0 + (n - 1) * dt * k / (n - 1) for k in range(n)]])()
    k = r.random()
    if k < .15 and n > 2: tl[r.randrange(1, n)] += .3 * dt
    if k > .85 and n > 2: tl[-1] += dt
    return dict(op='simulation', tl=tl, kind=r.choice(['list', 'array']))
def free_case(r):
    k = r.random()
    nb = r.choice([1, 1, 2, 3, 4, 5, 8])
    if k < .45: d = tree(r, nb, ['FreeJoint'], REV)
    elif k < .6: d = tree(r, nb, ['FreeJoint'], REV + MULTI)
    elif k < .75: d = tree(r, nb, ['FreeJoint', 'RyJoint', 'FixedJoint'] + MULTI, REV + MULTI)
    elif k < .85: d = tree(r, nb, ['FreeJoint', 'FreeJoint', 'TxJoint'], REV + ['TyJoint', 'FreeJoint', 'FixedJoint', 'TxTyTzJoint'])
    else: d = tree(r, r.choice([14, 20, 30]), ['FreeJoint'], REV)
    s = spec(r, d, plane=r.random() < .3)
    if r.random() < .1: s['weights'] = [-9.81, r.choice([0., -9.81])]
    if r.random() < .06: s['other'] = True
    if r.random() < .06 and W.dofs(d): s['con'] = True
    for i in range(r.choice([1, 2, 2, 3, 4])):
        o = r.choice(['robot', 'robot', 'simulation', 'convert'])
        if o == 'simulation': s['ops'].append(simulation(r, s))
        elif o == 'convert': s['ops'].append(dict(op=o, root=r.choice(roots(d))))
        else: s['ops'].append(dict(op=o, root=r.choice(roots(d)), name=r.choice(['robot', 'my_arm2', 'A']), same=r.random() < .6))
    return s

def design(c):
    # several roots: the first one only is converted in the model
    return c.behaviours(c.design('MCMatlab', env=dict(NB='5' if c.thorough else '4', DEEP='0'), what='what is written for a tree is read as the same tree, and no other; conversions keep the poses and end with simple joints'))

@plan('X01')
def convert(c):
    r = c.rng
    b = design(c)
    c.conform('matlab', 'MatlabTrace', [dict(x, ops=x['ops'][1:]) for x in (model_case(r, y) for y in b)], label='conversions of the model')
    cases = []
    for k in range(2500 if c.thorough else 350):
        d = tree(r, r.choice([1, 2, 3, 3, 4, 5, 6]), r.choice([['FreeJoint'], ['FreeJoint', 'RyJoint', 'TzJoint', 'FixedJoint'] + MULTI, MULTI]), r.choice([REV + MULTI, MULTI, REV + MULTI + ['TxJoint', 'FixedJoint', 'TxTyTzJoint']]))
        s = spec(r, d, plane=False)
        if r.random() < .1 and W.dofs(d): s['con'] = True
        R = roots(d)
        s['ops'] = [dict(op='convert', root=r.choice(R)) for i in range(r.choice([1, 1, 2]))]
        cases.append(s)
    c.conform('matlab', 'MatlabTrace', cases, label='conversions')

@plan('X02')
def write(c):
    r = c.rng
    cases = []
    for y in design(c):
        x = model_case(r, y)
        x['ops'] += [dict(op='robot', root=1, name='after', same=False)] if y['ty'][0] == 'FreeJoint' else []
        # what is converted is written once every joint is simple
        cases.append(x)
    c.conform('matlab', 'MatlabTrace', cases, label='robots of the model')
    c.conform('matlab', 'MatlabTrace', [free_case(r) for k in range(3000 if c.thorough else 400)], label='robots')
