"""U01, U02: robots described by URDF files."""
from plans import plan
import worlds as W
import rigid as G

def num(r): return r.choice([0., 1., -1., .5, r.uniform(-2, 2), r.uniform(-2, 2), r.uniform(-2, 2) * 10.**r.randint(-7, 5)])
def origin(r, p=.75):
    if r.random() > p: return None
    a = lambda: r.choice([0., 1.5707963267948966, -1.5707963267948966, r.uniform(-3.1, 3.1), r.uniform(-3.1, 3.1)])
    return dict(xyz=None if r.random() < .2 else [r.choice([0., r.uniform(-2, 2)]) for k in range(3)], rpy=None if r.random() < .3 else [a(), a(), a()])
def geometry(r):
    u = lambda: r.choice([.5, 1., r.uniform(.01, 2.)])
    t = r.choice(['box', 'sphere', 'cylinder', 'mesh'])
    if t == 'box': return dict(t=t, size=[u(), u(), u()])
    if t == 'sphere': return dict(t=t, radius=u())
    if t == 'cylinder': return dict(t=t, radius=u(), length=u())
    return dict(t=t, filename=r.choice(['mesh.dae', 'meshes/arm.dae', 'a b.dae', 'arm.dae#forearm']), scale=None if r.random() < .4 else [u(), u(), u()])
def material(r, name):
    return dict(k='material', name=name, color=None if r.random() < .3 else [r.random() for k in range(4)], texture=None if r.random() < .7 else r.choice(['t.png', 'a & b.jpg']))
def inertial(r):
    """A true inertia, most of the time."""
    m = r.choice([1., r.uniform(.01, 10.)])
    s = [r.choice([.1, r.uniform(.001, 1.)]) for k in range(3)]
    H = G.pose6([r.uniform(-3, 3) for k in range(3)] + [0., 0., 0.]) if r.random() < .6 else G.I4
    R = [row[:3] for row in H[:3]]
    I = [s[1] + s[2], s[0] + s[2], s[0] + s[1]]
    M = [[sum(R[a][k]*I[k]*R[b][k] for k in range(3)) for b in range(3)] for a in range(3)]
    I = [M[0][0], M[0][1], M[0][2], M[1][1], M[1][2], M[2][2]]
    x = r.random()
    if x < .1: I = [r.choice([0., 1e-9, v]) if k in (0, 3, 5) else 0. for k, v in enumerate(I)]
    return dict(mass=0. if x < .1 else None if x < .15 else m, I=None if .15 < x < .2 else I, origin=origin(r))
def near(r):
    """Nearly an axis of the frame."""
    a = [r.choice([0., r.uniform(-1, 1) * 10.**r.randint(-6, -1)]) for k in range(3)]
    a[r.randrange(3)] = r.choice([1., 1., -1., 2.])
    return a
SUP = ['revolute', 'revolute', 'prismatic', 'fixed', 'floating']
def fill(r, names, joints, odd=0., wild=False):
    """The elements of a robot, in any order: joints is a list of [name, parent, child]; wild: any numbers."""
    l, j = [], []
    for n in names:
        l.append(dict(k='link', name=n, visual=None if r.random() < .3 else dict(geometry=geometry(r), origin=origin(r), material=None if r.random() < .5 else material(r, r.choice(['red', 'blue', None, 'a & "b"']))),
                      collision=None if r.random() < .3 else dict(geometry=geometry(r), origin=origin(r)),
                      inertial=None if r.random() < .2 else inertial(r)))
    for n, p, c in joints:
        t = r.choice(['continuous', 'planar', 'ball', '']) if r.random() < odd else r.choice(SUP)
        lo = r.uniform(-3, 1)
        lim = None
        if r.random() < .7: lim = dict(lower=None if r.random() < .15 else lo, upper=None if r.random() < .15 else lo + r.uniform(.1, 3.), effort=num(r), velocity=num(r))
        if lim and r.random() < .1: lim['lower'], lim['upper'] = 0., r.choice([1., 0.5])
        o = lambda p, f: None if r.random() > p else f()
        ax = r.choice([[1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [-1., 0., 0.], [0., -1., 0.], [0., 0., -1.], [0., 0., 2.], [.6, .8, 0.], G.unit(r), G.unit(r), [3*x for x in G.unit(r)], near(r), near(r)])
        j.append(dict(k='joint', name=n, type=t, parent=p, child=c, origin=origin(r), axis=o(.8, lambda: ax), limits=lim,
                      dynamics=o(.3, lambda: dict(damping=o(.7, lambda: num(r)), friction=o(.7, lambda: num(r)))),
                      safety=o(.3, lambda: dict(soft_lower_limit=o(.7, lambda: num(r)), soft_upper_limit=o(.7, lambda: num(r)), k_position=o(.7, lambda: num(r)), k_velocity=num(r))),
                      calibration=o(.3, lambda: dict(rising=o(.7, lambda: num(r)), falling=o(.7, lambda: num(r)))),
                      mimic=o(.3, lambda: dict(joint=r.choice([x[0] for x in joints] + ['other']), multiplier=o(.7, lambda: num(r)), offset=o(.7, lambda: num(r))))))
    e = l + j
    if r.random() < .6: r.shuffle(e)
    for k in range(r.choice([0, 0, 1, 2])): e.insert(r.randint(0, len(e)), material(r, 'm%d' % k))
    for k in range(r.choice([0, 0, 1])): e.insert(r.randint(0, len(e)), dict(k=r.choice(['gazebo', 'transmission'])))
    return dict(name=r.choice(['robot', 'r2 d2', 'a & b']), elements=e)
def tree(r, n, style):
    """Names of n links, joints of a random tree."""
    names = ['link%d' % k for k in range(n)]
    if style == 'odd': names = [r.choice(['l & %d', '%d', 'a "%d"', '<%d>', u'\xe9l\xe9ment %d', "l'%d", 'a/b_%d']) % k for k in range(n)]
    if style == 'alike': names = ['x' * (k + 1) for k in range(n)]
    js = []
    deep = r.random()
    for k in range(1, n): js.append(['j%d' % k if style != 'alike' else 'xj' + 'x'*k, names[k - 1 if r.random() < deep else r.randrange(k)], names[k]])
    if r.random() < .5: r.shuffle(js)
    if r.random() < .5: r.shuffle(names)
    return names, js
def spoil(r, names, js):
    """Joints which do not make a tree."""
    x = r.randrange(4)
    js = [list(j) for j in js]
    if x == 0 or not js: names = names + ['alone']
    elif x == 1: r.choice(js)[1] = 'nobody'
    elif x == 2: js.append(['again', r.choice(names), r.choice(names)])
    else: r.choice(js)[1:] = [r.choice(names), r.choice(names)]
    return names, js
def parse_case(r, b=None):
    if b is not None: names, js = [x['name'] for x in b['D']['links']], [[j['name'], j['parent'], j['child']] for j in b['D']['joints']]
    else:
        names, js = tree(r, r.choice([1, 2, 3, 5, 8]), r.choice(['plain', 'odd', 'alike']))
    good = b is None or b['res'] == 'ok'
    # forests: chains between unrelated links
    forest = b is None and js and r.random() < .2
    if forest: js.remove(r.choice(js))
    s = dict(kind='parse', robot=fill(r, names, js, odd=.15), tree=good or r.random() < .7)
    if good:
        every = [[a, n, k] for a in range(len(names)) for n in range(len(names)) for k in ([True, True, True], [True, False, True], [True, False, False], [False, True, True], [False, False, True], [True, True, False])]
        s['chains'] = every if len(every) < 25 else r.sample(every, 25)
    return s
def load_case(r, b=None, spoiled=False):
    n = r.choice([1, 1, 1, 2]) if b is None else 1
    base = W.world(r, maxdof=4, nb=r.choice([1, 2]), named=True) if r.random() < .4 else None
    robots = []
    pre = r.choice([['', ''], ['', ''], ['left_', ''], ['', '_r'], ['a.', '-b']])
    for k in range(n):
        if b is not None: names, js = [x['name'] for x in b['D']['links']], [[j['name'], j['parent'], j['child']] for j in b['D']['joints']]
        else: names, js = tree(r, r.choice([1, 2, 3, 4, 6]), r.choice(['plain', 'alike', 'odd']))
        if spoiled and k == n - 1: names, js = spoil(r, names, js)
        if k and r.random() < .8: p = ['second_' + pre[0], pre[1]]
        elif k: p = [pre[0], pre[1] + '2']
        else: p = pre
        robots.append(dict(robot=fill(r, names, js, odd=.1 if r.random() < .2 else 0.), prefix=p[0], suffix=p[1], fixed=r.random() < .5, h=None if r.random() < .4 else W.pose(r),
                           root=r.choice(['root_joint', 'root_joint', 'base']), save=r.random() < .8))
        if b is not None and b['res'] != 'ok': break
    return dict(kind='load', base=base, robots=robots, moves=[r.randint(0, 10**6) for k in range(3)])

@plan('U01', 'U02')
def urdf(c):
    r = c.rng
    b = c.behaviours(c.design('MCUrdf', env=dict(NL='3', NJ='2'), what='loaded joint after joint in the order of its file, a robot is refused exactly when its joints do not make a tree of its links, and the links end up as described'))
    if c.thorough: b += c.behaviours(c.design('MCUrdf', env=dict(NL='4', NJ='3'), what='the same, four links', timeout=3000))
    n = 2500 if c.thorough else 150
    if len(b) > n: b = r.sample(b, n)
    if c.prop == 'U01':
        c.conform('urdf', 'UrdfTrace', [parse_case(r, x) for x in b], label='small robots')
        c.conform('urdf', 'UrdfTrace', [parse_case(r) for k in range(3 * n)], label='robots')
    else:
        c.conform('urdf', 'UrdfTrace', [load_case(r, x) for x in b], label='small robots')
        c.conform('urdf', 'UrdfTrace', [load_case(r, spoiled=k % 4 == 0) for k in range(3 * n)], label='robots')
