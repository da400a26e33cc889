"""R01, R02: builders of robots."""
from plans import plan
import worlds as W

SIDES = ['yhumerus', 'yforearm', 'yhand', 'xfoot', 'xheel', 'zsternoclav', 'xsternoclav', 'ysternoclav', 'yshoulder', 'zshoulder', 'xshoulder']
MIDS = ['yvT10', 'xvT10', 'zhip', 'yvC7', 'yhead']
LEGS = ['yfoot', 'ytibia', 'yfemur']
def scale(r):
    s = {}
    for k in range(r.choice([0, 1, 1, 3, 8])):
        x = r.choice(SIDES + MIDS)
        s[x + r.choice('RL') if x in SIDES else x] = r.uniform(.5, 1.5)
    if r.random() < .3:
        x, f = r.choice(LEGS), r.uniform(.5, 1.5)
        s[x + 'R'] = s[x + 'L'] = f
    return s
NAMES = ['', 'Bob ', "Casimodo's ", 'a', 'R', 'Left ', 'x/']
def human(r, prefix=None):
    return dict(op='human', height=r.choice([1.741, 1.741, r.uniform(.4, 2.6)]), given=r.random() < .8, scale=scale(r) if r.random() < .6 else {},
                mass=r.choice([None, 73, r.uniform(5., 200.)]), prefix=r.choice(NAMES) if prefix is None else prefix)
def lengths(r):
    s = scale(r)
    if r.random() < .3: s[r.choice(LEGS) + r.choice('RL')] = r.choice([.95, 1.001, 1.5])
    return dict(op='lengths', height=r.choice([1.741, 0., 1., r.uniform(.1, 3.)]), scale=s)
def size(r): return r.choice([r.uniform(.1, 1.), r.uniform(1., 10.), r.uniform(.01, .1)])
def arm(r, name=None):
    o = dict(op='arm', shaped=r.random() < .6, name=r.choice(NAMES) if name is None else name)
    if r.random() < .85: o['lengths'] = [size(r) for k in range(3)]
    if r.random() < .85: o['masses'] = [size(r) for k in range(3)]
    return o
def snake(r):
    n = r.choice([1, 1, 2, 3, 5, 8])
    some = lambda f, p=.8: [f() for k in range(n)] if r.random() < p else None
    return dict(op='snake', n=n, lengths=some(lambda: size(r)), masses=some(lambda: size(r)), q=some(lambda: r.uniform(-3, 3)), v=some(lambda: r.uniform(-3, 3)), fixed=r.random() < .5)
def simple(r, name=None):
    t = r.choice(['Box', 'Sphere', 'Cylinder'])
    return dict(op='simple', t=t, dims=[size(r) for k in range({'Box': 3, 'Sphere': 1, 'Cylinder': 2}[t])] if r.random() < .7 else None,
                mass=size(r) if r.random() < .9 else None, name=(name + t if name else None) if r.random() < .7 else None)
def icub(r): return dict(op='icub', fixed=r.random() < .4, shapes=r.random() < .7, contacts=r.random() < .7)

def translate(h):
    """The operations of a behaviour of MCRobots."""
    L = {1: [.5, .4, .2], 2: [1., 1/3., 2.]}
    M = {1: [1., .8, .2], 2: [.1, 2., 5.]}
    ops = []
    for k, o in enumerate(h, 1):
        p = '%d ' % k
        if o['op'] == 'human': ops.append(dict(op='human', height=o['h'] / 1000., given=True, scale={x: .75 for x in o['scale']}, mass=o['mass'], prefix=p))
        elif o['op'] == 'arm': ops.append(dict(op='arm', name=p, lengths=L[o['v']], masses=M[o['v']], shaped=o['shaped']))
        elif o['op'] == 'snake':
            n = o['n']
            ops.append(dict(op='snake', n=n, lengths=L[o['v']][:n], masses=M[o['v']][:n], q=[m / 4. for m in range(1, n + 1)], v=[-float(m) for m in range(1, n + 1)], fixed=o['fixed']))
        else:
            v = o['v']
            ops.append(dict(op='simple', t=o['t'], dims={'Box': L[v], 'Sphere': [v / 3.], 'Cylinder': [v / 2., 2/3.]}[o['t']], mass=2., name=p + o['t']))
    return ops

@plan('R01', 'R02')
def robots(c):
    r = c.rng
    b = c.behaviours(c.design('MCRobots', env=dict(MAXLEN='3' if c.thorough else '2'),
                              what='descriptions are trees, have the requested mass and size; a human seen in a mirror is the human whose sides are exchanged'))
    human_ = c.prop == 'R01'
    b = [h for h in b if any((o['op'] == 'human') == human_ for o in h)]
    n = 1500 if c.thorough else 60
    if len(b) > n: b = r.sample(b, n)
    c.conform('robots', 'RobotTrace', [dict(ops=translate(h)) for h in b], label='buildings')
    specs = []
    for k in range(1500 if c.thorough else 120):
        ops = []
        cubs = 0
        for m in range(r.choice([1, 2, 2, 3, 4])):
            x = r.random()
            name = r.choice(['', '%d ' % m, 'n%d' % m])
            if x < .15: ops.append(dict(op='user', name='user%d' % m, H=W.pose(r)))
            elif human_:
                ops.append(human(r, r.choice(NAMES[:1] + ['%s%d' % (y, m) for y in NAMES])) if x < .8 else lengths(r) if x < .9 else r.choice([arm, lambda r: snake(r)])(r))
            elif x < .4: ops.append(arm(r, r.choice(NAMES)))
            elif x < .6: ops.append(snake(r))
            elif x < .78: ops.append(simple(r, r.choice(NAMES)))
            elif x < .82: ops.append(dict(op='plane'))
            elif not cubs:
                cubs = 1
                ops.append(icub(r))
                if r.random() < .8: ops.append(dict(op='mirror', q=[r.uniform(-1.5, 1.5) for k in range(13)]))
        s = dict(ops=ops)
        if r.random() < .4: s['up'] = r.choice([[0., 0., 1.], [1., 0., 0.], [0., .6, .8]])
        if any(o['op'] not in ('user', 'mirror') for o in ops): specs.append(s)
    if human_: specs += [dict(ops=[lengths(r)]) for k in range(20)]
    c.conform('robots', 'RobotTrace', specs, label='robots')
