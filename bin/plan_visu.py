"""V01, V02: drawings of worlds."""
from plans import plan
import worlds as W
import rigid as G

def color(r, near=None):
    """near: now and then, a color which is close to it"""
    if near and r.random() < .5: return [min(1., x + r.choice([0., .002, .03])) for x in near]
    return [r.choice([0., 1., r.random(), r.random()]) for i in range(3)]
def joint_frames(d):
    """Codes of the frames of the links, in order, and the last one."""
    n = len(d['bodies'])
    l = []
    for x in d['links']:
        x['mov'] = 'f0' if x.get('mov') else False
        for k in ('H0', 'H1'):
            if x.get(k) is not None: l.append(x['parent'] if k == 'H0' else x['child'])
    return l
def shapes(r, nb, nf, n, like=[]):
    """like: other names."""
    l = []
    for i in range(n):
        t = r.choice(['Sphere', 'Point', 'Box', 'Cylinder', 'Plane'])
        u = lambda: r.choice([.5, r.uniform(.05, 2.)])
        d = dict(Sphere=[u()], Point=[], Box=[u(), u(), u()], Cylinder=[u(), u()], Plane=list(r.choice([[0., 1., 0.], [0., 0., -1.], [0., 0., 1.], G.unit(r), G.unit(r)])) + [r.choice([0., r.uniform(-2, 2)])])[t]
        l.append(dict(t=t, at=r.choice([r.randint(0, nb), r.randint(0, nb + nf)]), name=r.choice([None, 's%d' % i, 's%d' % i] + like), dims=d))
    return l
def finish(r, s, kind, own, anim):
    """Names, shapes, colors, operations of a case whose world, frames, flat are set."""
    d, nb = s['world'], len(s['world']['bodies'])
    nf = own + len(s['frames'])
    W.unname(d)
    s['kind'], s['rich'] = kind, r.random() < .5
    s['names'] = ['ground'] + ['b%d' % k for k in range(1, nb + 1)] + ['f%d' % k for k in range(1, nf + 1)]
    style = r.choice(['short', 'long', 'alike'])
    if style == 'long': s['names'] = s['names'][:1] + [x + ' of the robot' if kind != 'file' else x + '_of_the_robot' for x in s['names'][1:]]
    if style == 'alike': s['names'] = s['names'][:1] + ['x' * k for k in range(1, nb + nf + 1)]
    if (not anim or kind == 'file') and r.random() < .4: s['names'] = s['names'][:1] + [x if r.random() < .6 else None for x in s['names'][1:]]
    s['shapes'] = shapes(r, nb, nf, r.choice([0, 1, 2, 4]), [x for x in s['names'] if x] if kind == 'draw' and r.random() < .3 else [])
    s['nbcol'] = r.choice([None, None, 1, 3, 7, 50])
    s['cobj'] = [dict(x=x) for x in r.sample(list(range(-len(s['shapes']), nb + nf + 1)), min(nb + 1, r.choice([0, 0, 1, 3])))]
    last = None
    for k, y in enumerate(s['cobj']):
        last = color(r, last)
        s['cobj'][k] = [y['x'], last]
    names = [x for x in s['names'] + [y['name'] for y in s['shapes']] if x]
    s['cname'] = [[x, color(r, last)] for x in r.sample(list(dict.fromkeys(names)), min(len(set(names)), r.choice([0, 0, 1, 3])))]
    s['late'] = r.random() < .5
    if kind == 'file': s['up'] = r.choice([None, [0., 0., 1.], [1., 0., 0.], [0., 1., 0.], [0., .6, .8]])
    elif r.random() < .4: s['up'] = G.unit(r)
    if r.random() < .4: s['scale'] = r.choice([.1, 2., 10])
    if r.random() < .4: s['options'] = {k: v for k, v in (('point radius', .05), ('plane half extents', (2., .5)), ('inertia factor', 3.)) if r.random() < .6}
    mov = [k for k, f in enumerate(s['frames'], own) if f['moving']]
    moves = lambda: [[k, W.pose(r)] for k in mov if r.random() < .8]
    def poke():
        q, v = W.states(r, d, still=anim)
        return dict(op='poke', q=q, v=v, h=moves(), new=True)
    ops = [poke()] if r.random() < .5 else []
    ops.append(dict(op='draw'))
    if not anim and r.random() < .3: ops += [poke(), dict(op='draw')]
    if anim:
        if r.random() < .5: ops.append(poke())
        src = (['pickle', 'hdf5'] + ['daenim']*s['rich']) if kind == 'file' else ['pickle', 'hdf5', 'web', 'web']
        t = [r.choice([0., 1.5])]
        for i in range(r.choice([1, 2, 3])): t.append(t[-1] + r.choice([.001, .01, .03, 1/512., r.uniform(.0001, .01)]))
        ops.append({'op': 'anim', 'from': r.choice(src), 'tl': t, 'moves': [moves() for i in range(3)] if mov else []})
        if ops[-1]['from'] == 'daenim':
            if r.random() < .4:
                for k in ('scale', 'options', 'up'): s.pop(k, None)
                s['nbcol'], s['cobj'], s['cname'] = None, [], []
                ops[-1]['own'] = True
            else: ops[-1]['own'] = False
            ops[-1]['options'] = r.choice(['', '-eye 1 2 3', '-fps 50'])
        if ops[-1]['from'] == 'hdf5' and r.random() < .5: ops[-1]['group'] = '/run/one'
        if ops[-1]['from'] == 'hdf5' and s['rich'] and r.random() < .5: ops[-1]['view'] = True
        if ops[-1]['from'] == 'web' and r.random() < .5: ops[-1]['kw'] = {k: v for k, v in (('host', 'localhost'), ('port', 6000), ('timeout', 2), ('browser', 'b'), ('width', 3)) if r.random() < .5}
    elif kind == 'file' and r.random() < .5:
        o = dict(op='view', what='file', kw={k: v for k, v in (('browser', 'b'), ('width', 3)) if r.random() < .5})
        if r.random() < .7:
            o['what'] = 'world'
            for k in ('scale', 'options', 'up'): s.pop(k, None)
            s['nbcol'], s['cobj'], s['cname'], s['flat'] = None, [], [], False
        ops.append(o)
    s['ops'] = ops
    return s
def random_case(r, kind):
    anim = r.random() < .5
    d = W.world(r, maxdof=9, regular=anim, frames=.6, named=True, nb=r.choice([1, 2, 3, 4]))
    own = joint_frames(d)
    nb = len(d['bodies'])
    # a file has transforms of moving joints only
    s = dict(world=d, flat=r.random() < .5, frames=[dict(body=r.randint(0, nb), moving=r.random() < .5, H=W.pose(r)) for i in range(r.choice([0, 1, 2, 3]))])
    return finish(r, s, kind, len(own), anim)
def model_case(r, b, kind):
    """A configuration of MCScene."""
    nb = len(b['par'])
    d = dict(bodies=[dict(m=W.mass(r), b=None) for k in range(nb)], links=[])
    for k in range(nb):
        q, v = W.state(r, b['ty'][k])
        d['links'].append(dict(parent=b['par'][k], child=k + 1, type=b['ty'][k], q=q, v=[.1 * x for x in v],
                               H0=W.pose(r) if b['ends'][k] % 2 else None, H1=W.pose(r) if b['ends'][k] > 1 else None, mov=False))
    own = joint_frames(d)
    x = b['extra']
    s = dict(world=d, flat=b['flat'], frames=[dict(body=x['at'], moving=x['moving'], H=W.pose(r))] if x['at'] >= 0 else [])
    return finish(r, s, kind, len(own), r.random() < .7)
def item(r):
    t = r.choice(['Line', 'Box', 'Ellipsoid', 'Sphere', 'Point', 'Cylinder', 'Plane'])
    u = lambda: r.uniform(.05, 3.)
    p = lambda: [r.uniform(-2, 2) for i in range(3)]
    x = dict(op='item', t=t, rich=True if t == 'Line' else r.random() < .5, name=r.choice([None, 'n']), color=color(r), opt={})
    x['dims'] = dict(Line=[r.choice([p(), [0.] * 3]), p()], Box=[u(), u(), u()], Ellipsoid=[u(), u(), u()], Sphere=[u()], Point=[], Cylinder=[u(), u()], Plane=list(G.unit(r)) + [r.uniform(-2, 2)])[t]
    if r.random() < .5: x['opt']['scale'] = r.choice([.5, 3.])
    if r.random() < .5: x['opt']['options'] = {'point radius': .1, 'plane half extents': [2., 3.]}
    return x

@plan('V01', 'V02')
def scenes(c):
    r = c.rng
    kind = 'file' if c.prop == 'V02' else 'draw'
    b = c.behaviours(c.design('MCScene', env=dict(NB='1', TYPES='all'), what='drawn item after item, every node is where the world has what it shows, whatever the world does next'))
    if c.thorough: b += c.behaviours(c.design('MCScene', env=dict(NB='2', TYPES='few'), what='the same, two bodies', timeout=2000))
    n = (3000 if c.thorough else 220) if kind == 'draw' else (2000 if c.thorough else 130)
    if len(b) > n: b = r.sample(b, n)
    c.conform('scene', 'SceneTrace', [model_case(r, x, kind) for x in b], label='small worlds')
    c.conform('scene', 'SceneTrace', [random_case(r, kind) for k in range(2 * n)], label='worlds')
    if kind == 'file': c.conform('scene', 'SceneTrace', [dict(kind='items', items=[item(r) for j in range(6)]) for k in range(n // 4)], label='items')
    else:
        x = [[h, s, v] for h in range(0, 361, 15) for s in (0., .5, 1.) for v in (0., .25, 1.)]
        x += [[r.uniform(0, 360), r.random(), r.random()] for k in range(3000 if c.thorough else 300)]
        c.conform('scene', 'SceneTrace', [dict(kind='hsv', x=x[k::14]) for k in range(14)], label='colors')

# ------------------------------------------------------------ added shapes
def transforms(r):
    l = []
    u = lambda: r.uniform(-2, 2)
    for k in range(r.choice([0, 1, 2, 3])):
        t = r.choice(['matrix', 'translate', 'scale', 'rotate'])
        if t == 'matrix': v = G.flat(G.pose6(W.pose(r)))
        elif t == 'translate': v = [u(), u(), u()]
        elif t == 'scale': v = [r.uniform(.2, 2.) for k in range(3)]
        else: v = r.choice([[1., 0., 0.], [0., 0., 1.], G.unit(r)]) + [r.choice([90., r.uniform(-180, 180)])]
        l.append([t, v])
    return l
def geoms(r, n, common):
    return [dict(id=('Cube%d-mesh' if common else 'g%d') % k, mat='Material%d' % k, color=r.choice([[], [r.random() for j in range(3)], [r.random() for j in range(3)]]), pts=[[r.uniform(-1, 1) for j in range(3)] for i in range(r.choice([3, 4, 5]))]) for k in range(n)]
def shape_file(r, name, small=False, names=[]):
    """A file of shapes; names: some of its nodes have names of frames."""
    if small: return dict(name=name, nodes=[dict(id=i, up=u, tr=transforms(r), leaves=l, inst=n) for i, u, l, n in (('a', -1, [0], []), ('b', 0, [1], []), ('c', -1, [], [3]), ('l', -2, [0], []))], geoms=geoms(r, 2, True))
    ng, nn = r.choice([1, 1, 2, 3]), r.choice([1, 2, 3, 5])
    nodes = []
    lib = []
    for k in range(nn):
        up = r.choice([-1, -1] + list(range(k))) if k else -1
        if k == nn - 1 and k and r.random() < .4: up = -2
        nodes.append(dict(id=r.choice(['n%d' % k, 'n%d' % k, 'mesh_%d' % k, None if up != -2 else 'lib']), up=up, tr=transforms(r), leaves=[r.randrange(ng)] if r.random() < .8 else [], inst=[]))
        if up == -2: lib.append(k)
    for k in lib:
        for j in range(k):
            if r.random() < .5: nodes[j]['inst'] = [k]
    if names:
        for n, x in zip(r.sample(nodes, min(len(nodes), len(names))), r.sample(names, len(names))):
            if r.random() < .8: n['id'] = x
    for n in nodes: n['id'] = n['id'] or ''
    return dict(name=name, nodes=nodes, geoms=geoms(r, ng, r.random() < .7))
def in_scene(F):
    """Ids which can be picked: of the nodes of the scene, or of those of the library which it shows."""
    s = [k for k, n in enumerate(F['nodes']) if n['up'] == -1]
    for k in s:
        for j, m in enumerate(F['nodes']):
            if (m['up'] == k or j in F['nodes'][k]['inst']) and j not in s: s.append(j)
    return [F['nodes'][k]['id'] for k in s if F['nodes'][k]['id']]
def addition(r, frames, files):
    f = r.randrange(len(files))
    pick = r.choice(['', 'zz'] + in_scene(files[f]) * 3) if r.random() < .8 else ''
    return dict(frame=r.choice(frames * 4 + ['nobody']), file=f, pick=pick, h=None if r.random() < .4 else W.pose(r), scale=r.choice([None, None, 2, .5, [.5, 2., 1.], [r.uniform(.1, 2.) for k in range(3)]]))
def scene_of(r, nb):
    d = W.world(r, maxdof=6, regular=True, frames=.5, named=True, nb=nb)
    own = joint_frames(d)
    n = len(d['bodies'])
    s = dict(world=d, flat=r.random() < .5, frames=[dict(body=r.randint(0, n), moving=r.random() < .5, H=W.pose(r)) for i in range(r.choice([0, 1]))])
    s = finish(r, s, 'file', len(own), False)
    s['names'] = ['ground'] + ['b%d' % k for k in range(1, n + 1)] + ['f%d' % k for k in range(1, len(s['names']) - n)]
    s['cname'] = []
    return s
def added_case(r, b=None):
    s = scene_of(r, r.choice([1, 2, 3]) if b is None else 1)
    frames = s['names'][:]
    seeds = lambda: r.randint(0, 10**9)
    if b is not None:
        s['files'] = [shape_file(r, n, small=True) for n in r.choice([['m1.dae', 'm2.dae'], ['a/m.dae', 'b/m.dae']])]
        s['calls'] = []
        for o, new in zip(b['ops'], b['cut']):
            if new: s['calls'].append(dict(items=[], names=-1, other=r.random() < .5, seed=seeds()))
            s['calls'][-1]['items'].append(dict(frame=o['frame'], file=o['file'] - 1, pick={'none': 'zz'}.get(o['pick'], o['pick']), h=None if r.random() < .4 else W.pose(r), scale=r.choice([None, 2., [.5, 2., 1.]])))
        return s
    s['files'] = [shape_file(r, n) for n in r.sample(['m1.dae', 'm2.dae', 'a/m.dae', 'b/m.dae', 'x y.dae'], r.choice([1, 2, 3]))]
    byname = r.random() < .3
    if byname: s['files'].append(shape_file(r, 'all.dae', names=frames))
    s['calls'] = [dict(items=[addition(r, frames, s['files']) for j in range(r.choice([1, 2, 3]))], names=-1, other=r.random() < .5, seed=seeds()) for k in range(r.choice([1, 1, 2]))]
    if byname: s['calls'].insert(r.randint(0, len(s['calls'])), dict(items=[], names=len(s['files']) - 1, other=r.random() < .5, seed=seeds()))
    return s
def robot_case(r):
    import plan_urdf as U
    files = [shape_file(r, n) for n in ('mesh.dae', 'meshes/arm.dae', 'a b.dae', 'arm.dae')]
    ids = in_scene(files[3])
    robots = []
    for k in range(r.choice([1, 1, 2])):
        names, js = U.tree(r, r.choice([1, 2, 4]), 'plain')
        d = U.fill(r, names, js)
        for e in d['elements']:
            for w in ('visual', 'collision'):
                if e['k'] == 'link' and e[w] and e[w]['geometry'].get('filename') == 'arm.dae#forearm': e[w]['geometry']['filename'] = 'arm.dae#' + r.choice(ids) if ids else 'arm.dae'
        robots.append(dict(robot=d, prefix=['', 'second_'][k], fixed=r.random() < .5, what=r.choice(['visual', 'visual', 'collision']), other=r.random() < .5, seed=r.randint(0, 10**9)))
    return dict(files=files, robots=robots, rich=r.random() < .5, flat=r.random() < .5)

@plan('V03')
def added(c):
    r = c.rng
    b = c.behaviours(c.design('MCAdded', env=dict(N='2'), what='whatever the additions, everything is shown by what it comes from, although the files have the same ids'))
    if c.thorough: b += c.behaviours(c.design('MCAdded', env=dict(N='3'), what='the same, three additions'))
    n = 2500 if c.thorough else 150
    c.conform('added', 'AddedTrace', [added_case(r, x) for x in r.sample(b, min(n, len(b)))], label='small files')
    c.conform('added', 'AddedTrace', [added_case(r) for k in range(2*n)], label='files')
    c.conform('added', 'AddedTrace', [robot_case(r) for k in range(n)], label='robots')
