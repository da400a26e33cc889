"""Shapes added to collada files (V03)."""
from scene import *
import scene, shutil
from urdfxml import Writer

def matrix(kind, v):
    H = eye(4)
    if kind == 'matrix': return array(v).reshape(4, 4)
    if kind == 'translate': H[0:3, 3] = v
    elif kind == 'scale': H = diag(list(v) + [1.])
    else:
        a, t = array(v[:3]) / numpy.sqrt(dot(v[:3], v[:3])), v[3] * numpy.pi / 180
        K = hat(a)
        H[0:3, 0:3] = eye(3) + sin(t)*K + (1 - cos(t))*dot(K, K)
    return H
def tr(node):
    H = eye(4)
    for k, v in node['tr']: H = dot(H, matrix(k, v))
    return H
def write(path, F):
    """A collada file."""
    t = lambda v: ' '.join(repr(x) for x in v)
    s = ['<?xml version="1.0" encoding="utf-8"?>\n<COLLADA xmlns="http://www.collada.org/2005/11/COLLADASchema" version="1.4.1"><asset><created>2013-04-18T01:48:05</created><modified>2013-04-18T01:48:05</modified><up_axis>Z_UP</up_axis></asset>']
    col = [(k, g) for k, g in enumerate(F['geoms']) if g['color']]
    s.append('<library_effects>' + ''.join('<effect id="%s-fx"><profile_COMMON><technique sid="common"><phong><diffuse><color>%s 1</color></diffuse></phong></technique></profile_COMMON></effect>' % (g['mat'], t(g['color'])) for k, g in col) + '</library_effects>')
    s.append('<library_materials>' + ''.join('<material id="%s"><instance_effect url="#%s-fx"/></material>' % (g['mat'], g['mat']) for k, g in col) + '</library_materials>')
    s.append('<library_geometries>')
    for g in F['geoms']:
        n = g['id']
        s.append('<geometry id="%s"><mesh><source id="%s-pos"><float_array id="%s-array" count="%d">%s</float_array><technique_common><accessor source="#%s-array" count="%d" stride="3"><param name="X" type="float"/><param name="Y" type="float"/><param name="Z" type="float"/></accessor></technique_common></source><vertices id="%s-vert"><input semantic="POSITION" source="#%s-pos"/></vertices><triangles count="%d"%s><input semantic="VERTEX" source="#%s-vert" offset="0"/><p>%s</p></triangles></mesh></geometry>'
                 % (n, n, n, 3*len(g['pts']), ' '.join(t(p) for p in g['pts']), n, len(g['pts']), n, n, len(g['pts']) - 2, ' material="sym"' if g['color'] else '', n, ' '.join('0 %d %d' % (k, k + 1) for k in range(1, len(g['pts']) - 1))))
    s.append('</library_geometries>')
    def node(k):
        n = F['nodes'][k]
        x = ['<node%s name="x">' % (' id="%s"' % n['id'] if n['id'] else '')]
        for a, v in n['tr']: x.append('<%s sid="%s">%s</%s>' % (a, a + 'x', t(v), a))
        for j in n['leaves']:
            g = F['geoms'][j]
            x.append('<instance_geometry url="#%s">%s</instance_geometry>' % (g['id'], '<bind_material><technique_common><instance_material symbol="sym" target="#%s"/></technique_common></bind_material>' % g['mat'] if g['color'] else ''))
        for j in n['inst']: x.append('<instance_node url="#%s"/>' % F['nodes'][j]['id'])
        for j, m in enumerate(F['nodes']):
            if m['up'] == k: x.append(node(j))
        return ''.join(x) + '</node>'
    s.append('<library_nodes>' + ''.join(node(k) for k, n in enumerate(F['nodes']) if n['up'] == -2) + '</library_nodes>')
    s.append('<library_visual_scenes><visual_scene id="Scene">' + ''.join(node(k) for k, n in enumerate(F['nodes']) if n['up'] == -1) + '</visual_scene></library_visual_scenes><scene><instance_visual_scene url="#Scene"/></scene></COLLADA>')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f: f.write(''.join(s))

def turned(node):
    """As local(), with rotations."""
    H, sid = eye(4), False
    for x in node:
        k = x.tag[len(NS):] if isinstance(x.tag, str) else ''
        if k in ('matrix', 'translate', 'scale', 'rotate'):
            H = dot(H, matrix(k, floats(x)))
            sid = sid or k == 'matrix' and x.get('sid') == 'matrix'
    return H, sid
def shown(path, frames=None):
    root = ET.parse(path).getroot()
    ids, byid, twice = [], {}, []
    for x in root.iter():
        if x.get('id'):
            if x.get('id') in byid: twice.append(x.get('id'))
            byid[x.get('id')] = x
    lost = [x.get(k) for x in root.iter() for k in ('url', 'source', 'target') if x.get(k, '').startswith('#') and x.get(k)[1:] not in byid]
    out, seen = [], []
    def visit(node, frame, H, depth):
        if depth > 60: raise ValueError('loops in the scene')
        L, sid = turned(node)
        if sid and node.get('id') and (frames is None or node.get('id') in frames):
            frame, H = nm(node.get('id')), eye(4)
            seen.append(frame)
        else: H = dot(H, L)
        for x in node:
            if x.tag == NS + 'node': visit(x, frame, H, depth + 1)
            elif x.tag == NS + 'instance_node' and x.get('url')[1:] in byid: visit(byid[x.get('url')[1:]], frame, H, depth + 1)
            elif x.tag == NS + 'instance_geometry' and x.get('url')[1:] in byid:
                m = byid[x.get('url')[1:]].find(NS + 'mesh')
                src = byid[m.find(NS + 'vertices').find(NS + 'input').get('source')[1:]]
                V = array(floats([y for y in src.iter(NS + 'float_array')][0])).reshape(-1, 3)
                if len(V) > 26:
                    keep = set(int(k) for a in range(3) for k in (V[:, a].argmin(), V[:, a].argmax())) | set(range(0, len(V), len(V) // 16))
                    V = V[sorted(keep)]
                c = []
                for b in x.iter(NS + 'instance_material'):
                    M = byid[b.get('target')[1:]]
                    fx = byid[M.find(NS + 'instance_effect').get('url')[1:]]
                    c = [y for z in fx.iter(NS + 'diffuse') for k in z.iter(NS + 'color') for y in floats(k)[0:3]]
                out.append(dict(frame=frame, pts=num(dot(V, H[0:3, 0:3].T) + H[0:3, 3]), color=num(c)))
    url = root.find(NS + 'scene').find(NS + 'instance_visual_scene').get('url')[1:]
    for x in byid[url].findall(NS + 'node'): visit(x, NONE, eye(4), 0)
    return dict(leaves=out, frames=[x for x in seen if x != NONE], twice=twice, lost=lost)

def add(c, scene, call, ev, dir, paths, items=None):
    import arboris.visu.dae_writer as A
    r = random.Random(call['seed'])
    b = shown(scene)
    out = os.path.join(dir, 'out%d.dae' % next(count)) if call['other'] else None
    with open(scene, 'rb') as f: old = f.read()
    if items is None:
        if call['names'] >= 0:
            given, items = paths[call['names']], [dict(kind='names', file=call['names'] + 1)]
        else:
            given, items = [], []
            for x in call['items']:
                p = paths[x['file']] + ('#' + x['pick'] if x['pick'] else '')
                H = pose6(x['h']) if x['h'] is not None else eye(4)
                s = x['scale']
                items.append(dict(kind='file', frame=x['frame'], file=x['file'] + 1, pick=x['pick'], h=num(H), scale=num([s]*3 if type(s) in (int, float) else s or [1.]*3)))
                form = r.choice(['dict', 'list', 'tuple'])
                if form == 'dict':
                    y = dict(frame=x['frame'], mesh=p)
                    if x['h'] is not None: y['transform'] = H
                    if s is not None: y['scale'] = s
                else:
                    y = [x['frame'], p]
                    if x['h'] is not None or s is not None: y.append(H)
                    if s is not None: y.append(s)
                    if form == 'tuple': y = tuple(y)
                given.append(y)
            if r.random() < .3: given = tuple(given)
    else: given = call['given']
    with contextlib.redirect_stdout(io.StringIO()): A.add_shapes_to_dae(*([scene, given] + ([out] if out else [])))
    with open(scene, 'rb') as f: same = f.read() == old
    f = [x for x in b['frames']]
    a = shown(out or scene, f)
    ev.append(dict(op='add', items=items, before=b['leaves'], after=a['leaves'], frames=b['frames'], framesafter=a['frames'], twice=a['twice'], lost=a['lost'], kept=same or not out, tol=FTOL))
    return out or scene

def case(spec):
    dir = os.path.join(os.environ.get('VERIF_SCRATCH', '.'), 'added%d_%d' % (os.getpid(), next(count)))
    os.makedirs(dir)
    c = dict(ev=[], files=[])
    try:
        paths = []
        for F in spec['files']:
            p = os.path.join(dir, F['name'])
            write(p, F)
            paths.append(p)
            c['files'].append(dict(nodes=[dict(id=n['id'], up=n['up'] + 1 if n['up'] >= -1 else -1, m=num(tr(n)), leaves=[k + 1 for k in n['leaves']], inst=[k + 1 for k in n['inst']]) for n in F['nodes']],
                                   geoms=[dict(pts=num(g['pts']), color=num(g['color'])) for g in F['geoms']]))
        if 'robots' in spec:
            from arboris.robots.urdf import URDFConverter
            from arboris.core import World
            import arboris.visu.dae_writer as A, arboris.visu.visu_collada as C
            w, todo = World(), []
            for k, x in enumerate(spec['robots']):
                p = os.path.join(dir, 'r%d.urdf' % k)
                with open(p, 'w') as f: f.write(Writer(spec['seed']).robot(x['robot']))
                with contextlib.redirect_stdout(io.StringIO()):
                    v = URDFConverter(p, w, prefix=x['prefix'], fixed_base=x['fixed'])
                    g = v.get_visual_shapes() if x['what'] == 'visual' else v.get_collision_shapes()
                items = []
                for e in x['robot']['elements']:
                    if e['k'] != 'link' or e[x['what']] is None: continue
                    q = e[x['what']]
                    o = q['origin'] or {}
                    H = pose6(list(reversed(o.get('rpy') or [0.]*3)) + list(o.get('xyz') or [0.]*3))
                    z = q['geometry']
                    t = z['t'].capitalize()
                    d = dict(kind='visual', frame=x['prefix'] + e['name'], t=t, h=num(H), dims=[], file=0, pick='', scale=[])
                    if t == 'Box': d['dims'] = num([a/2 for a in z['size']])
                    elif t == 'Sphere': d['dims'] = num([z['radius']])
                    elif t == 'Cylinder': d['dims'] = num([z['length'], z['radius']])
                    else:
                        name, sep, d['pick'] = z['filename'].partition('#')
                        d['file'] = [F['name'] for F in spec['files']].index(name) + 1
                        d['scale'] = num(z['scale'] or [1.]*3)
                    items.append(d)
                todo.append((dict(x, given=g), items))
            w.update_geometric()
            scene = os.path.join(dir, 'scene.dae')
            with contextlib.redirect_stdout(io.StringIO()): (C if spec['rich'] else A).write_collada_scene(w, scene, flat=spec['flat'])
            for x, items in todo: scene = add(c, scene, x, c['ev'], dir, paths, items)
        else:
            u = Drawn(spec)
            draw(u, dir, [])
            s = u.scene
            for call in spec['calls']: s = add(c, s, call, c['ev'], dir, paths)
    except Exception as x:
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
        c['ev'].append(dict(op='crash', res=why(x)))
    shutil.rmtree(dir)
    return c
if __name__ == '__main__': main(case)
