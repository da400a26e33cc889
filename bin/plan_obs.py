"""O01-O03: recorders, loggers, energies."""
from plans import plan
import plan_step as S
import worlds as W

def timeline(r, n):
    t = [r.choice([0., 0., 1.])]
    for i in range(n): t.append(t[-1] + r.choice([.001, .01, .01, .02]))
    return t

def history(r, d, h, n):
    ops = []
    for x in h:
        if x['op'] == 'sim': ops.append(dict(op='sim', tl=timeline(r, x['n'] if r.random() < .97 else 25), last=r.random() < .4))
        elif x['op'] == 'poke':
            q, v = W.states(r, d)
            ops.append(dict(op='poke', q=q, v=v, update=r.random() < .5))
            if r.random() < .4: ops[-1]['remass'] = W.remass(r, d, W.light, visc=False)
        else: ops.append(dict(op='keep'))
    return ops

def rec_case(c, r, h):
    energy = c.prop == 'O03'
    nb = r.choice([1, 2, 2, 3])
    d = W.tilt(r, W.world(r, nb=nb, maxdof=7, regular=r.random() < .7, massless=.5, frames=.5, odd=.1, definite=True))
    if energy and not any(b['m'] for b in d['bodies']): return None
    n = W.dofs(d)
    if n == 0 and not energy: return None
    # massless bodies: nothing can be simulated but a single instant
    free = any(b['m'] is None for b in d['bodies'])
    s = dict(kind='rec', world=d, ctl=[], cons=[])
    if not free:
        s['ctl'] = [dict(t='weight', g=r.choice([None, -1.6]))] if r.random() < .5 else []
        if n and r.random() < .5: S.add_constraints(r, d, n, s, probes=.3)
    else:
        # a stiff and damped joint has an admittance without any mass
        ks = [k + 1 for k, l in enumerate(d['links'])]
        if any(l['type'] in ('FixedJoint', 'FreeJoint') for l in d['links']): return None
        I = [[float(i == j) for j in range(n)] for i in range(n)]
        s['ctl'] = [dict(t='pd', joints=ks, kp=I, kd=[[5.*x for x in y] for y in I])]
    rec = []
    if energy: rec.append(dict(t='energy'))
    else:
        s['frames'] = [S.frame(r, r.randint(0, nb)) for i in range(r.randint(1, 3))]
        for k, l in enumerate(d['links'], 1):
            if l['type'] != 'FixedJoint':
                if r.random() < .7: rec.append(dict(t='gpos', j=k))
                if r.random() < .7: rec.append(dict(t='gvel', j=k))
        for k in range(len(s['frames'])):
            rec += [dict(t='pose', f=k + 1), dict(t='twist', f=k + 1)]
        for k, x in enumerate(s['cons'], 1):
            if x['t'] != 'probe': rec.append(dict(t='force', c=k))
            if x['t'] == 'contact': rec.append(dict(t='distance', s=x['s'] if r.random() < .5 else x['s'][::-1]))
        heavy = [k + 1 for k, b in enumerate(d['bodies']) if b['m']]
        if heavy:
            g = r.sample(range(1, nb + 1), r.randint(1, nb))
            if not set(g) & set(heavy): g.append(heavy[0])
            rec.append(dict(t='com', bodies=g))
        r.shuffle(rec)
        if not rec: return None
        if r.random() < .25:
            rec.insert(r.randrange(len(rec) + 1), dict(t='perf'))
            s['tick'] = r.randrange(5)
    s['recorders'] = rec
    s['ops'] = history(r, d, h, n)
    return s

@plan('O01', 'O03')
def records(c):
    r = c.rng
    b = c.behaviours(c.design('MCRecords', env=dict(MAXLEN='6' if c.thorough else '5', MAXSTEPS='3' if c.thorough else '2'),
                              what='records made of copies in fresh arrays refine the specification of the records; they are ordered in time'))
    b = [h for h in b if any(x['op'] == 'sim' and x['n'] for x in h) and h[-1]['op'] != 'poke']
    specs = []
    n = 2500 if c.thorough else 220
    while len(specs) < n:
        s = rec_case(c, r, r.choice(b))
        if s: specs.append(s)
    for k in range(300 if c.thorough else 30):
        # longer ones
        s = rec_case(c, r, [dict(op='sim', n=r.choice([5, 10]))])
        if s: specs.append(s)
    c.conform('records', 'RecTrace', specs, label='histories')

NONE = '<none>'
def log_world(r, nb=None):
    while True:
        d = W.world(r, nb=nb or r.choice([1, 2, 3, 4]), maxdof=9, regular=True, frames=.5, named=True)
        for k, b in enumerate(d['bodies']): b['name'] = 'b%d' % k
        return d

def log_case(r, L=None, model=None):
    d = log_world(r, nb=2 if model else None)
    n = W.dofs(d)
    s = dict(kind='log', world=d, cons=[], ctl=[dict(t='weight', g=None)] if r.random() < .5 else [])
    if n and r.random() < .6 and not model:
        for i in range(r.choice([1, 2])):
            x = S.contact(r, d, s, dist=r.choice([0., .3]))
            if x: s['cons'].append(x)
    if model:
        # the naming of a state of MCLogger: the frames of the links as in it
        for l in d['links']: l['H0'], l['mov'] = None, False
        d['links'].sort(key=lambda l: l['child'])
        d['links'][0]['H1'] = None
        d['links'][1]['H1'] = W.pose(r)
        d['links'][1]['mov'] = 1 in model['mv']
        if 2 in model['mv']: s['moving'] = W.pose(r)
        s['names'] = dict(j=model['jn'], b=model['bn'], s=model['sn'])
    else:
        def some(k, pre):
            m = r.random()
            return [NONE if r.random() < (.4 if m < .8 else .9) else r.choice(['x', 'y', 'z']) if m < .15 else '%s%d' % (pre, i) for i in range(k)]
        s['names'] = dict(j=some(len(d['links']), 'j'), b=some(len(d['bodies']) + 1, 'b'), s=some(12, 's'))
    ops = []
    fmt = r.choice(['pickle', 'hdf5'])
    sel = lambda: L or dict(st=r.random() < .6, tr=r.random() < .7, mo=r.random() < .5, flat=r.random() < .5)
    k = r.random()
    op = dict(op='log', L=sel(), fmt=fmt, tl=timeline(r, r.choice([0, 1, 2, 3, 6]) if r.random() < .96 else 25), last=r.random() < .3)
    if fmt == 'pickle': op['protocol'] = r.choice([0, 1, 2])
    else: op['group'] = r.choice(['/', '/', 'run', '/run/a', 'run/', 'a/b/c', '/a/b/c/d'])
    ops.append(op)
    if k < .5:
        q, v = W.states(r, d)
        ops.append(dict(op='poke', q=q, v=v))
        o2 = dict(op, L=sel(), tl=timeline(r, r.choice([1, 2])))
        if fmt == 'hdf5' and r.random() < .7:
            # in the same file
            op['file'] = o2['file'] = 'same.h5'
            op['group'] = r.choice(['one', 'runs/one', 'runs/a/one', 'a/runs/x', '/a/x'])
            o2['group'] = r.choice(['two', 'runs/two', '/', 'runs/b/one', 'b/runs/x', 'x/a'])
            o2['others'] = ['one', 'runs', 'a', 'b']
        ops.append(o2)
    s['ops'] = ops
    return s

@plan('O02')
def logs(c):
    r = c.rng
    b = c.behaviours(c.design('MCLogger', what='accepted selections lose no data, nothing is refused without two elements which bear the same name'))
    n = 3000 if c.thorough else 250
    b = r.sample(b, min(n, len(b)))
    specs = [log_case(r, dict(x['L'], mo=r.random() < .5), x['W']) for x in b]
    specs += [log_case(r) for k in range(3000 if c.thorough else 300)]
    c.conform('records', 'LogTrace', specs, label='logs')
