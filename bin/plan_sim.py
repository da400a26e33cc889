"""T02: protocol of the simulations."""
from plans import plan

def conf(r):
    nc, nk, no = r.randint(0, 3), r.randint(0, 3), r.randint(0, 3)
    ns = r.choice([1, 2, 2, 3])
    sims = []
    for s in range(ns):
        t = [r.choice([0, 0, 3, 64, -8])]
        for k in range(r.choice([0, 1, 1, 2, 3, 5, 8] if r.random() < .95 else [20, 30, 45])): t.append(t[-1] + r.choice([1, 1, 2, 4, 8]))
        o = list(range(1, no + 1))
        r.shuffle(o)
        if r.random() < .3: o = o[:r.randint(0, no)]
        sims.append(dict(tl=t, obs=o, kind=r.choice(['list', 'list', 'tuple', 'dict', 'none']), tlkind=r.choice(['list', 'tuple', 'array'])))
    tog = {}
    for k in range(r.choice([0, 0, 1, 3, 6]) if nk else 0):
        who = r.choice(['ctl', 'obs'])
        n = nc if who == 'ctl' else no
        if n: 
            g = dict(sim=r.randint(1, ns), k=r.randint(1, 5), who=who, id=r.randint(1, n), con=r.randint(1, nk))
            tog[tuple(g.values())] = g
    ctl = [dict(f=r.randint(-3, 3), g=r.choice([0, 1, -1])) for k in range(nc)]
    con = [dict(f=r.randint(-3, 3), on=r.random() < .75, act=[r.random() < .7 for i in range(r.choice([1, 1, 2, 3]))]) for k in range(nk)]
    for x in (ctl, con):
        # registered in the order of their numbers
        f = sorted(r.choice([1, 1, 1, 2, 3]) for k in x)
        for a, b in zip(x, f): a['from'] = b
    return dict(v0=r.choice([0, 5, -64, 64]), ctl=ctl, con=con, tog=list(tog.values()), sims=sims)

@plan('T02')
def sims(c):
    r = c.rng
    b = c.behaviours(c.design('MCSim', env=dict(DEEP='1' if c.thorough else '0'), args=['-seed', str(c.seed)],
                              what='each element is called once per phase, the order of the calls does not matter for the motion, the last instant is reached'))
    n = 8000 if c.thorough else 800
    if len(b) > n: b = r.sample(b, n)
    specs = [dict(conf=x) for x in b]
    for x in specs:
        for s in x['conf']['sims']: s.update(kind=r.choice(['list', 'dict']), tlkind=r.choice(['list', 'array']))
    specs += [dict(conf=conf(r)) for k in range(8000 if c.thorough else 700)]
    c.conform('sim', 'SimTrace', specs, label='simulations')

import plan_step as S
import worlds as W

def run_case(r):
    d = S.base(r, maxdof=8, nb=r.choice([1, 2, 3, 4]))
    W.unname(d)
    n = W.dofs(d)
    s = dict(world=d, ctl=S.controllers(r, d, n), cons=[])
    many = False
    k = r.random()
    if k < .35:
        # the only constraint is solved exactly
        x = r.choice([lambda: S.ball(r, d, r.choice([0., .01])), lambda: S.contact(r, d, s), lambda: S.contact(r, d, s), lambda: S.limits(r, d, r.choice(S.linear(d))) if S.linear(d) else None])()
        if x and (x['t'] != 'limits' or len(x['min']) == 1): s['cons'] = [x]
    elif k < .5:
        S.add_constraints(r, d, n, s, probes=0.)
        many = len(s['cons']) > 1
    s['arrays'] = [S.custom(r, n) if x['t'] == 'custom' else None for x in s['ctl']]
    dt = S.dts(r)
    tl = [r.choice([0., 0., 1.5])]
    for i in range(r.choice([2, 3, 5, 8]) if not s['cons'] else r.choice([2, 3, 4])): tl.append(tl[-1] + (dt if r.random() < .7 else S.dts(r)))
    s['tl'] = tl
    m = len(tl) - 1
    v = [dict(kind='twin')]
    if not many:
        v += [dict(kind='again'), dict(kind='after', tl=[0., .01, .05, .06]), dict(kind='watch'), dict(kind='repeat', init=r.random() < .5), dict(kind='noobs')]
        v.append(dict(kind='split', cuts=sorted(r.sample(range(1, m), min(m - 1, r.choice([1, 2, 3]))))))
        if len(s['ctl']) > 1:
            o = list(range(len(s['ctl'])))
            r.shuffle(o)
            v.append(dict(kind='order', order=o))
    else: v.append(dict(kind='watch'))
    s['variants'] = v
    return s

@plan('T03')
def runs(c):
    c.design('MCTwin', env=dict(DEEP='1' if c.thorough else '0'), what='self-composition: a simulation which is cut, watched and whose calls come in any order ends in the same state')
    specs = [run_case(c.rng) for k in range(3000 if c.thorough else 250)]
    c.conform('runs', 'RunsTrace', specs, label='runs')
