"""O05: communications with viewers."""
from plans import plan

def com(r, req, plan, steps):
    if plan['kind'] == 'stay' and r.random() < .04:
        # slower than the simulation, longer than the delay of the connection
        return dict(req=req, plan=dict(plan, delay=0., pause=1.2), timeout=.4, size=8000000 // max(1, steps), named=False)
    return dict(req=req, plan=dict(plan, delay=r.choice([0., 0., .01, .05]) if plan['kind'] != 'never' else 0.), size=r.choice([0, 10, 100000]), named=r.random() < .5)
def model_case(r, b):
    return dict(busy=b['busy'], steps=b['steps'], dict=r.random() < .3, coms=[com(r, q, p, b['steps']) for q, p in zip(b['req'], b['plan'])])
def random_case(r):
    n = r.choice([1, 2, 2, 3, 4])
    steps = r.choice([0, 1, 2, 5, 12])
    def a_plan():
        k = r.choice(['never', 'stay', 'stay', 'drop'])
        return dict(kind=k, after=r.randint(0, steps + 1) if k == 'drop' else 0)
    return dict(busy=r.choice([r.sample(range(6), r.choice([0, 0, 1, 3])), [], list(range(r.choice([3, 7, 20])))]), steps=steps, dict=r.random() < .3,
                coms=[com(r, r.choice([0, 0, 1, 2, 4]), a_plan(), steps) for k in range(n)])

@plan('O05')
def coms(c):
    r = c.rng
    b = c.behaviours(c.design('MCCom', env=dict(NC='1', MAXSTEPS='2'), what='one viewer: all plans, all interleavings of the steps and of the network'))
    b += c.behaviours(c.design('MCCom', env=dict(NC='2', MAXSTEPS='2' if c.thorough else '1'), what='the same, two viewers; ports'))
    seen, l = set(), []
    for x in b:
        k = repr(sorted(x.items()))
        if k not in seen:
            seen.add(k)
            l.append(x)
    n = 1500 if c.thorough else 160
    if len(l) > n: l = r.sample(l, n)
    c.conform('com', 'ComTrace', [model_case(r, x) for x in l], label='small simulations')
    c.conform('com', 'ComTrace', [random_case(r) for k in range(n)], label='simulations')
