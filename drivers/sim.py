"""Calls received along simulations (T02)."""
from lib import *
from numpy import array, zeros, diag, eye
from arboris.core import World, Body, Observer, Controller, Constraint, simulate
from arboris.joints import TxJoint
logging.disable(logging.CRITICAL)

def ex(x, scale=1):
    y = float(x) * scale
    return int(y) if y == int(y) and abs(y) < 1e9 else -1999999999

class Sim(object):
    def __init__(self, C):
        self.C, self.ev, self.s = C, [], 0
        self.w = World()
        self.b = Body(mass=eye(6))
        self.j = TxJoint(gpos=[0.], gvel=[C['v0'] / 64.])
        self.w.add_link(self.w.ground, self.j, self.b)
        self.w.init()
        self.ctl = [Ctl(self, k, c) for k, c in enumerate(C['ctl'], 1)]
        self.con = [Con(self, k, c) for k, c in enumerate(C['con'], 1)]
        self.obs = {}
    def log(self, w, id, m, dt=None, **k):
        x = self.w
        e = dict(w=w, id=id, m=m, t=ex(x.current_time, 64), q=ex(self.j.gpos[0], 4096), v=ex(x.gvel[0], 64))
        if dt is not None: e.update(dt=ex(dt, 64), pose=ex(self.b.pose[0, 3], 4096), twist=ex(self.b.twist[3], 64), gf=ex(x.gforce[0]))
        e.update(k)
        self.ev.append(e)
    def step(self):
        """Number of the current step."""
        t = self.w.current_time * 64.
        return max([k for k, x in enumerate(self.tl, 1) if x <= t] or [0])
    def toggle(self, who, id):
        k = self.step()
        for g in self.C['tog']:
            if (g['sim'], g['k'], g['who'], g['id']) == (self.s, k, who, id):
                c = self.con[g['con']-1]
                if c.is_enabled(): c.disable()
                else: c.enable()
    def run(self):
        for n, s in enumerate(self.C['sims'], 1):
            self.s, self.tl = n, s['tl']
            if n == 1:
                for k, c in enumerate(self.C['con'], 1):
                    if not c['on']: self.con[k-1].disable()
            for k, c in list(enumerate(self.C['ctl'], 1)):
                if c['from'] == n: self.w.register(self.ctl[k-1])
            for k, c in list(enumerate(self.C['con'], 1)):
                if c['from'] == n: self.w.register(self.con[k-1])
            obs = [self.obs.setdefault(o, Obs(self, o)) for o in s['obs']]
            kind = s.get('kind', 'list')
            if kind == 'dict': obs = {'o%d' % (99 - k): o for k, o in enumerate(obs)}
            elif kind == 'tuple': obs = tuple(obs)
            tl = [t / 64. for t in s['tl']]
            if s.get('tlkind') == 'array': tl = array(tl)
            elif s.get('tlkind') == 'tuple': tl = tuple(tl)
            self.ev.append(dict(w='sim', id=0, m='begin', t=s['tl'][0], q=ex(self.j.gpos[0], 4096), v=ex(self.j.gvel[0], 64)))
            if kind == 'none' and not obs: simulate(self.w, tl)
            else: simulate(self.w, tl, obs)
            self.log('sim', 0, 'end')

class Obs(Observer):
    def __init__(self, sim, id):
        Observer.__init__(self)
        self.sim, self.id = sim, id
    def init(self, world, timeline): self.sim.log('obs', self.id, 'init', tl=[ex(t, 64) for t in timeline], same=world is self.sim.w)
    def update(self, dt):
        self.sim.log('obs', self.id, 'update', dt)
        self.sim.toggle('obs', self.id)
    def finish(self): self.sim.log('obs', self.id, 'finish')

class Ctl(Controller):
    def __init__(self, sim, id, c):
        Controller.__init__(self)
        self.sim, self.id, self.c = sim, id, c
    def init(self, world): self.sim.log('ctl', self.id, 'init')
    def update(self, dt):
        self.sim.log('ctl', self.id, 'update', dt)
        self.sim.toggle('ctl', self.id)
        return array([float(self.c['f'] + self.c['g'] * self.sim.step())]), zeros((1, 1))

class Con(Constraint):
    def __init__(self, sim, id, c):
        Constraint.__init__(self)
        self.sim, self.id, self.c, self.f = sim, id, c, 0.
    def init(self, world): self.sim.log('con', self.id, 'init')
    @property
    def ndol(self): return 1
    @property
    def jacobian(self): return array([[1.]])
    @property
    def gforce(self): return array([self.f])
    def update(self, dt):
        self.sim.log('con', self.id, 'update', dt)
        self.f = 0.
    def is_active(self):
        a = self.c['act']
        return a[(self.sim.step() - 1) % len(a)]
    def solve(self, vel, admittance, dt):
        self.sim.log('con', self.id, 'solve', dt)
        d = self.c['f'] - self.f
        self.f += d
        return array([d])

def case(spec):
    s = Sim(spec['conf'])
    try: s.run()
    except Exception as x:
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
        s.ev.append(dict(w='crash', id=0, m='', res=why(x)))
    return dict(conf=spec['conf'], ev=s.ev)
main(case)
