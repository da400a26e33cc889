"""Observers which record, loggers, energies (O01, O02, O03)."""
import time
class Clock(object):
    """The time is what the simulations say."""
    now = 1000.
for _f in ('time', 'perf_counter', 'monotonic', 'process_time'): setattr(time, _f, lambda: Clock.now)
from steplib import *
import re
from arboris.core import simulate, Observer
from arboris.shapes import Shape
import arboris.observers as O
import pickle, itertools
logging.disable(logging.CRITICAL)

class Snap(Observer):
    """State of the world at the beginning of the steps."""
    def __init__(self, s, more=None):
        Observer.__init__(self)
        self.s, self.more = s, more
        self.ticks = lambda k: 0.
    def init(self, world, timeline):
        self.out, self.wild, self.some = [], False, False
        self.spent = [0.]
        Clock.now += self.ticks(0)
    def look(self):
        """Incompatible constraints make worlds explode: nothing is claimed about these motions here."""
        if not self.some: return False
        if self.s.w.ndof and not abs(self.s.w.gvel).max() < 1e3: self.wild = True
        for o in self.s.conobj:
            if o.is_enabled() and not abs(numpy.asarray(o.gforce)).max() < 1e6: self.wild = True
        return self.wild
    def update(self, dt):
        self.some = True
        self.look()
        self.spent.append(self.ticks(len(self.spent)))
        Clock.now += self.spent[-1]
        e = dict(t=num(self.s.w.current_time), q=self.s.q(), v=self.s.v())
        if self.more: e.update(self.more())
        self.out.append(e)
    def finish(self): pass

class Energy(object):
    """The lists of an energy monitor, as a recorder."""
    def __init__(self): self.o = O.EnergyMonitor()
    def lists(self): return (self.o.time, self.o.kinetic_energy, self.o.potential_energy, self.o.mechanichal_energy)
class Perf(object):
    """The summary of a performance monitor, once there is something to sum up."""
    def __init__(self):
        self.o, self.n = O.PerfMonitor(), 0
        f = self.o.init
        def init(world, timeline):
            self.n = len(timeline) - 1
            return f(world, timeline)
        self.o.init = init
    def lists(self):
        if not self.n: return ([],)
        t = self.o.get_summary()
        return ([[float(re.search(r'%s computation time \(s\): *([-+.\deE]+)' % x, t).group(1)) for x in ('total', 'min', 'mean', 'max')]],)
class Rec(object):
    def __init__(self, o): self.o = o
    def lists(self): return (self.o.get_record(),)
def values(lists):
    n = max(len(l) for l in lists)
    if any(len(l) != n for l in lists): return [['lengths']]
    if len(lists) == 1: return [[] if x is None else num(x) if numpy.size(x) else ['empty'] for x in lists[0]]
    return [num([l[k] for l in lists]) for k in range(n)]

def records(spec):
    s = Stepped(spec)
    c = s.head()
    frames = [s.frame(f) for f in spec.get('frames', ())]
    heads = [s.head_frame(f) for f in spec.get('frames', ())]
    recs, desc = [], []
    for x in spec['recorders']:
        t = x['t']
        h = dict(t=t)
        if t in ('gpos', 'gvel'):
            o = (O.RecordJointGpos if t == 'gpos' else O.RecordJointGvel)(s.joints[x['j']-1])
            h['j'] = x['j']
        elif t in ('pose', 'twist'):
            o = (O.RecordFramePose if t == 'pose' else O.RecordFrameTwist)(frames[x['f']-1])
            h['frame'] = heads[x['f']-1]
        elif t == 'force':
            o = O.RecordConstForce(s.conobj[x['c']-1])
            h['c'] = x['c']
        elif t == 'distance':
            o = O.RecordDistance(s.shapes[x['s'][0]-1], s.shapes[x['s'][1]-1])
            h['s'] = x['s']
        elif t == 'com':
            o = O.RecordCoMPosition([s.bodies[b] for b in x['bodies']])
            h['bodies'] = x['bodies']
        desc.append(h)
        recs.append(Energy() if t == 'energy' else Perf() if t == 'perf' else Rec(o))
    c['recorders'] = desc
    def more():
        return dict(con=[dict(gf=num(o.gforce), jac=mat(o.jacobian), act=bool(o.is_active()), on=True) if o.is_enabled() else dict(on=False, act=False) for o in s.conobj])
    snap = Snap(s, more if s.conobj else None)
    snap.ticks = lambda k: [3.25, .5, 1., .125, 2.][(k + spec.get('tick', 0)) % 5]
    ev, kept = [], []
    c['ev'] = ev
    now = [[] for r in recs]
    for op in spec['ops']:
        k = op['op']
        e = {'op': k}
        try:
            if k == 'sim':
                obs = [snap] + [r.o for r in recs]
                if op.get('last'): obs.reverse()
                try: simulate(s.w, op['tl'], obs)
                except numpy.linalg.LinAlgError: break
                except Exception:
                    if snap.look(): break
                    raise
                if snap.look(): break
                e['n'] = len(op['tl']) - 1
                # the monitors which come before only see the time of the steps before
                e['spent'] = num(snap.spent[:-1] if op.get('last') else snap.spent[1:])
                if op.get('last') and e['n']: e['spent'][0] = num(snap.ticks(0))
                e['states'] = snap.out
                e.update(s.masses())
                now = [values(r.lists()) for r in recs]
                e['rec'] = now
            elif k == 'poke':
                s.set(op['q'], op['v'])
                if op.get('remass'): s.remass(op['remass'])
                if op.get('update'):
                    s.w.update_dynamic()
                    try: s.w.update_controllers(.01)
                    except numpy.linalg.LinAlgError: pass
            elif k == 'keep': kept.append([r.lists() for r in recs])
            e['now'] = [values(r.lists()) for r in recs]
            e['kept'] = [[values(l) for l in x] for x in kept]
        except Exception as x:
            if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
            ev.append({'op': 'crash', 'res': why(x)})
            break
        ev.append(e)
    return c

# ----------------------------------------------------------------- loggers
NONE = '<none>'
def name(o): return NONE if o.name is None else o.name
def naming(s):
    w = s.w
    bodies = list(w.iterbodies())
    subs = [f for f in w.itersubframes()]
    joints = list(w.iterjoints())
    at = lambda f: ['b', bodies.index(f) + 1] if f in bodies else ['s', subs.index(f) + 1]
    return dict(jn=[name(j) for j in joints], bn=[name(b) for b in bodies], sn=[name(f) for f in subs],
                f1=[at(j.frames[1]) for j in joints], mv=[subs.index(f) + 1 for f in w.itermovingsubframes()])
def snapshot(s):
    w = s.w
    return dict(t=float(w.current_time).hex(), gvel=fhex(w.gvel), gforce=fhex(w.gforce), mass=fhex(w.mass), admittance=fhex(w.admittance), nleffects=fhex(w.nleffects),
                q=[fhex(j.gpos) for j in w.iterjoints()], v=[fhex(j.gvel) for j in w.iterjoints()], jpose=[fhex(j.pose) for j in w.iterjoints()],
                bpose=[fhex(b.pose) for b in w.iterbodies()], spose=[fhex(f.pose) for f in w.itersubframes()], sbpose=[fhex(f.bpose) for f in w.itersubframes()])
def tree(root):
    """Group -> key -> the values of each step."""
    out = {}
    for g in root:
        if g == 'timeline': continue
        out[g] = [dict(key=k, val=[fhex(x) for x in numpy.asarray(root[g][k])], shape=list(numpy.shape(root[g][k]))) for k in root[g]]
    return dict(groups=sorted(out), data=[out[g] for g in sorted(out)], time=[float(x).hex() for x in numpy.asarray(root['timeline'])])

def logger_event(s, op, dir, files):
    import h5py
    L = op['L']
    e = dict(op='log', L={k: bool(L[k]) for k in ('st', 'tr', 'mo', 'flat')}, W=naming(s), n=len(op['tl']) - 1)
    a = dict(save_transforms=L['tr'], save_state=L['st'], save_model=L['mo'], flat=L['flat'])
    if op['fmt'] == 'pickle':
        path = os.path.join(dir, 'log%d.pkl' % next(files))
        o = O.PickleLogger(path, protocol=op.get('protocol', 0), **a)
    elif op['fmt'] == 'hdf5':
        path = os.path.join(dir, op.get('file') or 'log%d.h5' % next(files))
        o = O.Hdf5Logger(path, group=op.get('group', '/'), **a)
    try:
        snaps = []
        class S(Snap):
            def update(self, dt):
                self.some = True
                self.look()
                snaps.append(snapshot(self.s))
        snap = S(s)
        obs = [o, snap]
        if op.get('last'): obs.reverse()
        simulate(s.w, op['tl'], obs)
    except core.DuplicateNameError:
        e['res'] = 'refused'
        return e
    except Exception:
        if snap.look(): return None
        raise
    finally:
        if op['fmt'] == 'hdf5' and e.get('res') == 'refused': o._file.close()
    e['res'], e['V'], e['snaps'] = 'ok', naming(s), snaps
    if op['fmt'] == 'pickle':
        with open(path, 'rb') as f: e['file'] = tree(pickle.load(f))
    else:
        with h5py.File(path, 'r') as f:
            r = f
            for g in op.get('group', '/').split('/'):
                if g: r = r[g]
            # the groups of the user in the root are not the ones of the logger
            e['file'] = tree({k: r[k] for k in r if k not in op.get('others', ())})
    return e

def loggers(spec):
    s = Stepped(spec)
    c = {'ev': []}
    def rename(l, names):
        for o, n in zip(l, names): o.name = None if n == NONE else n
    if spec.get('moving'): s.w.register(MovingSubFrame(s.bodies[1], pose6(spec['moving'])))
    if spec.get('names'):
        rename(s.joints, spec['names']['j'])
        rename(s.bodies, spec['names']['b'])
        rename([f for f in s.w.itersubframes()], spec['names']['s'])
    dir = os.path.join(os.environ['VERIF_SCRATCH'], 'logs')
    os.makedirs(dir, exist_ok=True)
    import shutil
    try:
        files = itertools.count()
        for op in spec['ops']:
            if op['op'] == 'poke': s.set(op['q'], op['v'])
            else:
                try: e = logger_event(s, op, dir, files)
                except numpy.linalg.LinAlgError: break
                if e is None: break
                c['ev'].append(e)
                if e['res'] == 'refused': break
    except Exception as x:
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
        c['ev'].append({'op': 'crash', 'res': why(x)})
    finally: shutil.rmtree(dir)
    return c

def case(spec):
    try: return loggers(spec) if spec['kind'] == 'log' else records(spec)
    except Exception as x:
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
        return {'ev': [{'op': 'crash', 'res': why(x)}]}
main(case)
