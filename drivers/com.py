"""Simulations with viewers at the other end of sockets (O05)."""
from lib import *
import contextlib, io, socket, threading, time
from ports import probe, base
from arboris.core import World, simulate
from arboris.observers import SocketCom
CLOSE = b'close_connection'
class Com(SocketCom):
    def init(self, world, timeline):
        SocketCom.init(self, world, timeline)
        self.ready = self.conn is not None
        self.n = 0
    def update(self, dt):
        self.n += 1
        self.log.append((self.key, self.n))
        try: self.conn.sendall(self.text(self.n))
        except (OSError, AttributeError): pass
    def text(self, n): return ('m%d %s' % (n, 'x'*self.size)).encode() + b'\n'

class Viewer(threading.Thread):
    def __init__(self, port, plan, com):
        threading.Thread.__init__(self, daemon=True)
        self.port, self.plan, self.com, self.data = port, plan, com, bytearray()
        self.up = threading.Event()
        self.start()
    def run(self):
        time.sleep(self.plan['delay'])
        end = time.time() + 25
        while time.time() < end:
            s = socket.socket()
            try: s.connect(('127.0.0.1', self.port))
            except OSError:
                s.close()
                time.sleep(.002)
                continue
            break
        else: return
        s.settimeout(25)
        self.up.set()
        with s:
            time.sleep(self.plan.get('pause', 0.))
            while True:
                if self.plan['kind'] == 'drop' and len(self.got()) >= self.plan['after']: return
                if self.data.endswith(CLOSE): s.settimeout(.05)
                try: d = s.recv(1 << 16)
                except OSError: return
                if not d: return
                self.data += d
    def got(self):
        """The messages of the data."""
        l = bytes(self.data).split(b'\n')
        r = []
        for x in l[:-1]:
            k = x.split(b' ')
            r.append(k[0][1:].decode() if k[0][:1] == b'm' and k[0][1:].isdigit() and self.com.text(int(k[0][1:])) == x + b'\n' else repr(x[:40]))
        # a viewer which leaves may have seen a part of the last message
        if l[-1] == CLOSE or l[-1] and self.plan['kind'] != 'drop': r.append(CLOSE.decode() if l[-1] == CLOSE else repr(l[-1][:40]))
        return r

def case(spec):
    b, log, busy = base(), [], []
    try:
        for k in spec['busy']:
            s = socket.socket()
            busy.append(s)
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind(('127.0.0.1', b + k))
            s.listen(1)
        coms = []
        for k, c in enumerate(spec['coms']):
            x = Com(port=b + c['req'], timeout=.05 if c['plan']['kind'] == 'never' else c.get('timeout', 20), **({'name': 'com%d' % k} if c['named'] else {}))
            x.key, x.log, x.size = k, log, c['size']
            coms.append(x)
        viewers = [Viewer(x.port, c['plan'], x) if c['plan']['kind'] != 'never' else None for x, c in zip(coms, spec['coms'])]
        # the slow ones come first
        for v in viewers:
            if v and 'pause' in v.plan: v.up.wait(5)
        w = World()
        res = {}
        def run():
            try: simulate(w, [.01*k for k in range(spec['steps'] + 1)], dict(enumerate(coms)) if spec['dict'] else coms)
            except Exception as e: res['why'] = why(e)
        with contextlib.redirect_stdout(io.StringIO()):
            t = threading.Thread(target=run, daemon=True)
            t.start()
            t.join(60)
        if 'why' in res: return {'ev': [dict(op='crash', res=res['why'])]}
        e = dict(op='com', ended=not t.is_alive(), steps=spec['steps'], busy=spec['busy'], sent=[], coms=[])
        if not e['ended']: return {'ev': [e]}
        for v in viewers:
            if v: v.join(30)
        # the calls: all the observers, at each step
        for k in range(spec['steps']):
            if log[k*len(coms):(k + 1)*len(coms)] == [(j, k + 1) for j in range(len(coms))]: e['sent'].append(str(k + 1))
        for x, c, v in zip(coms, spec['coms'], viewers):
            p = x.port
            rel = probe(p)
            e['coms'].append(dict(req=c['req'], port=p - b, plan=c['plan'], connected=x.ready, got=v.got() if v else [], released=rel))
        return {'ev': [e]}
    except Exception as x:
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
        return {'ev': [dict(op='crash', res=why(x))]}
    finally:
        for s in busy: s.close()
main(case)
