"""URDF files of descriptions, with the freedom which XML leaves."""
import random

def esc(r, s):
    out = ''
    for c in s:
        if c in '&<"': out += {'&': r.choice(['&amp;', '&#38;']), '<': '&lt;', '"': '&quot;'}[c]
        elif ord(c) > 126: out += '&#%d;' % ord(c)
        elif c == '>' and r.random() < .5: out += '&gt;'
        elif c == "'" and r.random() < .5: out += '&apos;'
        else: out += c
    return out
def fl(r, x):
    s = repr(float(x))
    if s.endswith('.0') and r.random() < .4: s = s[:-2]
    return s
def vec(r, v): return r.choice(['', '', ' ']) + r.choice([' ', ' ', '  ']).join(fl(r, x) for x in v) + r.choice(['', '', ' '])
class Writer(object):
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.pretty = self.r.random() < .7
        self.comments = self.r.random() < .4
    def elem(self, name, attrs=(), kids=(), depth=1, mix=True):
        r = self.r
        attrs = [a for a in attrs if a[1] is not None]
        if r.random() < .5: r.shuffle(attrs)
        kids = list(kids)
        if mix and r.random() < .5: r.shuffle(kids)
        s = '<' + name + ''.join(' %s=%s' % (k, '"%s"' % esc(r, v) if "'" in v or r.random() < .8 else "'%s'" % esc(r, v)) for k, v in attrs)
        nl = '\n' + r.choice([' ', '  ', '\t'])*depth if self.pretty else ''
        if self.comments and r.random() < .2: kids.insert(r.randint(0, len(kids)), '<!-- a <comment> -->')
        if not kids: return s + r.choice(['/>', ' />', '></%s>' % name])
        return s + '>' + ''.join(nl + k for k in kids) + (nl[:-1] if nl else '') + '</%s>' % name
    def origin(self, o, d):
        if o is None: return []
        return [self.elem('origin', [('xyz', None if o['xyz'] is None else vec(self.r, o['xyz'])), ('rpy', None if o['rpy'] is None else vec(self.r, o['rpy']))], depth=d)]
    def geometry(self, g, d):
        r = self.r
        t = g['t']
        if t == 'box': a = [('size', vec(r, g['size']))]
        elif t == 'sphere': a = [('radius', fl(r, g['radius']))]
        elif t == 'cylinder': a = [('radius', fl(r, g['radius'])), ('length', fl(r, g['length']))]
        else: a = [('filename', g['filename']), ('scale', None if g['scale'] is None else vec(r, g['scale']))]
        return [self.elem('geometry', kids=[self.elem(t, a, depth=d + 1)], depth=d)]
    def material(self, m, d):
        if m is None: return []
        k = []
        if m['color'] is not None: k.append(self.elem('color', [('rgba', vec(self.r, m['color']))], depth=d + 1))
        if m['texture'] is not None: k.append(self.elem('texture', [('filename', m['texture'])], depth=d + 1))
        return [self.elem('material', [('name', m['name'])], k, depth=d)]
    def nums(self, name, d, keys, x): return [] if x is None else [self.elem(name, [(k, None if x[k] is None else fl(self.r, x[k])) for k in keys], depth=d)]
    def element(self, e):
        r = self.r
        if e['k'] == 'material': return self.material(e, 2)[0]
        if e['k'] == 'link':
            k = []
            if e['visual'] is not None: k.append(self.elem('visual', kids=self.geometry(e['visual']['geometry'], 3) + self.origin(e['visual']['origin'], 3) + self.material(e['visual']['material'], 3), depth=2))
            if e['collision'] is not None: k.append(self.elem('collision', kids=self.geometry(e['collision']['geometry'], 3) + self.origin(e['collision']['origin'], 3), depth=2))
            i = e['inertial']
            if i is not None:
                x = self.origin(i['origin'], 3)
                if i['mass'] is not None: x.append(self.elem('mass', [('value', fl(r, i['mass']))], depth=3))
                if i['I'] is not None: x.append(self.elem('inertia', [(n, fl(r, v)) for n, v in zip(('ixx', 'ixy', 'ixz', 'iyy', 'iyz', 'izz'), i['I'])], depth=3))
                k.append(self.elem('inertial', kids=x, depth=2))
            return self.elem('link', [('name', e['name'])], k)
        if e['k'] == 'joint':
            k = [self.elem('parent', [('link', e['parent'])]), self.elem('child', [('link', e['child'])])] + self.origin(e['origin'], 2)
            if e['axis'] is not None: k.append(self.elem('axis', [('xyz', vec(r, e['axis']))]))
            k += self.nums('limit', 2, ('lower', 'upper', 'effort', 'velocity'), e['limits'])
            k += self.nums('dynamics', 2, ('damping', 'friction'), e['dynamics'])
            k += self.nums('safety_controller', 2, ('soft_lower_limit', 'soft_upper_limit', 'k_position', 'k_velocity'), e['safety'])
            k += self.nums('calibration', 2, ('rising', 'falling'), e['calibration'])
            m = e['mimic']
            if m is not None: k.append(self.elem('mimic', [('joint', m['joint'])] + [(n, None if m[n] is None else fl(r, m[n])) for n in ('multiplier', 'offset')]))
            return self.elem('joint', [('name', e['name']), ('type', e['type'])], k)
        if e['k'] == 'transmission': return self.elem('transmission', [('name', 't')], [self.elem('joint', [('name', 'x')])])
        return self.elem('gazebo', [('reference', 'y')], [self.elem('link', [('name', 'x')])])
    def robot(self, d):
        r = self.r
        s = ['', '<?xml version="1.0"?>', '<?xml version="1.0" encoding="utf-8"?>\n'][r.randint(0, 2)]
        if self.comments and s: s += '<!-- before -->' 
        return s + self.elem('robot', [('name', d['name'])], [self.element(e) for e in d['elements']], depth=1, mix=False) + '\n'
