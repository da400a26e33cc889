from plans import plan

STRUCT_U = {
 'links': dict(nb=3, nd=[1, 0, 2], fb=[0, 1], sf=[], cf=[], cs=[], nc=0),
 'register': dict(nb=2, nd=[1, 2], fb=[0, 1, 0, 1], sf=[101, 1], cf=[[103, 104]], cs=[[1, 2]], nc=1),
 'random': dict(nb=5, nd=[1, 0, 2, 3, 6, 1, 0], fb=[0, 1, 2, 3, 1, 4, 1, 2, 0, 2], sf=[101, 1, 103, 4],
                cf=[[107, 108], [109, 110]], cs=[[2, 3], [1, 3]], nc=2),
}

def large(r):
    """A history of a world of many bodies: a chain, a star or any tree."""
    nb = r.randint(10, 18)
    nj = nb + 4
    fb = [r.randint(0, nb) for k in range(2*nb)]
    U = dict(nb=nb, nd=[r.choice([1, 1, 0, 2, 3, 6]) for k in range(nj)], fb=fb, sf=[], cf=[], cs=[], nc=0)
    on = lambda b: r.choice([b, b] + [101 + k for k, x in enumerate(fb) if x == b])
    shape = r.choice(['chain', 'star', 'star', 'any', 'comb'])
    links = []
    for k in range(1, nb + 1):
        p = dict(chain=k - 1, star=0 if r.random() < .8 else r.randrange(k), any=r.randrange(k), comb=max(0, k - 1 - k % 2))[shape]
        links.append([on(p), k, on(k)])
    hist, frames, late = [], {}, links[-2:] if r.random() < .5 else []
    def add(ls):
        while ls:
            n = r.choice([1, 1, 2, 4, 8])
            hist.append(dict(op='add', links=ls[:n]))
            for l in ls[:n]: frames[l[1]] = l
            ls = ls[n:]
            if r.random() < .15: hist.append(dict(op='init'))
    add(links[:len(links) - len(late)])
    hist.append(dict(op='init'))
    new = nb
    for k in range(r.randint(2, 8)):
        x = r.choice(['setv', 'setq', 'setv', 'step', 'replace', 'scribble', 'init'])
        if x in ('setv', 'setq'): hist.append(dict(op=x, id=r.choice(sorted(frames)), val=1))
        elif x == 'replace':
            if new == nj: continue
            new += 1
            old = r.choice(sorted(frames))
            l = frames.pop(old)
            frames[new] = [l[0], new, l[2]]
            hist.append(dict(op=x, old=old, short=r.random() < .5, links=[frames[new]]))
        else: hist.append(dict(op=x))
    add(late)
    hist.append(dict(op='init'))
    return dict(U=U, hist=hist)

@plan('S01', 'S02', 'S03', 'S04', 'S05', 'S06', 'S07')
def structure(c):
    deep = 5 if c.thorough else 4
    specs = []
    modes = {'S01': 'links', 'S02': 'links', 'S03': 'links', 'S04': 'links', 'S05': 'links', 'S06': 'register', 'S07': 'register'}
    keep = {'S02': lambda op: op['op'] == 'add', 'S03': lambda op: op['op'] == 'replace', 'S04': lambda op: op['op'] in ('init', 'replace'),
            'S05': lambda op: op['op'] in ('init', 'replace')}.get(c.prop, lambda op: True)
    for mode in ['links', 'register']:
        b = c.behaviours(c.design('MCWorldTree', env=dict(MODE=mode, MAXLEN=str(deep)), workers=1,
                                  what='tree, numbering and registration invariants; replacement preserves the other links; registrations are never undone'))
        b = [h for h in b if keep(h[-1])]
        n = 20000 if c.thorough else 1200
        if mode != modes[c.prop]: n //= 4
        if len(b) > n: b = c.rng.sample(b, n)
        specs += [dict(U=STRUCT_U[mode], hist=h) for h in b]
    b = c.behaviours(c.design('MCWorldTree', cfg='MCWorldTreeSim', env=dict(MODE='random', MAXLEN='24' if c.thorough else '16'), workers=1,
                              args=['-simulate', 'num=%d' % (3000 if c.thorough else 300), '-depth', '30', '-seed', str(c.seed)],
                              what='the same invariants along long random histories'))
    specs += [dict(U=STRUCT_U['random'], hist=h) for h in b]
    c.conform('world', 'WorldTreeTrace', specs, label='histories')
    c.conform('world', 'WorldTreeTrace', [large(c.rng) for k in range(400 if c.thorough else 30)], label='large worlds')

NAMES0 = ['a', 'a', 'b', '<none>', '<none>', '<foreign>', '']

@plan('S08')
def names(c):
    b = c.behaviours(c.design('MCNames', env=dict(SIZE='4' if c.thorough else '3', MAXLEN='6' if c.thorough else '5'), workers=1,
                              what='indexing, searching and dictionary agree; naming preserves the names'))
    n = 20000 if c.thorough else 2500
    if len(b) > n: b = c.rng.sample(b, n)
    specs = [dict(names=NAMES0, hist=h) for h in b]
    r = c.rng
    for k in range(3000 if c.thorough else 300):
        names = [r.choice(['a', 'b', 'c', 'd', '', '<none>', '<none>', '<foreign>', 'a b', '\u00e9', '0']) for i in range(r.randint(1, 9))]
        h = [dict(op='new', objs=[r.randint(1, len(names)) for i in range(r.randint(0, 6))])]
        h.append(dict(op='extend', objs=[r.randint(1, len(names)) for i in range(r.randint(0, 3))]))
        if all(names[o - 1] != '<foreign>' for e in h for o in e['objs']):
            h.append(dict(op='nameall', check=r.random() < .7, iter=r.random() < .5))
        specs.append(dict(names=names, hist=h))
    c.conform('names', 'NamesTrace', specs, label='lists')
    c.conform('names', 'NamesTrace', [dict(checks=[r.random() < .5 for i in range(2)]) for k in range(2000 if c.thorough else 300)], label='worlds')
