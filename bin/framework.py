"""Model checking of a design, execution of the implementation, validation of
the recorded traces by TLC, evidence.  See DESIGN.md."""
import concurrent.futures, json, os, random, re, shutil, subprocess, sys, tempfile, time
from tlcrun import tlc, SPEC, HERE

PY = '/opt/venv/bin/python'
if not os.path.exists(PY): PY = 'python3'
REPO = os.environ.get('VERIF_REPO', '/repo')
SHARDS = 7

class Broken(Exception):
    """The machinery failed (not a verdict)."""

def strings(out):
    """The strings printed by PrintT, decoded."""
    res = []
    for line in out.splitlines():
        if line.startswith('"') and line.endswith('"'):
            try: res.append(json.loads(line))
            except ValueError: res.append(line[1:-1])
    return res

class Check(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.workdir = tempfile.mkdtemp(prefix='verif_%s_' % prop)
        self.states = self.transitions = self.traces = self.events = 0
        self.design_states = self.trace_states = 0
        self.models, self.samples, self.assumptions, self.failures = [], [], [], []
        self.known_hits = set()
        self.exhaustive = []
        self.parts = {}
        self.rng = random.Random('%s/%s' % (seed, prop))

    # ----------------------------------------------------------------- design
    def design(self, module, cfg=None, env=None, workers=8, args=(), timeout=700, overrides=True, heap='4g', what=''):
        """Check a model; returns the strings it printed."""
        r = tlc(module, os.path.join(SPEC, (cfg or module) + '.cfg'), self.workdir, env=env, workers=workers,
                args=args, timeout=timeout, overrides=overrides, heap=heap)
        sim = '-simulate' in args
        if sim:
            m = re.findall(r'The number of states generated: (\d+)', r.out)
            if not m or 'Error' in r.out: raise Broken('%s: %s' % (module, r.out[-3000:]))
            r.generated = r.distinct = int(m[-1])
        elif not r.finished:
            raise Broken('%s: %s' % (module, r.out[-3000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.design_states += r.distinct
        m = dict(model=module, mode='simulation' if sim else 'exhaustive', constants=env or {},
                 distinct_states=r.distinct, states_generated=r.generated, wall_s=round(r.wall, 2))
        if what: m['checked'] = what
        self.models.append(m)
        return strings(r.out)

    def behaviours(self, printed, tag='B '):
        # in an order which does not depend on the workers of TLC
        return [json.loads(s[len(tag):]) for s in sorted(set(printed)) if s.startswith(tag)]

    # -------------------------------------------------------------- execution
    def _drive(self, driver, specs, k):
        job = os.path.join(self.workdir, 'job_%s_%s.json' % (driver, k))
        out = os.path.join(self.workdir, 'trace_%s_%s.json' % (driver, k))
        with open(job, 'w') as f: json.dump(dict(prop=self.prop, seed=self.seed, tier=self.tier, cases=specs), f)
        d = os.path.join(self.workdir, 'run_%s_%s' % (driver, k))
        os.makedirs(d, exist_ok=True)
        env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': d, 'PYTHONPATH': REPO, 'PYTHONHASHSEED': '0',
               'PYTHONDONTWRITEBYTECODE': '1', 'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'MPLBACKEND': 'Agg',
               'MPLCONFIGDIR': os.path.join(d, 'mpl'), 'LANG': 'C.UTF-8', 'TMPDIR': d, 'VERIF_SCRATCH': d}
        cmd = [PY, '-W', 'ignore', '-X', 'pycache_prefix=' + os.path.join(self.workdir, 'pyc'),
               os.path.join(HERE, 'drivers', driver + '.py'), job, out]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=d, text=True,
                               errors='replace', timeout=2400 if self.thorough else 400)
        except subprocess.TimeoutExpired:
            return None
        if p.returncode != 0: raise Broken('driver %s: %s' % (driver, p.stdout[-3000:]))
        return out

    def _shard(self, driver, module, cfg, specs, k, env, heap):
        out = self._drive(driver, specs, k)
        if out is None:
            return dict(fails=[(0, 0, ['the implementation does not terminate'])], states=0, cases=None, wall=0, events=0)
        with open(out) as f: cases = json.load(f)['cases']
        if len(cases) != len(specs): raise Broken('driver %s lost cases' % driver)
        expected = sum(1 + (len(c['ev']) if 'ev' in c else 1) for c in cases)
        e = dict(env or {}, TRACE=out, PROP=self.prop)
        r = tlc(module, os.path.join(SPEC, (cfg or module) + '.cfg'), self.workdir, env=e, workers=2,
                timeout=3000 if self.thorough else 700, heap=heap)
        fails = []
        for s in strings(r.out):
            if s.startswith('FAIL '):
                i, l, names = json.loads(s[5:])
                fails.append((i - 1, l, names))
        if not r.finished or r.distinct != expected:
            m = re.search(r'Error: (?:Attempted|Evaluating|In evaluat|The first argument|The second argument|Overridden|A non-function|TLC threw|Current state|Cannot|The exception|.*attempt)', r.out)
            if not m and not fails: raise Broken('%s: %d states, expected %d\n%s' % (module, r.distinct, expected, r.out[-3500:]))
            if m and not fails:
                # which cases cannot be evaluated ?
                if len(cases) == 1:
                    fails = [(0, 0, ['the recorded data are not of the type of the specification: ' + r.out[r.out.find('Error:'):][:600]])]
                else:
                    sub = []
                    h = len(specs) // 2
                    a = self._shard(driver, module, cfg, specs[:h], str(k) + 'a', env, heap)
                    # one such case is enough
                    b = dict(fails=[]) if a['fails'] else self._shard(driver, module, cfg, specs[h:], str(k) + 'b', env, heap)
                    fails = a['fails'] + [(i + h, l, n) for i, l, n in b['fails']]
                    if not fails: raise Broken('%s: %s' % (module, r.out[-3500:]))
        ev = sum(len(c['ev']) if 'ev' in c else 1 for c in cases)
        return dict(fails=fails, states=r.distinct, generated=r.generated, cases=cases, wall=r.wall, events=ev)

    def conform(self, driver, module, specs, cfg=None, env=None, label='', heap='2g', samples=1, shards=None):
        """Run the specs on the implementation and validate the traces."""
        if not specs: raise Broken('no case')
        for k, s in enumerate(specs): s.setdefault('seed', '%s/%s/%s/%d' % (self.seed, self.prop, label, k))
        n = min(shards or SHARDS, len(specs))
        groups = [specs[k::n] for k in range(n)]
        t = time.time()
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            res = list(ex.map(lambda a: self._shard(driver, module, cfg, a[1], '%s%d' % (label, a[0]), env, heap), enumerate(groups)))
        nf = 0
        known = dict((k[7:].replace('_', ' '), w) for k, w in self.known() if k.startswith('clause:'))
        for g, r in zip(groups, res):
            self.trace_states += r['states']
            self.states += r['states']
            self.transitions += r.get('generated', 0)
            self.events += r['events']
            self.traces += len(g)
            seen = set()
            for i, l, names in r['fails']:
                # clauses which are known not to hold; the others of the case matter as usual
                self.known_hits |= set(n for n in names if n in known)
                names = [n for n in names if n not in known]
                if not names or i in seen: continue
                seen.add(i)
                nf += 1
                self.failures.append(dict(driver=driver, module=module, cfg=cfg, env=env, spec=g[i], event=l, clauses=names, label=label,
                                          case=r['cases'][i] if r['cases'] else None))
        for g, r in zip(groups, res):
            if r['cases'] and len(self.samples) < 4:
                for k in range(min(samples, len(g))):
                    self.samples.append(self._sample(label, g[k], r['cases'][k]))
                break
        self.parts[label or driver] = dict(traces=len(specs), events=sum(r['events'] for r in res), failing=nf,
                                           trace_spec=module, wall_s=round(time.time() - t, 2))
        return [c for r in res if r['cases'] for c in r['cases']]

    def _sample(self, label, spec, case):
        s = json.dumps(dict(part=label, case=spec), default=str)
        o = json.dumps(case)
        return dict(part=label, input=json.loads(s)['case'] if len(s) < 4000 else s[:4000] + '...',
                    recorded=json.loads(o) if len(o) < 3000 else o[:3000] + '...')

    # ---------------------------------------------------------------- verdict
    def known(self):
        """The findings of the property: (key, what); a key is that of a case, or clause:name_of_the_clause."""
        known = []
        path = os.path.join(HERE, 'known_findings.txt')
        for line in open(path) if os.path.exists(path) else ():
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == self.prop: known.append((m.group(2), m.group(3)))
        return known

    def finish(self):
        known = self.known()
        new, old = [], set(k for k in known if k[0][:7] == 'clause:' and k[0][7:].replace('_', ' ') in self.known_hits)
        for f in self.failures:
            key = self.key(f)
            hit = [k for k in known if k[0] == key]
            if hit: old.add(hit[0])
            else: new.append(f)
        for k in sorted(old): print('KNOWN-FINDING: property=%s %s' % (self.prop, k[1]))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   design_states=self.design_states, trace_states=self.trace_states, trace_events=self.events,
                   models=self.models, parts=self.parts, samples=self.samples)
        ev = dict(property=self.prop, tier=self.tier, seed=int(self.seed), level='model_checking', coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        d = os.path.join(HERE, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        replays = os.path.join(d, 'replay')
        if new:
            os.makedirs(replays, exist_ok=True)
            for n, f in enumerate(new[:5]):
                p = os.path.join(replays, '%s-%d.json' % (self.prop, n))
                with open(p, 'w') as h: json.dump(dict(f, property=self.prop, seed=self.seed, tier=self.tier), h)
                print('VIOLATION property=%s replay=%s' % (self.prop, p))
                print('  %s case %s event %s: %s' % (f['label'], json.dumps(f['spec'])[:300], f['event'], '; '.join(f['clauses'])[:600]))
            if len(new) > 5: print('  and %d other failing cases' % (len(new) - 5))
            return 1
        print('OK property=%s tier=%s: %d states (%d of the design), %d traces, %.1f s' % (
            self.prop, self.tier, self.states, self.design_states, self.traces, time.time() - self.t0))
        return 0

    def key(self, f):
        return '%s/%s' % (f['label'], f['spec'].get('key', f['spec'].get('seed')))

    def close(self):
        shutil.rmtree(self.workdir, ignore_errors=True)
