"""Run TLC."""
import os, re, subprocess, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, 'spec')
BUILD = os.path.join(HERE, 'build')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class Result(object): pass

def tlc(module, cfg, workdir, env=None, overrides=True, workers=4, args=(), timeout=800, heap='3g', depth_first=False):
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4', '-Xmx' + heap, '-Xss64m',
           '-Djava.io.tmpdir=' + workdir,
           '-DTLA-Library=' + SPEC]
    ov = 'tlc2.overrides.TLCOverrides'
    if overrides: ov += ':FixOverrides'
    cmd += ['-Dtlc2.overrides.TLCOverrides=' + ov, '-cp', JARS + ':' + BUILD, 'tlc2.TLC',
            '-workers', str(workers), '-metadir', os.path.join(workdir, 'meta_%s_%d' % (module, time.time_ns())),
            '-noGenerateSpecTE', '-config', cfg] + list(args) + [os.path.join(SPEC, module + '.tla')]
    t = time.time()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=workdir, timeout=timeout,
                       text=True, errors='replace')
    r = Result()
    r.cmd, r.rc, r.out, r.wall = ' '.join(cmd), p.returncode, p.stdout, time.time() - t
    r.finished = 'Model checking completed. No error has been found.' in r.out
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', r.out)
    r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return r
