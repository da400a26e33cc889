"""Common parts of the drivers, which run the implementation and record what it
does (run under the interpreter of the repository, with /repo on PYTHONPATH)."""
import json, logging, os, random, sys, traceback, warnings
warnings.simplefilter('ignore')
import numpy
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'bin'))
from fix import enc, num
numpy.seterr(all='ignore')

def main(case):
    """Run the cases of the job given by bin/check.py."""
    with open(sys.argv[1]) as f: job = json.load(f)
    global JOB
    cases = []
    for spec in job['cases']:
        try: cases.append(case(spec))
        except Exception as e:
            cases.append({'exc': why(e)})
            if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
    with open(sys.argv[2], 'w') as f: json.dump({'cases': cases}, f)

def why(e):
    """Description of an exception: its type, and where it was raised."""
    tb = traceback.extract_tb(e.__traceback__)
    where = ''
    for fr in tb:
        if 'arboris' in fr.filename: where = ' at %s:%d' % (os.path.basename(fr.filename), fr.lineno)
    return '%s%s: %s' % (type(e).__name__, where, str(e)[:200])

def fhex(x):
    """Exact text of a vector or matrix of floats (compared for equality)."""
    return [float(v).hex() for v in numpy.asarray(x, dtype=float).ravel()]

def dofs(d):
    """Normal form of dof selections: the list of the indices."""
    if isinstance(d, slice):
        return list(range(d.start or 0, d.stop, d.step or 1))
    return [int(i) for i in d]
