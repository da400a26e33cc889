"""What each check does: models, behaviours to replay, traces to validate."""
import glob, importlib, os, sys
PLANS = {}
def plan(*ids):
    def d(f):
        for i in ids: PLANS[i] = f
        return f
    return d
sys.modules.setdefault('plans', sys.modules[__name__])
for p in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'plan_*.py'))):
    importlib.import_module(os.path.basename(p)[:-3])
