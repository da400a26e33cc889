#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import framework, setup
from framework import Check, Broken
import plans

def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    setup.ensure()
    c = Check(prop, tier, seed)
    try:
        if '--replay' in a:
            f = json.load(open(a[a.index('--replay') + 1]))
            c.seed = f['seed']
            c.conform(f['driver'], f['module'], [f['spec']], cfg=f['cfg'], env=f['env'], label='replay')
        else:
            plans.PLANS[prop](c)
        rc = c.finish()
    except Broken as e:
        print('ERROR: the check itself failed: %s' % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        c.close()
    sys.exit(rc)
main()
