"""Steps of worlds with controllers and constraints (A02, A03, T01, C01-C06)."""
from steplib import *

def case(spec):
    c = {'ev': []}
    try:
        s = Stepped(spec)
        c.update(s.head())
        c['ev'] = s.run(spec['ops'])
    except Exception as x:
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
        c['ev'].append({'op': 'crash', 'res': why(x)})
    return c
main(case)
