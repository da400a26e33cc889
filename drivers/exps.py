"""Exponentials (M03)."""
from lib import *
from numpy import array
from arboris.twistvector import exp
def case(spec):
    ev = []
    for t, s, u in spec['tw']:
        try:
            t = array(t, dtype=float)
            k = t.copy()
            e = {'f': 'exp', 't': num(t), 's': num(s), 'u': num(u), 'e': num(exp(t)), 'es': num(exp(s*t)), 'eu': num(exp(u*t)),
                 'esu': num(exp((s+u)*t)), 'en': num(exp(-t)), 'kept': bool((k == t).all())}
        except Exception as x:
            e = {'f': 'crash', 'res': why(x)}
        ev.append(e)
    return {'ev': ev}
main(case)
