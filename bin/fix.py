"""Encoding of floats as the fixed-point numbers of spec/Fix.tla."""
from fractions import Fraction
import math
ONE = 1 << 60

def enc_int(i):
    """i / 2^60, None is NaN."""
    if i is None: return [2]
    if i == 0: return [0]
    s, m = (1, i) if i > 0 else (-1, -i)
    out = [s]
    while m:
        out.append(m & 32767); m >>= 15
    return out

def enc(x):
    x = float(x)
    if not math.isfinite(x): return [2]
    if x == 0.: return [0]
    m, e = math.frexp(x)            # x = m 2^e, m has 53 bits
    i = int(m * 9007199254740992.)  # exact
    e += 60 - 53
    if e >= 0: i <<= e
    else:
        h = 1 << (-e - 1) if -e > 0 else 0
        i = -((-i + h) >> -e) if i < 0 else (i + h) >> -e
    return enc_int(i)

def dec(t):
    if t[0] == 2: return float('nan')
    v = 0
    for d in reversed(t[1:]): v = v * 32768 + d
    return t[0] * v / ONE

def num(a):
    """Encode a scalar, a vector, a matrix... (anything with nested iteration)."""
    try:
        it = iter(a)
    except TypeError:
        return enc(a)
    return [num(x) for x in it]
