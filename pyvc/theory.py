"""spec-level functions with their defining axioms"""
import z3
from .core import *
from .seq import *
from . import seq as seqm

def be_number(b):
    """big-endian value of a byte sequence"""
    b = seqm.coerce(b)
    n = 0
    for x in b.items(): n = append_digit(n, x)
    return n

def gen_sum(it, start):
    raise Unsupported("sum over a symbolic list")

def real_round(x, nd):
    """round(x, nd): the float nearest to the decimal nearest to x"""
    f = 10 ** nd
    k = sround_half_even(mkreal(x.e * f))
    return rounded(zr(k) / f)

def log_model(x, b=None):
    """math.log(x, b) for an integer base: a fresh real, ordered against the powers of the base (all powers up to 2**64
    of a concrete base, the first few of a symbolic one); rounding is not modelled"""
    if b is None or not intlike(b): raise Unsupported("math.log with this base")
    if truth(mkbool(zr(x) <= 0)) or truth(mkbool(zr(b) <= 0)): raise ValueError("math domain error")
    if truth(mkbool(zi(b) == 1)): raise ZeroDivisionError("division by zero")
    c = ctx()
    L = z3.Real(c.fresh_name('log'))
    e = 0
    p = 1
    if is_sym(b) and c.scratch.get('powers'):
        # L <= n exactly when x <= b**n, for the whole number n that L rounds up to
        n = c.fresh_int('log up')
        P, B, X = POW(zi(b), n), zi(b), zi(x)
        c.add_float(z3.And(n - 1 < L, L <= n, P >= X, z3.Implies(X >= 1, n >= 0), z3.Implies(n >= 1, z3.And(P == B * POW(B, n - 1), POW(B, n - 1) < X, POW(B, n - 1) >= 1)), z3.Implies(n == 0, P == 1)))
        return Log(L)
    while e <= 3 if is_sym(b) else p <= 2 ** 64:
        c.add_float(z3.And((zr(x) <= zr(p)) == (L <= e), (zr(x) >= zr(p)) == (L >= e)))
        e += 1
        p = p * b
    return Log(L)
