"""pyvc core: path exploration, obligations, symbolic scalars.

The verifier executes the *real* functions of /repo (their AST, mechanically instrumented by
transform.py) in CPython on symbolic values.  Every branch on a symbolic condition becomes a split on
the path condition (z3 decides which sides are feasible); `ensure` becomes an obligation
   path condition  ==>  claim
that z3 must prove.  Paths are enumerated by re-execution with a recorded decision prefix.
"""
import time
import z3

class Control(BaseException):
    """engine control flow; not catchable by `except Exception` in the code under verification"""
class Unsupported(Control):
    """the code left the verifier's subset: nothing is decided on this path"""
class PathEnd(Control):
    """assumption failed / path pruned"""
class Budget(Control):
    pass

z3.z3.Z3_DEBUG = False      # the wrapper's own argument checks
_zc = {}
def Z(n):
    r = _zc.get(n)
    if r is None:
        r = z3.IntVal(n)
        if -1 <= n <= 70000: _zc[n] = r
    return r
CTX = None          # current Ctx

def ctx():
    if CTX is None:
        raise Unsupported("symbolic operation outside a verification run")
    return CTX

FEAS_MS = 4000
PROVE_MS = 20000

class Ctx:
    def __init__(self, prefix, deadline, shared):
        self.prefix = prefix
        self.trace = []
        self.pending = []
        self.solver = z3.Solver()
        self.solver.set('timeout', FEAS_MS)
        self.names = {}
        self.memo = {}
        self.deadline = deadline
        self.shared = shared          # Stats
        self.inputs = []              # (name, kind, value) in creation order
        self.events = []
        self.pc = []
        self.abstract = []            # reasons why a model of this path cannot be replayed
        self.bounds_hit = []
        self.bases = 0
        self.nfork = 0
        self.scratch = {}
        self.undo = []

    def fresh_name(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else f"{name}#{k}"

    def fresh_int(self, name, lo=None, hi=None):
        v = z3.Int(self.fresh_name(name))
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        return v

    def add(self, e):
        self.pc.append(e)
        self.solver.add(e)

    def tick(self):
        if time.time() > self.deadline:
            raise Budget("time budget exhausted")

    def check(self, e):
        self.shared.queries += 1
        t = time.time()
        self.solver.push()
        self.solver.add(e)
        if self.float_axioms and mentions_float(e): self.solver.add(*self.float_axioms)
        r = self.solver.check()
        self.solver.pop()
        self.shared.solver_s += time.time() - t
        return r

    @property
    def float_axioms(self):
        """facts about rounding: only given to the solver in queries that speak of floats or of rounded integers (and for
        every obligation), because mixed arithmetic slows all others down"""
        return self.scratch.get('float', ())

    def add_float(self, e):
        self.scratch.setdefault('float', []).append(e)

    def decide(self, e):
        """the truth value of e on this path, splitting the path if both are possible"""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        key = e.get_id()
        if key in self.memo:
            return self.memo[key][0]
        self.tick()
        i = len(self.trace)
        if i < len(self.prefix):
            val = self.prefix[i]
            self.trace.append(val)
        else:
            rt = self.check(e)
            if rt == z3.unsat:
                val = False
                forced = True
            else:
                rf = self.check(z3.Not(e))
                if rf == z3.unsat:
                    val, forced = True, True
                else:
                    val, forced = True, False
            if not forced:
                self.nfork += 1
                self.pending.append(self.trace + [False])
            self.trace.append(val)
        self.add(e if val else z3.Not(e))
        self.memo[key] = (val, e)       # keep e alive so that its id is not reused
        return val

    def proved(self, e, alone=False):
        """True if e follows from the path condition (no split); alone: try the facts about its own symbols first"""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        key = ('p', e.get_id())
        if key in self.memo:
            return self.memo[key][0]
        i = len(self.trace)
        if i < len(self.prefix): r = self.prefix[i]
        else: r = alone and self.proved_alone(e) or self.check(z3.Not(e)) == z3.unsat
        self.trace.append(r)
        self.memo[key] = (r, e)
        return r

    def proved_alone(self, e):
        mine = consts(e)
        fl = [f for f in self.float_axioms if consts(f) & mine]
        for f in fl: mine = mine | consts(f)
        facts = [z3.Not(e), *fl, *[p for p in self.pc if consts(p) <= mine]]
        key = tuple(f.get_id() for f in facts)
        if key in _alone: return _alone[key][0]
        s = z3.Solver()
        s.set('timeout', FEAS_MS)
        s.add(*facts)
        t = time.time()
        r = s.check()
        self.shared.queries += 1
        self.shared.solver_s += time.time() - t
        _alone[key] = (r == z3.unsat, facts)       # keeps the facts alive, so that their ids are not reused
        return r == z3.unsat

    def assume(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        self.add(e)
        if len(self.trace) >= len(self.prefix) and self.solver.check() == z3.unsat:
            raise PathEnd("assumption excluded")

    def lemma(self, fn):
        """fn() explored on all its paths from here, in a scope of its own; True if it returned True on each.
        Nothing of the scope survives; the outcome is one entry of the trace."""
        i = len(self.trace)
        if i < len(self.prefix):
            r = self.prefix[i]
            self.trace.append(r)
            return r
        sv = (self.prefix, self.trace, self.pending, self.memo, self.scratch, self.names, self.pc, self.inputs, self.bases,
              self.abstract, self.nfork)
        stack = [[]]
        ok, some = True, False
        try:
            while stack and ok:
                self.prefix, self.trace, self.pending = stack.pop(), [], []
                self.memo = dict(sv[3])
                self.scratch = {k: (v.copy() if isinstance(v, (dict, list)) else v) for k, v in sv[4].items()}
                self.names = dict(sv[5]); self.pc = list(sv[6]); self.inputs = list(sv[7]); self.bases = sv[8]
                self.abstract = list(sv[9])
                self.solver.push()
                try:
                    r = fn()
                    ok = ok and r is True
                    some = True
                except PathEnd: pass
                except Unsupported: ok = False
                except Exception: ok = False
                finally:
                    self.solver.pop()
                stack.extend(self.pending)
        finally:
            (self.prefix, self.trace, self.pending, self.memo, self.scratch, self.names, self.pc, self.inputs, self.bases,
             self.abstract, self.nfork) = sv
        r = ok and some
        self.trace.append(r)
        return r

    def choose(self, n, tag=''):
        """nondeterministic choice 0..n-1 (a split)"""
        for k in range(n - 1):
            b = z3.Bool(self.fresh_name(f"choice_{tag}"))
            if self.decide(b):
                return k
        return n - 1


def is_sym(x):
    return isinstance(x, (SInt, SBool, SReal))

def mkint(e):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)

def mkbool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)

def zi(x):
    """z3 Int of an int-like"""
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, SBool):
        return z3.If(x.e, Z(1), Z(0))
    if isinstance(x, (bool, int)):
        return Z(int(x))
    raise TypeError(f"not an integer: {type(x).__name__}")

def zr(x):
    if isinstance(x, SReal):
        return x.e
    if isinstance(x, (SInt, SBool)):
        return z3.ToReal(zi(x))
    if isinstance(x, (bool, int)):
        return z3.RealVal(int(x))
    if isinstance(x, float):
        from fractions import Fraction
        f = Fraction(x)
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    raise TypeError(f"not a number: {type(x).__name__}")

def zb(x):
    if isinstance(x, SBool):
        return x.e
    return z3.BoolVal(bool(x))

def intlike(x):
    return isinstance(x, (int, SInt, SBool))

def numlike(x):
    return isinstance(x, (int, float, SInt, SBool, SReal))

def truth(x):
    """Python truth value with splitting"""
    if isinstance(x, bool):
        return x
    if isinstance(x, SBool):
        return ctx().decide(x.e)
    if isinstance(x, SInt):
        return ctx().decide(x.e != 0)
    if isinstance(x, SReal):
        return ctx().decide(x.e != 0)
    t = type(x)
    if hasattr(t, '__bool__'):
        return bool(x)
    if hasattr(t, '__len__') and t.__module__.startswith(('ccnpy', 'pyvc')):
        return truth(t.__len__(x)) if not isinstance(t.__len__(x), (SInt,)) else truth(t.__len__(x))
    return bool(x)


class SBool:
    __slots__ = ('e', 'src')     # src: the integer this was computed from, a candidate for what it rounds to
    def __init__(self, e, src=None): self.e, self.src = e, src
    def __bool__(self): return ctx().decide(self.e)
    def __eq__(self, o):
        if isinstance(o, (bool, SBool)): return mkbool(self.e == zb(o))
        if intlike(o): return mkbool(zi(self) == zi(o))
        return False
    def __ne__(self, o): return snot(self.__eq__(o))
    def __and__(self, o):
        if isinstance(o, (bool, SBool)): return mkbool(z3.And(self.e, zb(o)))
        return NotImplemented
    __rand__ = __and__
    def __or__(self, o):
        if isinstance(o, (bool, SBool)): return mkbool(z3.Or(self.e, zb(o)))
        return NotImplemented
    __ror__ = __or__
    def __hash__(self): raise Unsupported("hash of symbolic bool")
    def __index__(self): raise Unsupported("symbolic bool used as a machine integer")
    def __add__(self, o): return mkint(zi(self) + zi(o))
    __radd__ = __add__
    def __repr__(self): return "<bool>"

def snot(x):
    if isinstance(x, SBool):
        return mkbool(z3.Not(x.e))
    return not x

def sand(*xs):
    return mkbool(z3.And(*[zb(x) for x in xs])) if xs else True

def sor(*xs):
    return mkbool(z3.Or(*[zb(x) for x in xs])) if xs else False

def simplies(a, b):
    return mkbool(z3.Implies(zb(a), zb(b)))


def _pow2(n):
    return n > 0 and (n & (n - 1)) == 0


def nonfinite(o):
    return type(o) is float and (o != o or o in (float('inf'), float('-inf')))

def sign_of(x):
    """-1, 0 or 1: stands for x in an operation with an infinite or NaN operand"""
    if truth(mkbool(zr(x) > 0)): return 1
    return -1 if truth(mkbool(zr(x) < 0)) else 0

class SInt:
    __slots__ = ('e', 'tz', 'lo8', 'byte')     # tz: known number of trailing zero bits; lo8: x if this is x << 8; byte: known to be 0..255
    def __init__(self, e, tz=0):
        self.e = e
        self.tz = tz
        self.lo8 = None
        self.byte = False
    # --- arithmetic
    def _bin(self, o, f, rf=None):
        if intlike(o): return mkint(f(self.e, zi(o)))
        if nonfinite(o): return f(sign_of(self), o)
        if isinstance(o, (float, SReal)): return rounded(f(zr(self), zr(o)))
        return NotImplemented
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o):
        from .seq import SymSeq
        if isinstance(o, (SymSeq, bytes, list, str)): return o * self if isinstance(o, SymSeq) else NotImplemented
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return mkint(-self.e)
    def __pos__(self): return self
    def __abs__(self): return mkint(z3.If(self.e >= 0, self.e, -self.e))
    def __floordiv__(self, o):
        if intlike(o): return sfloordiv(self, o)
        if isinstance(o, (float, SReal)): return mkreal(z3.ToReal(z3.ToInt(zr(sdiv(self, o)))))
        return NotImplemented
    def __rfloordiv__(self, o): return sfloordiv(o, self) if intlike(o) else NotImplemented
    def __mod__(self, o): return smod(self, o) if intlike(o) else NotImplemented
    def __rmod__(self, o): return smod(o, self) if intlike(o) else NotImplemented
    def __divmod__(self, o): return (sfloordiv(self, o), smod(self, o))
    def __truediv__(self, o): return sdiv(self, o) if numlike(o) else NotImplemented
    def __rtruediv__(self, o): return sdiv(o, self) if numlike(o) else NotImplemented
    def __pow__(self, o):
        if isinstance(o, SInt) and ctx().scratch.get('powers'): return power(self, o)
        if isinstance(o, SInt): o = concretize(o)
        if isinstance(o, int) and o >= 0:
            r = 1
            for _ in range(o): r = r * self
            return r
        raise Unsupported("power")
    def __rpow__(self, o):
        if isinstance(o, int) and ctx().scratch.get('powers'): return power(o, self)
        k = concretize(self)
        return o ** k
    # --- bits
    def __rshift__(self, o):
        if isinstance(o, SInt): o = concretize(o)
        if o < 0: raise ValueError("negative shift count")
        return divpow(self, o)
    def __rrshift__(self, o): return o >> concretize(self)
    def __lshift__(self, o):
        if isinstance(o, SInt): o = concretize(o)
        r = mkint(self.e * Z(2 ** o))
        if isinstance(r, SInt):
            r.tz = self.tz + o
            if o == 8: r.lo8 = self
        return r
    def __rlshift__(self, o): return o << concretize(self)
    def __and__(self, o):
        if isinstance(o, SInt): raise Unsupported("bitwise and of two symbolic integers")
        if not isinstance(o, int) : return NotImplemented
        if o < 0: raise Unsupported("bitwise and with a negative mask")
        if o and (o & (o + 1)) == 0: return modpow(self, o.bit_length())
        # contiguous runs of ones in the mask
        tot = Z(0)
        bit = 0
        m = o
        first = None
        while m:
            if m & 1:
                s = bit
                while m & 1:
                    m >>= 1; bit += 1
                if first is None: first = s
                tot = tot + ((self.e / Z(2 ** s)) % Z(2 ** (bit - s))) * Z(2 ** s)
            else:
                m >>= 1; bit += 1
        r = mkint(tot)
        if isinstance(r, SInt) and first: r.tz = first
        return r
    __rand__ = __and__
    def __or__(self, o): return sbitor(self, o)
    def __ror__(self, o): return sbitor(o, self)
    def __xor__(self, o): raise Unsupported("bitwise xor")
    __rxor__ = __xor__
    def __invert__(self): return mkint(-self.e - 1)
    def bit_length(self):
        c = ctx()
        k = 0
        n = abs(self)
        while not truth(mkbool(zi(n) < Z(2 ** k))):
            k += 1
            if k > 256: raise Unsupported("bit_length")
        return k
    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from .seq import SymSeq
        if isinstance(length, SInt): length = concretize(length)
        if signed: raise Unsupported("signed to_bytes")
        if not truth(sand(self >= 0, self < 2 ** (8 * length))):
            raise OverflowError("int too big to convert")
        b = [(self >> (8 * i)) & 0xFF for i in range(length)]
        if byteorder == 'big': b = b[::-1]
        return SymSeq.of('bytes', b)
    # --- comparison
    def _cmp(self, o, f):
        if intlike(o): return mkbool(f(self.e, zi(o)))
        if nonfinite(o): return f(0, o)
        if isinstance(o, (float, SReal)): return mkbool(f(zr(self), zr(o)))
        return NotImplemented
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r
    def __ne__(self, o): return snot(self.__eq__(o))
    def __bool__(self): return ctx().decide(self.e != 0)
    def __hash__(self): raise Unsupported("hash of symbolic integer")
    def __index__(self): return concretize(self)
    def __int__(self): return concretize(self)
    def __float__(self): raise Unsupported("symbolic integer to machine float")
    def __repr__(self): return "<int>"
    __str__ = __repr__
    def __format__(self, spec): return "<int>"

def concretize(x, limit=300):
    """enumerate the values of x on this path (complete: one path per value), if they are few"""
    if not isinstance(x, SInt):
        return int(x)
    c = ctx()
    e = z3.simplify(x.e)
    if z3.is_int_value(e): return e.as_long()
    # bound check
    k = ('conc', e.get_id())
    if k in c.memo: return c.memo[k][0]
    i = len(c.trace)
    if i < len(c.prefix):
        vals = c.prefix[i]
        c.trace.append(vals)
    else:
        s = c.solver
        c.shared.queries += 1
        t = time.time()
        if s.check() != z3.sat: raise PathEnd("infeasible")
        m = s.model().eval(e, model_completion=True).as_long()
        vals = [m]
        r = c.check(e != m)
        if r != z3.unsat:
            if c.check(z3.Or(e > m + limit, e < m - limit)) != z3.unsat:
                raise Unsupported("symbolic integer needed as a machine integer")
            s.push()
            s.add(e != m)
            while True:
                r = s.check()
                if r != z3.sat: break
                v = s.model().eval(e, model_completion=True).as_long()
                vals.append(v)
                s.add(e != v)
            s.pop()
            if r != z3.unsat: raise Unsupported("cannot enumerate integer")
        vals = tuple(sorted(vals))
        c.trace.append(vals)
    for n, v in enumerate(vals):
        if n == len(vals) - 1:
            c.add(e == v)
        elif not c.decide(e == v): continue
        c.memo[k] = (v, e)
        return v

# --- base-256 digits.  A term x that is shifted by whole bytes is given its digits d_0..d_7 and the rest r:
# x = r*2^64 + sum d_i*256^i, 0 <= d_i <= 255 (exists and is unique for every integer), so that shifts and masks
# by whole bytes stay linear.
def digits_of(x, want):
    """(digits, rest) known for x, or made when want is at least 2"""
    c = ctx()
    tab = c.scratch.setdefault('digits', {})
    e = z3.simplify(x.e)
    k = e.get_id()
    if k not in tab:
        if want < 2: return None
        n = 8
        ds = [SInt(c.fresh_int('digit', 0, 255)) for _ in range(n)]
        for d in ds: d.byte = True
        r = SInt(c.fresh_int('rest'))
        c.add(e == sum((zi(d) * Z(256 ** i) for i, d in enumerate(ds)), r.e * Z(256 ** n)))
        tab[k] = (e, ds, r)
    return tab[k][1:]

def from_digits(ds, r):
    """the number with these digits (least significant first); remembers them"""
    if len(ds) == 1 and isinstance(r, int) and r == 0: return ds[0]
    t = zi(r) * Z(256 ** len(ds)) + sum((zi(d) * Z(256 ** i) for i, d in enumerate(ds)), Z(0))
    y = mkint(t)
    if isinstance(y, SInt) and ds:
        ctx().scratch.setdefault('digits', {}).setdefault(y.e.get_id(), (y.e, ds, r))
    return y

def known_byte(y):
    """y is provably 0..255"""
    if isinstance(y, int): return 0 <= y <= 255
    if y.byte: return True
    return ctx().proved(z3.And(zi(y) >= 0, zi(y) <= 255))

def divpow(x, bits):
    if isinstance(x, SInt) and bits and bits % 8 == 0:
        d = digits_of(x, bits // 8)
        if d is not None and len(d[0]) >= bits // 8:
            k = bits // 8
            return d[1] if k == len(d[0]) else from_digits(d[0][k:], d[1])
    return mkint(zi(x) / Z(2 ** bits))

def modpow(x, bits):
    if isinstance(x, SInt) and bits and bits % 8 == 0:
        d = digits_of(x, bits // 8)
        if d is not None and len(d[0]) >= bits // 8:
            return from_digits(d[0][:bits // 8], 0)
    return mkint(zi(x) % Z(2 ** bits))

def append_digit(x, y):
    """x*256 + y with 0 <= y <= 255 known"""
    if isinstance(x, SInt):
        d = digits_of(x, 0)
        if d is not None: return from_digits([y] + d[0], d[1])
        if known_byte(x): return from_digits([y, x], 0)
    if isinstance(x, int) and 0 <= x <= 255: return from_digits([y, x], 0) if x else from_digits([y], 0)
    return from_digits([y], x)

def sfloordiv(a, b):
    if isinstance(a, int) and isinstance(b, int): return a // b
    if truth(mkbool(zi(b) == 0)): raise ZeroDivisionError("integer division or modulo by zero")
    if isinstance(b, int) and _pow2(b): return divpow(a, b.bit_length() - 1)
    if truth(mkbool(zi(b) > 0)): return mkint(zi(a) / zi(b))
    return mkint((-zi(a)) / (-zi(b)))

def smod(a, b):
    if isinstance(a, int) and isinstance(b, int): return a % b
    if truth(mkbool(zi(b) == 0)): raise ZeroDivisionError("integer division or modulo by zero")
    if isinstance(b, int) and _pow2(b): return modpow(a, b.bit_length() - 1)
    if truth(mkbool(zi(b) > 0)): return mkint(zi(a) % zi(b))
    return mkint(-((-zi(a)) % (-zi(b))))

def sbitor(a, b):
    if not (intlike(a) and intlike(b)): return NotImplemented
    c = ctx()
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SInt): t = x.tz
        else:
            x = int(x)
            t = 10**6 if x == 0 else (x & -x).bit_length() - 1
        if t >= 10**6: return y
        if t and c.proved(z3.And(zi(y) >= 0, zi(y) < Z(2 ** t))):
            if t == 8 and isinstance(x, SInt) and x.lo8 is not None: return append_digit(x.lo8, y)
            r = mkint(zi(x) + zi(y))
            return r
    # general: both non negative: try every split point up to 64 bits
    for t in (8, 16, 24, 32, 40, 48, 56):
        for x, y in ((a, b), (b, a)):
            if c.proved(z3.And(zi(y) >= 0, zi(y) < Z(2 ** t), zi(x) % Z(2 ** t) == 0)):
                return mkint(zi(x) + zi(y))
    raise Unsupported("bitwise or")


class SReal:
    """a finite float, as the real number it denotes; every operation rounds (see rounded)"""
    __slots__ = ('e', 'src')     # src: the integer this was computed from, a candidate for what it rounds to
    def __init__(self, e, src=None): self.e, self.src = e, src
    def _b(self, o, f):
        if nonfinite(o): return f(sign_of(self), o)
        return rounded(f(self.e, zr(o)), self.src) if numlike(o) else NotImplemented
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: b + a)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return sdiv(self, o)
    def __rtruediv__(self, o): return sdiv(o, self)
    def __neg__(self): return mkreal(-self.e)
    def __abs__(self): return mkreal(z3.If(self.e >= 0, self.e, -self.e))
    def _c(self, o, f):
        if nonfinite(o): return f(0, o)
        return mkbool(f(self.e, zr(o))) if numlike(o) else NotImplemented
    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._c(o, lambda a, b: a == b) if numlike(o) else False
    def __ne__(self, o): return snot(self.__eq__(o))
    def __bool__(self): return ctx().decide(self.e != 0)
    def __hash__(self): raise Unsupported("hash of symbolic float")
    def __float__(self): raise Unsupported("symbolic float to machine float")
    def __int__(self): raise Unsupported("int() of symbolic float")
    def __repr__(self): return "<float>"
    def __format__(self, spec): return "<float>"

def mkreal(e):
    return SReal(z3.simplify(e))

def sdiv(a, b):
    if not is_sym(a) and not is_sym(b): return a / b
    if nonfinite(b): return sign_of(a) / b
    if nonfinite(a):
        d = sign_of(b)
        return a / d
    if truth(mkbool(zr(b) == 0)): raise ZeroDivisionError("division by zero")
    if intlike(a) and intlike(b): return Quotient(a, b)
    return rounded(zr(a) / zr(b), zi(a) if intlike(a) else a.src if isinstance(a, SReal) else None)

class Quotient(SReal):
    """a / b of two integers: rounded when its value is asked for"""
    __slots__ = ('a', 'b', '_e')
    def __init__(self, a, b): self.a, self.b, self._e, self.src = a, b, None, None
    @property
    def e(self):
        if self._e is None: self._e = rounded(zr(self.a) / zr(self.b)).e
        return self._e
    def exact_floor(self, sign=1):
        """floor (-1: ceiling). The exact quotient is further from any other integer than the rounding error if |a| <= 2**52"""
        a = zi(self.a)
        if ctx().proved(z3.And(a <= 2 ** 52, a >= -2 ** 52)):
            return mkint(sign * z3.ToInt(sign * (zr(self.a) / zr(self.b))))
        return mkint(sign * z3.ToInt(sign * self.e))

POW = z3.Function('pow', z3.IntSort(), z3.IntSort(), z3.IntSort())
def power(k, e):
    """k**e for any exponent of at least 0: an uninterpreted function with its recurrence at e"""
    k0, e = zi(k), zi(e)
    if truth(mkbool(e < 0)): raise Unsupported("negative power")
    t = POW(k0, z3.simplify(e))
    c = ctx()
    c.assume(z3.And(z3.Implies(e == 0, t == 1), z3.Implies(e >= 1, t == k0 * POW(k0, z3.simplify(e - 1))), z3.Implies(k0 >= 1, t >= 1)))
    return mkint(t)

class Log(SReal):
    """a logarithm that is at least 1 when subtracted from, which is then exact"""
    __slots__ = ()
    def __sub__(self, o): return mkreal(self.e - 1) if o == 1 else SReal.__sub__(self, o)

RN = z3.Function('rn', z3.RealSort(), z3.RealSort())

def rounded(e, src=None):
    """the binary64 number nearest to the real e, which is assumed to be 0 or in the normal range: an uninterpreted
    function of e, with relative error at most 2**-53, exact on what is known to be an integer up to 2**53, and monotone"""
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        from fractions import Fraction
        f = Fraction(float(Fraction(e.numerator_as_long(), e.denominator_as_long())))
        return SReal(z3.RealVal(f"{f.numerator}/{f.denominator}"))
    c = ctx()
    apps = c.scratch.setdefault('rn', [])
    r = RN(e)
    if not any(e.eq(o) for o in apps):
        eps = z3.RealVal(f"1/{2 ** 53}")
        c.add_float(z3.If(e >= 0, z3.And(r - e <= e * eps, e - r <= e * eps), z3.And(r - e <= -e * eps, e - r <= -e * eps)))
        if z3.is_to_real(e): c.add_float(z3.Implies(z3.And(e <= 2 ** 53, e >= -2 ** 53), r == e))
        for o in apps:
            c.add_float(z3.And(z3.Implies(e <= o, r <= RN(o)), z3.Implies(o <= e, RN(o) <= r)))
        apps.append(e)
    return SReal(r, src)

def sfloor(x):
    if isinstance(x, Quotient): return x.exact_floor()
    if isinstance(x, SReal): return mkint(z3.ToInt(x.e))
    return x

def sceil(x):
    if isinstance(x, Quotient): return x.exact_floor(-1)
    if isinstance(x, SReal): return mkint(-z3.ToInt(-x.e))
    return x

def sround_half_even(x):
    """round(x) for a real: the integer k with |x - k| <= 1/2, even in a tie"""
    c = ctx()
    memo = c.scratch.setdefault('round', [])
    for e, k in memo:
        if e.eq(x.e): return mkint(k)
    k, j = z3.Int(c.fresh_name('round!')), z3.Int(c.fresh_name('round!half'))
    h = z3.RealVal("1/2")
    d = x.e - z3.ToReal(k)
    c.add_float(z3.And(d <= h, -d <= h, z3.Implies(z3.Or(d == h, -d == h), k == 2 * j)))
    # rounding mostly undoes a conversion: use the integer that was converted if the solver shows that it is the one
    seen = []
    for t in ([x.src] if x.src is not None else []) + list(int_parts(x.e)):
        if not any(t.eq(o) for o in seen):
            seen.append(t)
            if c.proved(k == t, True):
                k = t
                break
    memo.append((x.e, k))
    return mkint(k)

def int_parts(e):
    """the integers converted to real inside e"""
    if z3.is_to_real(e): yield e.arg(0)
    else:
        for a in e.children(): yield from int_parts(a)

_mf = {}
def mentions_float(e):
    r = _mf.get(e.get_id())
    if r is None or not r[0].eq(e):
        if len(_mf) > 200000: _mf.clear()
        if z3.is_real(e): v = True
        elif z3.is_const(e): v = e.decl().name().startswith('round!')
        else: v = any(mentions_float(a) for a in e.children())
        r = _mf[e.get_id()] = (e, v)
    return r[1]

_alone = {}
_cs = {}
def consts(e):
    """names of the constants in e"""
    r = _cs.get(e.get_id())
    if r is None or not r[0].eq(e):
        if len(_cs) > 200000: _cs.clear()
        if z3.is_quantifier(e): v = consts(e.body()) | {'quantifier'}
        elif z3.is_const(e): v = frozenset() if z3.is_rational_value(e) or z3.is_int_value(e) else frozenset([e.decl().name()])
        else: v = frozenset().union(*[consts(a) for a in e.children()])
        r = _cs[e.get_id()] = (e, v)
    return r[1]
