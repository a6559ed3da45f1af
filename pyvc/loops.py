"""iteration helpers"""
from .core import *
from . import core
import z3

def seq_iter(s):
    from .seq import Lit
    if s.kind == 'list' and all(isinstance(x, Lit) for x in s.segs):
        i = 0
        while True:
            if len(s.segs) == 0 or not all(isinstance(x, Lit) for x in s.segs):
                n = s.length()
                if not (i < n if isinstance(n, int) else truth(mkbool(zi(n) > i))): return
                yield s[i]; i += 1
                continue
            flat = s.segs[0].items if len(s.segs) == 1 else [y for x in s.segs for y in x.items]
            if i >= len(flat): return
            yield flat[i]
            i += 1
    else:
        yield from s.items()

class RopeIter:
    """a generator that yields the elements of one sequence"""
    def __init__(self, f): self.f, self.i = f, None
    def __iter__(self): return self
    def __next__(self):
        if self.i is None: self.i = iter(self.f())
        return next(self.i)
    def rope(self):
        from .seq import coerce
        if self.i is not None: return None
        r = coerce(self.f())
        if r is not None: self.i = iter(())
        return r

def iter_rope(o):
    """The bytes that iterating o yields, without unrolling, if that can be proved by induction from o's current
    source: o iterates itself with an integer position attribute that iter() sets to 0; from every position k
    below the length of o.serialize() next() yields byte k, moves to k+1 and changes nothing else; at the end it
    stops.  None if the induction does not go through (then the iteration is unrolled)."""
    from . import seq as S
    t = type(o)
    if isinstance(o, RopeIter): return o.rope()
    if t.__module__.startswith('ccnpy') and hasattr(t, '__iter__') and not hasattr(t, '__next__'):
        it = t.__iter__(o)
        return it.rope() if isinstance(it, RopeIter) else None
    if not t.__module__.startswith('ccnpy') or not hasattr(t, '__next__') or not hasattr(t, 'serialize'): return None
    it = t.__iter__(o)
    if it is not o: return None
    r = o.serialize()
    if not isinstance(r, S.SymSeq) or r.kind not in S.BYTEKINDS: return None
    if isinstance(r.length(), int) and r.length() <= 64: return None
    d0 = dict(o.__dict__)
    pos = [a for a, x in d0.items() if isinstance(x, int) and not isinstance(x, bool) and x == 0 and 'off' in a.lower() or a in ('_pos', '_index', '_i')]
    if len(pos) != 1: return None
    A = pos[0]
    c = ctx()
    def unchanged(segs):
        return all(o.__dict__.get(k) is v for k, v in d0.items() if k != A) and set(o.__dict__) == set(d0) and \
            all(x is y for x, y in zip(r.segs, segs)) and len(r.segs) == len(segs)
    def step():
        try:
            segs = list(r.segs)
            k = SInt(c.fresh_int('pos', 0))
            c.assume(zi(k) < zi(r.length()))
            o.__dict__[A] = k
            x = t.__next__(o)
            k2 = o.__dict__[A]
            if not unchanged(segs): return False
            return c.proved(z3.And(zi(x) == zi(r[k]), zi(k2) == zi(k) + 1))
        finally:
            o.__dict__.update(d0)
    def stop():
        try:
            segs = list(r.segs)
            o.__dict__[A] = r.length()
            try: t.__next__(o)
            except StopIteration: return unchanged(segs)
            return False
        finally:
            o.__dict__.update(d0)
    if not (c.lemma(step) and c.lemma(stop)): return None
    o.__dict__[A] = r.length()
    return r.copy()

def siter(x):
    return iter(x)

class SymRange:
    def __init__(self, *a):
        if len(a) == 1: self.a, self.b, self.s = 0, a[0], 1
        elif len(a) == 2: (self.a, self.b), self.s = a, 1
        else: self.a, self.b, self.s = a
        if isinstance(self.s, SInt): self.s = concretize(self.s)
        if self.s == 0: raise ValueError("range() arg 3 must not be zero")
        for x in (self.a, self.b):
            if not intlike(x): raise TypeError(f"'{type(x).__name__}' object cannot be interpreted as an integer")
    def __iter__(self):
        from .seq import UNROLL
        i = self.a
        k = 0
        while True:
            c = (i < self.b) if self.s > 0 else (i > self.b)
            if not truth(c): return
            if k >= UNROLL and isinstance(c, SBool): raise Unsupported("loop over a symbolic range not unrolled further")
            yield i
            i = i + self.s
            k += 1
    def __reversed__(self): return iter(list(self)[::-1])
    def length(self):
        if self.s == 1: 
            d = self.b - self.a
            return smax2(0, d)
        return len(list(self))
    def __len__(self): return concretize(self.length())
    def __getitem__(self, i): return self.a + self.s * i
    def __contains__(self, x):
        if self.s == 1: return truth(sand(x >= self.a, x < self.b))
        return any(truth(x == y) for y in self)

def smax2(a, b):
    c = b > a
    if isinstance(c, bool): return b if c else a
    if isinstance(a, SReal) or isinstance(b, SReal) or isinstance(a, float) or isinstance(b, float):
        return b if truth(c) else a
    return mkint(z3.If(c.e, zi(b), zi(a)))
def smin2(a, b):
    c = b < a
    if isinstance(c, bool): return b if c else a
    if isinstance(a, SReal) or isinstance(b, SReal) or isinstance(a, float) or isinstance(b, float):
        return b if truth(c) else a
    return mkint(z3.If(c.e, zi(b), zi(a)))
