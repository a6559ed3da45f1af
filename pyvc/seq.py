"""pyvc sequences: ropes with symbolic lengths (bytes, bytearray, array('B'), list)."""
import z3
from . import core
from .core import (SInt, SBool, Z, zi, zb, mkint, mkbool, truth, sand, sor, snot, ctx, Unsupported, intlike,
                   concretize)

BYTEKINDS = ('bytes', 'bytearray', 'array')
UNROLL = 40        # a symbolic sequence is iterated at most this often before the path is abandoned


class Base:
    """an unknown sequence of bytes of symbolic length.  origin: how an ideal function made it."""
    def __init__(self, name, total, origin=None):
        c = ctx()
        c.bases += 1
        self.name = f"{name}@{c.bases}"
        self.f = z3.Function(self.name, z3.IntSort(), z3.IntSort())
        self.total = total
        self.origin = origin
        c.scratch.setdefault('bases', {})[self.name] = self
    def at(self, i):
        c = ctx()
        if isinstance(i, int):
            r = c.memo.get(('at', self.name, i))
            if r is not None: return r
        e = z3.simplify(self.f(zi(i)))
        k = ('rng', e.get_id())
        if k not in c.memo:
            c.memo[k] = (True, e)
            c.add(z3.And(e >= 0, e <= 255))
            if self.origin is not None and self.origin[0] == 'num' and ('numax', self.name) not in c.memo:
                c.memo[('numax', self.name)] = (True, e)
                f, n, L = self.f, zi(self.origin[1]), zi(self.total)
                for w in (1, 2, 3, 4, 8):
                    c.add(z3.Implies(L == w, z3.And(n == sum(f(Z(i)) * Z(256 ** (w - 1 - i)) for i in range(w)),
                                                    *[z3.And(f(Z(i)) >= 0, f(Z(i)) <= 255) for i in range(w)])))
        r = SInt(e)
        r.byte = True
        if isinstance(i, int): c.memo[('at', self.name, i)] = r
        return r


class Lit:
    __slots__ = ('items',)
    def __init__(self, items): self.items = items
    def length(self): return len(self.items)
    def split(self, k):
        k = concretize(k)
        return Lit(self.items[:k]), Lit(self.items[k:])
    def item(self, k):
        if isinstance(k, SInt) and 1 < len(self.items) <= 400 and all(intlike(x) for x in self.items):
            # 0 <= k < len is known here
            r = zi(self.items[-1])
            for i in range(len(self.items) - 2, -1, -1): r = z3.If(k.e == i, zi(self.items[i]), r)
            return mkint(r)
        k = concretize(k)
        return self.items[k]

class Blob:
    __slots__ = ('base', 'off', 'n')
    def __init__(self, base, off, n):
        self.base, self.off, self.n = base, off, n
    def length(self): return self.n
    def split(self, k):
        return Blob(self.base, self.off, k), Blob(self.base, self.off + k, self.n - k)
    def item(self, k): return self.base.at(self.off + k)

class Gen:
    """elements fn(i), lo <= i < hi, one object each (lists only)"""
    __slots__ = ('fn', 'lo', 'hi')
    def __init__(self, fn, lo, hi): self.fn, self.lo, self.hi = fn, lo, hi
    def length(self): return self.hi - self.lo
    def split(self, k): return Gen(self.fn, self.lo, self.lo + k), Gen(self.fn, self.lo + k, self.hi)
    def item(self, k): return self.fn(self.lo + k)


class Same:
    def __init__(self, x): self.x = x
    def __call__(self, i): return self.x

def iszero(n):
    if isinstance(n, int): return n == 0
    return False

def ceq(a, b):
    """are two lengths equal (splits)"""
    if isinstance(a, int) and isinstance(b, int): return a == b
    return truth(mkbool(zi(a) == zi(b)))

def clt(a, b):
    if isinstance(a, int) and isinstance(b, int): return a < b
    return truth(mkbool(zi(a) < zi(b)))

def cle(a, b):
    if isinstance(a, int) and isinstance(b, int): return a <= b
    return truth(mkbool(zi(a) <= zi(b)))


class SymSeq:
    __slots__ = ('kind', 'segs', '_tc', '__weakref__')
    def __init__(self, kind, segs):
        self.kind = kind
        self.segs = segs
        self._tc = 'B'

    @staticmethod
    def of(kind, items):
        return SymSeq(kind, [Lit(list(items))] if len(items) else [])

    # -- structure
    def length(self):
        n = 0
        for s in self.segs: n = n + s.length()
        return n
    def __len__(self):
        n = self.length()
        return n if isinstance(n, int) else concretize(n)
    def copy(self, kind=None):
        return SymSeq(kind or self.kind, [Lit(list(s.items)) if isinstance(s, Lit) else s for s in self.segs])
    def push(self, seg):
        if iszero(seg.length()): return
        if self.segs:
            l = self.segs[-1]
            if isinstance(l, Lit) and isinstance(seg, Lit):
                self.segs[-1] = Lit(l.items + seg.items)
                return
            if isinstance(l, Blob) and isinstance(seg, Blob) and l.base is seg.base:
                if ctx().proved(zi(l.off + l.n) == zi(seg.off)):
                    self.segs[-1] = Blob(l.base, l.off, l.n + seg.n)
                    return
        self.segs.append(Lit(list(seg.items)) if isinstance(seg, Lit) else seg)
    def cat(self, other):
        r = self.copy()
        for s in list(other.segs): r.push(s)
        return r

    def split(self, p):
        """(first p elements, rest) as segment lists; requires 0 <= p <= len"""
        left, rest = [], list(self.segs)
        while rest:
            if isinstance(p, int) and p == 0: break
            s = rest[0]
            n = s.length()
            if cle(n, p):
                left.append(s); rest.pop(0)
                p = p - n
                continue
            if isinstance(s, Lit) or isinstance(s, Gen):
                if ceq(p, 0): break
            elif not isinstance(p, int) and ctx().proved(zi(p) == 0): break
            a, b = s.split(p)
            left.append(a)
            rest[0] = b
            break
        return left, rest

    def _norm(self, i, n, default):
        """Python slice bound normalisation"""
        if i is None: return default
        if not intlike(i):
            raise TypeError("slice indices must be integers or None or have an __index__ method")
        if clt(i, 0):
            i = i + n
            if clt(i, 0): i = 0
        elif clt(n, i): i = n
        return i

    def slice(self, a, b):
        n = self.length()
        if a is None and b is None: return self.copy()
        a = self._norm(a, n, 0)
        b = self._norm(b, n, n)
        if isinstance(a, int) and isinstance(b, int):
            if b <= a: return SymSeq(self.kind, [])
        elif not ctx().proved(zi(a) <= zi(b)) and cle(b, a): return SymSeq(self.kind, [])
        l, _ = self.split(b)
        t = SymSeq(self.kind, l)
        _, r = t.split(a)
        out = SymSeq(self.kind, [])
        for s in r: out.push(s)
        return out

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None and not (isinstance(i.step, int) and i.step == 1):
                if isinstance(i.step, int) and i.step == -1 and i.start is None and i.stop is None:
                    return SymSeq.of(self.kind, list(self.items())[::-1])
                raise Unsupported("slice step")
            return self.slice(i.start, i.stop)
        if not intlike(i):
            if hasattr(type(i), '__index__'): i = type(i).__index__(i)
            else: raise TypeError(f"{self.kind} indices must be integers or slices, not {type(i).__name__}")
        n = self.length()
        if clt(i, 0): i = i + n
        if clt(i, 0) or not clt(i, n):
            raise IndexError(f"{self.kind} index out of range")
        p = i
        for s in self.segs:
            m = s.length()
            if clt(p, m): return s.item(p)
            p = p - m
        raise IndexError

    def __setitem__(self, i, v):
        if self.kind == 'bytes': raise TypeError("'bytes' object does not support item assignment")
        if isinstance(i, slice):
            n = self.length()
            a = self._norm(i.start, n, 0); b = self._norm(i.stop, n, n)
            if cle(b, a): b = a
            l, _ = self.split(a)
            _, r = self.split(b)
            out = SymSeq(self.kind, [])
            for s in l: out.push(s)
            for s in coerce(v).segs: out.push(s)
            for s in r: out.push(s)
            self.segs = out.segs
            return
        n = self.length()
        if clt(i, 0): i = i + n
        if clt(i, 0) or not clt(i, n): raise IndexError(f"{self.kind} assignment index out of range")
        if self.kind != 'list': v = byteval(v, self.kind)
        l, _ = self.split(i)
        _, r = self.split(i + 1)
        out = SymSeq(self.kind, [])
        for s in l: out.push(s)
        out.push(Lit([v]))
        for s in r: out.push(s)
        self.segs = out.segs

    def __delitem__(self, i):
        if isinstance(i, slice): 
            self[i] = SymSeq('list', []); return
        n = self.length()
        if clt(i, 0): i = i + n
        if clt(i, 0) or not clt(i, n): raise IndexError
        l, _ = self.split(i)
        _, r = self.split(i + 1)
        self.segs = l + r

    def items(self):
        """iterate (unrolling symbolic segments, splitting on their length)"""
        k = 0
        for s in list(self.segs):
            if isinstance(s, Lit):
                for x in list(s.items): yield x
                continue
            i = 0
            while True:
                n = s.length()
                if isinstance(n, int):
                    if i >= n: break
                elif not truth(mkbool(Z(i) < zi(n))): break
                if i >= UNROLL and not isinstance(n, int):
                    raise Unsupported("iteration over a sequence of unbounded length")
                yield s.item(i)
                i += 1
    def __iter__(self):
        """live iteration over a list (sees appends while iterating), snapshot for others"""
        from .loops import seq_iter
        return seq_iter(self)

    def __reversed__(self):
        return iter(list(self.items())[::-1])

    # -- operators
    def __add__(self, o):
        o2 = coerce_same(self, o)
        if o2 is None: 
            raise TypeError(f"cannot concatenate {self.kind} and {kindof(o)}")
        return self.cat(o2)
    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray)):
            if self.kind not in BYTEKINDS: raise TypeError("can't concat")
            return coerce(o).cat(self)
        if isinstance(o, list) and self.kind == 'list': return coerce(o).cat(self)
        raise TypeError(f"cannot concatenate {kindof(o)} and {self.kind}")
    def __iadd__(self, o):
        if self.kind == 'bytes': return self + o
        if self.kind == 'list': self.extend(o)
        else:
            o2 = coerce_same(self, o)
            if o2 is None: raise TypeError("cannot extend")
            self._extend(o2)
        return self
    def __mul__(self, k):
        if isinstance(k, SInt) and len(self.segs) == 1 and isinstance(self.segs[0], Lit) and len(self.segs[0].items) == 1 \
                and self.segs[0].items[0] == 0:
            c = ctx()
            if not truth(k > 0): return SymSeq(self.kind, [])
            b = zero_base()
            return SymSeq(self.kind, [Blob(b, 0, k)])
        if isinstance(k, SInt) and self.kind == 'list' and len(self.segs) == 1 and isinstance(self.segs[0], Lit) and len(self.segs[0].items) == 1:
            if not truth(k > 0): return SymSeq(self.kind, [])
            return SymSeq(self.kind, [Gen(Same(self.segs[0].items[0]), 0, k)])
        k = concretize(k)
        r = SymSeq(self.kind, [])
        for _ in range(k):
            for s in self.segs: r.push(s)
        return r
    __rmul__ = __mul__
    def __bool__(self):
        n = self.length()
        return n != 0 if isinstance(n, int) else truth(mkbool(zi(n) != 0))
    def __contains__(self, x):
        if isinstance(x, (SymSeq, bytes)) and self.kind == 'bytes': raise Unsupported("substring test")
        for y in self.items():
            if y is x or truth(pyeq(y, x)): return True
        return False
    def __eq__(self, o): return seq_eq(self, o)
    def __ne__(self, o): return snot(seq_eq(self, o))
    def __hash__(self):
        raise Unsupported("native hash of a symbolic sequence") if self.kind == 'bytes' else TypeError("unhashable")
    def __lt__(self, o): raise Unsupported("ordering of sequences")
    __gt__ = __le__ = __ge__ = __lt__

    # -- list / array methods
    def append(self, x):
        if self.kind != 'list': x = byteval(x, self.kind)
        self.push(Lit([x]))
    def _extend(self, o):
        for s in list(o.segs): self.push(s)
    def extend(self, o):
        from . import loops
        if self.kind == 'array' and isinstance(o, SymSeq) and o.kind != 'array':
            o = bytes_from(o, 'array')
        o2 = coerce(o)
        if o2 is None: o2 = loops.iter_rope(o)
        if o2 is None: o2 = SymSeq.of('list', [x for x in loops.siter(o)])
        if self.kind in BYTEKINDS and o2.kind not in BYTEKINDS: o2 = bytes_from(o2, self.kind)
        self._extend(o2)
    def insert(self, i, x):
        self[i:i] = SymSeq.of('list', [x])
    def pop(self, i=-1):
        if not truth(self): raise IndexError("pop from empty list")
        v = self[i]
        del self[i]
        return v
    def remove(self, x):
        for i, y in enumerate(self.items()):
            if y is x or truth(pyeq(y, x)):
                del self[i]; return
        raise ValueError("list.remove(x): x not in list")
    def clear(self): self.segs = []
    def become(self, o): self.segs = list(o.segs)       # used by loop specifications
    def reverse(self): self.segs = [Lit(list(self.items())[::-1])]
    def index(self, x, *a):
        for i, y in enumerate(self.items()):
            if y is x or truth(pyeq(y, x)): return i
        raise ValueError("not in list")
    def count(self, x):
        n = 0
        for y in self.items():
            if truth(pyeq(y, x)): n += 1
        return n
    def sort(self, key=None, reverse=False):
        l = ssorted(self, key=key, reverse=reverse)
        self.segs = l.segs
    # -- bytes / array methods
    def tobytes(self):
        if self.kind != 'array': raise AttributeError(f"'{self.kind}' object has no attribute 'tobytes'")
        return self.copy('bytes')
    def tolist(self):
        if self.kind != 'array': raise AttributeError(f"'{self.kind}' object has no attribute 'tolist'")
        return self.copy('list')
    def frombytes(self, b):
        if self.kind != 'array': raise AttributeError("frombytes")
        self._extend(coerce(b))
    def fromlist(self, b): self._extend(bytes_from(coerce(b), 'array'))
    @property
    def typecode(self): return self._tc
    @property
    def itemsize(self): return 1
    def buffer_info(self): raise Unsupported("buffer_info")
    def hex(self, *a): return SymStr('hex', self.copy('bytes'))
    def decode(self, *a): return SymStr('decode', self.copy('bytes'))
    def startswith(self, p):
        p = coerce(p)
        return truth(sand(mkbool(zi(self.length()) >= zi(p.length())), self.slice(0, p.length()) == p))
    def endswith(self, p):
        p = coerce(p)
        n = self.length()
        if not cle(p.length(), n): return False
        return truth(self.slice(n - p.length(), n) == p)
    def join(self, it):
        from . import loops
        r = SymSeq(self.kind, []); first = True
        for x in loops.siter(it):
            if not first: r = r + self
            r = r + x; first = False
        return r
    def __repr__(self): return f"<{self.kind}>"
    __str__ = __repr__
    def __format__(self, s): return f"<{self.kind}>"


def zero_base():
    c = ctx()
    b = c.scratch.get('zero')
    if b is None:
        b = Base('zeros', None)
        i = z3.Int('zi')
        c.add(z3.ForAll([i], b.f(i) == 0, patterns=[b.f(i)]))
        c.scratch['zero'] = b
    return b

def kindof(o):
    if isinstance(o, SymSeq): return o.kind
    return type(o).__name__

def coerce(o):
    if isinstance(o, SymSeq): return o
    if isinstance(o, bytes): return SymSeq.of('bytes', list(o))
    if isinstance(o, bytearray): return SymSeq.of('bytearray', list(o))
    if isinstance(o, list): return SymSeq.of('list', o)
    if isinstance(o, tuple): return SymSeq.of('list', list(o))
    return None

def coerce_same(s, o):
    """operand of s + o, or None if Python raises TypeError"""
    o2 = coerce(o)
    if o2 is None or isinstance(o, tuple): return None
    if s.kind == 'list': return o2 if o2.kind == 'list' else None
    if s.kind == 'array': return o2 if o2.kind == 'array' else None
    return o2 if o2.kind in BYTEKINDS else None

def byteval(x, kind):
    if not intlike(x):
        if hasattr(type(x), '__index__'): x = type(x).__index__(x)
        else: raise TypeError(f"'{type(x).__name__}' object cannot be interpreted as an integer")
    if isinstance(x, int) and not isinstance(x, bool):
        if 0 <= x <= 255: return x
    elif isinstance(x, SBool): x = mkint(zi(x))
    elif x.byte: return x
    if isinstance(x, SInt) and ('rng', x.e.get_id()) in ctx().memo: return x
    ok = mkbool(z3.And(zi(x) >= 0, zi(x) <= 255))
    if ok is True: return x
    if not truth(ok):
        if kind == 'array': raise OverflowError("unsigned byte integer is out of range")
        raise ValueError("bytes must be in range(0, 256)")
    if isinstance(x, SInt):
        ctx().memo[('rng', x.e.get_id())] = (True, x.e)
        x.byte = True       # on this path
    return x

def bytes_from(seq, kind):
    """list of ints -> byte sequence"""
    r = SymSeq(kind, [])
    for s in seq.segs:
        if isinstance(s, Lit): r.push(Lit([byteval(x, kind) for x in s.items]))
        elif isinstance(s, Blob): r.push(s)
        elif isinstance(s, Gen):
            r.push(Lit([byteval(x, kind) for x in SymSeq('list', [s]).items()]))
        else: r.push(s.as_bytes(kind))
    return r

def same_family(a, b):
    if a == b: return True
    return a in ('bytes', 'bytearray') and b in ('bytes', 'bytearray')

def pyeq(a, b):
    """a == b as the code under verification would compute it (bool or SBool, no forced split)"""
    if a is b: return True
    r = type(a).__eq__(a, b) if not isinstance(a, (int, str, bytes, float, tuple, type(None))) else NotImplemented
    if r is NotImplemented:
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return False
            return sand(*[pyeq(x, y) for x, y in zip(a, b)])
        if isinstance(b, (SInt, SBool, SymSeq, core.SReal, SymStr)): return b.__eq__(a)
        return a == b
    return r

def seq_eq(a, o):
    b = coerce(o)
    if b is None or isinstance(o, tuple): return False
    if not same_family(a.kind, b.kind): return False
    return rope_eq(a, b)

def bytes_equal(a, b):
    """content equality irrespective of kind (used by specifications)"""
    return rope_eq(coerce(a), coerce(b))

def _at(x):
    """(base, offset) when x is byte `offset` of a base"""
    if not isinstance(x, SInt): return None
    e = x.e
    if not z3.is_app(e) or e.num_args() != 1 or e.decl().kind() != z3.Z3_OP_UNINTERPRETED: return None
    b = ctx().scratch.get('bases', {}).get(e.decl().name())
    return None if b is None else (b, e.arg(0))
def recombine(segs):
    """runs of single bytes that are consecutive bytes of one base, back into one piece"""
    out = []
    for s in segs:
        if not isinstance(s, Lit) or len(s.items) < 8:
            out.append(s); continue
        cur, run = [], None           # run: [base, first offset, count]
        def flush():
            nonlocal run, cur
            if run is None: return
            if run[2] >= 8:
                if cur: out.append(Lit(cur)); cur = []
                o = run[1]
                out.append(Blob(run[0], o.as_long() if z3.is_int_value(o) else SInt(o), run[2]))
            else: cur = cur + run[3]
            run = None
        for x in s.items:
            p = _at(x)
            if p is not None and run is not None and p[0] is run[0] and z3.simplify(p[1] - run[1] - run[2]).eq(z3.IntVal(0)):
                run[2] += 1; run[3].append(x)
                continue
            flush()
            if p is None: cur.append(x)
            else: run = [p[0], p[1], 1, [x]]
        flush()
        if cur: out.append(Lit(cur))
    return out

def rope_eq(a, b):
    if a is b: return True
    la, lb = a.length(), b.length()
    if not ceq(la, lb): return False
    x, y = recombine(a.segs), recombine(b.segs)
    conj = []
    while x and y:
        s, t = x[0], y[0]
        n, m = s.length(), t.length()
        if iszero(n): x.pop(0); continue
        if iszero(m): y.pop(0); continue
        if isinstance(s, Lit) and isinstance(t, Lit):
            k = min(n, m)
            for i in range(k):
                conj.append(pyeq(s.items[i], t.items[i]))
                if conj[-1] is False: return False
            x[0] = Lit(s.items[k:]); y[0] = Lit(t.items[k:])
            continue
        if conj and not (zi(n).eq(zi(m)) if not (isinstance(n, int) and isinstance(m, int)) else n == m):
            # what was compared so far often fixes the lengths: settle it before aligning
            if not truth(sand(*conj)): return False
            conj = []
        if not (isinstance(n, int) or isinstance(m, int)) and (zi(n).eq(zi(m)) or ctx().proved(zi(n) == zi(m))):
            x.pop(0); y.pop(0)
            conj.append(seg_eq(s, t, n))
            if conj[-1] is False: return False
            continue
        if not isinstance(n, int) and ceq(n, 0): x.pop(0); continue
        if not isinstance(m, int) and ceq(m, 0): y.pop(0); continue
        if ceq(n, m): k = n; x.pop(0); y.pop(0)
        elif clt(n, m):
            k = n; x.pop(0)
            t, r = t.split(k); y[0] = r
        else:
            k = m; y.pop(0)
            s, r = s.split(k); x[0] = r
        conj.append(seg_eq(s, t, k))
        if conj[-1] is False: return False
    for s in x + y:
        if not ceq(s.length(), 0): return False
    return sand(*conj)

def seg_eq(s, t, k):
    """two segments of the same length k"""
    if isinstance(s, Blob) and isinstance(t, Blob):
        if s.base is t.base:
            same = mkbool(zi(s.off) == zi(t.off))
            if same is True or ctx().proved(zb(same)): return True
        o = origin_eq(s, t, k)
        if o is not None: return o
        return forall_eq(lambda i: s.base.f(zi(s.off) + i), lambda i: t.base.f(zi(t.off) + i), k)
    if isinstance(s, Lit): s, t = t, s
    if isinstance(t, Lit):
        return sand(*[pyeq(s.item(i), t.items[i]) for i in range(len(t.items))])
    if isinstance(s, Gen) and isinstance(t, Gen):
        if s.fn is t.fn and ctx().proved(zi(s.lo) == zi(t.lo)): return True
        c = ctx()
        raise Unsupported("comparison of two symbolic object lists")
    raise Unsupported("comparison of symbolic segments")

def origin_eq(s, t, k):
    """ideal functions (hash, signature, cipher): outputs are equal iff the arguments are"""
    a, b = s.base, t.base
    if a.origin is None or b.origin is None: return None
    c = ctx()
    if not (c.proved(zi(s.off) == 0) and c.proved(zi(t.off) == 0) and c.proved(zi(k) == zi(a.total))
            and c.proved(zi(k) == zi(b.total))): 
        return None
    if a.origin[0] != b.origin[0] or len(a.origin) != len(b.origin): return False
    r = []
    for p, q in zip(a.origin[1:], b.origin[1:]):
        if isinstance(p, SymSeq) or isinstance(q, SymSeq): 
            if coerce(p) is None or coerce(q) is None: return False
            r.append(rope_eq(coerce(p), coerce(q)))
        else: r.append(pyeq(p, q))
    return sand(*r)

def forall_eq(f, g, k):
    i = z3.Int(ctx().fresh_name('i'))
    return mkbool(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(k)), f(i) == g(i))))


class SymStr:
    """an opaque string: str/hex/format of symbolic values; equal iff made the same way from equal values"""
    __slots__ = ('parts',)
    def __init__(self, *parts): self.parts = parts
    def __eq__(self, o):
        if not isinstance(o, SymStr):
            if isinstance(o, str):
                ctx().abstract.append('string')
                raise Unsupported("comparison of an opaque string with a literal")
            return False
        if len(self.parts) != len(o.parts): raise Unsupported("comparison of opaque strings")
        r = []
        for p, q in zip(self.parts, o.parts):
            if isinstance(p, str) and isinstance(q, str):
                if p != q: raise Unsupported("comparison of opaque strings")
            else: r.append(pyeq(p, q))
        return sand(*r)
    def __ne__(self, o): return snot(self.__eq__(o))
    def __hash__(self): raise Unsupported("hash of opaque string")
    def __add__(self, o): return SymStr('cat', self, o)
    def __radd__(self, o): return SymStr('cat', o, self)
    def encode(self, *a):
        if self.parts[0] == 'decode': return self.parts[1]
        raise Unsupported("encode of an opaque string")
    def startswith(self, p): raise Unsupported("string")
    def __len__(self): raise Unsupported("len of opaque string")
    def __repr__(self): return "<str>"
    __str__ = __repr__
    def __format__(self, s): return "<str>"

def ssorted(it, key=None, reverse=False):
    from . import loops
    out = []
    for x in loops.siter(it):
        kx = key(x) if key else x
        pos = len(out)
        for i, (ky, _) in enumerate(out):
            if truth(kx < ky) if not reverse else truth(ky < kx):
                pos = i; break
        out.insert(pos, (kx, x))
    return SymSeq.of('list', [x for _, x in out])


class SymDict:
    """insertion-ordered map with symbolic keys"""
    def __init__(self, entries=None):
        self.ents = entries if entries is not None else []
    def _find(self, k):
        h = None
        for i, (kk, _) in enumerate(self.ents):
            if keymatch(kk, k): return i
        return -1
    def __getitem__(self, k):
        chk_hashable(k)
        i = self._find(k)
        if i < 0: raise KeyError(k)
        return self.ents[i][1]
    def __setitem__(self, k, v):
        chk_hashable(k)
        i = self._find(k)
        if i < 0: self.ents.append([k, v])
        else: self.ents[i][1] = v
    def __delitem__(self, k):
        i = self._find(k)
        if i < 0: raise KeyError(k)
        del self.ents[i]
    def __contains__(self, k):
        chk_hashable(k)
        return self._find(k) >= 0
    def get(self, k, d=None):
        i = self._find(k)
        return d if i < 0 else self.ents[i][1]
    def pop(self, k, *d):
        i = self._find(k)
        if i < 0:
            if d: return d[0]
            raise KeyError(k)
        return self.ents.pop(i)[1]
    def setdefault(self, k, d=None):
        i = self._find(k)
        if i >= 0: return self.ents[i][1]
        self.ents.append([k, d]); return d
    def update(self, o=(), **kw):
        if hasattr(o, 'keys'):
            for k in o.keys(): self[k] = o[k]
        else:
            for k, v in o: self[k] = v
        for k, v in kw.items(): self[k] = v
    def keys(self): return [k for k, _ in self.ents]
    def values(self): return SymSeq.of('list', [v for _, v in self.ents])
    def items(self): return SymSeq.of('list', [(k, v) for k, v in self.ents])
    def copy(self): return SymDict([[k, v] for k, v in self.ents])
    def clear(self): self.ents = []
    def __iter__(self): return iter([k for k, _ in self.ents])
    def __len__(self): return len(self.ents)
    def __bool__(self): return bool(self.ents)
    def __eq__(self, o):
        if not isinstance(o, SymDict): return False
        if len(o.ents) != len(self.ents): return False
        for k, v in self.ents:
            i = o._find(k)
            if i < 0 or not truth(pyeq(v, o.ents[i][1])): return False
        return True
    def __ne__(self, o): return not self.__eq__(o)
    __hash__ = None
    def __repr__(self): return "<dict>"
    def __or__(self, o):
        r = self.copy(); r.update(o); return r

class AnyDict(SymDict):
    """an arbitrary map: whether a key is there, and with which value, is decided when it is looked up"""
    def __init__(self, make, name='there', only=None):
        SymDict.__init__(self)
        self.make, self.name, self.only, self.absent = make, name, only, []
    def _find(self, k):
        i = SymDict._find(self, k)
        if i >= 0: return i
        for kk in self.absent:
            if keymatch(kk, k): return -1
        if (self.only is None or self.only(k)) and ctx().choose(2, self.name):
            self.ents.append([k, self.make(k)])
            return len(self.ents) - 1
        self.absent.append(k)
        return -1
    def __setitem__(self, k, v):
        SymDict.__setitem__(self, k, v)
        self.absent = [kk for kk in self.absent if not keymatch(kk, k)]
    def __delitem__(self, k):
        SymDict.__delitem__(self, k)
        self.absent.append(k)
    def pop(self, k, *d):
        there = self._find(k) >= 0
        x = SymDict.pop(self, k, *d)
        if there: self.absent.append(k)
        return x
    def setdefault(self, k, d=None):
        if self._find(k) < 0: self[k] = d
        return self[k]
    def known(self): return [(k, v) for k, v in self.ents]
    def clear(self): self._all()
    def copy(self): self._all()
    def _all(self, *a): raise Unsupported("all entries of an arbitrary map")
    keys = values = items = __iter__ = __len__ = __bool__ = __eq__ = __or__ = _all

class SymSet:
    def __init__(self, items=None):
        self.d = SymDict()
        for x in items or []: self.add(x)
    def add(self, x): self.d[x] = True
    def __contains__(self, x): return x in self.d
    def remove(self, x): del self.d[x]
    def discard(self, x): self.d.pop(x, None)
    def __iter__(self): return iter(self.d)
    def __len__(self): return len(self.d)
    def __bool__(self): return bool(self.d)
    def update(self, it):
        for x in it: self.add(x)
    def union(self, it):
        r = SymSet(list(self)); r.update(it); return r
    def __eq__(self, o): return isinstance(o, SymSet) and len(self) == len(o) and all(x in o for x in self)

class SHash:
    """hash() of a value: equal for equal content; distinct contents are not assumed to collide"""
    def __init__(self, key): self.key = key
    def __eq__(self, o):
        if isinstance(o, SHash):
            if type(self.key) != type(o.key): return False
            return pyeq(self.key, o.key)
        return False
    def __ne__(self, o): return snot(self.__eq__(o))
    def __hash__(self): raise Unsupported("nested symbolic hash")

def phash(x):
    """hash(x) of the code under verification"""
    if isinstance(x, SymSeq):
        if x.kind != 'bytes': raise TypeError(f"unhashable type: '{x.kind}'")
        return SHash(x)
    if isinstance(x, (SInt, SymStr)): return SHash(x)
    if isinstance(x, SBool): return SHash(mkint(zi(x)))
    if isinstance(x, tuple) and any(not isinstance(y, (int, str, bytes, type(None))) for y in x):
        return SHash(tuple(phash(y) for y in x))
    if isinstance(x, (int, str, bytes)): return SHash(x)
    if isinstance(x, (SymDict, SymSet)): raise TypeError("unhashable")
    t = type(x)
    if t.__hash__ is None: raise TypeError(f"unhashable type: '{t.__name__}'")
    if t.__hash__ is object.__hash__: return SHash(('id', id(x)))
    if isinstance(x, type): return SHash(('id', id(x)))
    h = t.__hash__(x)
    return h if isinstance(h, SHash) else SHash(h)

def chk_hashable(k):
    if isinstance(k, SymSeq) and k.kind != 'bytes': raise TypeError(f"unhashable type: '{k.kind}'")
    if type(k).__hash__ is None: raise TypeError(f"unhashable type: '{type(k).__name__}'")

def keymatch(a, b):
    if a is b: return True
    if isinstance(a, (int, str, bytes, SInt, SymStr, SymSeq, type)) and isinstance(b, (int, str, bytes, SInt, SymStr, SymSeq, type)):
        return truth(pyeq(a, b))
    if a is None or b is None: return False
    if type(a).__eq__ is object.__eq__ and type(b).__eq__ is object.__eq__: return False
    if not truth(pyeq(phash(a), phash(b))): return False
    return truth(pyeq(b, a))
