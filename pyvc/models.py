"""builtins and external modules as the verifier sees them (the trusted base; see DESIGN.md)"""
import builtins, types, sys
import z3
from . import core
from .core import *
from .seq import *
from . import seq as seqm, induct
from .loops import *

PRIM = (int, str, bytes, float, type(None), bool)

def lazy_list(fn, lo, hi):
    """[fn(lo), ..., fn(hi-1)], evaluated where it is read; evaluated once at an arbitrary index for what it may raise,
    and to see that it changes nothing"""
    from . import induct
    if truth(mkbool(zi(hi) <= zi(lo))): return SymSeq('list', [])
    before = induct.snapshot([fn])
    fn(SInt(ctx().fresh_int('any index', zi(lo), zi(hi) - 1)))
    if induct.changed(before): raise Unsupported("list comprehension with side effects")
    return SymSeq('list', [Gen(fn, lo, hi)])

class Helper:
    """the `_pv` name in instrumented code"""
    @staticmethod
    def L(l): return SymSeq.of('list', l)
    @staticmethod
    def Ls(*parts):
        r = SymSeq.of('list', [])
        for star, x in parts:
            if star: r.extend(x)
            else: r.append(x)
        return r
    @staticmethod
    def LC(g): return SymSeq.of('list', list(g))
    @staticmethod
    def lcomp(fn, it, conds):
        it2 = seqm.coerce(it) if isinstance(it, (SymSeq, tuple)) else None
        if it2 is not None and not conds and any(isinstance(s, Gen) for s in it2.segs):
            out = SymSeq('list', [])
            for s in it2.segs:
                if isinstance(s, Gen):
                    out.push(Gen((lambda f: lambda i: fn(f(i)))(s.fn), s.lo, s.hi))
                else:
                    for x in SymSeq('list', [s]).items(): out.append(fn(x))
            return out
        if isinstance(it, SymRange) and not conds and it.s == 1 and ctx().scratch.get('powers') and is_sym(it.b - it.a):
            return lazy_list(fn, it.a, it.b)
        out = []
        for x in it:
            if all(truth(c(x)) for c in conds): out.append(fn(x))
        return SymSeq.of('list', out)
    @staticmethod
    def D(*p):
        d = SymDict()
        for k, v in p: d[k] = v
        return d
    @staticmethod
    def Dm(*p):
        d = SymDict()
        for star, k, v in p:
            if star: d.update(v)
            else: d[k] = v
        return d
    @staticmethod
    def DG(g):
        d = SymDict()
        for k, v in g: d[k] = v
        return d
    @staticmethod
    def S(g): return SymSet(list(g))
    @staticmethod
    def t(x): return truth(x)
    @staticmethod
    def and_(a, *fs):
        for f in fs:
            if not truth(a): return a
            a = f()
        return a
    @staticmethod
    def or_(a, *fs):
        for f in fs:
            if truth(a): return a
            a = f()
        return a
    @staticmethod
    def B(b): return SymSeq.of('bytes', list(b))
    @staticmethod
    def genrope(f): return RopeIter(f)
    @staticmethod
    def it(x): return x
    @staticmethod
    def loop(lid): return induct.loop(lid)
    @staticmethod
    def floop(lid): return induct.floop(lid)
    @staticmethod
    def fit(l, x): return l.over(x) if l.on else x
    @staticmethod
    def locals(): return sys._getframe(1).f_locals
    @staticmethod
    def fs(*parts):
        out, sym = [], False
        for p in parts:
            if isinstance(p, str): out.append(p); continue
            v, conv, spec = p
            if isinstance(v, PRIM):
                if conv == 114: v = repr(v)
                elif conv == 115: v = str(v)
                out.append(format(v, spec) if isinstance(spec, str) else str(v))
            else:
                sym = True; out.append(v)
        return SymStr('fs', *out) if sym else ''.join(out)
    @staticmethod
    def mod(l, r):
        if isinstance(l, str):
            items = r if isinstance(r, tuple) else (r,)
            if all(isinstance(x, PRIM) for x in items): return l % r
            return SymStr('mod', l, *items)
        return l % r

def pv_len(x):
    if isinstance(x, SymSeq): return x.length()
    if isinstance(x, SymRange): return x.length()
    t = type(x)
    f = getattr(t, '__len__', None)
    if f is None: raise TypeError(f"object of type '{t.__name__}' has no len()")
    if t.__module__ == 'builtins': return len(x)
    return f(x)

class _Shim(type):
    def __instancecheck__(cls, x): return cls._inst(x)
    def __subclasscheck__(cls, c): return c is cls or issubclass(c, cls._native)
    def __repr__(cls): return cls.__name__
    def __eq__(cls, o): return cls is o or o is cls._native
    def __hash__(cls): return hash(cls._native)
    def __getitem__(cls, k): return cls
    def __or__(cls, o): return cls
    def __ror__(cls, o): return cls

class int_(metaclass=_Shim):
    _native = int
    @staticmethod
    def _inst(x): return builtins.isinstance(x, (int, SInt, SBool))
    def __new__(cls, x=0, base=None):
        if base is not None:
            if isinstance(x, SymStr): raise Unsupported("int() of opaque string")
            return int(x, base)
        if isinstance(x, SInt): return x
        if isinstance(x, SBool): return mkint(zi(x))
        if isinstance(x, Quotient):
            return x.exact_floor() if truth(mkbool(zr(x.a) / zr(x.b) >= 0)) else x.exact_floor(-1)
        if isinstance(x, SReal):
            return mkint(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))
        if isinstance(x, SymStr): raise Unsupported("int() of opaque string")
        if isinstance(x, SymSeq): raise TypeError("int() argument")
        return int(x)
    @staticmethod
    def from_bytes(b, byteorder='big', *, signed=False):
        b = seqm.coerce(b)
        if signed: raise Unsupported("signed from_bytes")
        from .theory import be_number
        if byteorder == 'little':
            b = SymSeq.of('bytes', list(b.items())[::-1])
        return be_number(b)

class float_(metaclass=_Shim):
    _native = float
    @staticmethod
    def _inst(x): return builtins.isinstance(x, (float, SReal))
    def __new__(cls, x=0.0):
        if isinstance(x, (SInt, SBool)): return mkreal(zr(x))
        if isinstance(x, SReal): return x
        return float(x)

class bool_(metaclass=_Shim):
    _native = bool
    @staticmethod
    def _inst(x): return builtins.isinstance(x, (bool, SBool))
    def __new__(cls, x=False): return x if isinstance(x, SBool) else truth(x)

class str_(metaclass=_Shim):
    _native = str
    @staticmethod
    def _inst(x): return builtins.isinstance(x, (str, SymStr))
    def __new__(cls, x='', *a):
        if isinstance(x, PRIM) and not a: return str(x)
        if isinstance(x, (SymSeq, SInt, SBool, SReal, SymDict)): return SymStr('str', x)
        if isinstance(x, SymStr): return x
        t = type(x)
        if t.__module__.startswith('ccnpy'):
            f = t.__str__
            if f is object.__str__: f = t.__repr__
            if f is object.__repr__: return f"<{t.__name__}>"
            return f(x)
        return str(x)

def pv_repr(x):
    if isinstance(x, PRIM): return repr(x)
    if isinstance(x, (SymSeq, SInt, SBool, SReal, SymDict, SymStr)): return SymStr('repr', x)
    t = type(x)
    if t.__module__.startswith('ccnpy') and t.__repr__ is not object.__repr__: return t.__repr__(x)
    return repr(x)

class list_(metaclass=_Shim):
    _native = list
    @staticmethod
    def _inst(x): return builtins.isinstance(x, list) or (builtins.isinstance(x, SymSeq) and x.kind == 'list')
    def __new__(cls, it=()):
        if isinstance(it, SymSeq): return it.copy('list')
        return SymSeq.of('list', list(it))

class bytes_(metaclass=_Shim):
    _native = bytes
    @staticmethod
    def _inst(x): return builtins.isinstance(x, bytes) or (builtins.isinstance(x, SymSeq) and x.kind == 'bytes')
    def __new__(cls, it=(), *a):
        return _mkbytes('bytes', it, *a)
    @staticmethod
    def fromhex(s):
        if isinstance(s, SymStr) and s.parts[0] == 'hex': return s.parts[1]
        return Helper.B(bytes.fromhex(s))

class bytearray_(metaclass=_Shim):
    _native = bytearray
    @staticmethod
    def _inst(x): return builtins.isinstance(x, bytearray) or (builtins.isinstance(x, SymSeq) and x.kind == 'bytearray')
    def __new__(cls, it=(), *a): return _mkbytes('bytearray', it, *a)

def _mkbytes(kind, it, *a):
    if isinstance(it, SymStr): return it.encode().copy(kind)
    if isinstance(it, str): return seqm.coerce(it.encode(*a)).copy(kind)
    if intlike(it): return SymSeq.of(kind, [0]) * it
    if isinstance(it, SymSeq):
        if it.kind in BYTEKINDS: return it.copy(kind)
        return bytes_from(it, kind)
    if isinstance(it, (bytes, bytearray)): return seqm.coerce(it).copy(kind)
    t = type(it)
    if hasattr(t, '__bytes__'): return t.__bytes__(it)
    return bytes_from(SymSeq.of('list', list(it)), kind)

class dict_(metaclass=_Shim):
    _native = dict
    @staticmethod
    def _inst(x): return builtins.isinstance(x, (dict, SymDict))
    def __new__(cls, *a, **kw):
        d = SymDict()
        if a: d.update(a[0])
        d.update(**kw)
        return d
    @staticmethod
    def fromkeys(it, v=None):
        d = SymDict()
        for k in it: d[k] = v
        return d

class set_(metaclass=_Shim):
    _native = set
    @staticmethod
    def _inst(x): return builtins.isinstance(x, (set, SymSet))
    def __new__(cls, it=()): return SymSet(list(it))

class tuple_(metaclass=_Shim):
    _native = tuple
    @staticmethod
    def _inst(x): return builtins.isinstance(x, tuple)
    def __new__(cls, it=()): return tuple(it)

_SH = (int_, float_, bool_, str_, list_, bytes_, bytearray_, dict_, set_, tuple_)

def pv_type(x, *a):
    if a: return type(x, *a)
    if isinstance(x, bool): return bool_
    for c in (bool_, int_, float_, str_, list_, bytes_, bytearray_, dict_, set_, tuple_):
        if c._inst(x): return c
    if isinstance(x, SymSeq) and x.kind == 'array': return array_
    return type(x)

def pv_isinstance(x, t):
    if isinstance(t, tuple) : return any(pv_isinstance(x, y) for y in t)
    if isinstance(t, types.UnionType): return any(pv_isinstance(x, y) for y in t.__args__)
    if t is type: return builtins.isinstance(x, type)
    if builtins.isinstance(t, Stub): return False
    o = getattr(t, '__origin__', None)
    if o is not None:
        import typing
        if o is typing.Union: return any(pv_isinstance(x, y) for y in t.__args__)
        return pv_isinstance(x, _ORIG.get(o, o))
    return builtins.isinstance(x, t)

_ORIG = {list: list_, dict: dict_, set: set_, tuple: tuple_, type(None): type(None)}

def pv_minmax(pick):
    def f(*a, key=None, default=None):
        if len(a) == 1:
            items = list(a[0])
            if not items:
                if default is not None: return default
                raise ValueError("arg is an empty sequence")
        else: items = list(a)
        if key is not None:
            best = items[0]; kb = key(best)
            for x in items[1:]:
                kx = key(x)
                if truth(kx > kb if pick is smax2 else kx < kb): best, kb = x, kx
            return best
        r = items[0]
        for x in items[1:]:
            r = pick(r, x) if numlike(r) and numlike(x) else (x if truth(x > r if pick is smax2 else x < r) else r)
        return r
    return f

def pv_sum(it, start=0):
    if isinstance(it, SymSeq) and any(isinstance(s, Gen) for s in it.segs):
        from .theory import gen_sum
        return gen_sum(it, start)
    r = start
    for x in it: r = r + x
    return r

def pv_round(x, nd=None):
    if isinstance(x, SInt): return x
    if isinstance(x, SReal):
        if nd is None: return sround_half_even(x)
        if isinstance(nd, int) and nd >= 0:
            # nearest decimal: value equal to round(x*10^nd)/10^nd up to binary representation
            from .theory import real_round
            return real_round(x, nd)
        raise Unsupported("round")
    return round(x, nd) if nd is not None else round(x)

def pv_any(it):
    for x in it:
        if truth(x): return True
    return False
def pv_all(it):
    for x in it:
        if not truth(x): return False
    return True
def pv_abs(x): return abs(x)
def pv_iter(x, *a): return iter(x, *a)
def pv_enumerate(it, start=0):
    i = start
    for x in it:
        yield i, x
        i = i + 1
def pv_zip(*its, strict=False):
    its = [iter(i) for i in its]
    while True:
        r = []
        for i in its:
            try: r.append(next(i))
            except StopIteration: return
        yield tuple(r)
def pv_reversed(x):
    if isinstance(x, (SymSeq, SymRange)): return reversed(x)
    return reversed(x)
def pv_print(*a, **k): pass
def pv_pow(a, b, m=None):
    if m is not None: raise Unsupported("pow")
    return a ** b
def pv_divmod(a, b): return (sfloordiv(a, b), smod(a, b))
def pv_open(*a, **k):
    f = ctx().scratch.get('open')
    if f is None: raise Unsupported("open()")
    return f(*a, **k)
def pv_ord(x):
    if isinstance(x, (bytes, SymSeq)): return x[0]
    return ord(x)
def pv_hex(x):
    return hex(x) if isinstance(x, int) else SymStr('hexint', x)
def pv_map(fn, *its): 
    return (fn(*x) for x in pv_zip(*its))
def pv_filter(fn, it):
    return (x for x in it if truth(fn(x) if fn else x))
def pv_bytesview(x): return x

# ---------------------------------------------------------------- modules
class array_(metaclass=_Shim):
    """array.array, type code B only"""
    import array as _a
    _native = _a.array
    @staticmethod
    def _inst(x): return builtins.isinstance(x, SymSeq) and x.kind == 'array'
    def __new__(cls, tc, init=()):
        if tc != 'B': raise Unsupported(f"array type code {tc}")
        if isinstance(init, str): raise TypeError("cannot use a str to initialize an array with typecode 'B'")
        if intlike(init) : raise TypeError("'int' object is not iterable")
        if isinstance(init, SymSeq):
            if init.kind in BYTEKINDS: return init.copy('array')
            return bytes_from(init, 'array')
        if isinstance(init, (bytes, bytearray)): return seqm.coerce(init).copy('array')
        return bytes_from(SymSeq.of('list', list(init)), 'array')

class Stub:
    """a module or object with no modelled behaviour: attribute access and calls give stubs"""
    def __init__(self, name): self.__dict__['_n'] = name
    def __getattr__(self, a):
        if a.startswith('__'): raise AttributeError(a)
        return Stub(self._n + '.' + a)
    def __call__(self, *a, **k): return Stub(self._n + '()')
    def __repr__(self): return f"<stub {self._n}>"
    def __mro_entries__(self, bases): return (object,)

class Logger:
    def isEnabledFor(self, l): return False
    def __getattr__(self, a):
        if a.startswith('__'): raise AttributeError(a)
        return lambda *x, **k: None

def mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m

LOGGING = mod('logging', getLogger=lambda *a: Logger(), DEBUG=10, INFO=20, WARNING=30, ERROR=40, CRITICAL=50,
              basicConfig=lambda *a, **k: None)
for _n in ('debug', 'info', 'warning', 'error', 'exception', 'critical'):
    setattr(LOGGING, _n, lambda *a, **k: None)

# ---- math
def m_ceil(x):
    if isinstance(x, SReal): return sceil(x)
    if isinstance(x, SInt): return x
    import math
    return math.ceil(x)
def m_floor(x):
    if isinstance(x, SReal): return sfloor(x)
    if isinstance(x, SInt): return x
    import math
    return math.floor(x)
def m_log(x, *b):
    if is_sym(x) or (b and is_sym(b[0])):
        from .theory import log_model
        return log_model(x, *b)
    import math
    return math.log(x, *b)
def m_log2(x):
    if is_sym(x):
        from .theory import log_model
        return log_model(x, 2)
    import math
    return math.log2(x)
def m_pow(a, b):
    if not is_sym(a) and not is_sym(b):
        import math
        return math.pow(a, b)
    r = a ** b
    return mkreal(zr(r)) if not isinstance(r, float) else r
import math as _math
MATH = mod('math', ceil=m_ceil, floor=m_floor, log=m_log, log2=m_log2, pow=m_pow, inf=_math.inf, pi=_math.pi, e=_math.e,
           sqrt=lambda x: _math.sqrt(x) if not is_sym(x) else Unsupported_raise("sqrt"),
           isinf=lambda x: False if is_sym(x) else _math.isinf(x), isnan=lambda x: False if is_sym(x) else _math.isnan(x),
           gcd=_math.gcd, isqrt=_math.isqrt)
def Unsupported_raise(m): raise Unsupported(m)

# ---- struct
class StructError(Exception): pass
_SZ = {'B': 1, 'H': 2, 'I': 4, 'L': 4, 'Q': 8, 'b': 1, 'x': 1}
def _fmt(fmt):
    if isinstance(fmt, (bytes,)): fmt = fmt.decode()
    if fmt[0] not in '!>': raise Unsupported("struct byte order")
    out, num = [], ''
    for ch in fmt[1:]:
        if ch.isdigit(): num += ch; continue
        if ch.isspace(): continue
        k = int(num) if num else 1
        num = ''
        if ch == 's': out.append(('s', k)); continue
        if ch not in _SZ: raise Unsupported("struct format " + ch)
        out.extend([(ch, _SZ[ch])] * k)
    return out
def st_pack(fmt, *args):
    f = _fmt(fmt)
    args = list(args)
    out = SymSeq('bytes', [])
    for ch, sz in f:
        if ch == 'x': out.push(Lit([0])); continue
        if not args: raise StructError("pack expected more items")
        x = args.pop(0)
        if ch == 's':
            x = seqm.coerce(x)
            x = x.slice(0, sz)
            out = out + x.copy('bytes')
            n = x.length()
            out = out + (SymSeq.of('bytes', [0]) * (sz - n) if truth(mkbool(zi(n) < sz)) else SymSeq('bytes', []))
            continue
        if not intlike(x): raise StructError("required argument is not an integer")
        if isinstance(x, SBool): x = mkint(zi(x))
        if not truth(sand(mkbool(zi(x) >= 0), mkbool(zi(x) < 2 ** (8 * sz)))): raise StructError("argument out of range")
        for i in range(sz - 1, -1, -1): out.push(Lit([(x >> (8 * i)) & 0xFF]))
    if args: raise StructError("pack expected fewer items")
    return out
def st_unpack_from(fmt, buf, offset=0):
    f = _fmt(fmt)
    b = seqm.coerce(buf)
    if b is None or b.kind == 'list': raise TypeError("a bytes-like object is required")
    need = sum(s for _, s in f)
    if truth(mkbool(zi(b.length()) < zi(offset + need))): raise StructError("unpack_from requires a larger buffer")
    out = []
    p = offset
    for ch, sz in f:
        part = b.slice(p, p + sz)
        p = p + sz
        if ch == 'x': continue
        if ch == 's': out.append(part.copy('bytes')); continue
        n = 0
        for x in part.items(): n = append_digit(n, x)
        out.append(n)
    return tuple(out)
def st_unpack(fmt, buf):
    b = seqm.coerce(buf)
    if not ceq(b.length(), sum(s for _, s in _fmt(fmt))): raise StructError("unpack requires a buffer of another size")
    return st_unpack_from(fmt, buf)
STRUCT = mod('struct', pack=st_pack, unpack=st_unpack, unpack_from=st_unpack_from, error=StructError,
             calcsize=lambda f: sum(s for _, s in _fmt(f)))

# ---- ideal functions
def ideal(name, total, *args):
    """output of an ideal (injective, functional) function"""
    c = ctx()
    tab = c.scratch.setdefault('ideal', {})
    for (args2, b) in tab.get(name, []):
        if _syn_eq(args, args2): return b
    b = Base(name, total, (name,) + args)
    tab.setdefault(name, []).append((args, b))
    return b

def _syn_eq(a, b):
    if len(a) != len(b): return False
    for x, y in zip(a, b):
        if isinstance(x, SymSeq) and isinstance(y, SymSeq):
            if len(x.segs) != len(y.segs): return False
            for s, t in zip(x.segs, y.segs):
                if type(s) is not type(t): return False
                if isinstance(s, Blob):
                    if s.base is not t.base or not _ie(s.off, t.off) or not _ie(s.n, t.n): return False
                elif isinstance(s, Lit):
                    if len(s.items) != len(t.items) or not all(_ie(p, q) for p, q in zip(s.items, t.items)): return False
                else: return False
        elif isinstance(x, (SInt, int)) and isinstance(y, (SInt, int)):
            if not _ie(x, y): return False
        elif isinstance(x, SymSeq) or isinstance(y, SymSeq): return False
        elif x is not y and x != y: return False
    return True
def _ie(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    return zi(a).eq(zi(b))

def blob(kind, base, n=None):
    n = base.total if n is None else n
    return SymSeq(kind, [Blob(base, 0, n)])

class Hasher:
    def __init__(self, name='sha256', size=32, data=None):
        self.name, self.digest_size = name, size
        self.buf = SymSeq('bytes', [])
        if data is not None: self.update(data)
    def update(self, d):
        if isinstance(d, str): raise TypeError("Strings must be encoded before hashing")
        d2 = seqm.coerce(d)
        if d2 is None or d2.kind == 'list': raise TypeError("object supporting the buffer API required")
        for s in d2.segs: self.buf.push(s)
    def digest(self):
        return blob('bytes', ideal(self.name, self.digest_size, self.buf.copy()))
    def finalize(self): return self.digest()
    def hexdigest(self): return SymStr('hex', self.digest())
    def copy(self):
        h = Hasher(self.name, self.digest_size); h.buf = self.buf.copy(); return h
HASHLIB = mod('hashlib', sha256=lambda d=None: Hasher('sha256', 32, d), sha512=lambda d=None: Hasher('sha512', 64, d),
              sha1=lambda d=None: Hasher('sha1', 20, d), md5=lambda d=None: Hasher('md5', 16, d))

def fresh_bytes(name, n, kind='bytes'):
    return blob(kind, Base(name, n))
OS = mod('os', urandom=lambda n: fresh_bytes('urandom', n), path=Stub('os.path'), linesep='\n', sep='/')

def m_crc32c(data, value=0):
    d = seqm.coerce(data)
    if d is None or d.kind == 'list': raise TypeError("a bytes-like object is required")
    # crc of a concatenation depends on the concatenation only: carry the text
    prev = SymSeq('bytes', [])
    if isinstance(value, SInt):
        for v, t in ctx().scratch.get('crc', []):
            if v.e.eq(value.e): prev = t
        if not prev.segs: raise Unsupported("crc32c with unknown start value")
    elif value != 0: raise Unsupported("crc32c with a start value")
    text = prev.copy()
    for s in d.segs: text.push(s)
    for v, t in ctx().scratch.setdefault('crc', []):
        if truth(rope_eq(t, text)): return v
    v = SInt(ctx().fresh_int('crc', 0, 2 ** 32 - 1))
    ctx().abstract.append('crc32c value')
    ctx().scratch['crc'].append((v, text))
    return v
CRC = mod('crc32c', crc32c=m_crc32c)

class InvalidTag(Exception): pass
class InvalidSignature(Exception): pass

class _Aead:
    name = None
    def __init__(self, key, tag_length=16):
        k = seqm.coerce(key)
        if k is None or k.kind == 'list': raise TypeError("key must be bytes-like")
        n = k.length()
        if not truth(sor(mkbool(zi(n) == 16), mkbool(zi(n) == 24), mkbool(zi(n) == 32))):
            raise ValueError("AES key must be 128, 192, or 256 bits.")
        self.key = k.copy('bytes')
        if tag_length != 16: raise Unsupported("tag length")
    @classmethod
    def generate_key(cls, bit_length):
        if bit_length not in (128, 192, 256): raise ValueError("bit_length must be 128, 192, or 256")
        return fresh_bytes('aeskey', bit_length // 8)
    def _args(self, nonce, data, ad):
        nonce, data = seqm.coerce(nonce), seqm.coerce(data)
        if nonce is None or data is None or nonce.kind == 'list' or data.kind == 'list': raise TypeError("bytes-like required")
        a = seqm.coerce(ad) if ad is not None else SymSeq('bytes', [])
        if a is None or a.kind == 'list': raise TypeError("associated_data must be bytes-like")
        n = nonce.length()
        lo, hi = self.nonce_range
        if not truth(sand(mkbool(zi(n) >= lo), mkbool(zi(n) <= hi))): raise ValueError("Nonce size")
        return nonce.copy('bytes'), data.copy('bytes'), a.copy('bytes')
    def encrypt(self, nonce, data, associated_data):
        nonce, data, a = self._args(nonce, data, associated_data)
        b = ideal(self.name, data.length() + 16, self.key, nonce, a, data)
        ctx().scratch.setdefault('aead', []).append((self.name, self.key, nonce, a, data, b))
        return blob('bytes', b)
    def decrypt(self, nonce, data, associated_data):
        nonce, data, a = self._args(nonce, data, associated_data)
        made = [e for e in ctx().scratch.get('aead', []) if e[0] == self.name]
        # a ciphertext that is visibly one made here decrypts under its own key, nonce and data only
        own = [e for e in made if rope_eq(blob('bytes', e[5]), data) is True]
        for (m, k, n, ad, pt, b) in own[:1] or made:
            if not truth(rope_eq(k, self.key)): continue
            if not truth(rope_eq(n, nonce)): continue
            if not truth(rope_eq(ad, a)): continue
            if not truth(rope_eq(blob('bytes', b), data)): continue
            return pt.copy()
        raise InvalidTag()
class AESGCM(_Aead): name = 'gcm'; nonce_range = (8, 128)
class AESCCM(_Aead): name = 'ccm'; nonce_range = (7, 13)

class _Alg:
    def __init__(self, *a, **k): self.a, self.k = a, k
class SHA256(_Alg): name = 'sha256'; digest_size = 32
class SHA384(_Alg): name = 'sha384'; digest_size = 48
class SHA512(_Alg): name = 'sha512'; digest_size = 64
class PKCS1v15(_Alg): name = 'pkcs1v15'
class PSS(_Alg):
    name = 'pss'; MAX_LENGTH = 'max'
class MGF1(_Alg): name = 'mgf1'
class OAEP(_Alg): name = 'oaep'
class Prehashed(_Alg): name = 'pre'

class ModelPub:
    def __init__(self, kid, bits): self.kid, self.key_size = kid, bits
    def public_bytes(self, encoding, format):
        return blob('bytes', ideal('pub' + encoding, SInt(zi(ctx_key(self.kid, 'der' + encoding))), self.kid))
    def verify(self, signature, data, pad, alg):
        if pad.name != 'pkcs1v15': raise Unsupported("pss")
        s = seqm.coerce(signature)
        if s is None or s.kind == 'list': raise TypeError("signature must be bytes-like")
        s = s.copy('bytes')
        h, d = sig_digest(data, alg)
        # unforgeability: only signatures made with the private key (in this run) are ever accepted
        for (kid, h2, d2, b) in ctx().scratch.get('sigs', []):
            if kid != self.kid or h2 != h or b.total != self.key_size // 8: continue
            if not truth(rope_eq(s, blob('bytes', b))): continue
            if truth(rope_eq(d, d2)): return
        raise InvalidSignature()
    def encrypt(self, pt, pad):
        c = ctx()
        label = pad.k.get('label')
        label = seqm.coerce(label).copy('bytes') if label is not None else SymSeq('bytes', [])
        hn = pad.k['algorithm'].name + '/' + pad.k['mgf'].k['algorithm'].name
        pt = seqm.coerce(pt).copy('bytes')
        b = Base('oaep', self.key_size // 8, ('oaep', self.kid, c.fresh_name('oaep')))
        c.scratch.setdefault('oaep', []).append((self.kid, label, hn, pt, b))
        return blob('bytes', b)
def ctx_key(kid, what):
    d = ctx().scratch.setdefault('keylen', {})
    if (kid, what) not in d: d[(kid, what)] = ctx().fresh_int(what, 60, 600)
    return SInt(d[(kid, what)])
def sig_digest(data, alg):
    d = seqm.coerce(data).copy('bytes')
    if isinstance(alg, Prehashed): return alg.a[0].name, d
    x = Hasher(alg.name, alg.digest_size); x.update(d)
    return alg.name, x.digest()
def sig_of(k, data, pad, alg):
    h, d = sig_digest(data, alg)
    b = ideal('rsasig', k.key_size // 8, k.kid, pad.name, h, d)
    ctx().scratch.setdefault('sigs', []).append((k.kid, h, d, b))
    return blob('bytes', b)
class ModelPriv:
    def __init__(self, kid, bits): self.kid, self.key_size, self._p = kid, bits, ModelPub(kid, bits)
    def public_key(self): return self._p
    def sign(self, data, pad, alg):
        if pad.name != 'pkcs1v15': raise Unsupported("pss")
        return sig_of(self, data, pad, alg)
    def decrypt(self, ct, pad):
        label = pad.k.get('label')
        label = seqm.coerce(label).copy('bytes') if label is not None else SymSeq('bytes', [])
        hn = pad.k['algorithm'].name + '/' + pad.k['mgf'].k['algorithm'].name
        ct = seqm.coerce(ct)
        for (kid, lab, h, pt, b) in ctx().scratch.get('oaep', []):
            if kid != self.kid or h != hn: continue
            if not truth(rope_eq(lab, label)): continue
            if not truth(rope_eq(blob('bytes', b), ct.copy('bytes'))): continue
            return pt.copy()
        raise ValueError("Decryption failed")
def _kid(pem):
    b = seqm.coerce(pem)
    t = bytes(int(x) for x in b.items()).decode()
    # model PEM: header line, then KEY:<id>:<bits>
    body = t.split('\n')[1]
    _, kid, bits = body.split(':')
    return kid, int(bits)
SERIAL = mod('serialization', load_pem_private_key=lambda pem, password=None, backend=None: ModelPriv(*_kid(pem)),
             load_pem_public_key=lambda pem, backend=None: ModelPub(*_kid(pem)),
             Encoding=mod('Encoding', PEM='PEM', DER='DER'), PrivateFormat=Stub('PrivateFormat'),
             PublicFormat=Stub('PublicFormat'), NoEncryption=Stub('NoEncryption'), BestAvailableEncryption=Stub('x'))
class RSAPublicKey: pass
CRYPTO = {
    'cryptography': mod('cryptography'),
    'cryptography.exceptions': mod('cryptography.exceptions', InvalidTag=InvalidTag, InvalidSignature=InvalidSignature),
    'cryptography.hazmat': mod('h'), 'cryptography.hazmat.primitives': mod('p'),
    'cryptography.hazmat.backends': mod('b', default_backend=lambda: None),
    'cryptography.hazmat.primitives.hashes': mod('hashes', SHA256=SHA256, SHA384=SHA384, SHA512=SHA512, HashAlgorithm=_Alg,
              Hash=lambda alg, backend=None: Hasher(alg.name, alg.digest_size)),
    'cryptography.hazmat.primitives.serialization': SERIAL,
    'cryptography.hazmat.primitives.asymmetric': mod('asym'),
    'cryptography.hazmat.primitives.asymmetric.padding': mod('padding', PKCS1v15=PKCS1v15, PSS=PSS, MGF1=MGF1, OAEP=OAEP),
    'cryptography.hazmat.primitives.asymmetric.rsa': mod('rsa', RSAPublicKey=RSAPublicKey, generate_private_key=Stub('gen')),
    'cryptography.hazmat.primitives.asymmetric.utils': mod('utils', Prehashed=Prehashed),
    'cryptography.hazmat.primitives.ciphers': mod('ciphers'),
    'cryptography.hazmat.primitives.ciphers.aead': mod('aead', AESGCM=AESGCM, AESCCM=AESCCM),
    'cryptography.hazmat.primitives.kdf': mod('kdf'),
    'cryptography.hazmat.primitives.kdf.hkdf': mod('hkdf', HKDF=Stub('HKDF')),
}
for _k, _m in CRYPTO.items():
    if '.' in _k:
        p, _, n = _k.rpartition('.')
        setattr(CRYPTO[p], n, _m)

class SDateTime:
    """an aware datetime: only its timestamp() is modelled"""
    def __init__(self, ts): self.ts = ts
    def timestamp(self): return self.ts
    def isoformat(self, *a): return SymStr('iso', self.ts)
    @staticmethod
    def now(tz=None):
        t = z3.Real(ctx().fresh_name('now'))
        ctx().assume(z3.And(t >= 0, t <= 2 ** 37))      # the clock is past 1970
        return SDateTime(SReal(t))
    @staticmethod
    def fromtimestamp(ts, tz=None): return SDateTime(ts)
    @staticmethod
    def fromisoformat(s):
        if not isinstance(s, str): raise Unsupported("a symbolic date")
        import datetime
        d = datetime.datetime.fromisoformat(s)
        if d.tzinfo is None: raise Unsupported("a date in the local time zone")
        return SDateTime(d.timestamp())
    def __eq__(self, o): return isinstance(o, SDateTime) and pyeq(self.ts, o.ts)
DATETIME = mod('datetime', datetime=SDateTime, UTC='UTC', timezone=Stub('timezone'), timedelta=Stub('timedelta'))

class UUID:
    """16 bytes (assumed: uuid1() gives any)"""
    def __init__(self, data=None): self.bytes = data if data is not None else fresh_bytes('uuid', 16)
UUIDS = mod('uuid', UUID=UUID, uuid1=UUID, uuid4=UUID)
def m_urlparse(s):
    if isinstance(s, str):
        from urllib.parse import urlparse
        return urlparse(s)
    raise Unsupported("urlparse of symbolic string")

MODULES = {
    'logging': LOGGING, 'array': mod('array', array=array_), 'math': MATH, 'struct': STRUCT, 'hashlib': HASHLIB,
    'os': OS, 'os.path': Stub('os.path'), 'crc32c': CRC, 'datetime': DATETIME,
    'urllib.parse': mod('urllib.parse', urlparse=m_urlparse), 'urllib': mod('urllib'),
    'binascii': mod('binascii', hexlify=lambda b: SymSeq.of('bytes', []) if False else SymStr('hex', seqm.coerce(b).copy('bytes')),
                    unhexlify=lambda s: bytes_.fromhex(s), Error=ValueError),
    'networkx': Stub('networkx'), 'networkx.drawing': Stub('n'), 'networkx.drawing.nx_agraph': Stub('n'),
    'matplotlib': Stub('m'), 'matplotlib.pyplot': Stub('m'), 'jsbeautifier': Stub('j'), 'uuid': UUIDS, 'getpass': Stub('getpass'),
    'socket': Stub('socket'), 'xml.etree.ElementInclude': Stub('x'), 'xml.etree': Stub('x'), 'xml': Stub('x'),
    'argparse': Stub('argparse'),
    **CRYPTO,
}
MODULES['urllib'].parse = MODULES['urllib.parse']

_real_import = builtins.__import__
def pv_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name in MODULES:
            m = MODULES[name]
            if not fromlist and '.' in name: return MODULES[name.split('.')[0]]
            return m
        if name == 'pyvc_api':
            return _real_import('pyvc.api', globals, locals, ('x',), 0)
    return _real_import(name, globals, locals, fromlist, level)

def make_builtins():
    d = dict(vars(builtins))
    d.update({'__import__': pv_import, 'len': pv_len, 'isinstance': pv_isinstance, 'type': pv_type, 'int': int_, 'float': float_,
              'bool': bool_, 'str': str_, 'list': list_, 'bytes': bytes_, 'bytearray': bytearray_, 'dict': dict_, 'set': set_,
              'tuple': tuple_, 'range': SymRange, 'min': pv_minmax(smin2), 'max': pv_minmax(smax2), 'sum': pv_sum,
              'round': pv_round, 'any': pv_any, 'all': pv_all, 'enumerate': pv_enumerate, 'zip': pv_zip, 'reversed': pv_reversed,
              'sorted': ssorted, 'print': pv_print, 'hash': phash, 'repr': pv_repr, 'pow': pv_pow, 'divmod': pv_divmod,
              'open': pv_open, 'ord': pv_ord, 'hex': pv_hex, 'map': pv_map, 'filter': pv_filter, 'abs': pv_abs,
              'frozenset': set_, 'memoryview': pv_bytesview})
    return d
