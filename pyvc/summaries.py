"""Modular step: at call sites in contracts, these functions of /repo are represented by their contract (specs/callees.py)
instead of their body.  The contract itself is proved against /repo's current source in the same check run; when that
proof fails the summary is switched off and the body is used."""
import z3
from . import core, seq as seqm
from .core import *
from .seq import *

ACTIVE = set()
M64 = 2 ** 64 - 1

def num_blob(n):
    """bytes of the minimal big-endian form (1, 2, 3, 4 or 8 bytes) of 0 <= n < 2^64"""
    c = ctx()
    tab = c.scratch.setdefault('num', {})
    e = z3.simplify(n.e)
    if e.get_id() in tab: b = tab[e.get_id()][1]
    else:
        L = z3.Int(c.fresh_name('numlen'))
        c.add(L == z3.If(e < 256, Z(1), z3.If(e < 65536, Z(2), z3.If(e < 2 ** 24, Z(3), z3.If(e < 2 ** 32, Z(4), Z(8))))))
        b = Base('num', SInt(L), ('num', n))
        tab[e.get_id()] = (e, b)
    return SymSeq('array', [Blob(b, 0, b.total)])

def number_to_array(n, *rest):
    if rest or not isinstance(n, SInt): return NotImplemented
    c = ctx()
    if not c.proved(z3.And(n.e >= 0, n.e <= M64)) or c.proved(n.e < 256): return NotImplemented
    return num_blob(n)

def array_to_number(a, *rest):
    if rest or not isinstance(a, SymSeq) or a.kind not in BYTEKINDS: return NotImplemented
    segs = a.segs
    if len(segs) != 1 or not isinstance(segs[0], Blob): return NotImplemented
    s = segs[0]
    if s.base.origin is None or s.base.origin[0] != 'num': return NotImplemented
    c = ctx()
    if not c.proved(z3.And(zi(s.off) == 0, zi(s.n) == zi(s.base.total))): return NotImplemented
    return s.base.origin[1]

TABLE = {'ccnpy.core.Tlv': {('Tlv', 'number_to_array'): number_to_array, ('Tlv', 'array_to_number'): array_to_number}}

def after_load(module):
    for (cname, fname), summ in TABLE.get(module.__name__, {}).items():
        c = module.__dict__.get(cname)
        f = c.__dict__.get(fname) if isinstance(c, type) else None
        if not isinstance(f, staticmethod): continue
        setattr(c, fname, staticmethod(wrap(f.__func__, summ, fname)))

def wrap(orig, summ, name):
    def call(*a, **k):
        if name in ACTIVE and core.CTX is not None and not k:
            r = summ(*a)
            if r is not NotImplemented: return r
        return orig(*a, **k)
    call.__wrapped__ = orig
    return call
