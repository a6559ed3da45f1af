"""Loop invariants and assumed callee contracts.

A contract registers `v.loop('Class.method', k, spec)` for the k-th loop of a function of /repo.  When that loop is
reached, it is cut: the invariant is an obligation on entry; then everything the loop changes is made arbitrary
(spec.havoc), the invariant is assumed, and the loop condition splits the path.  One side runs the body once and must
re-establish the invariant (an obligation), leave every object the spec does not list as changed exactly as it was (the
frame, checked over everything reachable from the frame's variables), and decrease the measure; the other side goes on
after the loop.  Nothing is unrolled.

spec: an object with
  holds(l)    -> [(label, condition)]            the invariant, over the locals l['x'] (and l.i, l.n for a `for` loop)
  havoc(l)    changes objects in place and rebinds locals (l['x'] = ...)
  measure(l)  -> integer, optional               at least 0 and smaller after the body
l.g is a dict that lives as long as one execution of the loop (ghost values).
A spec that does not fit the code any more (missing variable or attribute) makes the path Unsupported: undecided."""
import sys, types
import z3
from . import core
from .core import *
from .seq import SymSeq, SymDict, SymSet, Lit, Gen
from . import seq as seqm

class LoopDone(PathEnd):
    """the body of a cut loop was run once and its obligations were stated"""

def same(a, b):
    if a is b: return True
    if isinstance(a, (SInt, SReal)) and isinstance(b, type(a)): return a.e.eq(b.e)
    if isinstance(a, SBool) and isinstance(b, SBool): return a.e.eq(b.e)
    if type(a) is type(b) and isinstance(a, (int, str, bool, float, bytes)): return a == b
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, types.MethodType) and isinstance(b, types.MethodType): return a.__func__ is b.__func__ and a.__self__ is b.__self__
    if isinstance(a, SymSeq) and isinstance(b, SymSeq) and a.kind == 'bytes' == b.kind: return seqs(a, b)
    if isinstance(a, _Segs) and isinstance(b, _Segs): return len(a.s) == len(b.s) and all(same_seg(x, y) for x, y in zip(a.s, b.s))
    return False

class _Segs:
    def __init__(self, s): self.s = s

def seqs(a, b): return len(a.segs) == len(b.segs) and all(same_seg(x, y) for x, y in zip(a.segs, b.segs))

def same_seg(x, y):
    if x is y: return True
    if isinstance(x, tuple) or isinstance(y, tuple):
        x = x if isinstance(x, tuple) else tuple(x.items) if isinstance(x, Lit) else x
        y = y if isinstance(y, tuple) else tuple(y.items) if isinstance(y, Lit) else y
        return isinstance(x, tuple) and isinstance(y, tuple) and same(x, y)
    if type(x) is not type(y): return False
    if isinstance(x, Lit): return same(tuple(x.items), tuple(y.items))
    if isinstance(x, seqm.Blob): return x.base is y.base and same(x.off, y.off) and same(x.n, y.n)
    return x.fn is y.fn and same(x.lo, y.lo) and same(x.hi, y.hi)

SKIP = ('z3', 'logging', 'pyvc')
def state(o):
    """the parts of o that can change, by name; None for values"""
    if isinstance(o, SymSeq):
        if o.kind == 'bytes': return None
        return {'elements': _Segs([tuple(s.items) if isinstance(s, Lit) else s for s in o.segs])}
    if isinstance(o, SymDict): return {'elements': tuple((k, v) for k, v in o.ents)}
    if isinstance(o, SymSet): return {'elements': tuple((k, v) for k, v in o.d.ents)}
    if isinstance(o, (type, types.FunctionType, types.ModuleType, types.BuiltinFunctionType, str, int, float, bytes, SInt, SBool, SReal)) or o is None: return None
    if isinstance(o, (list,)): return {'elements': tuple(o)}
    if isinstance(o, dict): return {'elements': tuple(o.items())}
    m = type(o).__module__.split('.')[0]
    if m in SKIP or m == 'builtins': return None
    d = getattr(o, '__dict__', None)
    return dict(d) if isinstance(d, dict) else None

def children(o, st):
    if isinstance(o, tuple): return list(o)
    if isinstance(o, types.MethodType): return [o.__self__]
    if isinstance(o, types.FunctionType): return [c.cell_contents for c in (o.__closure__ or ()) if cell_ok(c)]
    if st is None: return []
    out = []
    for x in st.values():
        if isinstance(x, _Segs):
            for s in x.s:
                if isinstance(s, tuple): out += list(s)
        elif isinstance(x, tuple): out += [y for p in x for y in (p if isinstance(p, tuple) else (p,))]
        else: out.append(x)
    return out

def cell_ok(c):
    try: c.cell_contents
    except ValueError: return False
    return True

def snapshot(roots):
    """id -> (object, state) of everything reachable"""
    out, todo = {}, list(roots)
    while todo:
        o = todo.pop()
        if isinstance(o, (int, str, float, bytes, bool, type(None), SInt, SBool, SReal)) or id(o) in out: continue
        st = state(o)
        out[id(o)] = (o, st)
        if len(out) > 20000: raise Unsupported("frame too large to check")
        todo += children(o, st)
    return out

def changed(before, objs=None):
    """(id, attribute) pairs that differ from the snapshot"""
    out = set()
    for i, (o, st) in before.items():
        if st is None: continue
        now = state(o)
        for k in set(st) | set(now):
            if k not in st or k not in now or not same(st[k], now[k]): out.add((i, k))
    return out

class Vars(dict):
    """locals at a loop head"""
    def __init__(self, d, g):
        dict.__init__(self, d)
        self.g = g
        self.rebound = set()
        self.i = self.n = None
        self.also = []
    def __setitem__(self, k, x):
        if k not in self: raise KeyError(k)
        self.rebound.add(k)
        dict.__setitem__(self, k, x)
    def int(self, name, lo=None, hi=None):
        return SInt(ctx().fresh_int(name, zi(lo) if lo is not None else None, zi(hi) if hi is not None else None))
    def modifies(self, o, attr='elements'): self.also.append((id(o), attr))

def guarded(what, fn):
    try: return fn()
    except (AttributeError, KeyError, TypeError, IndexError, NameError) as e:
        raise Unsupported(f"{what} does not fit the code: {type(e).__name__}: {e}")

class Cut:
    on = True
    def __init__(self, lid, spec, rec):
        self.lid, self.spec, self.rec = lid, spec, rec
        self.g = {}
        self.first = True
        self.short = lid.split(':')[-1]
    def oblige(self, l, when):
        for label, c in guarded('loop invariant of ' + self.short, lambda: self.spec.holds(l)):
            self.rec.obligation(f"loop {self.short}: {label} ({when})", c)
    def measure(self, l):
        f = getattr(self.spec, 'measure', None)
        return None if f is None else guarded('loop measure of ' + self.short, lambda: f(l))
    def arrive(self, d, i=None, n=None):
        """at the loop head; returns the locals to bind"""
        l = Vars(d, self.g)
        l.i, l.n = i, n
        if self.first and i is None and hasattr(self.spec, 'applies') and not guarded('loop ' + self.short, lambda: self.spec.applies(l)):
            self.on = False
            return l
        if self.first:
            self.first = False
            self.oblige(l, 'on entry')
            roots = list(d.values())
            s0 = snapshot(roots)
            if i is not None:
                l.i = SInt(ctx().fresh_int('iteration', 0))
                ctx().assume(zi(l.i) <= zi(n))
            guarded('loop havoc of ' + self.short, lambda: self.spec.havoc(l))
            self.free = changed(s0) | set(l.also)
            for label, c in guarded('loop invariant of ' + self.short, lambda: self.spec.holds(l)):
                ctx().assume(zb(c) if isinstance(c, (bool, SBool)) else zb(truth(c)))
            self.m = self.measure(l)
            self.vars = dict(l)
            self.rebound = l.rebound
            self.snap = snapshot(list(l.values()))
            self.i = l.i
            ctx().notes_cut = True
            return l
        self.oblige(l, 'preserved')
        m = self.measure(l)
        if m is not None:
            self.rec.obligation(f"loop {self.short}: terminates", sand(self.m >= 0, m < self.m))
        for o, k in changed(self.snap) - self.free:
            raise Unsupported(f"loop {self.short} also changes {type(self.snap[o][0]).__name__}.{k}")
        for k, x in self.vars.items():
            if k in d and k not in self.rebound and not same(x, d[k]) and not self.dead(k):
                raise Unsupported(f"loop {self.short} also changes the variable {k}")
        raise LoopDone("loop body done")
    def dead(self, k): return k in getattr(self.spec, 'scratch', ())

class Off:
    on = False
OFF = Off()

def find(lid):
    if core.CTX is None: return None
    t = core.CTX.scratch.get('loops')
    if not t: return None
    return t.get(lid.split(':')[-1])

def loop(lid):
    s = find(lid)
    if s is None: return OFF
    if s[2] != 'while': raise Unsupported(f"loop {lid} is a while loop now")
    return Cut(lid, s[0], s[1])

class ForCut(Cut):
    def over(self, it):
        from .loops import SymRange, RopeIter
        r = it
        if hasattr(self.spec, 'applies') and not self.spec.applies(it):
            self.on = False
            return it
        if isinstance(r, RopeIter): r = r.f()
        if isinstance(r, SymRange):
            if r.s != 1: raise Unsupported("stepped range")
            self.n, self.at = r.length(), lambda k: r.a + k
        elif isinstance(r, SymSeq):
            r = r.copy()
            self.n, self.at = r.length(), lambda k: r[k]
        elif hasattr(r, 'cut_iteration'): self.n, self.at = r.cut_iteration()
        else: raise Unsupported(f"loop {self.short}: iteration over {type(it).__name__}")
        return self
    def __iter__(self): return self
    def __next__(self):
        f = sys._getframe(1)
        d = {k: x for k, x in f.f_locals.items() if not k.startswith('_pv_')}
        if self.first:
            self.l = self.arrive(d, 0, self.n)
            if truth(self.l.i < self.n):
                x = self.at(self.l.i)
                return x
            raise StopIteration
        self.arrive(d, self.i + 1, self.n)

def floop(lid):
    s = find(lid)
    if s is None: return OFF
    if s[2] != 'for': raise Unsupported(f"loop {lid} is a for loop now")
    return ForCut(lid, s[0], s[1])
