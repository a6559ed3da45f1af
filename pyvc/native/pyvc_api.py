"""what the specifications see, native side: the same contracts on the untouched real code with concrete inputs.
Used to replay counterexamples and as the bounded stand-in (seeded random + boundary values)."""
import array, hashlib, os, random, math
from datetime import datetime, timezone, timedelta

CONTRACTS = {}

class Contract:
    def __init__(self, pid, name, fn, functions, bounded, sym, native, weight, tags):
        self.__dict__.update(pid=pid, name=name, fn=fn, functions=functions, bounded=bounded, sym=sym, native=native,
                             weight=weight, tags=tags)

def contract(pid, name, functions=(), bounded=None, sym=True, native=True, weight=1, tags=()):
    def d(fn):
        CONTRACTS[(pid, name)] = Contract(pid, name, fn, list(functions), bounded, sym, native, weight, tags)
        return fn
    return d

class Discard(BaseException):
    pass
class Violated(BaseException):
    def __init__(self, label): self.label = label

KEYDIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'keys')
_keys = {}

class V:
    symbolic = False
    def __init__(self, source):
        self.src = source        # .int(name, lo, hi), .bytes, .choice
        self.n = {}
        self.log = {}
        self.nens = 0
        self._restore = []
    def _name(self, n):
        k = self.n.get(n, 0)
        self.n[n] = k + 1
        return n if k == 0 else f"{n}#{k}"
    def int(self, name, lo, hi):
        name = self._name(name)
        if lo == hi: return lo
        x = self.src.int(name, lo, hi)
        self.log[name] = x
        return x
    def bytes(self, name, lo=0, hi=65535, kind='bytes'):
        name = self._name(name)
        b = self.src.bytes(name, lo, hi)
        self.log[name] = b.hex()
        return b if kind == 'bytes' else array.array('B', b)
    def array(self, name, lo=0, hi=65535): return self.bytes(name, lo, hi, 'array')
    def bool(self, name): return self.choice(name, [False, True])
    def choice(self, name, opts):
        name = self._name(name)
        opts = list(opts)
        k = self.src.choice(name, len(opts))
        self.log[name] = k
        return opts[k]
    def small(self, name, lo, hi): return lo + self.choice(name, list(range(hi - lo + 1)))
    def few(self, name, lo, hi, more):
        name = self._name(name)
        k = self.src.few(name, hi - lo + 1, more - lo + 1)
        self.log[name] = k
        return lo + k
    def rsa_key(self, name, which=None, bits=2048):
        name = self._name(name)
        kid = which if which is not None else name
        idx = {'k0': 0, 'k1': 1, 'k2': 2}.get(kid)
        if idx is None: idx = sum(kid.encode()) % 3
        if idx not in _keys:
            _keys[idx] = (open(os.path.join(KEYDIR, f'k{idx}.pem'), 'rb').read(), open(os.path.join(KEYDIR, f'k{idx}.pub.pem'), 'rb').read())
        return _keys[idx]
    def datetime(self, seconds):
        """aware datetime with exactly the given milliseconds (seconds = ms/1000)"""
        ms = round(seconds * 1000)
        return datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(milliseconds=ms)
    def datetime_us(self, us): return datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(microseconds=us)
    def msec(self, ms): return ms / 1000
    def assume(self, c):
        if not c: raise Discard()
    def ensure(self, label, c):
        self.nens += 1
        if not c: raise Violated(label)
    def implies(self, a, b): return (not a) or b
    def all(self, *cs): return all(cs)
    def any(self, *cs): return any(cs)
    def neg(self, c): return not c
    def raises(self, label, excs, fn):
        self.nens += 1
        try: fn()
        except excs: return True
        raise Violated(label)
    def outcome(self, fn, excs):
        try: return fn(), None
        except excs as e: return None, e
    def same_bytes(self, a, b):
        return bytes(a) == bytes(b)
    def be(self, b): return int.from_bytes(bytes(b), 'big')
    def cat(self, *xs): return b''.join(bytes(x) for x in xs)
    def sha256(self, *xs):
        h = hashlib.sha256()
        for x in xs: h.update(bytes(x))
        return h.digest()
    def crc32c(self, data):
        import crc32c
        return crc32c.crc32c(bytes(data))
    def set_global(self, module, name, value):
        self._restore.append((module, name, getattr(module, name)))
        setattr(module, name, value)
    def unique_byte_change(self, name, b):
        n = len(b)
        i = self.int(name + '.pos', 0, 1 << 20)
        if not self.replaying:
            if n == 0: raise Discard()
            i %= n
            self.log[name + '.pos'] = i
        self.assume(i < n)
        x = self.int(name + '.val', 0, 255)
        self.assume(b[i] != x)
        out = bytearray(bytes(b)); out[i] = x
        return type(b)('B', bytes(out)) if isinstance(b, array.array) else bytes(out)
    replaying = False
    def cleanup(self):
        for m, n, x in reversed(self._restore): setattr(m, n, x)

class RandomSource:
    def __init__(self, rng, small=None):
        self.r = rng
        self.small = small if small is not None else rng.random()
    def int(self, name, lo, hi):
        r = self.r
        p = r.random()
        if p < 0.25: return r.choice([lo, hi, min(lo + 1, hi), max(hi - 1, lo)])
        if p < 0.5:
            k = r.randrange(0, max(1, hi.bit_length()) + 1)
            x = (1 << k) + r.choice([-1, 0, 1, 0])
            return min(max(x, lo), hi)
        if p < 0.7: return min(hi, lo + r.randrange(0, 20))
        if p < 0.85:
            k = r.randrange(1, max(2, hi.bit_length() + 1))
            return min(max(r.getrandbits(k), lo), hi)
        return r.randint(lo, hi)
    def bytes(self, name, lo, hi):
        r = self.r
        p = r.random()
        if p < 0.5: n = r.randint(lo, min(hi, lo + 12))
        elif p < 0.75: n = r.choice([x for x in (0, 1, 2, 3, 4, 7, 8, 9, 16, 31, 32, 33, 63, 64, 255, 256, 257, lo, lo + 1) if lo <= x <= hi] or [lo])
        elif p < 0.85: n = r.choice([hi, max(lo, hi - 1), lo]) if hi <= 70000 and self.small > 0.7 else lo
        else: n = r.randint(lo, min(hi, lo + 600))
        q = r.random()
        if q < 0.7: return r.randbytes(n)
        if q < 0.8: return bytes(n)
        if q < 0.9: return b'\xff' * n
        return bytes(r.choice([0, 1, 2, 4, 255]) for _ in range(n))
    def choice(self, name, n): return self.r.randrange(n)
    def few(self, name, n, more): return self.r.randrange(n) if self.r.random() < 0.75 or self.small < 0.2 else self.r.randrange(more)

class ReplaySource:
    def __init__(self, vals): self.v = vals; self.missing = []
    def int(self, name, lo, hi):
        if name in self.v: return self.v[name]
        self.missing.append(name); return lo
    def bytes(self, name, lo, hi):
        if name in self.v: return bytes.fromhex(self.v[name])
        self.missing.append(name); return bytes(lo)
    def choice(self, name, n):
        if name in self.v and 0 <= self.v[name] < n: return self.v[name]
        self.missing.append(name); return 0
    def few(self, name, n, more): return self.choice(name, more)
