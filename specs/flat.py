"""Tlv.flatten of a list of any number of hash values: 36 bytes each (lengths only)"""
import array
from ccnpy.core.HashValue import HashValue
from ccnpy.core.Tlv import Tlv

# the representation of a HashGroupBuilder that loop invariants speak about
BUILDER = ('_pointers', '_direct_size', '_indirect_size', '_direct_count', '_indirect_count', '_max_direct', '_max_indirect')

class Flatten:
    def __init__(self, v): self.v = v
    def applies(self, value): return self.v.has_run(value)
    def holds(self, l):
        return [('a list of bytes', isinstance(l['byte_list'], list)), ('36 bytes per hash', len(l['byte_list']) == 36 * l.i)]
    def havoc(self, l):
        l['byte_list'].become(self.v.blob('hashes', 0, 2 ** 20))
        self.v.assume(len(l['byte_list']) == 36 * l.i)
    scratch = ('x',)

def assume(v):
    """lists with a run of hash values are flattened by the contract proved in `register`"""
    def flatten(value):
        if not v.has_run(value): return real(value)
        for kind, x, lo, hi in v.parts(value):
            h = x if kind == 'one' else x(v.fresh('index', 0))
            if not isinstance(h, HashValue) or len(h) != 36: raise TypeError('not a hash value')
        b = v.blob('hashes', 0, 2 ** 20, 'array')
        v.assume(len(b) == 36 * len(value))
        return b
    real = v.assumed(Tlv, 'flatten', staticmethod(flatten))

def register(contract, pid):
    @contract(pid, 'flatten_any_number', ['Tlv.flatten', 'HashValue.serialize'], native=False, tags=('inductive',))
    def flatten(v):
        n = v.int('hashes', 0, 2 ** 13)
        shape = v.choice('list', ['run', 'one before', 'one after'])
        run = v.elements(lambda i: HashValue.create_sha256(v.blob('hash', 32, 32)), 0, n)
        if shape == 'one before': run.insert(0, HashValue.create_sha256(v.blob('hash', 32, 32)))
        if shape == 'one after': run.append(HashValue.create_sha256(v.blob('hash', 32, 32)))
        v.loop('Tlv.flatten', 0, Flatten(v), 'for')
        r = Tlv.flatten(run)
        v.ensure('an array of bytes', isinstance(r, array.array))
        v.ensure('36 bytes per hash', len(r) == 36 * len(run))
