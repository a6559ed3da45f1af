from pyvc_api import contract
import array
from ccnpy.core.Tlv import Tlv

M64 = 2 ** 64 - 1

@contract('CALLEES', 'number_to_array', ['Tlv.number_to_array'])
def number_to_array(v):
    n = v.int('n', 0, M64)
    r = Tlv.number_to_array(n)
    def good(x):
        k = len(x)
        v.ensure('an array of bytes', isinstance(x, array.array))
        v.ensure('minimal width', v.all(k == 1 if n < 256 else k == 2 if n < 65536 else k == 3 if n < 2 ** 24 else k == 4 if n < 2 ** 32 else k == 8))
        v.ensure('value', v.be(x) == n)
    good(r)
    s = Tlv.number_to_array(n)
    r.append(1)
    good(s)
    good(Tlv.number_to_array(n))

@contract('CALLEES', 'array_to_number', ['Tlv.array_to_number'])
def array_to_number(v):
    k = v.choice('len', [1, 2, 3, 4, 8])
    b = v.array('b', k, k) if v.bool('array') else v.bytes('b', k, k)
    before = v.cat(b)
    v.ensure('base-256 value', Tlv.array_to_number(b) == v.be(b))
    v.ensure('argument untouched', v.same_bytes(b, before))
