from pyvc_api import contract
import array
from ccnpy.core.Tlv import Tlv
from ccnpy.exceptions.ParseError import ParseError

FN = ['Tlv.__init__', 'Tlv.flatten', 'Tlv._serialize', 'Tlv.deserialize', 'Tlv.serialize']

def be16(n):
    return bytes([n // 256, n % 256])

@contract('C01', 'wire_layout', FN)
def wire_layout(v):
    t = v.int('type', 0, 65535)
    val = v.array('value', 0, 65535)
    tlv = Tlv(t, val)
    w = tlv.serialize()
    v.ensure('wire = type, length, value', v.same_bytes(w, v.cat(be16(t), be16(len(val)), val)))
    v.ensure('len() is the wire length', len(tlv) == 4 + len(val))
    v.ensure('length() is the value length', tlv.length() == len(val))
    v.ensure('type kept', tlv.type() == t)
    v.ensure('value kept', v.same_bytes(tlv.value(), val))

@contract('C01', 'round_trip', FN)
def round_trip(v):
    t = v.int('type', 0, 65535)
    val = v.array('value', 0, 65535)
    tail = v.array('tail', 0, 70000)
    w = Tlv(t, val).serialize()
    back = Tlv.deserialize(w + tail)
    v.ensure('type', back.type() == t)
    v.ensure('value', v.same_bytes(back.value(), val))
    v.ensure('re-encodes to the same bytes', v.same_bytes(back.serialize(), w))
    v.ensure('length', back.length() == len(val))

@contract('C01', 'truncation', FN)
def truncation(v):
    t = v.int('type', 0, 65535)
    val = v.array('value', 0, 65535)
    w = Tlv(t, val).serialize()
    cut = v.int('cut', 0, 65538)
    v.assume(cut < len(w))
    v.raises('truncated input is refused', ParseError, lambda: Tlv.deserialize(w[0:cut]))

@contract('C01', 'decode_any', FN)
def decode_any(v):
    buf = v.array('buffer', 0, 70000)
    r, e = v.outcome(lambda: Tlv.deserialize(buf), ParseError)
    if e is None:
        n = buf[2] * 256 + buf[3]
        v.ensure('type field', r.type() == buf[0] * 256 + buf[1])
        v.ensure('value', v.same_bytes(r.value(), buf[4:4 + n]))
        v.ensure('announced length present', len(buf) >= 4 + n)
        v.ensure('consumed prefix', v.same_bytes(r.serialize(), buf[0:4 + n]))
    else:
        v.ensure('refused only when short', v.any(len(buf) < 4, True) if len(buf) < 4 else len(buf) < 4 + buf[2] * 256 + buf[3])

@contract('C01', 'composite', FN, bounded='at most 3 members')
def composite(v):
    n = v.few('n', 0, 3, 12)
    members = []
    expect = v.cat(b'')
    for i in range(n):
        k = v.choice('kind', ['tlv', 'byte', 'none'])
        if k == 'tlv':
            m = Tlv(v.int('t', 0, 65535), v.array('v', 0, 20000 if n <= 3 else 4000))
            members.append(m)
            expect = v.cat(expect, m.serialize())
        elif k == 'byte':
            b = v.int('b', 0, 255)
            members.append(b)
            expect = v.cat(expect, bytes([b]))
        else:
            members.append(None)
    t = v.int('type', 0, 65535)
    tlv = Tlv(t, members)
    v.ensure('value is the concatenation', v.same_bytes(tlv.value(), expect))
    v.ensure('wire', v.same_bytes(tlv.serialize(), v.cat(be16(t), be16(len(expect)), expect)))

@contract('C01', 'empty_value', FN)
def empty_value(v):
    t = v.int('type', 0, 65535)
    tlv = Tlv(t, None)
    v.ensure('wire', v.same_bytes(tlv.serialize(), v.cat(be16(t), bytes([0, 0]))))
    v.ensure('length', tlv.length() == 0)

@contract('C01', 'extend', FN + ['Tlv.extend'])
def extend(v):
    t = v.int('type', 0, 65535)
    a = v.array('a', 0, 30000)
    u = v.int('utype', 0, 65535)
    b = v.array('b', 0, 30000)
    x, y = Tlv(t, a), Tlv(u, b)
    wx, wy = v.cat(x.serialize()), v.cat(y.serialize())
    z = x.extend(y)
    v.ensure('type', z.type() == t)
    v.ensure('value', v.same_bytes(z.value(), v.cat(a, wy)))
    v.ensure('wire', v.same_bytes(z.serialize(), v.cat(be16(t), be16(len(a) + len(wy)), a, wy)))
    v.ensure('left operand unchanged', v.same_bytes(x.serialize(), wx))
    v.ensure('left value unchanged', v.same_bytes(x.value(), a))
    v.ensure('right operand unchanged', v.same_bytes(y.serialize(), wy))

@contract('C01', 'iterate', FN + ['Tlv.__iter__', 'Tlv.__next__'], bounded='values up to 6 bytes deductively, up to 700 natively')
def iterate(v):
    t = v.int('type', 0, 65535)
    val = v.array('value', 0, 6 if v.symbolic else 700)
    tlv = Tlv(t, val)
    v.ensure('iterating gives the wire bytes', v.same_bytes(array.array('B', [b for b in tlv]), tlv.serialize()))

# any number of members
from specs.lists import Many, Flatten
@contract('C01', 'any_composite', FN, native=False, tags=('inductive',))
def any_composite(v):
    k = v.choice('kind', ['tlv', 'byte', 'none'])
    e = Tlv(v.int('t', 0, 65535), v.array('v', 0, 60000)) if k == 'tlv' else v.int('b', 0, 255) if k == 'byte' else None
    m = Many(v, 'members', e, least=0)
    v.assume(len(m.text) <= 65535)
    v.loop('Tlv.flatten', 0, Flatten(v), 'for')
    t = v.int('type', 0, 65535)
    members = m.list()
    tlv = Tlv(t, members)
    v.ensure('value is the concatenation', v.same_bytes(tlv.value(), m.text))
    v.ensure('wire', v.all(v.same_bytes(tlv.serialize(), v.cat(be16(t), be16(len(m.text)), m.text)), len(tlv) == 4 + len(m.text)))
    v.ensure('the members are as they were', v.all(len(members) == m.n, members[m.k] is m.e))

@contract('C01', 'any_iteration', ['Tlv.__iter__', 'Tlv.__next__'], native=False, tags=('inductive',))
def any_iteration(v):
    tlv = Tlv(v.int('type', 0, 65535), v.array('value', 0, 65535))
    w = tlv.serialize()
    i = v.int('at', 0, 65539)
    v.assume(i <= len(w))
    it = iter(tlv)
    v.ensure('from the start', next(it) == w[0])
    it = iter(tlv)
    v.ensure('again from the start', next(it) == w[0])
    v.fits(it, '_tlv_type', '_value', '_wire_format', '_offset')
    v.put(it, '_offset', i)
    b, e = v.outcome(lambda: next(it), (StopIteration,))
    v.ensure('ends after the last byte', (e is not None) == (i == len(w)))
    if e is None:
        v.ensure('the byte', b == w[i])
        v.ensure('one further', it._offset == i + 1)
