from pyvc_api import contract
from specs.names import confusable
import array
from ccnpy.core.Tlv import Tlv
from ccnpy.core.HashValue import HashValue
from ccnpy.core.Name import Name, NameComponent
from ccnpy.core.Link import Link
from ccnpy.core.KeyLink import KeyLink
from ccnpy.core.KeyId import KeyId
from ccnpy.core.Payload import Payload
from ccnpy.core.PayloadType import PayloadType
from ccnpy.core.FinalChunkId import FinalChunkId
from ccnpy.core.ExpiryTime import ExpiryTime
from ccnpy.core.ContentObject import ContentObject

def a_name(v, tag):
    return Name([NameComponent(v.int(tag + '.t', 0, 65535), v.bytes(tag + '.c', 0, 20)) for i in range(v.few(tag + '.n', 0, 1, 4))])

@contract('C03', 'tlv_equality', ['Tlv.__eq__', 'Tlv.__hash__'])
def tlv_eq(v):
    t, u = v.int('t', 0, 65535), v.int('u', 0, 65535)
    a, b = v.array('a', 0, 65535), v.array('b', 0, 65535)
    if v.bool('same value'): b = array.array('B', a)
    x, y = Tlv(t, a), Tlv(u, b)
    same = v.same_bytes(x.serialize(), y.serialize())
    v.ensure('equal iff same wire', (x == y) == same)
    v.ensure('not-equal is the opposite', (x != y) == v.neg(same))
    v.ensure('equal iff same type and value', (x == y) == v.all(t == u, v.same_bytes(a, b)))
    v.ensure('equal TLVs have equal hashes', v.implies(same, hash(x) == hash(y)))
    v.ensure('symmetric', (x == y) == (y == x))

@contract('C03', 'tlv_one_byte', ['Tlv.__eq__'])
def tlv_byte(v):
    t = v.int('t', 0, 65535)
    a = v.array('a', 1, 65535)
    b = v.unique_byte_change('change', a)
    v.ensure('one changed value byte makes them unequal', v.neg(Tlv(t, a) == Tlv(t, b)))

@contract('C03', 'tlv_foreign', ['Tlv.__eq__'])
def tlv_foreign(v):
    t = v.int('t', 0, 65535)
    a = v.array('a', 0, 300)
    x = Tlv(t, a)
    other = v.choice('other', ['none', 'int', 'str', 'array', 'list'])
    o = {'none': None, 'int': 5, 'str': 'x', 'array': x.serialize(), 'list': [1, 2]}[other]
    v.ensure('a TLV is unequal to something that is not a TLV', v.neg(x == o))

@contract('C03', 'tlv_dictionary', ['Tlv.__eq__', 'Tlv.__hash__'])
def tlv_dict(v):
    t, u = v.int('t', 0, 65535), v.int('u', 0, 65535)
    a, b = v.array('a', 0, 300), v.array('b', 0, 300)
    if v.bool('same'): u, b = t, array.array('B', a)
    d = {Tlv(t, a): 'first'}
    hit = Tlv(u, b) in d
    v.ensure('found exactly when the wire is the same', hit == v.all(t == u, v.same_bytes(a, b)))

@contract('C03', 'hash_value', ['HashValue.__eq__', 'HashValue.__hash__'])
def hv_eq(v):
    t, u = v.int('t', 0, 65535), v.int('u', 0, 65535)
    a, b = v.array('a', 0, 64), v.array('b', 0, 64)
    if v.bool('same'): b = array.array('B', a)
    x, y = HashValue(t, a), HashValue(u, b)
    same = v.all(t == u, v.same_bytes(a, b))
    v.ensure('equal iff same algorithm and value', (x == y) == same)
    v.ensure('equal values have equal hashes', v.implies(same, hash(x) == hash(y)))
    v.ensure('found in a dictionary exactly when equal', (y in {x: 1}) == same)
    v.ensure('unequal to another object', v.neg(x == v.choice('o', [None, 3, 'x'])))

@contract('C03', 'hash_value_forms', ['HashValue.__init__', 'HashValue.__eq__'])
def hv_forms(v):
    a = v.array('a', 0, 64)
    x, y = HashValue.create_sha256(a), HashValue.create_sha256(a.tobytes())
    v.ensure('array and bytes forms are equal', x == y)
    v.ensure('and hash alike', hash(x) == hash(y))
    for i in x: pass
    v.ensure('iterating one does not change that', v.all(x == y, hash(x) == hash(y)))

@contract('C03', 'names', ['Name.__eq__', 'Name.__init__'], bounded='names of up to 2 components', weight=2)
def names(v):
    n, m = v.few('n', 0, 2, 8), v.few('m', 0, 2, 8)
    cs = [NameComponent(v.choice('ct', [1, 5]), v.bytes('c', 0, 20)) for i in range(n)]
    if n == m and v.bool('copy'):
        ds = [NameComponent(c.type(), c.value()) for c in cs]
        if n and v.bool('alter'):
            k = v.choice('which', list(range(n)))
            ds[k] = NameComponent(v.choice('dt', [1, 5]), v.bytes('d', 0, 20))
    else:
        ds = [NameComponent(v.choice('dt', [1, 5]), v.bytes('d', 0, 20)) for i in range(m)]
    x, y = Name(cs), Name(ds)
    same = v.all(n == m, *[v.all(c.type() == d.type(), v.same_bytes(c.value(), d.value())) for c, d in zip(cs, ds)])
    v.ensure('equal iff same components', (x == y) == same)
    v.ensure('equal iff same wire', (x == y) == v.same_bytes(x.serialize(), y.serialize()))

def hv(v, name): return HashValue.create_sha256(v.array(name, 32, 32))

def opt_link(v, tag, like=None):
    name = a_name(v, tag + 'n') if v.bool(tag + 'has name') else None
    kid = hv(v, tag + 'k') if v.bool(tag + 'has keyid') else None
    dig = hv(v, tag + 'd') if v.bool(tag + 'has digest') else None
    return name, kid, dig

def same_opt(v, a, b):
    if a is None or b is None: return a is None and b is None
    return v.same_bytes(a.serialize(), b.serialize())

@contract('C03', 'links', ['Link.__eq__', 'Link.__init__'], weight=2)
def links(v):
    a = opt_link(v, 'a')
    if v.bool('copy'):
        b = list(a)
        if v.bool('alter'):
            k = v.choice('part', [0, 1, 2])
            b[k] = v.choice('to', [None, [a_name(v, 'bn'), hv(v, 'bk'), hv(v, 'bd')][k]])
    else: b = list(opt_link(v, 'b'))
    x, y = Link(name=a[0], keyid=a[1], digest=a[2]), Link(name=b[0], keyid=b[1], digest=b[2])
    same = v.all(same_opt(v, a[0], b[0]), same_opt(v, a[1], b[1]), same_opt(v, a[2], b[2]))
    v.ensure('equal iff same parts', (x == y) == same)
    v.ensure('key links too', (KeyLink(x) == KeyLink(y)) == same)
    v.ensure('reading one does not change equality', (x == y) == same)

@contract('C03', 'simple_fields', ['PayloadType.__eq__', 'FinalChunkId.__eq__', 'Payload.__eq__', 'KeyId.__eq__'])
def simple(v):
    k = v.choice('class', ['ptype', 'final', 'payload', 'keyid'])
    if k == 'ptype':
        a, b = v.int('a', 0, 255), v.int('b', 0, 255)
        v.ensure('payload type', (PayloadType(a) == PayloadType(b)) == (a == b))
    elif k == 'final':
        a, b = v.int('a', 0, 2 ** 64 - 1), v.int('b', 0, 2 ** 64 - 1)
        v.ensure('final chunk id', (FinalChunkId(a) == FinalChunkId(b)) == (a == b))
        v.ensure('hash agrees', v.implies(a == b, hash(FinalChunkId(a)) == hash(FinalChunkId(b))))
    elif k == 'payload':
        a, b = v.array('a', 0, 3000), v.array('b', 0, 3000)
        if v.bool('same'): b = array.array('B', a)
        v.ensure('payload', (Payload(a) == Payload(b)) == v.same_bytes(a, b))
    else:
        a, b = v.array('a', 0, 64), v.array('b', 0, 64)
        if v.bool('same'): b = array.array('B', a)
        x, y = KeyId(HashValue.create_sha256(a)), KeyId(HashValue.create_sha256(b))
        v.ensure('key id', (x == y) == v.same_bytes(a, b))
        v.ensure('hash agrees', v.implies(x == y, hash(x) == hash(y)))

def co_parts(v, tag):
    return dict(
        name=a_name(v, tag + 'n') if v.bool(tag + 'name?') else None,
        payload_type=PayloadType(v.int(tag + 'pt', 0, 3)) if v.bool(tag + 'pt?') else None,
        payload=Payload(v.array(tag + 'p', 0, 100)) if v.bool(tag + 'p?') else None,
        expiry_time=ExpiryTime(v.msec(v.int(tag + 'e', 0, 2 ** 46))) if v.bool(tag + 'e?') else None,
        final_chunk_id=FinalChunkId(v.int(tag + 'f', 0, 2 ** 32)) if v.bool(tag + 'f?') else None)

@contract('C03', 'content_objects', ['ContentObject.__eq__', 'ContentObject.__init__'], weight=3)
def content_objects(v):
    a = co_parts(v, 'a')
    b = dict(a)
    k = v.choice('alter', ['none', 'name', 'payload_type', 'payload', 'expiry_time', 'final_chunk_id'])
    if k == 'name': b[k] = a_name(v, 'bn')
    if k == 'payload_type': b[k] = PayloadType(v.int('bpt', 0, 3))
    if k == 'payload': b[k] = Payload(v.array('bp', 0, 100))
    if k == 'expiry_time': b[k] = ExpiryTime(v.msec(v.int('be', 0, 2 ** 46)))
    if k == 'final_chunk_id': b[k] = FinalChunkId(v.int('bf', 0, 2 ** 32))
    x, y = ContentObject(**a), ContentObject(**b)
    same = v.all(*[same_opt(v, a[f], b[f]) for f in a])
    v.ensure('equal iff same fields', (x == y) == same)
    v.ensure('equal iff same wire', (x == y) == v.same_bytes(x.serialize(), y.serialize()))

@contract('C03', 'confusable_names', ['Name.__eq__', 'Link.__eq__', 'ContentObject.__eq__'], sym=False, bounded='native: pairs of names that print alike')
def confusable_names(v):
    p, q = confusable(v)
    same = bytes(p.serialize()) == bytes(q.serialize())
    if same: return
    v.ensure('names that differ', p != q and Link(name=p) != Link(name=q) and ContentObject.create_data(name=p) != ContentObject.create_data(name=q))
    r = Name.parse(Tlv.deserialize(p.serialize()))
    v.ensure('and the parsed one too', r != q and r == p)

# names of any length
from specs.lists import Many, Flatten
@contract('C03', 'any_names', ['Name.__eq__', 'Name.__init__'], native=False, tags=('inductive',))
def any_names(v):
    e = NameComponent(v.int('ct', 0, 65535), v.bytes('c', 0, 3000))
    d = NameComponent(v.int('dt', 0, 65535), v.bytes('d', 0, 3000))
    m = Many(v, 'components', e, room=30000)
    v.loop('Tlv.flatten', 0, Flatten(v), 'for')
    x, y, z = Name(m.list()), Name(m.list()), Name(m.but(d).list())
    v.ensure('equal to a name of the same components', x == y)
    v.ensure('equal to a name that differs in one component only if that is equal', (x == z) == v.all(e.type() == d.type(), v.same_bytes(e.value(), d.value())))
