from pyvc_api import contract
import array
from ccnpy.core.Tlv import Tlv
from ccnpy.core.HashValue import HashValue
from ccnpy.core.Name import Name, NameComponent
from ccnpy.core.Link import Link
from ccnpy.core.KeyLink import KeyLink
from ccnpy.core.KeyId import KeyId
from ccnpy.core.Payload import Payload
from ccnpy.core.PayloadType import PayloadType
from ccnpy.core.FinalChunkId import FinalChunkId
from ccnpy.core.ExpiryTime import ExpiryTime
from ccnpy.core.ContentObject import ContentObject

M64 = 2 ** 64 - 1
def be16(n): return bytes([n // 256, n % 256])
def tlv(v, t, val): return v.cat(be16(t), be16(len(val)), val)

@contract('C04', 'name_round_trip', ['Name.__init__', 'Name.parse', 'Name.serialize', 'Name.component', 'Name.count', 'Name.__getitem__'], bounded='names of up to 3 components', weight=2)
def name_rt(v):
    n = v.few('n', 0, 3, 15)
    cs = [NameComponent(v.int('ct', 0, 65535), v.bytes('c', 0, 300)) for i in range(n)]
    x = Name(cs)
    body = v.cat(*[tlv(v, c.type(), c.value()) for c in cs])
    v.ensure('wire is the components in order', v.same_bytes(x.serialize(), tlv(v, 0, body)))
    v.ensure('len', len(x) == 4 + len(body))
    y = Name.parse(Tlv.deserialize(x.serialize()))
    v.ensure('count', y.count() == n)
    for i in range(n):
        v.ensure('component type', y.component(i).type() == cs[i].type())
        v.ensure('component value', v.same_bytes(y.component(i).value(), cs[i].value()))
    v.ensure('equal', x == y)
    v.ensure('same wire', v.same_bytes(y.serialize(), x.serialize()))

@contract('C04', 'name_append', ['Name.append', 'Name.append_chunk_id', 'Name.append_manifest_id', 'NameComponent.create_chunk_segment', 'NameComponent.create_manifest_id'], bounded='names of up to 2 components before appending')
def name_append(v):
    n = v.few('n', 0, 2, 12)
    cs = [NameComponent(v.choice('ct', [1, 5]), v.bytes('c', 0, 300)) for i in range(n)]
    x = Name(cs)
    before = v.cat(x.serialize())
    k = v.choice('op', ['component', 'chunk', 'manifest'])
    if k == 'component':
        c = NameComponent(v.int('nt', 0, 65535), v.bytes('nc', 0, 300))
        y = x.append(c)
    else:
        num = v.int('id', 0, M64)
        c = (NameComponent.create_chunk_segment if k == 'chunk' else NameComponent.create_manifest_id)(num)
        y = x.append_chunk_id(num) if k == 'chunk' else x.append_manifest_id(num)
        v.ensure('id component type', y.component(n).type() == (5 if k == 'chunk' else 16))
        v.ensure('id component is a chunk / manifest id', v.all(y.component(n).is_chunk_id_segment() == (k == 'chunk'), y.component(n).is_manifest_id_segment() == (k == 'manifest')))
        v.ensure('id reads back', Name.parse(Tlv.deserialize(y.serialize())).component(n).value_as_number() == num)
    v.ensure('one more component', y.count() == n + 1)
    v.ensure('new last component', v.all(y.component(n).type() == c.type(), v.same_bytes(y.component(n).value(), c.value())))
    for i in range(n):
        v.ensure('earlier components kept', v.all(y.component(i).type() == cs[i].type(), v.same_bytes(y.component(i).value(), cs[i].value())))
    v.ensure('wire', v.same_bytes(y.serialize(), tlv(v, 0, v.cat(*[z.serialize() for z in cs + [c]]))))
    v.ensure('original untouched', v.all(v.same_bytes(x.serialize(), before), x.count() == n))
    v.ensure('equal to the name made at once', y == Name(cs + [c]))

def a_name(v, tag, size=50):
    'Any name of up to two components of any type.'
    return Name([NameComponent(v.int(tag + '.t', 0, 65535), v.bytes(tag + '.c', 0, size)) for i in range(v.few(tag + '.n', 0, 2, 8))])

def hv(v, name): return HashValue(v.int(name + '.alg', 0, 65535), v.array(name, 0, 64))

@contract('C04', 'hash_round_trip', ['HashValue.parse', 'HashValue.deserialize', 'HashTlvType.parse', 'KeyId'])
def hash_rt(v):
    a = v.int('alg', 0, 65535)
    b = v.array('value', 0, 128)
    x = HashValue(a, b)
    v.ensure('wire', v.same_bytes(x.serialize(), tlv(v, a, b)))
    for y in (HashValue.parse(Tlv.deserialize(x.serialize())), HashValue.deserialize(x.serialize())):
        v.ensure('algorithm', y.hash_algorithm() == a)
        v.ensure('value', v.same_bytes(y.value(), b))
        v.ensure('equal', x == y)
    k = KeyId(x)
    v.ensure('key id wire', v.same_bytes(k.serialize(), tlv(v, 9, tlv(v, a, b))))
    k2 = KeyId.parse(Tlv.deserialize(k.serialize()))
    v.ensure('key id', k2.digest() == x)
    v.ensure('key ids equal', k == k2)

@contract('C04', 'link_round_trip', ['Link.__init__', 'Link.deserialize', 'Link.serialize', 'KeyLink.parse'])
def link_rt(v):
    name = a_name(v, 'name', 100) if v.bool('has name') else None
    kid = hv(v, 'keyid') if v.bool('has keyid') else None
    dig = hv(v, 'digest') if v.bool('has digest') else None
    x = Link(name=name, keyid=kid, digest=dig)
    want = v.cat(*[p for p in [name.serialize() if name is not None else None,
                               tlv(v, 2, kid.serialize()) if kid is not None else None,
                               tlv(v, 3, dig.serialize()) if dig is not None else None] if p is not None])
    v.ensure('wire', v.same_bytes(x.serialize(), want))
    v.ensure('len', len(x) == len(want))
    y = Link.deserialize(x.serialize())
    v.ensure('name', y.name() == name)
    v.ensure('keyid', y.keyid() == kid)
    v.ensure('digest', y.digest() == dig)
    v.ensure('equal', x == y)
    k = KeyLink(x)
    v.ensure('key link wire', v.same_bytes(k.serialize(), tlv(v, 14, want)))
    k2 = KeyLink.parse(Tlv.deserialize(k.serialize()))
    v.ensure('key link equal', k == k2)
    v.ensure('key link wire again', v.same_bytes(k2.serialize(), k.serialize()))

@contract('C04', 'fields_round_trip', ['PayloadType.parse', 'Payload.parse', 'ExpiryTime.parse', 'FinalChunkId.parse'])
def fields_rt(v):
    k = v.choice('class', ['ptype', 'payload', 'expiry', 'final'])
    if k == 'ptype':
        n = v.int('n', 0, 255)
        x = PayloadType(n)
        v.ensure('wire', v.same_bytes(x.serialize(), tlv(v, 5, bytes([n]))))
        y = PayloadType.parse(Tlv.deserialize(x.serialize()))
        v.ensure('kind kept', v.all(y.is_data() == (n == 0), y.is_key() == (n == 1), y.is_link() == (n == 2), y.is_manifest() == (n == 3)))
    elif k == 'payload':
        b = v.array('b', 0, 65535)
        x = Payload(b if v.bool('as array') else b.tobytes())
        v.ensure('wire', v.same_bytes(x.serialize(), tlv(v, 1, b)))
        y = Payload.parse(Tlv.deserialize(x.serialize()))
        v.ensure('value', v.all(v.same_bytes(y.value(), b), v.same_bytes(x.value(), b), v.same_bytes(y.value_bytes(), b)))
    elif k == 'expiry':
        ms = v.int('ms', 0, 2 ** 47)
        x = ExpiryTime(v.msec(ms))
        v.ensure('wire', v.same_bytes(x.serialize(), tlv(v, 6, bytes([(ms // 256 ** (7 - i)) % 256 for i in range(8)]))))
        y = ExpiryTime.parse(Tlv.deserialize(x.serialize()))
        v.ensure('milliseconds', y.milliseconds() == ms)
    else:
        n = v.int('n', 0, M64)
        x = FinalChunkId(n)
        y = FinalChunkId.parse(Tlv.deserialize(x.serialize()))
        v.ensure('type', Tlv.deserialize(x.serialize()).type() == 7)
    v.ensure('equal', x == y)
    v.ensure('same wire', v.same_bytes(y.serialize(), x.serialize()))

def parts(v):
    name = a_name(v, 'name', 50) if v.bool('name?') else None
    return dict(name=name,
                payload_type=PayloadType(v.int('pt', 0, 255)) if v.bool('pt?') else None,
                payload=Payload(v.array('payload', 0, 3000)) if v.bool('payload?') else None,
                expiry_time=ExpiryTime(v.msec(v.int('ms', 0, 2 ** 47))) if v.bool('expiry?') else None,
                final_chunk_id=FinalChunkId(v.int('final', 0, 2 ** 32)) if v.bool('final?') else None)

ORDER = ['name', 'expiry_time', 'payload_type', 'payload', 'final_chunk_id']

@contract('C04', 'content_object', ['ContentObject.__init__', 'ContentObject.parse', 'ContentObject.serialize'], weight=3)
def co_rt(v):
    p = parts(v)
    x = ContentObject(**p)
    body = v.cat(*[p[f].serialize() for f in ORDER if p[f] is not None])
    v.ensure('wire is the present fields in protocol order', v.same_bytes(x.serialize(), tlv(v, 2, body)))
    v.ensure('len', len(x) == 4 + len(body))
    y = ContentObject.parse(Tlv.deserialize(x.serialize()))
    for f, got in [('name', y.name()), ('expiry_time', y.expiry_time()), ('payload_type', y.payload_type()), ('payload', y.payload()), ('final_chunk_id', y.final_chunk_id())]:
        if p[f] is None: v.ensure('absent ' + f, got is None)
        else:
            v.ensure('present ' + f, got is not None)
            v.ensure('value of ' + f, v.same_bytes(got.serialize(), p[f].serialize()))
    v.ensure('equal', x == y)

@contract('C04', 'content_object_factories', ['ContentObject.create_data', 'ContentObject.create_manifest', 'ContentObject.create_link', 'ContentObject.is_manifest', 'ContentObject.is_link'], weight=2)
def co_make(v):
    name = a_name(v, 'name', 50) if v.bool('name?') else None
    ms = v.int('ms', 0, 2 ** 47) if v.bool('expiry?') else None
    exp = v.datetime(v.msec(ms)) if ms is not None else None
    k = v.choice('kind', ['data', 'manifest', 'link'])
    fc = None
    if k == 'data':
        body = v.array('payload', 0, 3000) if v.bool('payload?') else None
        fc = v.int('final', 0, 2 ** 32) if v.bool('final?') else None
        x = ContentObject.create_data(name=name, payload=body, expiry_time=exp, final_chunk_id=fc)
    elif k == 'manifest':
        m = Tlv(v.int('mt', 0, 65535), v.array('mv', 0, 1000))
        body = m.serialize()
        x = ContentObject.create_manifest(m, name=name, expiry_time=exp)
    else:
        v.assume(name is not None)
        l = Link(name=name, digest=HashValue.create_sha256(v.array('dig', 32, 32)))
        body = l.serialize()
        x = ContentObject.create_link(l, name=name, expiry_time=exp)
    y = ContentObject.parse(Tlv.deserialize(x.serialize()))
    for o in (x, y):
        v.ensure('name', o.name() == name)
        if body is None: v.ensure('no payload', v.all(o.payload() is None, o.payload_type() is None))
        else:
            v.ensure('payload', v.same_bytes(o.payload().value(), body))
            v.ensure('payload type', v.all(o.payload_type().is_data() == (k == 'data'), o.payload_type().is_manifest() == (k == 'manifest'), o.payload_type().is_link() == (k == 'link')))
        v.ensure('is_manifest / is_link', v.all(o.is_manifest() == (k == 'manifest'), o.is_link() == (k == 'link')))
        if ms is None: v.ensure('no expiry', o.expiry_time() is None)
        else: v.ensure('expiry', o.expiry_time().milliseconds() == ms)
        if fc is None: v.ensure('no final chunk', o.final_chunk_id() is None)
        else: v.ensure('final chunk', o.final_chunk_id() == FinalChunkId(fc))
    v.ensure('equal', x == y)

@contract('C04', 'name_uri', ['Name.from_uri'], sym=False, bounded='native only')
def name_uri(v):
    n = v.few('n', 0, 4, 12)
    segs = [bytes([97 + b % 26 for b in v.bytes('s', 1, 8)]) for i in range(n)]
    x = Name.from_uri('ccnx:/' + '/'.join([s.decode() for s in segs]))
    v.ensure('components', v.all(x.count() == n, *[v.all(x.component(i).type() == 1, v.same_bytes(x.component(i).value(), segs[i])) for i in range(n)]))
    v.ensure('equal', x == Name([NameComponent.create_name_segment(s) for s in segs]))

# any number of components
from specs.lists import Many, Flatten, Parse
def same_component(v): return lambda a, b: v.all(isinstance(a, NameComponent), a.type() == b.type(), v.same_bytes(a.value(), b.value()), v.same_bytes(a.serialize(), b.serialize()))
def many_components(v): return Many(v, 'components', NameComponent(v.int('type', 0, 65535), v.bytes('component', 0, 60000)))

@contract('C04', 'any_name', ['Name.__init__', 'Name.parse', 'Name.serialize', 'Name.component', 'Name.count', 'Name.__getitem__', 'Tlv.flatten'], native=False, tags=('inductive',))
def any_name(v):
    m = many_components(v)
    v.assume(len(m.text) <= 65000)
    same = same_component(v)
    v.loop('Tlv.flatten', 0, Flatten(v), 'for')
    v.loop('Name.parse', 0, Parse(v, [('any', 'components', m)], same, ('inner_tlv', 'converted_tlv', 'encoded')))
    x = Name(m.list())
    want = tlv(v, 0, m.text)
    v.ensure('wire is the components in order', v.all(v.same_bytes(x.serialize(), want), len(x) == len(want)))
    v.ensure('count', x.count() == m.n)
    v.ensure('component', x.component(m.k) is m.e)
    y = Name.parse(Tlv.deserialize(x.serialize()))
    v.ensure('count', y.count() == m.n)
    v.ensure('component', same(y.component(m.k), m.e))
    v.ensure('same wire', v.same_bytes(y.serialize(), want))

@contract('C04', 'any_append', ['Name.append', 'Name.append_chunk_id', 'Name.append_manifest_id', 'Name.count', 'Name.component'], native=False, tags=('inductive',))
def any_append(v):
    m = many_components(v)
    v.assume(len(m.text) <= 60000)
    v.loop('Tlv.flatten', 0, Flatten(v), 'for')
    x = Name(m.list())
    k = v.choice('op', ['component', 'chunk', 'manifest'])
    c = NameComponent(v.int('nt', 0, 65535), v.bytes('nc', 0, 300)) if k == 'component' else None
    num = v.int('id', 0, M64)
    y = x.append(c) if k == 'component' else x.append_chunk_id(num) if k == 'chunk' else x.append_manifest_id(num)
    v.ensure('one more', v.all(y.count() == m.n + 1, x.count() == m.n))
    v.ensure('earlier components kept', v.all(y.component(m.k) is m.e, x.component(m.k) is m.e))
    last = y.component(m.n)
    if c is None: v.ensure('the number', v.all(last.type() == (5 if k == 'chunk' else 16), last.value_as_number() == num, len(last) <= 12))
    else: v.ensure('the component', last is c)
    v.ensure('wire', v.same_bytes(y.serialize(), tlv(v, 0, v.cat(m.text, last.serialize()))))
    v.ensure('original untouched', v.same_bytes(x.serialize(), tlv(v, 0, m.text)))
