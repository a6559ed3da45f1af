from pyvc_api import contract
import array
from ccnpy.core.Tlv import Tlv
from ccnpy.core.HashValue import HashValue, HashFunctionType
from ccnpy.core.Name import Name, NameComponent
from ccnpy.core.Link import Link
from ccnpy.core.KeyLink import KeyLink
from ccnpy.core.KeyId import KeyId
from ccnpy.core.ExpiryTime import ExpiryTime
from ccnpy.core.SignatureTime import SignatureTime
from ccnpy.core.FinalChunkId import FinalChunkId
from ccnpy.core.PayloadType import PayloadType
from ccnpy.core.Payload import Payload
from ccnpy.core.Pad import Pad
from ccnpy.core.ContentObject import ContentObject
from ccnpy.core.Packet import Packet
from ccnpy.core.FixedHeader import FixedHeader
from ccnpy.core.ValidationAlg import ValidationAlg, ValidationAlg_Crc32c, ValidationAlg_RsaSha256
from ccnpy.core.ValidationPayload import ValidationPayload
from ccnpy.flic.tlvs.AuthTag import AuthTag
from ccnpy.flic.tlvs.EncryptedNode import EncryptedNode
from ccnpy.flic.tlvs.GroupData import GroupData
from ccnpy.flic.tlvs.HashGroup import HashGroup
from ccnpy.flic.tlvs.KdfAlg import KdfAlg
from ccnpy.flic.tlvs.KdfData import KdfData
from ccnpy.flic.tlvs.KdfInfo import KdfInfo
from ccnpy.flic.tlvs.KeyNumber import KeyNumber
from ccnpy.flic.tlvs.LeafDigest import LeafDigest
from ccnpy.flic.tlvs.LeafSize import LeafSize
from ccnpy.flic.tlvs.Locator import Locator
from ccnpy.flic.tlvs.Locators import Locators
from ccnpy.flic.tlvs.Manifest import Manifest
from ccnpy.flic.tlvs.NcDef import NcDef
from ccnpy.flic.tlvs.NcId import NcId
from ccnpy.flic.tlvs.NcSchema import NcSchema, HashSchema, PrefixSchema, SegmentedSchema
from ccnpy.flic.tlvs.Node import Node
from ccnpy.flic.tlvs.NodeData import NodeData
from ccnpy.flic.tlvs.Nonce import Nonce
from ccnpy.flic.tlvs.Pointers import Pointers
from ccnpy.flic.tlvs.ProtocolFlags import ProtocolFlags
from ccnpy.flic.tlvs.StartSegmentId import StartSegmentId
from ccnpy.flic.tlvs.SubtreeDigest import SubtreeDigest
from ccnpy.flic.tlvs.SubtreeSize import SubtreeSize
from ccnpy.flic.tlvs.SuffixComponentType import SuffixComponentType
from ccnpy.flic.tlvs.Vendor import Vendor
from ccnpy.flic.tlvs.AeadCtx import AeadCtx
from ccnpy.flic.tlvs.AeadMode import AeadMode
from ccnpy.flic.tlvs.RsaOaepCtx import RsaOaepCtx
from ccnpy.flic.tlvs.SecurityCtx import SecurityCtx
from ccnpy.flic.aeadctx.AeadData import AeadData
from ccnpy.flic.RsaOaepCtx.HashAlg import HashAlg
from ccnpy.flic.RsaOaepCtx.WrappedKey import WrappedKey

M64 = 2 ** 64 - 1
REFUSED = (RuntimeError, ValueError, TypeError, AssertionError)
def be16(n): return bytes([n // 256, n % 256])
def tlv(v, t, *vals):
    val = v.cat(*vals)
    return v.cat(be16(t), be16(len(val)), val)
def hv(v): return HashValue.create_sha256(v.array('hash', 32, 32))

# makers of one field each: a valid value of the field with symbolic content
MAKE = {
    SubtreeSize: lambda v: SubtreeSize(v.int('subtree size', 0, M64)), LeafSize: lambda v: LeafSize(v.int('leaf size', 0, M64)),
    SubtreeDigest: lambda v: SubtreeDigest(hv(v)), LeafDigest: lambda v: LeafDigest(hv(v)),
    NcId: lambda v: NcId(v.int('nc id', 0, M64)), StartSegmentId: lambda v: StartSegmentId(v.int('start segment id', 0, M64)),
    GroupData: lambda v: GroupData(subtree_size=SubtreeSize(v.int('group size', 0, M64))), Pointers: lambda v: Pointers([hv(v)]),
    Locators: lambda v: Locators([Locator.from_name(Name([NameComponent(1, v.bytes('locator', 0, 20))]))]),
    NodeData: lambda v: NodeData(subtree_size=SubtreeSize(v.int('node size', 0, M64))),
    HashGroup: lambda v: HashGroup(pointers=Pointers([hv(v)])),
    Node: lambda v: Node(hash_groups=[HashGroup(pointers=Pointers([hv(v)]))]),
    EncryptedNode: lambda v: EncryptedNode(v.array('encrypted', 0, 90)), AuthTag: lambda v: AuthTag(v.array('tag', 0, 20)),
    AeadCtx: lambda v: AeadCtx(AeadData(v.int('ctx key number', 0, M64), v.array('ctx nonce', 0, 9), AeadMode.create_aes_gcm_128())),
    HashSchema: lambda v: HashSchema(locators=None, flags=ProtocolFlags(v.array('schema flags', 0, 9))),
    PrefixSchema: lambda v: PrefixSchema(name=Name([NameComponent(1, v.bytes('schema name', 0, 9))])),
    Name: lambda v: Name([NameComponent(1, v.bytes('name', 0, 40))]), ProtocolFlags: lambda v: ProtocolFlags(v.array('flags', 0, 9)),
    SuffixComponentType: lambda v: SuffixComponentType(v.int('suffix', 0, 65535)),
    KdfAlg: lambda v: KdfAlg(v.int('kdf alg', 0, M64)), KdfInfo: lambda v: KdfInfo(v.array('kdf info', 0, 40)),
    KdfData: lambda v: KdfData(KdfAlg(v.int('kdf alg', 0, M64))),
    KeyNumber: lambda v: KeyNumber(v.int('key number', 0, M64)), Nonce: lambda v: Nonce(v.array('nonce', 0, 20)),
    AeadMode: lambda v: AeadMode(v.choice('mode', [1, 4])), KeyId: lambda v: KeyId(hv(v)),
    KeyLink: lambda v: KeyLink(Link(name=Name([NameComponent(1, v.bytes('key link', 0, 20))]))),
    HashAlg: lambda v: HashAlg(v.choice('hash alg', [HashFunctionType.T_SHA_256, HashFunctionType.T_SHA_512])), WrappedKey: lambda v: WrappedKey(v.array('wrapped', 0, 300)),
    PayloadType: lambda v: PayloadType(v.choice('payload type', [0, 3])), Payload: lambda v: Payload(v.array('payload', 0, 900)),
    ExpiryTime: lambda v: ExpiryTime(v.msec(v.int('expiry', 0, 10 ** 14))),
    SignatureTime: lambda v: SignatureTime(v.msec(v.int('signed', 0, 10 ** 14))),
    FinalChunkId: lambda v: FinalChunkId(v.int('final chunk', 0, M64)),
    ContentObject: lambda v: ContentObject(payload=Payload(v.array('body', 0, 900))),
    ValidationAlg_Crc32c: lambda v: ValidationAlg_Crc32c(), ValidationPayload: lambda v: ValidationPayload(v.array('validation', 0, 300)),
}

class Restriction:
    'a hash restriction of a link: a hash value in a TLV of its own type'
    def __init__(self, t, h): self.t, self.h = t, h
    def serialize(self): return Tlv(self.t, self.h.serialize()).serialize()
    def holds(self): return self.h
def restriction(t): return lambda v: Restriction(t, hv(v))

class Structure:
    """fields: (class or maker, getter); required: positions that must be there; lists: positions that may repeat;
    skips: whether unknown inner TLVs are skipped or refused; types: further inner types that the parser knows"""
    def __init__(self, name, parse, fields, required=(), skips=True, types=(), lists=()):
        self.__dict__.update(name=name, parse=parse, fields=fields, required=required, skips=skips, types=types, lists=lists)
    def make(self, v, i):
        f = self.fields[i][0]
        return MAKE[f](v) if f in MAKE else f(v)
def structure_parser(cls): return lambda v, value: cls.parse(Tlv(cls.class_type(), value))
def ctx_parser(cls): return lambda v, value: SecurityCtx.parse(Tlv(SecurityCtx.class_type(), Tlv(cls.class_type(), value).serialize()))
def link_parser(v, value): return Link.deserialize(value)
def packet_parser(v, value): return Packet.deserialize(array.array('B', v.cat(FixedHeader.create_content_object(8 + len(value)).serialize(), value)))
def rsa_parser(v, value): return ValidationAlg.parse(Tlv(ValidationAlg.class_type(), Tlv(ValidationAlg_RsaSha256.class_type(), value).serialize()))
def manifest_parser(v, value): return Manifest.deserialize(value)

GROUP = [(SubtreeSize, 'subtree_size'), (SubtreeDigest, 'subtree_digest'), (LeafSize, 'leaf_size'), (LeafDigest, 'leaf_digest'), (NcId, 'nc_id'), (StartSegmentId, 'start_segment_id')]
AEAD = [(KeyNumber, lambda x: x.aead_data().key_number()), (Nonce, lambda x: x.aead_data().nonce()), (AeadMode, lambda x: x.aead_data().mode()), (KdfData, lambda x: x.aead_data().kdf_data())]
def wrapper(get): return lambda x: getattr(x.rsa_oaep_wrapper(), get)()
WRAP = [(KeyId, wrapper('key_id')), (HashAlg, lambda x: HashAlg(HashFunctionType.T_SHA_512 if x.rsa_oaep_wrapper().is_sha_512() else HashFunctionType.T_SHA_256)), (WrappedKey, wrapper('wrapped_key')), (KeyLink, wrapper('key_link'))]
LINK = [(Name, 'name'), (restriction(2), 'keyid'), (restriction(3), 'digest')]
STRUCTURES = [
    Structure('GroupData', structure_parser(GroupData), GROUP),
    Structure('HashGroup', structure_parser(HashGroup), [(GroupData, 'group_data'), (Pointers, 'pointers')]),
    Structure('NodeData', structure_parser(NodeData), [(SubtreeSize, 'subtree_size'), (SubtreeDigest, 'subtree_digest'), (Locators, 'locators')], skips=False,
              types=[NcDef, Vendor]),
    Structure('Node', structure_parser(Node), [(NodeData, 'node_data'), (HashGroup, lambda n: n.hash_groups()[0])], required=[1], skips=False, lists=[1], types=[Pad]),
    Structure('Manifest', manifest_parser, [(AeadCtx, 'security_ctx'), (EncryptedNode, 'node'), (AuthTag, 'auth_tag')], required=[1], skips=False, types=[Node]),
    Structure('NcDef', structure_parser(NcDef), [(NcId, 'nc_id'), (HashSchema, 'schema')], required=[0, 1], skips=False, types=[PrefixSchema, SegmentedSchema]),
    Structure('PrefixSchema', structure_parser(PrefixSchema), [(Name, 'name'), (Locators, 'locators'), (ProtocolFlags, 'flags')], required=[0]),
    Structure('SegmentedSchema', structure_parser(SegmentedSchema), [(Name, 'name'), (SuffixComponentType, 'suffix_type'), (Locators, 'locators'), (ProtocolFlags, 'flags')], required=[0, 1]),
    Structure('HashSchema', structure_parser(HashSchema), [(Locators, 'locators'), (ProtocolFlags, 'flags')]),
    Structure('KdfData', structure_parser(KdfData), [(KdfAlg, 'kdf_alg'), (KdfInfo, 'kdf_info')], required=[0]),
    Structure('AeadCtx', ctx_parser(AeadCtx), AEAD, required=[0, 1, 2]),
    Structure('Link', link_parser, LINK, skips=False),
    Structure('ContentObject', structure_parser(ContentObject), [(Name, 'name'), (ExpiryTime, 'expiry_time'), (PayloadType, 'payload_type'), (Payload, 'payload'), (FinalChunkId, 'final_chunk_id')], skips=False),
    Structure('ValidationAlg_RsaSha256', rsa_parser, [(KeyId, lambda x: KeyId(x.keyid())), (SignatureTime, 'signature_time')], required=[0, 1], types=[KeyLink, 0xB]),
]

def value_of(x): return x.holds() if isinstance(x, Restriction) else x
def get(s, obj, i):
    g = s.fields[i][1]
    return getattr(obj, g)() if isinstance(g, str) else g(obj)
def inner_type(x):
    w = x.serialize()
    return w[0] * 256 + w[1]
def known(s, v, xs):
    'the inner types the parser of s knows'
    return [inner_type(x) for x in xs] + [c if isinstance(c, int) else c.class_type() for c in s.types]
def check(v, s, obj, xs, there):
    for i in range(len(xs)):
        got = get(s, obj, i)
        if i in there: v.ensure('the field that was given', got == value_of(xs[i]))
        else: v.ensure('an absent field is absent', got is None)
def complete(s, there): return all(i in there for i in s.required)
def parse(v, s, parts): return v.outcome(lambda: s.parse(v, array.array('B', v.cat(*parts))), REFUSED)
def arrangement(v, s, most):
    'some of the fields in some order'
    left, out = list(range(len(s.fields))), []
    for k in range(v.small('fields', 0, min(most, len(left)))):
        i = v.choice('next', left)
        left.remove(i); out.append(i)
    return out

def register(s):
    most = max(3, len(s.required)) if len(s.fields) < 5 else 2
    names = [s.name + ' parser']

    @contract('C19', s.name + '_order', names, bounded='up to %d of the fields of one structure' % most, weight=2)
    def order(v):
        xs = [s.make(v, i) for i in range(len(s.fields))]
        there = arrangement(v, s, most) if v.symbolic else arrangement(v, s, len(xs))
        obj, e = parse(v, s, [xs[i].serialize() for i in there])
        v.ensure('refused only if a mandatory field is missing', (e is None) == complete(s, there))
        if e is None: check(v, s, obj, xs, there)

    @contract('C19', s.name + '_repeated', names, bounded='one field twice among all the others', weight=1)
    def repeated(v):
        xs = [s.make(v, i) for i in range(len(s.fields))]
        i = v.choice('twice', [i for i in range(len(xs)) if i not in s.lists])
        again = s.make(v, i)
        parts = [x.serialize() for x in xs]
        parts.insert(v.small('at', 0, len(parts)), again.serialize())
        obj, e = parse(v, s, parts)
        v.ensure('a repeated field is refused', e is not None)

    @contract('C19', s.name + '_unknown', names, bounded='one unknown TLV among all the fields', weight=1)
    def unknown(v):
        xs = [s.make(v, i) for i in range(len(s.fields))]
        t = v.int('unknown type', 0, 65535)
        v.assume(v.all(*[v.neg(t == k) for k in known(s, v, xs)]))
        parts = [x.serialize() for x in xs]
        parts.insert(v.small('at', 0, len(parts)), tlv(v, t, v.array('unknown', 0, 40)))
        obj, e = parse(v, s, parts)
        v.ensure('an unknown TLV is skipped or refused, as the format says', (e is None) == s.skips)
        if e is None: check(v, s, obj, xs, range(len(xs)))

    @contract('C19', s.name + '_cut', names, bounded='one field cut short after the other fields', weight=1)
    def cut(v):
        xs = [s.make(v, i) for i in range(len(s.fields))]
        i = v.choice('cut', list(range(len(xs))))
        w = xs[i].serialize()
        n = v.int('bytes left', 1, 2000)
        v.assume(n < len(w))
        obj, e = parse(v, s, [xs[k].serialize() for k in range(len(xs)) if k != i] + [w[:n]])
        v.ensure('a field that is cut short is refused', e is not None)
for s in STRUCTURES: register(s)

@contract('C19', 'wrapped_key_context', ['RsaOaepCtx.parse', 'RsaOaepWrapper.parse', 'AeadData.parse'], bounded='the fields in one of 8 rotations of the usual order', weight=3)
def wrapped_ctx(v):
    fields = AEAD + WRAP
    xs = [MAKE[f](v) for f, g in fields]
    there = [i for i in range(8) if i not in (3, 7) or v.bool('optional')]
    k = v.small('first', 0, len(there) - 1)
    there = there[k:] + there[:k]
    lost = v.choice('lost', [None] + there)
    if lost is not None: there.remove(lost)
    obj, e = v.outcome(lambda: ctx_parser(RsaOaepCtx)(v, array.array('B', v.cat(*[xs[i].serialize() for i in there]))), REFUSED)
    v.ensure('refused only if a mandatory field is missing', (e is None) == (lost in (None, 3, 7)))
    if e is not None: return
    for i in range(8):
        got = fields[i][1](obj)
        if i in there: v.ensure('the field that was given', got == xs[i])
        else: v.ensure('an absent field is absent', got is None)

@contract('C19', 'wrapped_key_context_bad', ['RsaOaepCtx.parse', 'RsaOaepWrapper.parse', 'AeadData.parse'], bounded='one field twice, or one unknown TLV, among the others', weight=3)
def wrapped_ctx_bad(v):
    fields = AEAD + WRAP
    xs = [MAKE[f](v) for f, g in fields]
    parts = [x.serialize() for x in xs]
    at = v.choice('at', [0, 3, 8])
    if v.bool('twice'):
        parts.insert(at, MAKE[v.choice('which', [f for f, g in fields])](v).serialize())
        obj, e = v.outcome(lambda: ctx_parser(RsaOaepCtx)(v, array.array('B', v.cat(*parts))), REFUSED)
        v.ensure('a repeated field is refused', e is not None)
    else:
        t = v.int('unknown type', 0, 65535)
        v.assume(v.all(*[v.neg(t == inner_type(x)) for x in xs]))
        parts.insert(at, tlv(v, t, v.array('unknown', 0, 40)))
        obj = ctx_parser(RsaOaepCtx)(v, array.array('B', v.cat(*parts)))
        for i in range(8): v.ensure('the field that was given', fields[i][1](obj) == xs[i])

@contract('C19', 'only_one_inside', ['SecurityCtx.parse', 'AeadCtx.parse', 'HashTlvType.parse', 'ValidationAlg.parse', 'Link.deserialize'])
def only_one(v):
    h, ctx, alg = hv(v), MAKE[AeadCtx](v), Tlv(ValidationAlg_Crc32c.class_type(), []).serialize()
    inner = ctx.serialize()[4:]
    what = v.choice('what', ['ctx', 'key id', 'subtree digest', 'leaf digest', 'alg', 'key restriction', 'hash restriction'])
    more = v.array('more', 1, 40) if v.bool('junk') else inner if what == 'ctx' else alg if what == 'alg' else hv(v).serialize()
    def with_more(first, more): return array.array('B', v.cat(first, more))
    def attempt(more):
        if what == 'ctx': return SecurityCtx.parse(Tlv(SecurityCtx.class_type(), with_more(inner, more)))
        if what == 'alg': return ValidationAlg.parse(Tlv(ValidationAlg.class_type(), with_more(alg, more)))
        if what == 'key restriction': return Link.deserialize(Tlv(2, with_more(h.serialize(), more)).serialize())
        if what == 'hash restriction': return Link.deserialize(Tlv(3, with_more(h.serialize(), more)).serialize())
        cls = {'key id': KeyId, 'subtree digest': SubtreeDigest, 'leaf digest': LeafDigest}[what]
        return cls.parse(Tlv(cls.class_type(), with_more(h.serialize(), more)))
    attempt(b'')
    v.raises('more than the one inner TLV', REFUSED, lambda: attempt(more))

TYPED = [Name, PayloadType, Payload, ExpiryTime, SignatureTime, FinalChunkId, KeyId, KeyLink, Pad, ContentObject, ValidationPayload, ValidationAlg,
         SubtreeSize, SubtreeDigest, LeafSize, LeafDigest, NcId, StartSegmentId, GroupData, Pointers, HashGroup, Locator, Locators, NodeData, Node,
         EncryptedNode, AuthTag, SecurityCtx, AeadCtx, RsaOaepCtx, HashSchema, PrefixSchema, SegmentedSchema, NcSchema, NcDef, Vendor, ProtocolFlags,
         SuffixComponentType, KdfAlg, KdfInfo, KdfData, KeyNumber, Nonce, AeadMode, HashAlg, WrappedKey]

def own_types(cls):
    if cls is NcSchema: return [HashSchema.class_type(), PrefixSchema.class_type(), SegmentedSchema.class_type()]
    return [SecurityCtx.class_type() if cls in (AeadCtx, RsaOaepCtx) else cls.class_type()]

@contract('C19', 'wrong_type', ['parse of every TLV class'], weight=2)
def wrong_type(v):
    cls = v.choice('class', TYPED)
    t = v.int('type', 0, 65535)
    v.assume(v.all(*[v.neg(t == k) for k in own_types(cls)]))
    value = v.array('value', 0, 60)
    v.raises('a TLV of another type', REFUSED, lambda: cls.parse(Tlv(t, value)))

@contract('C19', 'too_short', ['Vendor.parse', 'ExpiryTime.parse', 'SignatureTime.parse', 'FixedHeader.deserialize', 'KeyId.parse', 'SecurityCtx.parse', 'ValidationAlg.parse'])
def too_short(v):
    cls, least = v.choice('class', [(Vendor, 3), (ExpiryTime, 8), (SignatureTime, 8), (FixedHeader, 8), (KeyId, 4), (SubtreeDigest, 4), (LeafDigest, 4), (SecurityCtx, 8), (ValidationAlg, 4)])
    value = v.array('value', 0, least - 1)
    if cls is FixedHeader: v.raises('a header under 8 bytes', REFUSED, lambda: FixedHeader.deserialize(value))
    else: v.raises('shorter than the fixed part', REFUSED, lambda: cls.parse(Tlv(cls.class_type(), value)))

@contract('C19', 'nothing_inside', ['Node.parse', 'Locators.parse', 'NcDef.parse', 'KdfData.parse', 'SecurityCtx.parse', 'Manifest.deserialize', 'Packet.deserialize'])
def nothing(v):
    cls = v.choice('class', [Node, Locators, Locator, NcDef, KdfData, SecurityCtx, ValidationAlg, KeyId, PrefixSchema, SegmentedSchema, Manifest, Packet])
    def attempt():
        if cls is Manifest: return Manifest.deserialize(array.array('B', []))
        if cls is Packet: return Packet.deserialize(FixedHeader.create_content_object(8).serialize())
        return cls.parse(Tlv(cls.class_type(), array.array('B', [])))
    v.raises('the mandatory content is missing', REFUSED, attempt)

@contract('C19', 'packet_parts', ['Packet.deserialize'], weight=2)
def packet_parts(v):
    body, alg, payload = MAKE[ContentObject](v), ValidationAlg_Crc32c(), MAKE[ValidationPayload](v)
    body2, payload2 = MAKE[ContentObject](v), MAKE[ValidationPayload](v)
    what = v.choice('what', ['body', 'body alg payload', 'alg payload', 'body alg', 'body payload', 'body body', 'body alg alg payload', 'body alg payload payload', 'body payload alg', ''])
    parts = {'body': [body, body2], 'alg': [alg, ValidationAlg_Crc32c()], 'payload': [payload, payload2]}
    wires = [parts[w].pop(0).serialize() for w in what.split()]
    p, e = v.outcome(lambda: packet_parser(v, v.cat(*wires)), REFUSED)
    v.ensure('refused unless one body and both or no validation parts', (e is None) == (what in ('body', 'body alg payload')))
    if e is None:
        v.ensure('body', p.body() == body)
        v.ensure('validation algorithm', (p.validation_alg() is None) if what == 'body' else p.validation_alg() == alg)
        v.ensure('validation payload', (p.validation_payload() is None) if what == 'body' else p.validation_payload() == payload)

@contract('C19', 'packet_unknown', ['Packet.deserialize'])
def packet_unknown(v):
    t = v.int('type', 0, 65535)
    v.assume(v.all(v.neg(t == ContentObject.class_type()), v.neg(t == 1), v.neg(t == ValidationAlg.class_type()), v.neg(t == ValidationPayload.class_type())))
    body = MAKE[ContentObject](v)
    v.raises('an unknown part', REFUSED, lambda: packet_parser(v, v.cat(body.serialize(), tlv(v, t, v.array('unknown', 0, 40)))))

@contract('C19', 'node_lists', ['NodeData.parse', 'Node.parse'], bounded='up to 2 of each list, padding anywhere', weight=2)
def node_lists(v):
    defs = [NcDef(NcId(v.int('nc', 0, M64)), MAKE[HashSchema](v)) for _ in range(2)]
    vendors = [Vendor(v.int('pen', 0, 0xFFFFFF), v.array('vendor', 0, 20)) for _ in range(2)]
    parts, k = [defs[0], defs[1], vendors[0], vendors[1], MAKE[SubtreeSize](v)], v.small('rotate', 0, 4)
    nd = NodeData.parse(Tlv(NodeData.class_type(), array.array('B', v.cat(*[p.serialize() for p in parts[k:] + parts[:k]]))))
    v.ensure('subtree size', nd.subtree_size() == parts[4])
    got = nd.nc_defs()
    swapped = k == 1
    v.ensure('both definitions', len(got) == 2)
    v.ensure('in order', v.all(got[0] == defs[1 if swapped else 0], got[1] == defs[0 if swapped else 1]))
    groups = [MAKE[HashGroup](v) for _ in range(2)]
    parts = [nd, groups[0], groups[1]]
    parts.insert(v.small('pad', 0, 3), Pad(v.small('pad length', 0, 3)))
    n = Node.parse(Tlv(Node.class_type(), array.array('B', v.cat(*[p.serialize() for p in parts]))))
    v.ensure('node data', n.node_data() == nd)
    v.ensure('groups in order', v.all(len(n.hash_groups()) == 2, n.hash_groups()[0] == groups[0], n.hash_groups()[1] == groups[1]))

# any text: any number of TLVs in any order
from specs.lists import AnyOrder, OneOf, Flatten
TABLE = 'TlvType.auto_value_parse'
LOOPS = {'GroupData': TABLE, 'HashGroup': TABLE, 'PrefixSchema': TABLE, 'SegmentedSchema': TABLE, 'HashSchema': TABLE, 'KdfData': TABLE, 'AeadCtx': TABLE,
         'NodeData': 'NodeData.parse', 'Node': 'Node.parse', 'Manifest': 'Manifest.deserialize', 'NcDef': 'NcDef.parse', 'Link': 'Link.deserialize',
         'ContentObject': 'ContentObject.parse', 'ValidationAlg_RsaSha256': 'ValidationAlg_RsaSha256.parse'}
VARIABLES = {'Node': ['node_data', 'hash_groups'], 'Manifest': ['security_ctx', 'node', 'auth_tag'], 'NcDef': ['nc_id', 'schema'], 'Link': ['name', 'keyid', 'digest'],
             'NodeData': ['subtree_size', 'subtree_digest', 'locators'], 'ContentObject': ['name', 'expiry_time', 'payload_type', 'payload', 'final_chunk_id'],
             'ValidationAlg_RsaSha256': ['keyid', 'signature_time']}
def parsed_form(s, x):
    if isinstance(x, AeadCtx) : return SecurityCtx.parse(Tlv.deserialize(x.serialize()))
    if s.name == 'ValidationAlg_RsaSha256' and isinstance(x, KeyId): return x.digest()
    return value_of(x)

def register_any_order(s):
    @contract('C19', s.name + '_any_text', [s.name + ' parser', LOOPS[s.name]], native=False, tags=('inductive',), weight=2)
    def any_text(v):
        xs = [s.make(v, i) for i in range(len(s.fields))]
        t = v.int('unknown type', 0, 65535)
        v.assume(v.all(*[v.neg(t == k) for k in known(s, v, xs)]))
        table = LOOPS[s.name] == TABLE
        fields = [(type(x) if table else VARIABLES[s.name][i], parsed_form(s, x), x.serialize(), i in s.lists) for i, x in enumerate(xs)]
        a = AnyOrder(v, fields, tlv(v, t, v.array('unknown', 0, 900)), s.skips, table=table)
        v.loop(LOOPS[s.name], 0, a)
        v.loop('Tlv.flatten', 0, Flatten(v), 'for')
        obj, e = parse(v, s, [a.text])
        there = [i for i in range(len(xs)) if a.there[i]]
        if e is not None:
            v.ensure('refused only what is repeated, unknown or damaged, or if a mandatory field is missing', a.bad or (a.next == 'end' and not complete(s, there)))
            return
        v.ensure('all of the text is read', a.next == 'end')
        v.ensure('nothing is missing', complete(s, there))
        for i in range(len(xs)):
            if i in s.lists: continue
            got = get(s, obj, i)
            if i in there: v.ensure('the field that was given', got == value_of(xs[i]))
            else: v.ensure('an absent field is absent', got is None)
for s in STRUCTURES: register_any_order(s)

@contract('C19', 'RsaOaepCtx_any_text', ['RsaOaepCtx.parse', 'RsaOaepWrapper.parse', 'AeadData.parse', TABLE], native=False, tags=('inductive',), weight=2)
def any_wrapped_ctx(v):
    groups = [AEAD, WRAP]
    xs = [[MAKE[f](v) for f, g in group] for group in groups]
    fields = [[(type(x), x, x.serialize(), False) for x in ys] for ys in xs]
    t = v.int('unknown type', 0, 65535)
    v.assume(v.all(*[v.neg(t == inner_type(x)) for ys in xs for x in ys]))
    k = v.choice('of', [0, 1])
    ends = k == 0 and v.bool('end')
    a = AnyOrder(v, fields[k], tlv(v, t, v.array('unknown', 0, 900)), True, table=True, ends=ends)
    b = a.beside(v, fields[1 - k], [v.bool('also %d' % i) if ends else True for i in range(4)])
    v.loop(TABLE, 0, OneOf(a, b))
    obj, e = v.outcome(lambda: ctx_parser(RsaOaepCtx)(v, array.array('B', a.text)), REFUSED)
    there = [a.there, b.there] if k == 0 else [b.there, a.there]
    # the children of a tree carry no wrapped key
    full = all(there[0][:3]) and (all(there[1][:3]) or not any(there[1]))
    if e is not None:
        v.ensure('refused only what is repeated or damaged, or if a mandatory field is missing', a.bad or (a.next == 'end' and not full))
        return
    v.ensure('all of the text is read', a.next == 'end')
    v.ensure('nothing is missing', full)
    if not any(there[1]): v.ensure('no wrapped key', obj.rsa_oaep_wrapper() is None)
    for g in (0, 1) if any(there[1]) else (0,):
        for i in range(4):
            got = groups[g][i][1](obj)
            if there[g][i]: v.ensure('the field that was given', got == xs[g][i])
            else: v.ensure('an absent field is absent', got is None)

@contract('C19', 'Packet_any_text', ['Packet.deserialize'], native=False, tags=('inductive',), weight=2)
def any_packet(v):
    xs = [MAKE[c](v) for c in (ContentObject, ValidationAlg_Crc32c, ValidationPayload)]
    t = v.int('unknown type', 0, 65535)
    v.assume(v.all(*[v.neg(t == k) for k in [inner_type(x) for x in xs] + [1]]))
    fields = [(n, x, x.serialize(), False) for n, x in zip(('body', 'val_alg', 'val_payload'), xs)]
    # a validation payload comes after the algorithm
    a = AnyOrder(v, fields, tlv(v, t, v.array('unknown', 0, 900)), False, base=8, order=lambda i, there: i != 2 or there[1])
    v.assume(not (a.there[2] and not a.there[1]))
    v.loop('Packet.deserialize', 0, a)
    p, e = v.outcome(lambda: packet_parser(v, a.text), REFUSED)
    whole = a.there[0] and a.there[1] == a.there[2]
    if e is not None:
        v.ensure('refused unless one body and both or no validation parts', a.bad or (a.next == 'end' and not whole))
        return
    v.ensure('all of the text is read', a.next == 'end')
    v.ensure('one body and both or no validation parts', whole)
    for got, x, there in zip((p.body(), p.validation_alg(), p.validation_payload()), xs, a.there): v.ensure('the part that was given', got == x if there else got is None)
