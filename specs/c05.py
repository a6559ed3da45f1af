from pyvc_api import contract
import array
from ccnpy.core.Tlv import Tlv
from ccnpy.core.HashValue import HashValue, HashFunctionType
from ccnpy.core.Name import Name, NameComponent
from ccnpy.core.Link import Link
from ccnpy.core.KeyLink import KeyLink
from ccnpy.core.KeyId import KeyId
from ccnpy.core.ExpiryTime import ExpiryTime
from ccnpy.flic.tlvs.AuthTag import AuthTag
from ccnpy.flic.tlvs.EncryptedNode import EncryptedNode
from ccnpy.flic.tlvs.GroupData import GroupData
from ccnpy.flic.tlvs.HashGroup import HashGroup
from ccnpy.flic.tlvs.KdfAlg import KdfAlg
from ccnpy.flic.tlvs.KdfData import KdfData
from ccnpy.flic.tlvs.KdfInfo import KdfInfo
from ccnpy.flic.tlvs.KeyNumber import KeyNumber
from ccnpy.flic.tlvs.LeafDigest import LeafDigest
from ccnpy.flic.tlvs.LeafSize import LeafSize
from ccnpy.flic.tlvs.Locator import Locator
from ccnpy.flic.tlvs.Locators import Locators
from ccnpy.flic.tlvs.Manifest import Manifest
from ccnpy.flic.tlvs.NcDef import NcDef
from ccnpy.flic.tlvs.NcId import NcId
from ccnpy.flic.tlvs.NcSchema import HashSchema, PrefixSchema, SegmentedSchema
from ccnpy.flic.tlvs.Node import Node
from ccnpy.flic.tlvs.NodeData import NodeData
from ccnpy.flic.tlvs.Nonce import Nonce
from ccnpy.flic.tlvs.Pointers import Pointers
from ccnpy.flic.tlvs.ProtocolFlags import ProtocolFlags
from ccnpy.flic.tlvs.StartSegmentId import StartSegmentId
from ccnpy.flic.tlvs.SubtreeDigest import SubtreeDigest
from ccnpy.flic.tlvs.SubtreeSize import SubtreeSize
from ccnpy.flic.tlvs.SuffixComponentType import SuffixComponentType
from ccnpy.flic.tlvs.Vendor import Vendor
from ccnpy.flic.tlvs.AeadCtx import AeadCtx
from ccnpy.flic.tlvs.AeadMode import AeadMode
from ccnpy.flic.tlvs.RsaOaepCtx import RsaOaepCtx
from ccnpy.flic.tlvs.SecurityCtx import SecurityCtx
from ccnpy.flic.aeadctx.AeadData import AeadData
from ccnpy.flic.RsaOaepCtx.HashAlg import HashAlg
from ccnpy.flic.RsaOaepCtx.RsaOaepWrapper import RsaOaepWrapper
from ccnpy.flic.RsaOaepCtx.WrappedKey import WrappedKey

M64 = 2 ** 64 - 1
def be16(n): return bytes([n // 256, n % 256])
def tlv(v, t, *vals):
    val = v.cat(*vals)
    return v.cat(be16(t), be16(len(val)), val)
def reparse(cls, x): return cls.parse(Tlv.deserialize(x.serialize()))
def hv(v, name, hi=64): return HashValue(v.int(name + '.alg', 0, 65535), v.array(name, 0, hi))
def same_part(v, label, got, want):
    """an optional part of a parsed structure is the one that was given"""
    if want is None: v.ensure(label + ' absent', got is None)
    else:
        v.ensure(label + ' present', got is not None)
        v.ensure(label, v.all(got == want, v.same_bytes(got.serialize(), want.serialize())))
def rt(v, cls, x, t=None, body=None):
    """wire form, length, reparse, equality, canonical bytes; gives the parsed structure"""
    if t is not None:
        w = tlv(v, t, *body)
        v.ensure('wire', v.same_bytes(x.serialize(), w))
        v.ensure('len', len(x) == len(w))
    y = reparse(cls, x)
    v.ensure('equal', v.all(x == y, y == x))
    v.ensure('same wire', v.same_bytes(y.serialize(), x.serialize()))
    return y
def wires(*xs): return [x.serialize() for x in xs if x is not None]

INTS = {'nc_id': (NcId, 5), 'subtree_size': (SubtreeSize, 2), 'leaf_size': (LeafSize, 0), 'start_segment_id': (StartSegmentId, 4),
        'key_number': (KeyNumber, 0), 'mode': (AeadMode, 2), 'hash_alg': (HashAlg, 3), 'kdf_alg': (KdfAlg, 6)}

@contract('C05', 'integer_fields', ['IntegerTlvType.parse', 'IntegerTlvType.serialize', 'NcId', 'SubtreeSize', 'LeafSize', 'StartSegmentId', 'KeyNumber', 'HashAlg', 'KdfAlg', 'AeadMode'], weight=2)
def integer_fields(v):
    cls, t = INTS[v.choice('class', sorted(INTS))]
    n = v.int('n', 0, M64)
    x = cls(n)
    w = x.serialize()
    v.ensure('type', v.same_bytes(w[0:2], be16(t)))
    v.ensure('value bytes are the number', v.be(w[4:len(w)]) == n)
    v.ensure('value length', v.all(w[2] == 0, w[3] == len(w) - 4))
    y = rt(v, cls, x)
    v.ensure('value', v.all(y.value() == n, x.value() == n))

OCTETS = {'flags': (ProtocolFlags, 1), 'nonce': (Nonce, 1), 'auth_tag': (AuthTag, 3), 'encrypted': (EncryptedNode, 2), 'kdf_info': (KdfInfo, 7), 'wrapped': (WrappedKey, 4)}

@contract('C05', 'octet_fields', ['OctetTlvType.parse', 'OctetTlvType.serialize', 'ProtocolFlags', 'Nonce', 'AuthTag', 'EncryptedNode', 'KdfInfo', 'WrappedKey'])
def octet_fields(v):
    cls, t = OCTETS[v.choice('class', sorted(OCTETS))]
    b = v.array('b', 0, 65535)
    x = cls(b if v.bool('as array') else b.tobytes())
    y = rt(v, cls, x, t, [b])
    v.ensure('value', v.all(v.same_bytes(y.value(), b), v.same_bytes(y.value_bytes(), b)))

@contract('C05', 'digest_fields', ['HashTlvType.parse', 'SubtreeDigest', 'LeafDigest'])
def digest_fields(v):
    cls, t = v.choice('class', [(SubtreeDigest, 3), (LeafDigest, 1)])
    h = hv(v, 'h', 60000)
    y = rt(v, cls, cls(h), t, [h.serialize()])
    v.ensure('digest', v.all(y.digest() == h, y.digest().hash_algorithm() == h.hash_algorithm(), v.same_bytes(y.digest().value(), h.value())))

@contract('C05', 'suffix_and_vendor', ['SuffixComponentType.parse', 'SuffixComponentType.create_name_component', 'Vendor.parse', 'Vendor.__init__'])
def suffix_vendor(v):
    if v.bool('suffix'):
        n = v.int('n', 0, 65535)
        y = rt(v, SuffixComponentType, SuffixComponentType(n), 2, [be16(n)])
        k = v.int('k', 0, M64)
        c = y.create_name_component(k)
        v.ensure('suffix type', y.value() == n)
        v.ensure('component', v.all(c.type() == n, c.value_as_number() == k))
    else:
        pen = v.int('pen', 0, 2 ** 24 - 1)
        b = v.array('b', 0, 65532)
        y = rt(v, Vendor, Vendor(pen, b), 0xFFF, [bytes([pen // 65536, pen // 256 % 256, pen % 256]), b])
        v.ensure('fields', v.all(y.pen() == pen, v.same_bytes(y.payload(), b)))

@contract('C05', 'vendor_range', ['Vendor.__init__'])
def vendor_range(v):
    pen = v.int('pen', -2 ** 40, 2 ** 40)
    r, e = v.outcome(lambda: Vendor(pen, array.array('B', [1, 2])), (ValueError,))
    v.ensure('PEN outside 24 bits is refused and only that', (e is not None) == (v.any(pen < 0, pen > 0xFFFFFF)))

def a_name(v, tag, size, most=1):
    return Name([NameComponent(v.int(tag + '.t', 0, 65535), v.bytes(tag, 0, size)) for i in range(v.few(tag + '.n', 0, most, 8))])

def link(v, n):
    return Link(name=a_name(v, n + '.c', 40, 2), keyid=hv(v, n + '.k') if v.bool(n + '.kid?') else None,
                digest=hv(v, n + '.d') if v.bool(n + '.dig?') else None)

@contract('C05', 'locator', ['Locator.__init__', 'Locator.parse'])
def locator(v):
    l = link(v, 'l')
    y = rt(v, Locator, Locator(l), 0xD, [l.serialize()])
    v.ensure('name', y.name() == l.name())

@contract('C05', 'locators', ['Locators.__init__', 'Locators.parse', 'Locators.__getitem__'], bounded='up to 3 locators', weight=2)
def locators(v):
    n = v.few('n', 1, 3, 12)
    ls = [Locator.from_name(a_name(v, 'c', 400)) for i in range(n)]
    x = Locators(ls)
    y = rt(v, Locators, x, 6, wires(*ls))
    v.ensure('count', v.all(y.count() == n, x.count() == n))
    for i in range(n): v.ensure('locator', v.all(y[i] == ls[i], y[i].name() == ls[i].name(), y.locators()[i] == ls[i]))

@contract('C05', 'pointers', ['Pointers.__init__', 'Pointers.parse', 'Pointers.__getitem__', 'Pointers.__next__'], bounded='up to 4 pointers', weight=2)
def pointers(v):
    n = v.few('n', 0, 4, 60)
    hs = [hv(v, 'h', 300) for i in range(n)]
    x = Pointers(hs)
    w = tlv(v, 7, *wires(*hs))
    v.ensure('wire', v.same_bytes(x.serialize(), w))
    y = reparse(Pointers, x)
    v.ensure('count', v.all(len(y) == n, len(x) == n))
    for i in range(n): v.ensure('pointer', v.all(y[i] == hs[i], v.same_bytes(y[i].serialize(), hs[i].serialize())))
    it = [h for h in y]
    v.ensure('iteration in order', v.all(len(it) == n, *[a == b for a, b in zip(it, hs)]))
    v.ensure('equal', x == y)
    v.ensure('same wire', v.same_bytes(y.serialize(), w))

def group_data(v, n='gd'):
    return dict(subtree_size=SubtreeSize(v.int(n + '.ss', 0, M64)) if v.bool(n + '.ss?') else None,
                subtree_digest=SubtreeDigest(hv(v, n + '.sd')) if v.bool(n + '.sd?') else None,
                leaf_size=LeafSize(v.int(n + '.ls', 0, M64)) if v.bool(n + '.ls?') else None,
                leaf_digest=LeafDigest(hv(v, n + '.ld')) if v.bool(n + '.ld?') else None,
                nc_id=NcId(v.int(n + '.nc', 0, 65535)) if v.bool(n + '.nc?') else None,
                start_segment_id=StartSegmentId(v.int(n + '.st', 0, 2 ** 32)) if v.bool(n + '.st?') else None)

@contract('C05', 'group_data', ['GroupData.__init__', 'GroupData.parse', 'TlvType.auto_parse', 'TlvType.auto_value_parse'], weight=4)
def group_data_rt(v):
    p = group_data(v)
    x = GroupData(**p)
    y = rt(v, GroupData, x, 0xB, wires(*[p[f] for f in ('subtree_size', 'subtree_digest', 'leaf_size', 'leaf_digest', 'nc_id', 'start_segment_id')]))
    for f in p:
        same_part(v, f, getattr(y, f)(), p[f])
        same_part(v, f, getattr(x, f)(), p[f])

@contract('C05', 'hash_group', ['HashGroup.__init__', 'HashGroup.parse'], bounded='up to 2 pointers per group')
def hash_group(v):
    gd = GroupData(nc_id=NcId(v.int('nc', 0, 2 ** 32)), leaf_size=LeafSize(v.int('ls', 0, M64))) if v.bool('gd?') else None
    ps = Pointers([hv(v, 'h') for i in range(v.few('n', 0, 2, 40))])
    y = rt(v, HashGroup, HashGroup(group_data=gd, pointers=ps), 1, wires(gd, ps))
    same_part(v, 'group data', y.group_data(), gd)
    same_part(v, 'pointers', y.pointers(), ps)

def schema(v, n='s'):
    k = v.choice(n + '.kind', ['hash', 'prefix', 'segmented'])
    loc = Locators([Locator(link(v, n + '.l'))]) if v.bool(n + '.loc?') else None
    fl = ProtocolFlags(v.bytes(n + '.fl', 0, 20)) if v.bool(n + '.fl?') else None
    if k == 'hash': return k, HashSchema(locators=loc, flags=fl), dict(locators=loc, flags=fl), 0x10, [loc, fl]
    name = a_name(v, n + '.c', 60)
    if k == 'prefix': return k, PrefixSchema(name=name, locators=loc, flags=fl), dict(name=name, locators=loc, flags=fl), 0x11, [name, loc, fl]
    m = v.choice(n + '.make', ['manifest', 'data', 'any'])
    if m == 'any':
        st = SuffixComponentType(v.int(n + '.suffix', 0, 65535))
        x = SegmentedSchema(name=name, suffix_type=st, locators=loc, flags=fl)
    else:
        st = SuffixComponentType(16 if m == 'manifest' else 5)
        x = (SegmentedSchema.create_for_manifest if m == 'manifest' else SegmentedSchema.create_for_data)(name, locators=loc, flags=fl)
    return k, x, dict(name=name, suffix_type=st, locators=loc, flags=fl), 0x12, [name, st, loc, fl]

CLS = dict(hash=HashSchema, prefix=PrefixSchema, segmented=SegmentedSchema)

@contract('C05', 'schemas', ['LocatorSchema.parse', 'NamedSchema.parse', 'SegmentedSchema.parse', 'HashSchema', 'PrefixSchema', 'SegmentedSchema'], weight=3)
def schemas(v):
    k, x, parts, t, order = schema(v)
    y = rt(v, CLS[k], x, t, wires(*order))
    for f in parts:
        same_part(v, f, getattr(y, f)(), parts[f])
        same_part(v, f, getattr(x, f)(), parts[f])
    v.ensure('number of locators', y.count() == (0 if parts['locators'] is None else 1))

@contract('C05', 'nc_def', ['NcDef.parse', 'NcSchema.parse'], weight=2)
def nc_def(v):
    k, s, parts, t, order = schema(v)
    i = NcId(v.int('nc', 0, M64))
    y = rt(v, NcDef, NcDef(i, s), 4, wires(i, s))
    v.ensure('id', v.all(y.nc_id() == i, y.nc_id().id() == i.id()))
    v.ensure('schema class', type(y.schema()) == CLS[k])
    same_part(v, 'schema', y.schema(), s)

@contract('C05', 'node_data', ['NodeData.__init__', 'NodeData.parse'], bounded='up to 2 name constructor definitions and 2 vendor fields', weight=4)
def node_data(v):
    size = v.int('ss', 0, M64) if v.bool('ss?') else None
    dig = SubtreeDigest(hv(v, 'sd')) if v.bool('sd?') else None
    loc = Locators([Locator.from_name(Name([NameComponent(1, v.bytes('c', 0, 40))]))]) if v.bool('loc?') else None
    defs = [NcDef(NcId(v.int('nc', 0, 65535)), v.choice('kind', [HashSchema(loc), PrefixSchema(Name([NameComponent(1, v.bytes('c', 0, 40))]))])) for i in range(v.few('defs', 0, 2, 8))]
    vend = [Vendor(v.int('pen', 0, 2 ** 24 - 1), v.array('vb', 0, 40)) for i in range(v.few('vendors', 0, 2, 8))]
    as_int = v.bool('size as int')
    x = NodeData(subtree_size=size if as_int or size is None else SubtreeSize(size), subtree_digest=dig, locators=loc, vendors=vend, nc_defs=defs)
    y = rt(v, NodeData, x, 0, wires(SubtreeSize(size) if size is not None else None, dig, loc, *defs, *vend))
    if size is None: v.ensure('no size', y.subtree_size() is None)
    else: v.ensure('size', v.all(y.subtree_size() is not None, y.subtree_size().size() == size))
    same_part(v, 'digest', y.subtree_digest(), dig)
    same_part(v, 'locators', y.locators(), loc)
    v.ensure('definitions', v.all(len(y.nc_defs()) == len(defs), *[a == b for a, b in zip(y.nc_defs(), defs)]))
    got = y.vendor_tags() or []
    v.ensure('vendor fields', v.all(len(got) == len(vend), *[a == b for a, b in zip(got, vend)]))

def node_parts(v, hi=2):
    nd = None
    if v.bool('nd?'):
        nd = NodeData(subtree_size=v.int('ss', 0, M64), nc_defs=[NcDef(NcId(v.int('nd.nc', 0, 65535)), HashSchema(None))] if v.bool('nd.def?') else None)
    gs = []
    for i in range(v.few('groups', 1, hi, 6)):
        gd = GroupData(nc_id=NcId(v.int('nc', 0, 65535)), start_segment_id=StartSegmentId(v.int('st', 0, 2 ** 40)) if v.bool('st?') else None)
        gs.append(HashGroup(group_data=gd, pointers=Pointers([HashValue.create_sha256(v.array('h', 32, 32)) for j in range(v.few('ptrs', 0, 2, 30))])))
    return nd, gs

@contract('C05', 'node', ['Node.__init__', 'Node.parse', 'Node.hash_values', 'Node.__iter__', 'NodeIterator.__next__'], bounded='up to 2 hash groups of up to 2 pointers', weight=4)
def node(v):
    nd, gs = node_parts(v)
    x = Node(node_data=nd, hash_groups=gs)
    y = rt(v, Node, x, 1, wires(nd, *gs))
    same_part(v, 'node data', y.node_data(), nd)
    v.ensure('has node data', y.has_node_data() == (nd is not None))
    v.ensure('groups', v.all(len(y.hash_groups()) == len(gs), *[a == b for a, b in zip(y.hash_groups(), gs)]))
    v.ensure('value bytes', v.same_bytes(y.serialized_value(), v.cat(*wires(nd, *gs))))
    want = [(g, j, p) for g in gs for j, p in enumerate(g.pointers())]
    hs = y.hash_values()
    v.ensure('hash values in order', v.all(len(hs) == len(want), *[a == b[2] for a, b in zip(hs, want)]))
    its = [z for z in y]
    v.ensure('iteration covers the pointers', len(its) == len(want))
    for z, (g, j, p) in zip(its, want):
        st = g.group_data().start_segment_id()
        v.ensure('iterated hash', z.hash_value == p)
        v.ensure('iterated constructor id', z.nc_id == g.group_data().nc_id().id())
        if st is None: v.ensure('no segment id', z.segment_id is None)
        else: v.ensure('segment id counts up from the group start', z.segment_id == st.value() + j)

@contract('C05', 'node_padding', ['Node._create_padded_tlv', 'Node.parse', 'Pad'], bounded='native only', sym=False)
def node_padding(v):
    nd, gs = node_parts(v)
    plain = Node(node_data=nd, hash_groups=gs)
    n = len(plain) + v.int('delta', -40, 400)
    x = Node(node_data=nd, hash_groups=gs, pad_length=n)
    v.ensure('padded length', len(x) == (n if n - len(plain) >= 4 else len(plain)))
    v.ensure('starts with the node fields', v.same_bytes(x.serialized_value()[0:len(plain) - 4], plain.serialized_value()))
    y = reparse(Node, x)
    v.ensure('same fields', v.all(y.node_data() == nd, len(y.hash_groups()) == len(gs), *[a == b for a, b in zip(y.hash_groups(), gs)]))

def aead(v, n='a'):
    kdf = None
    if v.bool(n + '.kdf?'):
        kdf = KdfData(KdfAlg(v.int(n + '.alg', 0, 65535)), KdfInfo(v.bytes(n + '.info', 0, 100)) if v.bool(n + '.info?') else None)
    kn = v.int(n + '.kn', 0, M64)
    mode = v.choice(n + '.mode', [AeadMode.create_aes_gcm_128, AeadMode.create_aes_gcm_256, AeadMode.create_aes_ccm_128, AeadMode.create_aes_ccm_256])()
    nonce = v.array(n + '.nonce', 0, 32)
    return kn, nonce, mode, kdf, AeadData(key_number=kn, nonce=nonce, mode=mode, kdf_data=kdf)

@contract('C05', 'kdf_data', ['KdfData.__init__', 'KdfData.parse', 'KdfData.copy_with_name'])
def kdf_data(v):
    a = KdfAlg(v.int('alg', 0, 65535))
    i = KdfInfo(v.bytes('info', 0, 3000)) if v.bool('info?') else None
    x = KdfData(a, i)
    y = rt(v, KdfData, x, 5, wires(a, i))
    same_part(v, 'alg', y.kdf_alg(), a)
    same_part(v, 'info', y.kdf_info(), i)
    name = a_name(v, 'c', 60)
    z = KdfData.copy_with_name(x, name)
    v.ensure('copy with a name', v.all(z.kdf_alg() == a, v.same_bytes(z.kdf_info().value(), name.serialize())))
    same_part(v, 'original info', x.kdf_info(), i)

@contract('C05', 'aead_mode', ['AeadMode'])
def aead_mode(v):
    n = v.choice('mode', [1, 2, 3, 4])
    x = v.choice('made', [AeadMode(n), [AeadMode.create_aes_gcm_128, AeadMode.create_aes_gcm_256, AeadMode.create_aes_ccm_128, AeadMode.create_aes_ccm_256][n - 1]()])
    y = rt(v, AeadMode, x, 2, [bytes([n])])
    v.ensure('kind', v.all(y.is_aes_gcm_128() == (n == 1), y.is_aes_gcm_256() == (n == 2), y.is_aes_ccm_128() == (n == 3), y.is_aes_ccm_256() == (n == 4)))
    v.ensure('key bits', y.key_bits() == (128 if n in (1, 3) else 256))

@contract('C05', 'aead_ctx', ['AeadCtx.__init__', 'AeadCtx.parse', 'SecurityCtx.parse', 'AeadData.__init__', 'AeadData.parse'], weight=2)
def aead_ctx(v):
    kn, nonce, mode, kdf, d = aead(v)
    x = AeadCtx(d)
    w = v.cat(*wires(KeyNumber(kn), Nonce(nonce), mode, kdf))
    v.ensure('wire', v.same_bytes(x.serialize(), tlv(v, 0, tlv(v, 0, w))))
    v.ensure('len', v.all(len(x) == 8 + len(w), len(d) == len(w)))
    for y in (reparse(SecurityCtx, x), reparse(AeadCtx, x)):
        v.ensure('class', type(y) == AeadCtx)
        v.ensure('equal', v.all(x == y, y.aead_data() == d))
        v.ensure('same wire', v.same_bytes(y.serialize(), x.serialize()))
        v.ensure('fields', v.all(y.key_number().value() == kn, v.same_bytes(y.nonce().value(), nonce), y.aead_data().mode() == mode))
        same_part(v, 'kdf', y.aead_data().kdf_data(), kdf)

@contract('C05', 'rsa_oaep_ctx', ['RsaOaepCtx.__init__', 'RsaOaepCtx.parse', 'SecurityCtx.parse', 'RsaOaepWrapper.__init__', 'RsaOaepWrapper.parse'], weight=3)
def rsa_ctx(v):
    kn, nonce, mode, kdf, d = aead(v)
    w = None
    if v.bool('wrapper?'):
        kid = KeyId(hv(v, 'kid'))
        kl = KeyLink(Link(name=a_name(v, 'c', 60))) if v.bool('link?') else None
        ct = v.array('wrapped', 0, 512)
        wk = WrappedKey(ct)
        ha = HashAlg(v.int('ha', 0, 65535))
        w = RsaOaepWrapper(key_id=kid, hash_alg=ha, wrapped_key=wk, key_link=kl)
        v.ensure('wrapper wire', v.same_bytes(w.serialize(), v.cat(*wires(kid, kl, ha, wk))))
    x = RsaOaepCtx(d, w)
    body = v.cat(d.serialize(), *([w.serialize()] if w is not None else []))
    v.ensure('wire', v.same_bytes(x.serialize(), tlv(v, 0, tlv(v, 1, body))))
    y = reparse(SecurityCtx, x)
    v.ensure('class', type(y) == RsaOaepCtx)
    v.ensure('equal', x == y)
    v.ensure('same wire', v.same_bytes(y.serialize(), x.serialize()))
    v.ensure('aead fields', v.all(y.key_number().value() == kn, v.same_bytes(y.nonce().value(), nonce), y.aead_data().mode() == mode))
    same_part(v, 'kdf', y.aead_data().kdf_data(), kdf)
    if w is None: v.ensure('no wrapper', v.all(y.rsa_oaep_wrapper() is None, y.key_id() is None))
    else:
        z = y.rsa_oaep_wrapper()
        v.ensure('wrapper', v.all(z == w, z.key_id() == kid, y.key_id() == kid, v.same_bytes(z.wrapped_key().value(), ct)))
        same_part(v, 'key link', z.key_link(), kl)
        v.ensure('hash algorithm', v.all(z.is_sha_256() == (ha.value() == 1), z.is_sha_512() == (ha.value() == 2)))

@contract('C05', 'manifest', ['Manifest.__init__', 'Manifest.deserialize', 'Manifest.from_content_object', 'Manifest.content_object', 'Manifest.packet'], weight=3)
def manifest(v):
    enc = v.bool('encrypted')
    ctx = tag = None
    if enc:
        node = EncryptedNode(v.array('ct', 0, 2000))
        tag = AuthTag(v.array('tag', 0, 16)) if v.bool('tag?') else None
    else:
        node = Node(node_data=NodeData(subtree_size=v.int('ss', 0, M64)) if v.bool('nd?') else None,
                    hash_groups=[HashGroup(pointers=Pointers([hv(v, 'h')]), group_data=GroupData(nc_id=NcId(v.int('nc', 0, 65535))))])
    if v.bool('ctx?'): ctx = aead(v)[4]; ctx = v.choice('ctx kind', [AeadCtx, RsaOaepCtx])(ctx)
    x = Manifest(security_ctx=ctx, node=node, auth_tag=tag)
    v.ensure('wire', v.same_bytes(x.serialize(), v.cat(*wires(ctx, node, tag))))
    v.ensure('len', len(x) == len(x.serialize()))
    ms = v.int('ms', 0, 2 ** 47) if v.bool('expiry?') else None
    name = Name([NameComponent(1, v.bytes('c', 0, 60))]) if v.bool('name?') else None
    co = x.content_object(name=name, expiry_time=ExpiryTime(v.msec(ms)) if ms is not None else None)
    v.ensure('content object is a manifest', co.is_manifest())
    v.ensure('content object payload', v.same_bytes(co.payload().value(), x.serialize()))
    v.ensure('content object name', co.name() == name)
    if ms is None: v.ensure('no expiry', co.expiry_time() is None)
    else: v.ensure('expiry', co.expiry_time().milliseconds() == ms)
    for y in (Manifest.deserialize(x.serialize()), Manifest.from_content_object(co)):
        v.ensure('equal', x == y)
        same_part(v, 'security context', y.security_ctx(), ctx)
        same_part(v, 'node', y.node(), node)
        same_part(v, 'auth tag', y.auth_tag(), tag)
        v.ensure('is_encrypted', y.is_encrypted() == enc)
        v.ensure('same wire', v.same_bytes(y.serialize(), x.serialize()))

# lists of any length
from specs.lists import Many, Flatten, Parse
def same_wire(cls): return lambda v: lambda a, b: v.all(isinstance(a, cls), a == b, v.same_bytes(a.serialize(), b.serialize()))
def list_of_any_length(v, loop, t, var, e, same, scratch, make, parse):
    m = Many(v, var, e)
    v.assume(len(m.text) <= 65000)
    v.loop('Tlv.flatten', 0, Flatten(v), 'for')
    v.loop(loop, 0, Parse(v, [('any', var, m)], same, scratch))
    x = make(m.list())
    w = tlv(v, t, m.text)
    v.ensure('wire is the elements in order', v.same_bytes(x.serialize(), w))
    y = parse(Tlv.deserialize(x.serialize()))
    v.ensure('same wire', v.same_bytes(y.serialize(), w))
    return m, x, y

@contract('C05', 'any_pointers', ['Pointers.__init__', 'Pointers.parse', 'Pointers.__getitem__', 'Pointers.__next__', 'Tlv.flatten'], native=False, tags=('inductive',))
def any_pointers(v):
    same = same_wire(HashValue)(v)
    m, x, y = list_of_any_length(v, 'Pointers.parse', 7, 'hash_values', hv(v, 'h', 60000), same, ('hv',), Pointers, Pointers.parse)
    v.ensure('count', v.all(len(x) == m.n, len(y) == m.n))
    v.ensure('pointer', v.all(x[m.k] is m.e, same(y[m.k], m.e)))
    it = iter(y)
    v.put(y, '_offset', m.k)
    v.ensure('iteration', same(next(it), m.e))
    v.put(y, '_offset', m.n)
    v.raises('iteration ends', StopIteration, lambda: next(it))

@contract('C05', 'any_locators', ['Locators.__init__', 'Locators.parse', 'Locators.__getitem__', 'Tlv.flatten'], native=False, tags=('inductive',))
def any_locators(v):
    same = same_wire(Locator)(v)
    m, x, y = list_of_any_length(v, 'Locators.parse', 6, 'locators', Locator(link(v, 'l')), same, ('inner_tlv', 'link'), Locators, Locators.parse)
    v.ensure('count', v.all(x.count() == m.n, y.count() == m.n))
    v.ensure('locator', v.all(x[m.k] is m.e, same(y[m.k], m.e), same(y.locators()[m.k], m.e)))

@contract('C05', 'any_node', ['Node.__init__', 'Node.parse', 'Node._create_padded_tlv', 'Tlv.flatten'], native=False, tags=('inductive',), weight=2)
def any_node(v):
    nd = NodeData(subtree_size=v.int('ss', 0, M64)) if v.bool('nd?') else None
    gd = GroupData(nc_id=NcId(v.int('nc', 0, 65535)), start_segment_id=StartSegmentId(v.int('st', 0, 2 ** 40)) if v.bool('st?') else None) if v.bool('gd?') else None
    e = HashGroup(group_data=gd, pointers=Pointers([hv(v, 'h', 60000), hv(v, 'h2', 60)]))
    m = Many(v, 'groups', e)
    v.assume(len(m.text) <= 65000)
    same = lambda a, b: v.all(isinstance(a, type(b)), a == b, v.same_bytes(a.serialize(), b.serialize()))
    v.loop('Tlv.flatten', 0, Flatten(v), 'for')
    v.loop('Node.parse', 0, Parse(v, ([('one', 'node_data', nd)] if nd is not None else []) + [('any', 'hash_groups', m)], same, ('inner_tlv', 'hash_group')))
    x = Node(node_data=nd, hash_groups=m.list())
    w = tlv(v, 1, *wires(nd), m.text)
    v.ensure('wire', v.all(v.same_bytes(x.serialize(), w), len(x) == len(w), v.same_bytes(x.serialized_value(), v.cat(*wires(nd), m.text))))
    y = Node.parse(Tlv.deserialize(x.serialize()))
    v.ensure('same wire', v.same_bytes(y.serialize(), w))
    same_part(v, 'node data', y.node_data(), nd)
    v.ensure('groups', v.all(len(x.hash_groups()) == m.n, len(y.hash_groups()) == m.n, x.hash_groups()[m.k] is e, same(y.hash_groups()[m.k], e)))

@contract('C05', 'any_node_data', ['NodeData.__init__', 'NodeData.parse', 'Tlv.flatten'], native=False, tags=('inductive',), weight=4)
def any_node_data(v):
    size = SubtreeSize(v.int('ss', 0, M64)) if v.bool('ss?') else None
    dig = SubtreeDigest(hv(v, 'sd')) if v.bool('sd?') else None
    loc = Locators([Locator.from_name(Name([NameComponent(1, v.bytes('c', 0, 40))]))]) if v.bool('loc?') else None
    many = v.choice('lists', ['definitions', 'vendors', 'both'])
    defs = None if many == 'vendors' else Many(v, 'definitions', NcDef(NcId(v.int('nc', 0, 65535)), v.choice('kind', [HashSchema(loc), PrefixSchema(Name([NameComponent(1, v.bytes('c', 0, 40))]))])))
    vend = None if many == 'definitions' else Many(v, 'vendors', Vendor(v.int('pen', 0, 2 ** 24 - 1), v.array('vb', 0, 60000)))
    v.assume(sum(len(m.text) for m in (defs, vend) if m) <= 64000)
    same = lambda a, b: v.all(isinstance(a, type(b)), a == b, v.same_bytes(a.serialize(), b.serialize()))
    v.loop('Tlv.flatten', 0, Flatten(v), 'for')
    v.loop('NodeData.parse', 0, Parse(v, [('one', n, x) for n, x in (('subtree_size', size), ('subtree_digest', dig), ('locators', loc)) if x is not None] +
           [('any', n, m) for n, m in (('nc_defs', defs), ('vendors', vend)) if m], same, ('inner_tlv',)))
    x = NodeData(subtree_size=size, subtree_digest=dig, locators=loc, vendors=vend.list() if vend else None, nc_defs=defs.list() if defs else None)
    w = tlv(v, 0, *wires(size, dig, loc), *[m.text for m in (defs, vend) if m])
    v.ensure('wire', v.same_bytes(x.serialize(), w))
    y = NodeData.parse(Tlv.deserialize(x.serialize()))
    v.ensure('same wire', v.same_bytes(y.serialize(), w))
    for label, got, want in (('size', y.subtree_size(), size), ('digest', y.subtree_digest(), dig), ('locators', y.locators(), loc)): same_part(v, label, got, want)
    if defs: v.ensure('definitions', v.all(len(y.nc_defs()) == defs.n, same(y.nc_defs()[defs.k], defs.e)))
    else: v.ensure('no definitions', len(y.nc_defs()) == 0)
    if vend: v.ensure('vendor fields', v.all(len(y.vendor_tags()) == vend.n, same(y.vendor_tags()[vend.k], vend.e)))
    else: v.ensure('no vendor fields', y.vendor_tags() is None)
