"""tree building and an independent reader of built trees, shared by C12, C13, C14, C16"""
import array
import io
import sys
from ccnpy.core.ExpiryTime import ExpiryTime
from ccnpy.core.HashValue import HashValue
from ccnpy.core.KeyId import KeyId
from ccnpy.core.Name import Name, NameComponent
from ccnpy.core.Packet import Packet
from ccnpy.crypto.AeadKey import AeadGcm, AeadCcm
from ccnpy.crypto.Crc32c import Crc32cSigner
from ccnpy.crypto.InsecureKeystore import InsecureKeystore
from ccnpy.crypto.RsaKey import RsaKey
from ccnpy.crypto.RsaSha256 import RsaSha256Signer
from ccnpy.flic.ManifestTree import ManifestTree
from ccnpy.flic.ManifestTreeOptions import ManifestTreeOptions
from ccnpy.flic.aeadctx.AeadEncryptor import AeadEncryptor
from ccnpy.flic.aeadctx.AeadParameters import AeadParameters
from ccnpy.flic.RsaOaepCtx.RsaOaepEncryptor import RsaOaepEncryptor
from ccnpy.flic.name_constructor.FileMetadata import FileMetadata, ChunkMetadata
from ccnpy.flic.name_constructor.NameConstructorContext import NameConstructorContext
from ccnpy.flic.name_constructor.SchemaType import SchemaType
from ccnpy.flic.tlvs.Locators import Locators
from ccnpy.flic.tlvs.Manifest import Manifest
from ccnpy.flic.tlvs.NcSchema import HashSchema, PrefixSchema, SegmentedSchema
from ccnpy.flic.tree.DecryptorCache import DecryptorCache
from ccnpy.flic.tree.Traversal import Traversal
from ccnpy.flic.tree.TreeIO import TreeIO

H, P, S = SchemaType.HASHED, SchemaType.PREFIX, SchemaType.SEGMENTED
def name(v, label, lo=1, hi=3, maxlen=10):
    return Name([NameComponent(1, v.bytes(label, 1, maxlen)) for _ in range(v.small(label + ' components', lo, hi))])
def wire(x): return None if x is None else bytes(x.serialize())
def key(v, size=None):
    return v.choice('aead', [AeadGcm, AeadCcm])(v.bytes('aead key', size or 16, size or 16) if size or v.bool('128') else v.bytes('aead key', 32, 32))
def expiry(v, label): return ExpiryTime(v.msec(v.int(label, 0, 2 ** 50))) if v.bool(label + ' given') else None

def options(v, schema=None, sizes=None, encryption=None, degree=None, mps=None, maxlen=10):
    """random tree options; returns (options, keystore that reads the tree)"""
    schema = schema or v.choice('schema', [H, P, S])
    o = ManifestTreeOptions(name=name(v, 'root', maxlen=maxlen), schema_type=schema, signer=Crc32cSigner())
    ks = InsecureKeystore()
    if schema == S or (schema == P and v.bool('own prefixes')):
        shape = v.choice('prefixes', ['both', 'manifest', 'data']) if schema == S else v.choice('prefixes', ['both', 'manifest', 'data', 'same'])
        n = o.name
        if shape in ('both', 'manifest', 'same'): o.manifest_prefix = n.append(NameComponent(1, b'm' * v.int('mlen', 1, maxlen)))
        if shape in ('both', 'data'): o.data_prefix = Name([NameComponent(1, b'd' * v.int('dlen', 1, maxlen))])
        if shape == 'same': o.data_prefix = o.manifest_prefix
    if schema == H and v.bool('own locators'):
        if v.bool('manifest locators'): o.manifest_locators = Locators.from_name(name(v, 'mloc'))
        if v.bool('data locators'): o.data_locators = Locators.from_name(name(v, 'dloc'))
    o.manifest_expiry_time, o.data_expiry_time, o.root_expiry_time = expiry(v, 'manifest expiry'), expiry(v, 'data expiry'), expiry(v, 'root expiry')
    if sizes is None: sizes = v.bool('sizes')
    if sizes:
        o.add_node_subtree_size = v.choice('node sizes', [True, True, False])
        o.add_group_subtree_size = v.bool('group sizes')
        o.add_group_leaf_size = v.bool('leaf sizes')
    if v.choice('rsa root', [False, False, False, True]):
        k = RsaKey(v.rsa_key('root key', 'k0')[0])
        o.signer = RsaSha256Signer(k)
        ks.add_rsa_key('root', k)
    enc = encryption or v.choice('encryption', ['none', 'none', 'psk', 'rsa'])
    if enc != 'none':
        p = AeadParameters(key=key(v), key_number=v.int('key number', 0, 2 ** 32), aead_salt=v.int('salt', 0, 2 ** 32 - 1))
        if enc == 'psk':
            if v.bool('no salt'): p = AeadParameters(key=p.key, key_number=p.key_number)
            o.manifest_encryptor = AeadEncryptor(p)
            ks.add_aes_key(p)
        else:
            k = RsaKey(v.rsa_key('wrapping key', 'k1')[0])
            o.manifest_encryptor = RsaOaepEncryptor(k, p)
            ks.add_rsa_key('wrap', k)
    # the root carries the wrapped key: give it room
    if enc == 'rsa' and not mps: mps = v.choice('roomy packet size', [900, 1500, 9000]) + v.int('more', 0, 40)
    o.max_packet_size = mps or v.choice('packet size', [300, 350, 400, 500, 700, 1500, 9000]) + v.int('more', 0, 40)
    o.max_tree_degree = degree or v.choice('degree', [None, 2, 3, 4, 5, 6, 7, 8, 11, 20])
    return o, ks

class Built: pass
def chunks(v, n, sized=True):
    """n chunks that were published elsewhere"""
    seed = v.bytes('chunk seed', 8, 8)
    size = v.choice('chunk size', [1, 100, 255, 256, 1000, 65536])
    out = []
    first = v.choice('first chunk number', [0, 0, 1, 200, 65000, 2 ** 20])
    for i in range(n):
        out.append(ChunkMetadata(chunk_number=first + i, payload_bytes=size if i < n - 1 else v.int('last chunk', 1, size),
                                 content_object_hash=HashValue.create_sha256(array.array('B', v.sha256(seed, i.to_bytes(4, 'big'))))))
    return FileMetadata(chunk_metadata=out, total_bytes=sum(c.payload_bytes for c in out))
def build(o, source, before=None):
    """source: bytes of a file, or FileMetadata; before: a file that was split under the same names before"""
    b = Built()
    b.o, b.out, b.source = o, TreeIO.PacketMemoryWriter(), source
    b.names = NameConstructorContext.create(o)
    b.first = len(b.names.data_schema_impl.chunk_data(io.BytesIO(before), TreeIO.PacketMemoryWriter())) if before is not None else 0
    t = ManifestTree(data_input=io.BytesIO(source) if isinstance(source, bytes) else source, packet_output=b.out, tree_options=o, name_context=b.names)
    b.root = t.build()
    b.packets = list(b.out)
    return b

def numbered(prefix, kind, n):
    k = max(1, (n.bit_length() + 7) // 8)
    return prefix.append(NameComponent(kind, n.to_bytes(k, 'big')))

class Reader:
    """what a reader of the published packets sees, by the property text alone"""
    def __init__(self, v, b, ks):
        self.v, self.o, self.decryptors = v, b.o, DecryptorCache(ks)
        self.by = {}
        for p in b.packets: self.by[bytes(p.content_object_hash().value())] = p
        self.known = None if isinstance(b.source, bytes) else {bytes(c.content_object_hash.value()): c for c in b.source.chunk_metadata}
        self.leaves, self.payload, self.manifests, self.depth, self.at = [], bytearray(), [], 0, 0
        self.root = bytes(b.root.content_object_hash().value())
        limit = sys.getrecursionlimit()
        sys.setrecursionlimit(30000)
        try: self.total = self.visit(self.root, {}, None, True)
        finally: sys.setrecursionlimit(limit)
    def open(self, p):
        m = Manifest.from_content_object(p.body())
        if self.o.manifest_encryptor is not None:
            self.v.ensure('manifests are encrypted', m.is_encrypted())
        return self.decryptors.get_or_create(m.security_ctx()).decrypt_manifest(m) if m.is_encrypted() else m
    def visit(self, h, schemas, expected, root=False):
        """expected: the name the reader asks for; returns application bytes below"""
        v = self.v
        if self.known is not None and h in self.known:
            self.leaves.append((h, expected))
            return self.known[h].payload_bytes
        p = self.by.get(h)
        v.ensure('every pointer is the hash of a packet that was written', p is not None)
        p = Packet.deserialize(p.serialize())
        if not root: v.ensure('published under the name a reader reconstructs', wire(p.body().name()) == wire(expected))
        if not p.body().is_manifest():
            data = bytes(p.body().payload().value())
            self.leaves.append((h, expected))
            self.payload += data
            return len(data)
        self.at += 1
        self.depth = max(self.depth, self.at)
        m = self.open(p)
        node = m.node()
        rec = Built()
        rec.packet, rec.node, rec.name, rec.root, rec.hash = p, node, p.body().name(), root, h
        self.manifests.append(rec)
        nd = node.node_data() if node.has_node_data() else None
        if nd is not None and nd.nc_defs():
            schemas = dict(schemas)
            for d in nd.nc_defs(): schemas[d.nc_id().id()] = d.schema()
        total = rec.pointers = 0
        for g in node.hash_groups():
            gd = g.group_data()
            sch = schemas.get(gd.nc_id().id() if gd is not None and gd.nc_id() is not None else None)
            v.ensure("a group's schema is defined above it", sch is not None)
            seg = gd.start_segment_id().value() if gd.start_segment_id() is not None else None
            direct = indirect = 0
            nind = 0
            for hv in g.pointers():
                want = None
                if isinstance(sch, SegmentedSchema):
                    v.ensure('segmented groups carry a start id', seg is not None)
                    want = numbered(sch.name(), sch.suffix_type().value(), seg)
                    seg += 1
                elif isinstance(sch, PrefixSchema): want = sch.name()
                hb = bytes(hv.value())
                leaf = hb in self.known if self.known is not None else not self.by[hb].body().is_manifest() if hb in self.by else True
                rec.pointers += 1
                x = self.visit(hb, schemas, want)
                if leaf: direct += x
                else: indirect += x; nind += 1
            total += direct + indirect
            if gd is not None and gd.leaf_size() is not None and not root: v.ensure("a group's leaf size is what its data pointers hold", gd.leaf_size().size() == direct)
            if gd is not None and gd.subtree_size() is not None and (nind == 0 or root or self.o.add_node_subtree_size):
                v.ensure("a group's subtree size is what is reachable through it", gd.subtree_size().size() == direct + indirect)
        if nd is not None and nd.subtree_size() is not None: v.ensure("a manifest's subtree size is what is reachable through it", nd.subtree_size().size() == total)
        if self.o.add_node_subtree_size: v.ensure('sizes are recorded when asked for', nd is not None and nd.subtree_size() is not None)
        self.at -= 1
        return total
