from pyvc_api import contract
from ccnpy.flic.ManifestFactory import ManifestFactory
from ccnpy.flic.name_constructor.NameConstructorContext import NameConstructorContext
from ccnpy.flic.tlvs.GroupData import GroupData
from ccnpy.flic.tlvs.HashGroup import HashGroup
from ccnpy.flic.tlvs.LeafSize import LeafSize
from ccnpy.flic.tlvs.Node import Node
from ccnpy.flic.tlvs.NodeData import NodeData
from ccnpy.flic.tlvs.Pointers import Pointers
from ccnpy.flic.tlvs.StartSegmentId import StartSegmentId
from ccnpy.flic.tlvs.SubtreeSize import SubtreeSize
from ccnpy.flic.tree.ManifestSizeCalculator import ManifestSizeCalculator
from specs import flat
from specs.c15 import any_length
from specs.trees import *

BIG = 10 ** 7
TOPID = 0xFFFFFF
def roomy(o):
    """the same options without a size limit"""
    return ManifestTreeOptions(name=o.name, schema_type=o.schema_type, signer=o.signer, manifest_expiry_time=o.manifest_expiry_time, manifest_encryptor=o.manifest_encryptor,
                               add_node_subtree_size=o.add_node_subtree_size, add_group_subtree_size=o.add_group_subtree_size, add_group_leaf_size=o.add_group_leaf_size, max_packet_size=BIG)
def manifest_len(o, ctx, q, total, everything):
    """length of a manifest with q pointers and the largest ids; sizes the options ask for, or all sizes"""
    hv = HashValue.create_sha256(array.array('B', bytes(32)))
    def group(k, schema, size, leaf):
        seg = StartSegmentId(TOPID) if schema.uses_name_id() else None
        gd = GroupData(nc_id=schema.nc_id(), start_segment_id=seg,
                       subtree_size=SubtreeSize(size) if everything or o.add_group_subtree_size else None,
                       leaf_size=LeafSize(leaf) if everything or o.add_group_leaf_size else None)
        return HashGroup(group_data=gd, pointers=Pointers([hv] * k))
    if ctx.hash_group_count() == 1: gs = [group(q, ctx.manifest_schema_impl, total, total)]
    # manifests hold no data themselves: the group of manifests has no leaf bytes
    else: gs = [group(q - 1, ctx.data_schema_impl, total, total), group(1, ctx.manifest_schema_impl, total, total if everything else 0)]
    node = Node(node_data=NodeData(subtree_size=total) if o.add_node_subtree_size else None, hash_groups=gs)
    return len(ManifestFactory(roomy(o)).build_packet(source=node, name=ctx.manifest_schema_impl.get_name(TOPID), expiry_time=o.manifest_expiry_time))

def planned(v, o, total, ctx=None):
    ctx = ctx or NameConstructorContext.create(o)
    f = ManifestFactory(o)
    q, e = v.outcome(lambda: ManifestSizeCalculator(max_packet_size=o.max_packet_size, manifest_factory=f, name_ctx=ctx, total_bytes=total).calculate_max_pointers(), (ValueError,))
    if e is not None:
        v.ensure('refused only when two pointers do not fit', manifest_len(o, ctx, 2, total, True) > o.max_packet_size)
        return None
    v.ensure('at least two pointers', q >= 2)
    v.ensure('as many pointers as planned fit', manifest_len(o, ctx, q, total, False) <= o.max_packet_size)
    v.ensure('as many as the limit lets it be', manifest_len(o, ctx, q + 1, total, True) > o.max_packet_size)
    return q

class Same:
    def __init__(self, x): self.x = x
    def __call__(self, i): return self.x
class Filling:
    """_build_manifest_packet: i pointers so far, of data that only the first accounts for"""
    def __init__(self, v): self.v = v
    def holds(self, l):
        v, g, b, i = self.v, l.g, l['hgb'].direct_builder, l.i
        if 'size' not in g: g['size'] = l['direct_size']
        ps = b._pointers
        own = all((x if kind == 'one' else getattr(x, 'x', None)) is l['hv'] for kind, x, lo, hi in v.parts(ps))
        return [('one pointer per turn', v.all(own, len(ps) == i, b._direct_count == i, b._indirect_count == 0)),
                ('sizes', v.all(b._indirect_size == 0, l['direct_size'] == v.ite(i == 0, g['size'], 0), b._direct_size == v.ite(i == 0, 0, g['size'])))]
    def havoc(self, l):
        v, g, b, i = self.v, l.g, l['hgb'].direct_builder, l.i
        v.fits(b, *flat.BUILDER)
        b._pointers.become(v.elements(Same(l['hv']), 0, i))
        b._direct_count = i
        l['direct_size'] = v.ite(i == 0, g['size'], 0)
        b._direct_size = v.ite(i == 0, 0, g['size'])
def some_manifest(v, o, ctx, q, total):
    """a manifest that a tree of `total` bytes may hold, with at most q pointers"""
    hv = HashValue.create_sha256(array.array('B', bytes(32)))
    a, b = v.int('data pointers', 0, 2000), v.int('manifests', 0, 2000)
    v.assume(v.all(a + b <= q, a + b >= 1))
    def group(k, schema, leaf):
        seg = StartSegmentId(v.int('first id', 0, TOPID)) if schema.uses_name_id() else None
        return HashGroup(group_data=GroupData(nc_id=schema.nc_id(), start_segment_id=seg,
                                              subtree_size=SubtreeSize(v.int('group bytes', 0, total)) if o.add_group_subtree_size else None,
                                              leaf_size=LeafSize(v.int('leaf bytes', 0, total) if leaf else 0) if o.add_group_leaf_size else None),
                         pointers=Pointers([hv] * k))
    if ctx.hash_group_count() == 1: gs = [group(a + b, ctx.manifest_schema_impl, True)]
    else:
        gs = []
        if a > 0: gs.append(group(a, ctx.data_schema_impl, True))
        if b > 0: gs.append(group(b, ctx.manifest_schema_impl, False))
    return Node(node_data=NodeData(subtree_size=v.int('node bytes', 0, total)) if o.add_node_subtree_size else None, hash_groups=gs)

def any_options(v, schema, encryption):
    o = ManifestTreeOptions(name=Name([NameComponent(1, v.bytes('root', 1, 60))]), schema_type=schema, signer=Crc32cSigner(), debug=False)
    if schema == S or (schema == P and v.bool('own prefixes')):
        o.manifest_prefix = Name([NameComponent(1, v.bytes('manifest prefix', 1, 60))])
        if v.bool('a data prefix'): o.data_prefix = Name([NameComponent(1, v.bytes('data prefix', 61, 70))])
    if schema == H and v.bool('own locators'): o.data_locators = Locators.from_name(Name([NameComponent(1, v.bytes('locator', 1, 9))]))
    if v.bool('expires'): o.manifest_expiry_time = ExpiryTime(v.msec(v.int('expiry', 0, 2 ** 50)))
    if encryption == 'none': o.add_node_subtree_size, o.add_group_leaf_size, o.add_group_subtree_size = v.bool('node sizes'), v.bool('leaf sizes'), v.bool('group sizes')
    else: o.add_node_subtree_size = o.add_group_leaf_size = o.add_group_subtree_size = v.bool('sizes')
    if encryption != 'none':
        p = AeadParameters(key=AeadGcm(v.bytes('key', 16, 16)), key_number=v.int('key number', 0, 2 ** 32), aead_salt=v.int('salt', 0, 2 ** 32 - 1) if encryption == 'rsa' or v.bool('salted') else None)
        o.manifest_encryptor = AeadEncryptor(p) if encryption == 'psk' else RsaOaepEncryptor(RsaKey(v.rsa_key('wrapping key', 'k1')[0]), p)
    o.max_packet_size = v.int('packet size', 60, 65000)
    return o

def any_plan(v, schema, encryption):
    o = any_options(v, schema, encryption)
    total = v.int('total', 0, 2 ** 63)
    if v.symbolic:
        v.loop('ManifestSizeCalculator._build_manifest_packet', 0, Filling(v), 'for')
        flat.assume(v)
    ctx, e = v.outcome(lambda: NameConstructorContext.create(o), (ValueError,))
    # the data and the manifests need prefixes of their own
    if e is not None: return
    q = planned(v, o, total, ctx)
    if q is None: return
    node = some_manifest(v, o, ctx, q, total)
    p, e = v.outcome(lambda: ManifestFactory(o).build_packet(source=node, name=ctx.manifest_schema_impl.get_name(v.int('manifest id', 0, TOPID)), expiry_time=o.manifest_expiry_time), (ValueError,))
    v.ensure('every manifest of the tree can be built', e is None)
    v.ensure('and fits', v.all(len(p) <= o.max_packet_size, len(p.serialize()) <= o.max_packet_size))

flat.register(contract, 'C16')
def register_file(schema, label):
    @contract('C16', 'any_file_' + label, ['SchemaImpl.chunk_data', 'SchemaImpl._calculate_data_payload_size', 'SchemaImpl._create_data_packet'], tags=('inductive',))
    def file(v): any_length(v, schema)
for s, l in ((H, 'hashed'), (P, 'prefix'), (S, 'segmented')): register_file(s, l)
def register(schema, label, encryption):
    @contract('C16', 'any_plan_%s_%s' % (label, encryption), ['ManifestSizeCalculator.calculate_max_pointers', 'ManifestSizeCalculator._build_manifest_packet', 'HashGroupBuilderPair.hash_groups', 'HashGroupBuilder.hash_group', 'ManifestFactory.build_packet', 'ManifestFactory._build'],
              weight=4, tags=('inductive',))
    def plan(v): any_plan(v, schema, encryption)
for s, l in ((H, 'hashed'), (P, 'prefix'), (S, 'segmented')):
    for e in ('none', 'psk', 'rsa'): register(s, l, e)

@contract('C16', 'plan', ['ManifestSizeCalculator.calculate_max_pointers'], sym=False, bounded='native: random options, packet sizes 150 to 9000', weight=2)
def plan(v):
    o, ks = options(v, maxlen=v.choice('name length', [4, 40, 90]), mps=v.choice('size', [v.int('small', 150, 500), v.int('large', 150, 9000), 1500]))
    total = v.int('total', 1, 2 ** v.choice('bits', [8, 16, 24, 32, 48, 63]))
    planned(v, o, total)

@contract('C16', 'tree_packets', ['ManifestTree.build_top', 'ManifestFactory.build_packet', 'TreeParameters.create_optimized_tree'], sym=False, bounded='native: random options, trees of up to 600 chunks of any size', weight=3)
def tree_packets(v):
    o, ks = options(v, maxlen=v.choice('name length', [4, 40, 90]), mps=v.choice('size', [v.int('small', 150, 500), v.int('large', 150, 3000), 1500]))
    m = chunks(v, v.choice('n', [v.small('few', 1, 40), v.int('more', 1, 600)]))
    big = v.choice('chunk bytes', [0, 0, 2 ** 20, 2 ** 33, 2 ** 45])
    for c in m.chunk_metadata: c.payload_bytes += big
    m.total_bytes = sum(c.payload_bytes for c in m.chunk_metadata)
    out = TreeIO.PacketMemoryWriter()
    t, e = v.outcome(lambda: ManifestTree(data_input=m, packet_output=out, tree_options=o), (ValueError,))
    if e is not None:
        v.ensure('refused only when two pointers do not fit', o.max_tree_degree == 1 or manifest_len(o, NameConstructorContext.create(o), 2, m.total_bytes, True) > o.max_packet_size)
        v.ensure('nothing written', len(out) == 0)
        return
    t.build_top()
    ps = list(out)
    v.ensure('something written', len(ps) > 0)
    for p in ps: v.ensure('within the packet size', len(p.serialize()) <= o.max_packet_size and len(p) == len(p.serialize()))

@contract('C16', 'file_packets', ['SchemaImpl.chunk_data', 'ManifestTree.build_top'], sym=False, bounded='native: random options, files of up to ~60 packets', weight=2)
def file_packets(v):
    o, ks = options(v, maxlen=v.choice('name length', [4, 40, 90]), mps=v.choice('size', [v.int('small', 60, 500), v.int('large', 150, 3000), 1500]))
    data = v.bytes('block', 1, 16) * v.int('repeat', 1, 60)
    data = data * (1 + (v.small('packets', 1, 60) * o.max_packet_size) // len(data))
    out = TreeIO.PacketMemoryWriter()
    t, e = v.outcome(lambda: ManifestTree(data_input=io.BytesIO(data), packet_output=out, tree_options=o), (ValueError,))
    if e is None: t.build_top()
    for p in out: v.ensure('within the packet size', len(p.serialize()) <= o.max_packet_size and len(p) == len(p.serialize()))
    if e is not None and len(out) > 0:
        v.ensure('refused only when two pointers do not fit', manifest_len(o, NameConstructorContext.create(o), 2, len(data), True) > o.max_packet_size)
