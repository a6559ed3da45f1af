from pyvc_api import contract
from specs.trees import *

def whole(v, b, ks, r, n=None):
    """the reader found exactly the chunks in order; returns nothing"""
    v.ensure('the root is the last packet written', bytes(b.packets[-1].content_object_hash().value()) == r.root)
    if isinstance(b.source, bytes):
        datas = [p for p in b.packets if not p.body().is_manifest()]
        v.ensure('leaves are the data packets, in order', [h for h, _ in r.leaves] == [bytes(p.content_object_hash().value()) for p in datas])
        v.ensure('the payloads are the file', bytes(r.payload) == b.source)
        v.ensure('all bytes counted', r.total == len(b.source))
    else:
        v.ensure('leaves are the chunks, in order', [h for h, _ in r.leaves] == [bytes(c.content_object_hash.value()) for c in b.source.chunk_metadata])
        v.ensure('all bytes counted', r.total == b.source.total_bytes)
    if b.o.schema_type == S:
        first = b.first if isinstance(b.source, bytes) else b.source[0].chunk_number
        prefix = b.o.data_prefix or b.o.name
        v.ensure('data is asked for by its chunk number', [wire(n) for _, n in r.leaves] == [wire(numbered(prefix, NameComponent.chunk_id_type(), first + i)) for i in range(len(r.leaves))])
    v.ensure('every manifest written is reached', len(r.manifests) == len([p for p in b.packets if p.body().is_manifest()]))
    for m in r.manifests:
        if b.o.max_tree_degree is not None and not m.root: v.ensure('no more pointers than allowed', m.pointers <= b.o.max_tree_degree)
        v.ensure('no empty manifests', m.pointers >= 1)
        if not m.root: v.ensure('within the packet size', len(m.packet.serialize()) <= b.o.max_packet_size)
    if isinstance(b.source, bytes) and r.depth < 200:
        buf = TreeIO.DataBuffer()
        Traversal(packet_input=TreeIO.PacketMemoryReader([Packet.deserialize(p.serialize()) for p in b.packets]), data_writer=buf, keystore=ks).traverse(b.o.name, b.root.content_object_hash())
        v.ensure('reading the tree gives the file', bytes(buf.buffer) == b.source)

def file(v, n, o, rep=False):
    """about n chunks of a file"""
    size = max(1, o.max_packet_size - 150) * (n - 1) + v.int('tail', 1, 200)
    x = v.bytes('data', 16, 16)
    return (x * (size // 16 + 1))[:size] if rep else bytes((i * 167 + i // 251 + x[i % 16]) % 256 for i in range(size))

@contract('C13', 'file_tree', ['ManifestTree.build', 'TreeBuilder.build', 'TreeParameters.create_optimized_tree', 'SchemaImpl.chunk_data', 'Traversal.traverse'], sym=False, bounded='native: random options and files of up to ~60 chunks', weight=3)
def file_tree(v):
    o, ks = options(v)
    b = build(o, file(v, v.small('chunks', 1, 12) * v.small('times', 1, 5), o), file(v, v.small('chunks before', 1, 3), o) if v.choice('split before', [False, False, True]) else None)
    whole(v, b, ks, Reader(v, b, ks))

@contract('C13', 'repetitive_file_tree', ['ManifestTree.build', 'Traversal.traverse'], sym=False, bounded='native: files whose chunks repeat')
def rep_tree(v):
    o, ks = options(v, schema=v.choice('schema', [H, P]), encryption=v.choice('encryption', ['none', 'psk']))
    data = v.bytes('block', 1, 3)
    data = data * ((v.int('size', 1, 12000)) // len(data) + 1)
    b = build(o, data)
    r = Reader(v, b, ks)
    v.ensure('the payloads are the file', bytes(r.payload) == data)
    if r.depth >= 200: return
    buf = TreeIO.DataBuffer()
    Traversal(packet_input=b.out, data_writer=buf, keystore=ks).traverse(o.name, b.root.content_object_hash())
    v.ensure('reading the tree gives the file', bytes(buf.buffer) == data)

@contract('C13', 'chunk_tree', ['ManifestTree.build', 'TreeBuilder.build', 'TreeParameters.create_optimized_tree'], sym=False, bounded='native: random options, up to 4000 chunks', weight=3)
def chunk_tree(v):
    o, ks = options(v, encryption=v.choice('encryption', ['none', 'none', 'none', 'psk']))
    n = v.choice('n', [v.small('few', 1, 40), v.int('more', 1, 400), v.int('most', 1, 4000)])
    b = build(o, chunks(v, n))
    whole(v, b, ks, Reader(v, b, ks))

@contract('C13', 'small_trees', ['TreeBuilder.build', 'TreeOptimizer.minimize_k_min_waste'], sym=False, bounded='native: 12 consecutive chunk counts from a random start up to 150 for one fan-out of 2..12', weight=2)
def small_trees(v):
    o, ks = options(v, schema=v.choice('schema', [H, S]), encryption='none', degree=v.small('degree', 2, 12), mps=1500)
    o.add_node_subtree_size = o.add_group_subtree_size = o.add_group_leaf_size = v.bool('all sizes')
    n0 = v.small('first', 1, 140)
    for n in range(n0, n0 + 12):
        b = build(o, chunks(v, n))
        whole(v, b, ks, Reader(v, b, ks))

@contract('C13', 'chain_tree', ['ManifestTree.build', 'Traversal.traverse'], sym=False, bounded='native: trees of fan-out 2 (chains) with 600 to 800 chunks')
def chain_tree(v):
    o, ks = options(v, schema=v.choice('schema', [H, P]), encryption='none', degree=2, mps=400)
    n = v.int('chunks', 600, 800)
    b = build(o, bytes(n * 390))
    r = Reader(v, b, ks)
    v.ensure('the payloads are the file', bytes(r.payload) == b.source)
    buf = TreeIO.DataBuffer()
    Traversal(packet_input=b.out, data_writer=buf, keystore=ks).traverse(o.name, b.root.content_object_hash())
    v.ensure('reading the tree gives the file', bytes(buf.buffer) == b.source)

from specs import building, flat
flat.register(contract, 'C13')
for schema, label in ((H, 'hashed'), (P, 'prefix'), (S, 'segmented')): building.register(contract, schema, label)
building.register_lemma(contract, 'C13')

from specs import roots
roots.register(contract, 'C13')
