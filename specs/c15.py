from pyvc_api import contract
import array
from ccnpy.core.ExpiryTime import ExpiryTime
from ccnpy.core.Name import Name, NameComponent
from ccnpy.core.Packet import Packet
from ccnpy.core.HashValue import HashValue
from ccnpy.flic.ManifestTreeOptions import ManifestTreeOptions
from ccnpy.flic.name_constructor.FileMetadata import FileMetadata, ChunkMetadata
from ccnpy.flic.name_constructor.NameConstructorContext import NameConstructorContext
from ccnpy.flic.name_constructor.SchemaType import SchemaType
from ccnpy.flic.tlvs.Locators import Locators
from ccnpy.flic.tree.FileChunks import FileChunks
from ccnpy.flic.tree.SizedPointer import SizedPointer
from ccnpy.flic.tree.TreeIO import TreeIO

H, P, S = SchemaType.HASHED, SchemaType.PREFIX, SchemaType.SEGMENTED

class Source:
    """a file: read(n) gives the next n bytes, or what is left"""
    def __init__(self, data): self.data, self.at = data, 0
    def read(self, n):
        end = self.at + n
        if end > len(self.data): end = len(self.data)
        r = self.data[self.at:end]
        self.at = end
        return r
class Sink:
    def __init__(self): self.packets = []
    def put(self, p): self.packets.append(p)

def options(v, schema, size, deep=0):
    n = Name([NameComponent(1, v.bytes('root', 1, 40 + deep)) for _ in range(v.small('components', 1, 1 + deep // 50))])
    o = ManifestTreeOptions(name=n, schema_type=schema, signer=None, max_packet_size=size)
    if v.bool('expires'): o.data_expiry_time = ExpiryTime(v.msec(v.int('ms', 0, 2 ** 46)))
    where = n
    if schema == S or (schema == P and v.bool('own prefix')):
        where = Name([NameComponent(1, v.bytes('prefix', 1, 40 + deep)), NameComponent(1, bytes([1]))])
        o.data_prefix = where
    if schema == H and v.bool('locators'): o.data_locators = Locators.from_name(Name([NameComponent(1, v.bytes('locator', 1, 9))]))
    return o, where

def shortest(v, i):
    """the shortest of 1, 2, 3, 4 or 8 bytes"""
    if i < 256: return v.cat([i])
    if i < 65536: return v.cat([i // 256, i % 256])
    if i < 2 ** 24: return v.cat([i // 65536, i // 256 % 256, i % 256])
    return v.cat([i // 2 ** 24, i // 65536 % 256, i // 256 % 256, i % 256])

def one(v, o, where, p, m, i, payload, last):
    """packet p, with pointer m, is the chunk with number i, holding these bytes"""
    n = len(payload)
    b = p.body()
    pay = b.payload().value()
    cs = [('within the packet size', len(p) <= o.max_packet_size)]
    cs += [('the size counted is the size written', len(p) == len(p.serialize()))]
    cs += [('none empty', len(pay) > 0),
           ('the payloads are the file, in order', v.all(len(pay) == n, v.same_bytes(pay, payload))),
           ('pointer number', m.chunk_number == i),
           ('pointer size', m.payload_bytes == n),
           ('pointer hash', v.all(m.content_object_hash == p.content_object_hash(), v.same_bytes(m.content_object_hash.value(), v.sha256(b.serialize()))))]
    if o.schema_type == H: cs.append(('unnamed', b.name() is None))
    elif o.schema_type == P: cs.append(('the prefix', v.same_bytes(b.name().serialize(), where.serialize())))
    else:
        cs.append(('the prefix and the chunk number', v.all(b.name().count() == where.count() + 1,
                   v.same_bytes(b.name().serialize(), where.append(NameComponent(NameComponent.chunk_id_type(), shortest(v, i))).serialize()))))
    f = b.final_chunk_id()
    if o.schema_type == S and last:
        cs.append(('the final chunk id is on the last chunk', f is not None))
        if f is not None: cs.append(('the final chunk id is the last number', v.same_bytes(f.serialize(), v.cat([0, 7, 0, len(shortest(v, i))], shortest(v, i)))))
    else: cs.append(('no final chunk id elsewhere', f is None))
    if o.data_expiry_time is None: cs.append(('no expiry', b.expiry_time() is None))
    else: cs.append(('the expiry', b.expiry_time() == o.data_expiry_time))
    cs.append(('data', v.all(b.payload_type().is_data(), b.is_manifest() == False)))
    return cs

def check(v, o, where, data, out, meta, first=0):
    ps = out.packets
    n = len(ps)
    v.ensure('as many pointers as packets', v.all(len(meta) == n, len(meta.chunk_metadata) == n))
    v.ensure('total bytes', meta.total_bytes == len(data))
    v.ensure('no packets for an empty file only', (n == 0) == (len(data) == 0))
    at = 0
    for i in range(n):
        pay = ps[i].body().payload().value()
        if i == 0: size = len(pay)
        v.ensure('each but the last filled', v.any(len(pay) == size, v.all(i == n - 1, len(pay) <= size)))
        v.ensure('no more than the file', at + len(pay) <= len(data))
        for label, c in one(v, o, where, ps[i], meta[i], first + i, data[at:at + len(pay)], i == n - 1): v.ensure(label, c)
        at = at + len(pay)
    v.ensure('all of the file', at == len(data))

class ChunkLoop:
    """`while there is a payload`: the chunks so far are the file up to total_file_bytes, and the payload is what follows"""
    def __init__(self, v, o, where, data, src, out, impl, size, first):
        self.v, self.o, self.where, self.data, self.src, self.out, self.impl, self.size, self.first = v, o, where, data, src, out, impl, size, first
        self.opaque = lambda i: None
    def holds(self, l):
        v, N, P = self.v, len(self.data), self.size
        metas, T, payload = l['chunk_metadata'], l['total_file_bytes'], l['payload_value']
        k = len(metas)
        cs = [('as many packets as pointers', len(self.out.packets) == k),
              ('numbers are handed out in order', self.impl._next_chunk_id == self.first + k),
              ('no more than the file', v.all(T >= 0, T <= N)),
              ('a chunk is filled unless the file ends', len(payload) == (P if N - T >= P else N - T)),
              ('the chunk continues the file', v.same_bytes(payload, self.data[T:T + len(payload)])),
              ('the input is read up to here', self.src.at == T + len(payload)),
              ('chunks if there are bytes', (k == 0) == (T == 0))]
        if 'at' in l.g and not (l['total_file_bytes'] is l.g['at']):
            # a chunk has been added
            t = l.g['at']
            v0 = len(metas) - 1
            cs += [('one chunk is added', v.all(v0 == l.g['k'], T > t))]
            cs += one(v, self.o, self.where, self.out.packets[v0], metas[v0], self.first + v0, self.data[t:T], bool(T == N))
        return cs
    def havoc(self, l):
        v = self.v
        k = v.fresh('chunks so far', 0)
        T = v.fresh('bytes so far', 0, len(self.data))
        n = v.fresh('bytes in hand', 0, self.size)
        l['chunk_metadata'].become(v.elements(self.opaque, 0, k))
        self.out.packets.become(v.elements(self.opaque, 0, k))
        self.impl._next_chunk_id = self.first + k
        l['total_file_bytes'] = T
        v.assume(T + n <= len(self.data))
        l['payload_value'] = self.data[T:T + n]
        self.src.at = T + n
        l.g['at'], l.g['k'] = T, k
    scratch = ('chunk_id', 'chunk_name', 'next_payload_value', 'fcid', 'packet')
    def measure(self, l): return 2 * (len(self.data) - l['total_file_bytes']) + (1 if len(l['payload_value']) > 0 else 0)

def any_length(v, schema):
    size = v.int('packet size', 20, 65535)
    o, where = options(v, schema, size)
    data = v.bytes('data', 0, 2 ** 48)
    c = NameConstructorContext.create(o)
    impl = c.data_schema_impl
    asked = []
    class Probe:
        def read(self, n):
            asked.append(n)
            return b''
    r, e = v.outcome(lambda: impl.chunk_data(Probe(), Sink()), (ValueError,))
    if e is not None: return
    src, out = Source(data), Sink()
    # files that were split before under the same names have used up the first numbers
    first = v.int('numbers used before', 0, 2 ** 24 if v.symbolic else 700)
    if v.symbolic:
        v.put(impl, '_next_chunk_id', first)
        v.loop('SchemaImpl.chunk_data', 0, ChunkLoop(v, o, where, data, src, out, impl, asked[0], first))
    else:
        v.assume(first * asked[0] <= 10 ** 7)
        impl.chunk_data(Source(bytes(first * asked[0])), Sink())
    meta, e = v.outcome(lambda: impl.chunk_data(src, out), (ValueError,))
    if e is not None:
        v.ensure('refused only when there are more than 2^24 chunks', first + len(out.packets) > 0xFFFFFF)
        return
    v.ensure('all of the file', meta.total_bytes == len(data))
    v.ensure('as many pointers as packets', v.all(len(meta) == len(out.packets), (len(meta) == 0) == (len(data) == 0)))
    if not v.symbolic: check(v, o, where, data, out, meta, first)

def chunk(v, schema, most):
    size = v.int('packet size', 20, 9000)
    o, where = options(v, schema, size)
    ctx = NameConstructorContext.create(o)
    out = Sink()
    data = v.bytes('data', 0, 9000 * most)
    empty = Sink()
    # one call decides the payload size: what one read asks for
    asked = []
    class Probe:
        def read(self, n):
            asked.append(n)
            return b''
    r, e = v.outcome(lambda: ctx.data_schema_impl.chunk_data(Probe(), empty), (ValueError,))
    if e is not None: return
    v.ensure('an empty file has no chunks', v.all(len(empty.packets) == 0, r.total_bytes == 0, len(r) == 0))
    v.assume(len(data) <= most * asked[0])
    first = 0
    if v.bool('after another file'):
        ctx.data_schema_impl.chunk_data(Source(v.bytes('before', 1, 1)), Sink())
        first = 1
    meta = ctx.data_schema_impl.chunk_data(Source(data), out)
    check(v, o, where, data, out, meta, first)

def register(schema, label):
    @contract('C15', 'any_length_' + label, ['SchemaImpl.chunk_data', 'SchemaImpl._calculate_data_payload_size', 'SchemaImpl._create_data_packet', schema.name.title() + 'SchemaImpl.get_name'], weight=2, tags=('inductive',))
    def any_file(v): any_length(v, schema)
    @contract('C15', 'chunks_' + label, ['SchemaImpl.chunk_data', 'SchemaImpl._calculate_data_payload_size', 'SchemaImpl._create_data_packet', schema.name.title() + 'SchemaImpl.get_name'],
              bounded='files of up to 3 chunks (any contents, any packet size, prefixes up to 40 bytes)', weight=2)
    def chunks(v): chunk(v, schema, 3)
for s, l in ((H, 'hashed'), (P, 'prefix'), (S, 'segmented')): register(s, l)

@contract('C15', 'long_files', ['SchemaImpl.chunk_data'], sym=False, bounded='native: random options, up to 700 chunks', weight=2)
def long_files(v):
    schema = v.choice('schema', [H, P, S])
    size = v.int('packet size', 60, 3000)
    o, where = options(v, schema, size, 100)
    ctx = NameConstructorContext.create(o)
    out = Sink()
    n = v.choice('chunks', [v.small('few', 0, 20), v.int('more', 1, 700)])
    block = v.bytes('block', 1, 31)
    total = min(n * size + v.int('odd', 0, 60), 300000)
    data = (block * (total // len(block) + 1))[:total]
    if v.bool('array'): data = array.array('B', data)
    meta, e = v.outcome(lambda: ctx.data_schema_impl.chunk_data(Source(data), out), (ValueError,))
    if e is not None:
        v.ensure('nothing written when the limit is too small', len(out.packets) == 0)
        v.ensure('refused only when it is', size < 60 + len(where) + 40)
        return
    check(v, o, where, data, out, meta)
    back = [c for c in meta]
    v.ensure('listed from the end', [c.chunk_number for c in back] == list(range(len(meta) - 1, -1, -1)))

@contract('C15', 'very_long_file', ['SchemaImpl.chunk_data'], sym=False, bounded='native: a file of 100 to 3000 chunks of 1 to 3 bytes')
def very_long(v):
    schema = v.choice('schema', [S, S, P, H])
    o, where = options(v, schema, 200)
    probe = ManifestTreeOptions(name=o.name, schema_type=schema, signer=None, max_packet_size=9000, data_expiry_time=o.data_expiry_time, data_prefix=o.data_prefix)
    asked = []
    class Probe:
        def read(self, n):
            asked.append(n)
            return b''
    NameConstructorContext.create(probe).data_schema_impl.chunk_data(Probe(), Sink())
    o.max_packet_size = 9000 - asked[0] + v.small('payload', 1, 3)
    data = bytes(v.choice('bytes', [300, 700, 3000, 3000, 3000]))
    out = Sink()
    meta = NameConstructorContext.create(o).data_schema_impl.chunk_data(Source(data), out)
    check(v, o, where, data, out, meta)

@contract('C15', 'file_chunks', ['FileChunks.append', 'FileChunks.__getitem__', 'FileChunks.__iter__', 'FileChunks.__len__', 'FileMetadata.__iter__', 'FileMetadata.__getitem__', 'FileMetadata.__len__'], bounded='up to 4 chunks')
def file_chunks(v):
    n = v.small('n', 0, 4)
    ps = [SizedPointer(content_object_hash=HashValue.create_sha256(v.array('h', 32, 32)), length=v.int('len', 0, 2 ** 40)) for _ in range(n)]
    f = FileChunks()
    for p in ps: f.append(p)
    v.ensure('as many', len(f) == n)
    for i in range(n): v.ensure('in order', f[i] is ps[i])
    back = [p for p in f]
    v.ensure('iterated from the end', len(back) == n)
    for i in range(n): v.ensure('each once', back[i] is ps[n - 1 - i])
    v.raises('only pointers', TypeError, lambda: f.append(n))
    cs = [ChunkMetadata(chunk_number=i, payload_bytes=p.length(), content_object_hash=p.content_object_hash()) for i, p in enumerate(ps)]
    m = FileMetadata(chunk_metadata=cs, total_bytes=0)
    v.ensure('metadata: as many', len(m) == n)
    for i in range(n): v.ensure('metadata: in order', m[i] is cs[i])
    back = [c for c in m]
    v.ensure('metadata: iterated from the end', len(back) == n)
    for i in range(n): v.ensure('metadata: each once', back[i] is cs[n - 1 - i])
