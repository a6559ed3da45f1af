from pyvc_api import contract
import array
from ccnpy.core.ContentObject import ContentObject
from ccnpy.core.HashValue import HashValue
from ccnpy.core.Link import Link
from ccnpy.core.Name import Name, NameComponent
from ccnpy.core.Packet import Packet
from ccnpy.core.Payload import Payload
from ccnpy.core.Tlv import Tlv
from ccnpy.exceptions.ParseError import ParseError
from ccnpy.crypto.Crc32c import Crc32cSigner
from ccnpy.crypto.RsaKey import RsaKey
from ccnpy.crypto.RsaSha256 import RsaSha256Signer
from ccnpy.flic.tlvs.HashGroup import HashGroup
from ccnpy.flic.tlvs.Manifest import Manifest
from ccnpy.flic.tlvs.Node import Node
from ccnpy.flic.tlvs.Pointers import Pointers
from ccnpy.flic.tree.TreeIO import TreeIO
from specs.names import confusable

def name(v, tag, most=12): return Name([NameComponent(1, v.bytes('name' + tag, 1, most)) for _ in range(v.few('components' + tag, 1, 2, 6))])
def packet(v, tag, named=None):
    n = name(v, tag) if (v.bool('named' + tag) if named is None else named) else None
    return Packet.create_content_object(ContentObject.create_data(name=n, payload=Payload(v.bytes('payload' + tag, 0, 60))))
def distinct(v, ps):
    for i in range(len(ps)):
        for j in range(i): v.assume(v.neg(ps[i].content_object_hash() == ps[j].content_object_hash()))
def same(v, label, got, want): v.ensure(label, v.all(v.same_bytes(got.serialize(), want.serialize()), got.content_object_hash() == want.content_object_hash()))
def fails(v, label, fn):
    r, e = v.outcome(fn, (Exception,))
    v.ensure(label, e is not None)

@contract('C18', 'memory_store', ['PacketMemoryWriter.put', 'PacketMemoryReader.get', 'PacketMemoryWriter.__len__', 'PacketMemoryReader.__iter__', 'PacketMemoryReader.__getitem__'], bounded='histories of up to 3 writes (any packets, one may be written again)', weight=3)
def memory(v):
    w = TreeIO.PacketMemoryWriter()
    n = v.few('packets', 0, 3, 10)
    ps = [packet(v, str(i), v.bool('named') if i == 0 else False) for i in range(n)]
    distinct(v, ps)
    again = n > 0 and v.bool('again')
    for p in ps: w.put(p)
    if again: w.put(ps[0])
    store = TreeIO.PacketMemoryReader(list(w)) if v.bool('reader of the packets') else TreeIO.PacketMemoryReader(w) if v.bool('reader') else w
    v.ensure('distinct packets counted', len(w) == n)
    for i in range(n):
        same(v, 'the packet with that hash', store.get(ps[i].body().name(), ps[i].content_object_hash()), ps[i])
        same(v, 'in the order written', store[i], ps[i])
    v.ensure('all kept', len([p for p in store]) == n + (1 if again else 0))
    h = HashValue.create_sha256(v.array('other hash', 32, 32))
    for p in ps: v.assume(v.neg(h == p.content_object_hash()))
    v.raises('a hash that was never stored', KeyError, lambda: store.get(None, h))

@contract('C18', 'memory_store_names', ['PacketMemoryReader.get'], bounded='one named packet and any other name')
def memory_names(v):
    w = TreeIO.PacketMemoryWriter()
    p, q = packet(v, '1', True), name(v, '2')
    v.assume(v.neg(v.same_bytes(p.body().name().serialize(), q.serialize())))
    w.put(p)
    same(v, 'by its name', w.get(Name.parse(Tlv.deserialize(p.body().name().serialize())), p.content_object_hash()), p)
    v.raises('another name', ValueError, lambda: w.get(q, p.content_object_hash()))
    v.raises('no name', ValueError, lambda: w.get(None, p.content_object_hash()))

@contract('C18', 'memory_store_unnamed', ['PacketMemoryReader.get'])
def memory_unnamed(v):
    w = TreeIO.PacketMemoryWriter()
    p = packet(v, '1', False)
    w.put(p)
    for q in (None, name(v, '2')): same(v, 'an unnamed packet under any name', w.get(q, p.content_object_hash()), p)

def with_hash(v, tag, h):
    """an arbitrary data packet with that hash"""
    p = packet(v, tag)
    v.assume(p.content_object_hash() == h)
    return p
def maybe(fn):
    try: return fn()
    except KeyError: return 'missing'
    except ValueError: return 'another name'

@contract('C18', 'any_memory_store', ['PacketMemoryWriter.put', 'PacketMemoryReader.get'], native=False, weight=3, tags=('inductive',))
def any_memory(v):
    """one write to a store in any state: with the empty store (memory_store) this covers every history"""
    w = TreeIO.PacketMemoryWriter()
    v.fits(w, 'packets', 'by_hash', 'total_bytes_by_packet', 'total_bytes_by_hash')
    v.put(w, 'by_hash', v.any_map(lambda k: with_hash(v, 'stored', k), 'stored', lambda k: isinstance(k, HashValue)))
    k = v.int('stored packets', 0, 2 ** 40)
    v.put(w, 'packets', v.elements(lambda i: None, 0, k))
    v.put(w, 'total_bytes_by_packet', v.int('bytes', 0, 2 ** 60)); v.put(w, 'total_bytes_by_hash', v.int('distinct bytes', 0, 2 ** 60))
    h = HashValue.create_sha256(v.array('asked', 32, 32))
    n = v.choice('asked name', [None, name(v, 'asked')])
    before = maybe(lambda: w.get(n, h))
    p = packet(v, 'new')
    w.put(p)
    for x, y in w.by_hash.known():
        if p.content_object_hash() == x: v.assume(p.content_object_hash() == y.content_object_hash())
    after = maybe(lambda: w.get(n, h))
    if p.content_object_hash() == h:
        m = p.body().name()
        if m is None or (n is not None and v.same_bytes(m.serialize(), n.serialize())):
            v.ensure('the packet with that hash', v.neg(isinstance(after, str)))
            same(v, 'the packet with that hash', after, p)
        else: v.ensure('another name', after == 'another name')
    else: v.ensure('others are not disturbed', after == before if isinstance(before, str) and isinstance(after, str) else after is before)
    if not isinstance(after, str):
        v.ensure('never a packet with another hash', after.content_object_hash() == h)
        m = after.body().name()
        v.ensure('never a packet of another name', m is None or (n is not None and v.same_bytes(m.serialize(), n.serialize())))
    v.ensure('appended', v.all(len(w.packets) == k + 1, w.packets[k] is p))
    for x, y in w.by_hash.known(): v.ensure('filed under its hash', x == y.content_object_hash())
    v.fits(w, 'packets', 'by_hash', 'total_bytes_by_packet', 'total_bytes_by_hash')

@contract('C18', 'any_directory', ['PacketDirectoryReader.get', 'PacketDirectoryReader._load_by_hash', 'PacketDirectoryReader._get_by_name', 'PacketDirectoryReader._get_by_link'], native=False, weight=3, tags=('inductive',))
def any_directory(v):
    """look-ups in a directory with whatever in its files (Packet.load is assumed: any packet, or an error)"""
    r = object.__new__(TreeIO.PacketDirectoryReader)
    h = HashValue.create_sha256(v.array('asked', 32, 32))
    n = v.choice('asked name', [None, name(v, 'asked')])
    hashed, links = [], []
    def content(tag):
        k = v.choice('content' + tag, ['data', 'manifest', 'link', 'missing', 'not a packet'])
        if k == 'missing': raise FileNotFoundError(tag)
        if k == 'not a packet': raise ParseError(tag)
        if k == 'data': return packet(v, tag)
        m = v.choice('named' + tag, [None, name(v, tag)])
        if k == 'manifest': return Packet.create_content_object(Manifest(node=Node(hash_groups=[HashGroup(pointers=Pointers([HashValue.create_sha256(v.array('h' + tag, 32, 32))]))])).content_object(name=m))
        return Packet.create_content_object(ContentObject.create_link(name=m if m is not None else name(v, tag), link=Link(name=m, digest=HashValue.create_sha256(v.array('h' + tag, 32, 32)))))
    def load(cls, path):
        known = links if isinstance(path, Name) else hashed
        for k, p in known:
            if k == path: return p
        p = content('link file' if known is links else 'hash file')
        known.append((path, p))
        return p
    v.assumed(TreeIO.DirectoryBase, 'to_path', lambda self, input, nested=False: input)
    v.assumed(Packet, 'load', classmethod(load))
    by_name = n is not None and v.bool('by name only')
    got, e = v.outcome(lambda: r.get(n, None if by_name else h), (Exception,))
    if e is None:
        m = got.body().name()
        if by_name: v.ensure('a packet of that name', m is not None and v.same_bytes(m.serialize(), n.serialize()))
        else:
            v.ensure('never a packet with another hash', got.content_object_hash() == h)
            v.ensure('never a packet of another name', m is None or (n is not None and v.same_bytes(m.serialize(), n.serialize())))
    elif not by_name:
        ok = [p for k, p in hashed if p.content_object_hash() == h]
        v.ensure('refused only if it is not there under that name',
                 v.any(len(ok) == 0, *[p.body().name() is not None and (n is None or v.neg(v.same_bytes(p.body().name().serialize(), n.serialize()))) for p in ok]))

@contract('C18', 'any_directory_write', ['PacketDirectoryWriter.put', 'PacketDirectoryWriter._write_link', 'PacketDirectoryWriter._create_link', 'PacketDirectoryReader.get'], native=False, weight=3, tags=('inductive',))
def any_directory_write(v):
    """one write to a directory with whatever in it, then look-ups (Packet.save and Packet.load are assumed: load gives
    the packet that was saved last under a path; link files of different names may be one)"""
    files = {'hash': [], 'link': []}
    def kind(path): return files['link' if isinstance(path, Name) else 'hash']
    one_link_file = v.bool('one link file')
    def save(self, path):
        f = kind(path)
        for e in f:
            if e[0] == path or (f is files['link'] and one_link_file): e[0], e[1] = path, self; return
        f.append([path, self])
    def load(cls, path):
        f = kind(path)
        for e in f:
            if e[0] == path or (f is files['link'] and one_link_file): return Packet.deserialize(e[1].serialize())
        raise FileNotFoundError(path)
    w, r = object.__new__(TreeIO.PacketDirectoryWriter), object.__new__(TreeIO.PacketDirectoryReader)
    linked = v.bool('links')
    w.__dict__.update(_directory=None, _link_named_objects=linked, _signer=None, _nested=False, by_hash={}, packets=[], total_bytes_by_packet=0,
                      total_bytes_by_hash=0, cnt_manifest=0, cnt_data=0, bytes_manifest=0, bytes_data=0)
    v.assumed(TreeIO.DirectoryBase, 'to_path', lambda self, input, nested=False: input.content_object_hash() if isinstance(input, Packet) else input)
    v.assumed(Packet, 'save', save)
    v.assumed(Packet, 'load', classmethod(load))
    old = packet(v, 'old')
    w.put(old)
    p = packet(v, 'new')
    w.put(p)
    same(v, 'the packet with that hash', r.get(p.body().name(), p.content_object_hash()), p)
    same(v, 'the earlier packet is not disturbed', r.get(old.body().name(), old.content_object_hash()), old)
    n = p.body().name()
    if n is not None:
        got, e = v.outcome(lambda: r.get(n, None), (Exception,))
        v.ensure('by name', (e is None) == linked)
        if e is None: same(v, 'by name: the latest', got, p)

@contract('C18', 'confusable_names', ['PacketMemoryReader.get', 'PacketDirectoryReader.get', 'PacketDirectoryReader._get_by_name'], sym=False, bounded='native: pairs of names that print alike')
def confusable_names(v):
    p, q = confusable(v)
    if bytes(p.serialize()) == bytes(q.serialize()): return
    x, y = [Packet.create_content_object(ContentObject.create_data(name=n, payload=Payload(v.bytes('payload', 0, 3)))) for n in (p, q)]
    with Scratch() as d:
        w = TreeIO.PacketMemoryWriter()
        f = TreeIO.PacketDirectoryWriter(d)
        for a in (w, f): a.put(x); a.put(y)
        for r in (w, TreeIO.PacketMemoryReader(list(w)), TreeIO.PacketDirectoryReader(d)):
            fails(v, 'another name', lambda: r.get(q, x.content_object_hash()))
            fails(v, 'another name', lambda: r.get(p, y.content_object_hash()))
            same(v, 'its own name', r.get(p, x.content_object_hash()), x)
            same(v, 'its own name', r.get(q, y.content_object_hash()), y)

class Scratch:
    def __enter__(self):
        import tempfile
        self.d = tempfile.TemporaryDirectory(prefix='c18')
        return self.d.name
    def __exit__(self, *a): self.d.cleanup()

def printable(v): return Name([NameComponent(1, bytes(v.choice('char', LETTERS) for _ in range(v.small('letters', 1, 3)))) for _ in range(v.small('components', 1, 2))])
LETTERS = list(b'ab~/;?#%. =:&+@\\\x01\xc3\xff')

def some_packet(v, key):
    k = v.choice('kind', ['data', 'data', 'manifest', 'link', 'signed'])
    n = v.choice('a name', [None, printable(v), Name.from_uri('ccnx:/a/b'), printable(v).append(NameComponent.create_chunk_segment(v.int('chunk', 0, 70000)))])
    if k == 'manifest': return Packet.create_content_object(Manifest(node=Node(hash_groups=[HashGroup(pointers=Pointers([HashValue.create_sha256(v.array('h', 32, 32))]))])).content_object(name=n))
    if k == 'link' and n is not None:
        return Packet.create_content_object(ContentObject.create_link(name=n, link=Link(name=n, digest=HashValue.create_sha256(v.array('h', 32, 32)))))
    body = ContentObject.create_data(name=n, payload=Payload(v.bytes('payload', 0, 200)))
    if k == 'signed':
        s = v.choice('signer', [Crc32cSigner(), key])
        a = s.validation_alg()
        return Packet.create_signed_content_object(body, a, s.sign(body.serialize(), a.serialize()))
    return Packet.create_content_object(body)

@contract('C18', 'directory_store', ['PacketDirectoryWriter.put', 'PacketDirectoryReader.get', 'PacketDirectoryReader._load_by_hash', 'Packet.save', 'Packet.load'], sym=False, bounded='native: random histories of up to 25 writes and look-ups in a scratch directory', weight=3)
def directory(v):
    key = RsaSha256Signer(RsaKey(v.rsa_key('rsa', 'k0')[0]))
    with Scratch() as d:
        links = v.bool('links')
        w = TreeIO.PacketDirectoryWriter(d, link_named_objects=links, signer=v.choice('link signer', [None, key]))
        r = TreeIO.PacketDirectoryReader(d)
        model, named, files = {}, {}, {}
        for _ in range(v.small('steps', 1, 25)):
            what = v.choice('step', ['put', 'put', 'get', 'get', 'again', 'missing', 'wrong name', 'by name'])
            if what == 'put' or (what == 'again' and not model):
                p = some_packet(v, key)
                w.put(p)
                model[bytes(p.content_object_hash().value())] = p
                n = p.body().name()
                if links and n is not None: files[TreeIO.get_link_name(n)] = (n, p)
            elif not model: continue
            else:
                p = model[v.choice('which', sorted(model))]
                n = p.body().name()
                if what == 'again':
                    w.put(p)
                    if links and n is not None: files[TreeIO.get_link_name(n)] = (n, p)
                elif what == 'get': same(v, 'the packet with that hash', r.get(n, HashValue.create_sha256(array.array('B', p.content_object_hash().value()))), p)
                elif what == 'missing': fails(v, 'a hash that was never stored', lambda: r.get(n, HashValue.create_sha256(v.array('h', 32, 32))))
                elif what == 'wrong name':
                    q = v.choice('other name', [None, printable(v)])
                    if n is not None and (q is None or bytes(q.serialize()) != bytes(n.serialize())): fails(v, 'another name', lambda: r.get(q, p.content_object_hash()))
                    if n is None: same(v, 'an unnamed packet under any name', r.get(q, p.content_object_hash()), p)
                elif n is not None:
                    got, e = v.outcome(lambda: r.get(n, None), (Exception,))
                    f = files.get(TreeIO.get_link_name(n))
                    if f is not None and f[0] == n: v.ensure('found by its name', e is None)
                    if e is None:
                        v.ensure('by name: a packet of that name', bytes(got.body().name().serialize()) == bytes(n.serialize()))
                        same(v, 'by name: the latest', got, f[1])
        for p in model.values(): same(v, 'writing others did not change it', r.get(p.body().name(), p.content_object_hash()), p)
        v.ensure('distinct packets counted', len(w.by_hash) == len(model))

@contract('C18', 'damaged_directory', ['PacketDirectoryReader.get', 'PacketDirectoryReader._load_by_hash', 'PacketDirectoryReader._get_by_name'], sym=False, bounded='native: stores whose files were overwritten, truncated, swapped or deleted', weight=3)
def damaged(v):
    import os
    key = RsaSha256Signer(RsaKey(v.rsa_key('rsa', 'k0')[0]))
    with Scratch() as d:
        w = TreeIO.PacketDirectoryWriter(d, link_named_objects=True)
        ps = [some_packet(v, key) for _ in range(v.small('packets', 2, 5))]
        for p in ps: w.put(p)
        files = sorted(os.listdir(d))
        for _ in range(v.small('damages', 1, 3)):
            f = os.path.join(d, v.choice('file', files))
            if not os.path.exists(f): continue
            data = open(f, 'rb').read()
            how = v.choice('damage', ['change', 'cut', 'other', 'garbage', 'delete', 'extend'])
            if how == 'delete': os.remove(f); continue
            if how == 'change' and len(data): i = v.int('at', 0, 10 ** 6) % len(data); new = data[:i] + bytes([data[i] ^ v.int('bits', 1, 255)]) + data[i + 1:]
            elif how == 'cut': new = data[:v.int('left', 0, 10 ** 6) % (len(data) + 1)]
            elif how == 'extend': new = data + v.bytes('more', 1, 9)
            elif how == 'other':
                g = os.path.join(d, v.choice('from', files))
                new = open(g, 'rb').read() if os.path.exists(g) else b''
            else: new = v.bytes('garbage', 0, 100)
            with open(f, 'wb') as o: o.write(new)
        r = TreeIO.PacketDirectoryReader(d)
        for p in ps:
            h = p.content_object_hash()
            got, e = v.outcome(lambda: r.get(p.body().name(), h), (Exception,))
            if e is None:
                v.ensure('never a packet with another hash', got.content_object_hash() == h)
                v.ensure('the body stored with that hash', bytes(got.body().serialize()) == bytes(p.body().serialize()))
            n = p.body().name()
            if n is not None:
                got, e = v.outcome(lambda: r.get(n, None), (Exception,))
                if e is None: v.ensure('by name: a packet of that name', got.body().name() is not None and bytes(got.body().name().serialize()) == bytes(n.serialize()))
