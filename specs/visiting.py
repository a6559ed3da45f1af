"""Traversal under contract, for manifests with any number of groups, pointers and definitions and trees of any depth:
each function is checked against the contracts of the functions it calls (induction over the tree).
Only used by the verifier (symbolic side)."""
import array
from ccnpy.core.ContentObject import ContentObject
from ccnpy.core.HashValue import HashValue
from ccnpy.core.Name import Name, NameComponent
from ccnpy.core.Packet import Packet
from ccnpy.core.PacketValidator import PacketValidator
from ccnpy.core.Payload import Payload
from ccnpy.core.ValidationPayload import ValidationPayload
from ccnpy.crypto.Crc32c import Crc32cSigner
from ccnpy.flic.name_constructor.SchemaImplFactory import SchemaImplFactory
from ccnpy.flic.tlvs.AeadCtx import AeadCtx
from ccnpy.flic.tlvs.HashGroup import HashGroup
from ccnpy.flic.tlvs.Manifest import Manifest
from ccnpy.flic.tlvs.Node import Node
from ccnpy.flic.tlvs.RsaOaepCtx import RsaOaepCtx
from ccnpy.flic.tree.DecryptorCache import DecryptorCache
from ccnpy.flic.tree.Traversal import Traversal

def signed(body):
    return Packet.create_signed_content_object(body, Crc32cSigner().validation_alg(), ValidationPayload(array.array('B', b'0000')))
class Pointer:
    """what the iterator of a manifest gives: the i-th pointer"""
    def __init__(self, i, nc_id, hash_value, segment_id): self.i, self.nc_id, self.hash_value, self.segment_id = i, nc_id, hash_value, segment_id
class PointerList:
    def __init__(self, n, at): self.n, self.at = n, at
    def cut_iteration(self): return self.n, self.at
class AName:
    def __init__(self, nc_id, segment): self.nc_id, self.segment = nc_id, segment
class ASchema:
    def __init__(self, nc_id): self.nc_id = nc_id
    def get_name(self, segment): return AName(self.nc_id, segment)
class Map:
    def __getitem__(self, k): return ASchema(k)
class Cache:
    def __init__(self): self.cache = Map()
class AManifest:
    """a manifest that can be read; how it came to be is `state`"""
    def __init__(self, node, pointers=None, ctx=None): self._n, self._p, self._c = node, pointers, ctx
    def node(self): return self._n
    def hash_values(self): return self._p
    def is_encrypted(self): return self._c is not None
    def security_ctx(self): return self._c

class Children:
    """the reader, the validator and the recursion, as _visit_children sees them: `done` children are finished"""
    def __init__(self, v, n):
        self.v, self.n, self.done, self.stage, self.failed = v, n, 0, 0, False
        ids, segs = v.function('nc id'), v.function('segment')
        segmented = v.function('numbered')
        self.cache = Cache()
        def at(i): return Pointer(i, ids(i), HashValue.create_sha256(v.blob('hash', 32, 32)), segs(i) if segmented(i) == 1 else None)
        self.pointers = PointerList(n, at)
        w = self
        def validate(validator, packet):
            v.ensure('what was fetched is validated', v.all(w.stage == 1, packet is w.packet, validator is w.t._validator))
            w.stage = 2
            if v.bool('invalid'):
                w.failed = True
                raise ValueError('invalid')
        v.assumed(PacketValidator, 'validate_packet', validate)
        def preorder(t, packet, nc_cache=None):
            v.ensure('validated before it is used', v.all(w.stage == 2, packet is w.packet))
            v.ensure('with the definitions that apply here', nc_cache is w.cache)
            w.stage, w.done = 0, w.done + 1
            t._count = v.fresh('count', 0)
            if v.bool('something below is invalid'):
                w.failed = True
                raise ValueError('below')
        self.real = v.assumed(Traversal, 'preorder', preorder)
        self.t = Traversal(packet_input=self, data_writer=None)
    def get(self, name=None, hash_restriction=None, locators=None):
        v = self.v
        v.ensure('one after the other', v.all(self.stage == 0, self.failed == False))
        p = self.at
        v.ensure('asked for by its hash', hash_restriction is p.hash_value)
        v.ensure('asked for by the name of its scheme and id', v.all(isinstance(name, AName), name.nc_id == p.nc_id, (name.segment is None) == (p.segment_id is None)))
        if p.segment_id is not None: v.ensure('asked for by the name of its scheme and id', name.segment == p.segment_id)
        self.stage, self.packet = 1, signed(ContentObject.create_data(name=None, payload=Payload(v.blob('payload', 0, 9000))))
        return self.packet

class VisitLoop:
    def __init__(self, w):
        self.w = w
        old = w.pointers.at
        def at(i):
            w.at = old(i)
            return w.at
        w.pointers.at = at
    def holds(self, l):
        w = self.w
        return [('as many children as pointers', w.v.all(w.done == l.i, w.stage == 0, w.failed == False))]
    def havoc(self, l):
        w = self.w
        w.done = l.i
        w.packet = w.at = None
        w.t._count = w.v.fresh('count', 0)
        l.modifies(w, 'packet')
        l.modifies(w, 'at')
    scratch = ('hash_iterator_value', 'packet')

class Groups:
    """any number of hash groups with any number of pointers each"""
    def __init__(self, v):
        self.v, self.m = v, v.int('groups', 0, 2 ** 13)
        self.count, self.before, self.ids, self.start, self.numbered = v.function('pointers'), v.function('pointers before'), v.function('nc id'), v.function('start'), v.function('numbered')
        v.assume(self.before(0) == 0)
        self.list = v.elements(Group_at(self), 0, self.m)
    def at(self, g):
        """facts about group g"""
        v = self.v
        v.assume(v.all(self.count(g) >= 0, self.count(g) < 2 ** 13, self.before(g + 1) == self.before(g) + self.count(g)))
        return g
class Group_at:
    def __init__(self, w): self.w = w
    def __call__(self, g):
        w = self.w
        w.at(g)
        return AGroup(w, g)
class AGroup:
    def __init__(self, w, g): self.w, self.g = w, g
    def pointers(self): return self.w.v.elements(Hash_at(self.g), 0, self.w.count(self.g))
    def group_data(self):
        w, g = self.w, self.g
        return AGroupData(AnId(w.ids(g)), AnId(w.start(g)) if w.numbered(g) == 1 else None)
class AGroupData:
    def __init__(self, nc_id, start): self._i, self._s = nc_id, start
    def nc_id(self): return self._i
    def start_segment_id(self): return self._s
class AnId:
    def __init__(self, n): self.n = n
    def id(self): return self.n
    def value(self): return self.n
class Hash_at:
    def __init__(self, g): self.g = g
    def __call__(self, i): return AHash(self.g, i)
class AHash:
    def __init__(self, g, i): self.g, self.i = g, i

class DefsLoop:
    """NameConstructorCache.update: for any id, the last of the first i definitions of it, or what was there"""
    def __init__(self, w): self.w = w
    def holds(self, l):
        w, v = self.w, self.w.v
        j = w.j
        return [('the last definition so far', w.map(l['self'].cache, j) == w.last(j, l.i))]
    def havoc(self, l):
        w, v = self.w, self.w.v
        f = v.function('definitions')
        v.assume(f(w.j) == w.last(w.j, l.i))
        l['self'].cache.f = f
    scratch = ('nc_def',)
class DefMap:
    """ids to numbers of definitions"""
    def __init__(self, v, f): self.v, self.f = v, f
    def copy(self): return DefMap(self.v, self.f)
    def __setitem__(self, k, x):
        v, old, n = self.v, self.f, x.number
        self.f = lambda j: v.ite(j == k, n, old(j))
    def __getitem__(self, k): raise KeyError(k)
class ADef:
    def __init__(self, number, i): self.number, self.i = number, i
    def nc_id(self): return AnId(self.i)
    def schema(self): return None
class DefList:
    """n definitions"""
    def __init__(self, n, at): self.n, self.at = n, at
    def cut_iteration(self): return self.n, self.at
    def __len__(self): return self.n
class ANode:
    def __init__(self, nd): self.nd = nd
    def has_node_data(self): return self.nd is not None
    def node_data(self): return self.nd
class AData:
    def __init__(self, defs): self.d = defs
    def nc_defs(self): return self.d

def register(contract):
    @contract('C14', 'children_any_number', ['Traversal._visit_children', 'Traversal._fetch_packet'], native=False, tags=('inductive',))
    def children(v):
        w = Children(v, v.int('pointers', 0, 2 ** 20))
        v.loop('Traversal._visit_children', 0, VisitLoop(w), 'for')
        parent = Packet.create_content_object(ContentObject.create_data(name=None, payload=Payload(b'')))
        x, e = v.outcome(lambda: w.t._visit_children(parent_packet=parent, manifest=AManifest(None, w.pointers), nc_cache=w.cache), (Exception,))
        v.ensure('stops at what is invalid', v.all(w.failed == (e is not None), v.any(w.failed, v.all(w.done == w.n, w.stage == 0))))
        if e is not None: v.ensure('only for what is invalid', isinstance(e, ValueError))

    @contract('C14', 'iterator_any_number', ['Node.NodeIterator.__next__', 'Node.NodeIterator._get_segment_id'], native=False, tags=('inductive',))
    def iterator(v):
        w = Groups(v)
        it = Node.NodeIterator(w.list)
        g, o = v.int('group', 0, 2 ** 13), v.int('offset', 0, 2 ** 13)
        # any state in the middle
        v.fits(it, '_groups', '_group_index', '_ptr_index')
        v.put(it, '_group_index', g)
        v.put(it, '_ptr_index', o)
        w.at(g)
        v.assume(v.all(g <= w.m, v.any(v.all(g == w.m, o == 0), v.all(g < w.m, o <= w.count(g)))))
        left = w.m - g
        def nxt(x):
            g1, o1 = x._group_index, x._ptr_index
            w.at(g1)
            v.ensure('the iteration goes on', v.all(x is it, w.m - g1 < left, g1 <= w.m, o1 >= 0, v.any(v.all(g1 == w.m, o1 == 0), v.all(g1 < w.m, o1 <= w.count(g1)))))
            G, O = v.fresh('group', 0), v.fresh('offset', 0)
            w.at(G)
            if v.bool('at the end'):
                # groups before the end hold nothing more
                v.assume(w.before(g1) + o1 == w.before(w.m))
                x._group_index, x._ptr_index = w.m, 0
                raise StopIteration
            v.assume(v.all(G >= g1, G < w.m, O < w.count(G), w.before(G) + O == w.before(g1) + o1))
            x._group_index, x._ptr_index = G, O + 1
            return Node.HashIteratorValue(nc_id=w.ids(G), hash_value=AHash(G, O), segment_id=w.start(G) + O if w.numbered(G) == 1 else None)
        real = v.assumed(Node.NodeIterator, '__next__', nxt)
        x, e = v.outcome(lambda: real(it), (StopIteration,))
        if e is not None:
            v.ensure('the end comes after the last pointer', w.before(g) + o == w.before(w.m))
            v.ensure('it stays at the end', v.all(it._group_index == w.m, it._ptr_index == 0))
            return
        G, O = x.hash_value.g, x.hash_value.i
        w.at(G)
        v.ensure('the next pointer', v.all(G < w.m, O < w.count(G), O >= 0, w.before(G) + O == w.before(g) + o))
        v.ensure('the state moves on by one', v.all(it._group_index == G, it._ptr_index == O + 1))
        v.ensure("its group's name constructor", x.nc_id == w.ids(G))
        if w.numbered(G) == 1: v.ensure('ids count up from the start id', v.all(x.segment_id is not None, x.segment_id == w.start(G) + O))
        else: v.ensure('no id without a start id', x.segment_id is None)

    @contract('C14', 'iterator_start', ['Node.__iter__', 'Node.NodeIterator.__init__'], native=False, tags=('inductive',))
    def start(v):
        n = v.small('groups', 1, 3)
        groups = [HashGroup() for _ in range(n)]
        it = iter(Node(hash_groups=groups))
        v.ensure('at the first pointer of the first group', v.all(it._group_index == 0, it._ptr_index == 0))
        v.ensure('over the groups of the node', len(it._groups) == n)
        for i in range(n): v.ensure('over the groups of the node', it._groups[i] is groups[i])

    @contract('C14', 'definitions_any_number', ['Traversal._update_nc_cache', 'Traversal.NameConstructorCache.update', 'Traversal.NameConstructorCache.__init__'], native=False, tags=('inductive',))
    def definitions(v):
        class W: pass
        w = W()
        w.v, w.j = v, v.int('any id', 0, 2 ** 40)
        w.map = lambda c, j: c.f(j)
        n = v.int('definitions', 0, 2 ** 16)
        ids, base, L = v.function('id'), v.function('inherited'), v.function('last', 2)
        def last(j, i):
            # the definition in force after the first i: numbers from 1; 0 and below are inherited
            v.assume(v.all(L(j, 0) == base(j), L(j, i + 1) == v.ite(ids(i) == j, i + 1, L(j, i))))
            return L(j, i)
        w.last = last
        v.assume(v.all(base(w.j) <= 0))
        inherited = Traversal.NameConstructorCache()
        inherited.cache = DefMap(v, base)
        v.assumed(SchemaImplFactory, 'from_ncdef', staticmethod(lambda d, *a, **k: d))
        v.loop('Traversal.NameConstructorCache.update', 0, DefsLoop(w), 'for')
        shape = v.choice('node', ['no node data', 'no definitions', 'definitions'])
        nd = None if shape == 'no node data' else AData(None if shape == 'no definitions' else DefList(n, lambda i: ADef(i + 1, ids(i))))
        r = Traversal._update_nc_cache(inherited, AManifest(ANode(nd)))
        v.ensure('what is inherited stays as it was', inherited.cache.f is base)
        if shape == 'definitions' and n > 0:
            v.ensure('the definitions apply to this branch only', v.all(r is not inherited, r.cache is not inherited.cache))
            v.ensure('the last definition of an id, or what is inherited', r.cache.f(w.j) == last(w.j, n))
        else: v.ensure('inherited', r.cache.f(w.j) == base(w.j))

    @contract('C14', 'one_packet', ['Traversal.preorder', 'Traversal._decrypt', 'Traversal._manifest_from_content_object', 'Traversal._write_data'], native=False, tags=('inductive',))
    def packet(v):
        class Writer:
            def __init__(self): self.got = []
            def write(self, x): self.got.append(x)
        out, events = Writer(), []
        t = Traversal(packet_input=None, data_writer=out)
        data = v.bytes('payload', 0, 9000)
        outer, inner, c0, c1 = AManifest(ANode(None), None), AManifest(ANode(None), None), object(), Cache()
        kind = v.choice('packet', ['data', 'manifest', 'aead', 'rsa', 'unknown encryption'])
        if kind == 'aead': outer._c = AeadCtx.__new__(AeadCtx)
        elif kind == 'rsa': outer._c = RsaOaepCtx.__new__(RsaOaepCtx)
        elif kind == 'unknown encryption': outer._c = object()
        plain = outer if kind == 'manifest' else inner
        broken = kind in ('aead', 'rsa') and v.bool('cannot be decrypted')
        class Decryptor:
            def decrypt_manifest(self, m):
                v.ensure('the manifest of the packet is decrypted', m is outer)
                if broken: raise ValueError('key')
                return inner
        def get_or_create(cache, ctx):
            v.ensure('with the key its context asks for', v.all(ctx is outer._c, cache is t._decryptor_cache))
            return Decryptor()
        v.assumed(DecryptorCache, 'get_or_create', get_or_create)
        def from_co(co):
            v.ensure('the manifest of the packet', co is body)
            return outer
        v.assumed(Manifest, 'from_content_object', staticmethod(from_co))
        def update(nc_cache, manifest):
            v.ensure('definitions of the decrypted manifest', v.all(manifest is plain, nc_cache is c0))
            return c1
        v.assumed(Traversal, '_update_nc_cache', staticmethod(update))
        bad = v.bool('something below is invalid')
        def visit(self, parent_packet, manifest, nc_cache):
            v.ensure('the children of the decrypted manifest, under its definitions', v.all(manifest is plain, nc_cache is c1))
            events.append('children')
            if bad: raise ValueError('below')
        v.assumed(Traversal, '_visit_children', visit)
        body = ContentObject.create_data(name=None, payload=Payload(data)) if kind == 'data' else ContentObject.create_manifest(manifest=Node(hash_groups=[HashGroup()]), name=None)
        x, e = v.outcome(lambda: t.preorder(packet=Packet.create_content_object(body), nc_cache=c0), (Exception,))
        if kind == 'data':
            v.ensure('its payload is delivered, once', v.all(e is None, len(out.got) == 1, len(events) == 0))
            v.ensure('its payload is delivered, once', v.same_bytes(out.got[0], data))
        else:
            v.ensure('nothing is delivered for a manifest itself', len(out.got) == 0)
            if kind == 'unknown encryption' or broken: v.ensure('not followed unless decrypted', v.all(e is not None, len(events) == 0))
            else: v.ensure('its children are visited, once', v.all(len(events) == 1, (e is not None) == bad))
        v.ensure('counted', t.count() == 1)

    @contract('C14', 'root_packet', ['Traversal.traverse'], native=False, tags=('inductive',))
    def root(v):
        name = Name([NameComponent(1, v.bytes('name', 1, 9))]) if v.bool('named') else None
        h = HashValue.create_sha256(v.blob('hash', 32, 32)) if v.bool('restricted') else None
        events = []
        p = signed(ContentObject.create_data(name=None, payload=Payload(b'x')))
        class Input:
            def get(self, name=None, hash_restriction=None, locators=None):
                events.append(('get', name, hash_restriction))
                return p
        t = Traversal(packet_input=Input(), data_writer=None)
        bad = v.bool('invalid')
        def validate(validator, packet):
            events.append(('validate', packet, validator))
            if bad: raise ValueError('invalid')
        v.assumed(PacketValidator, 'validate_packet', validate)
        def preorder(self, packet, nc_cache=None):
            events.append(('preorder', packet, nc_cache))
        v.assumed(Traversal, 'preorder', preorder)
        x, e = v.outcome(lambda: t.traverse(name, h), (ValueError,))
        v.ensure('refused only if invalid', (e is not None) == bad)
        v.ensure('fetched, validated, then used', [k for k, _, _ in events] == (['get', 'validate'] if bad else ['get', 'validate', 'preorder']))
        v.ensure('asked for as given', v.all(events[0][1] is name, events[0][2] is h))
        v.ensure('what was fetched is validated', v.all(events[1][1] is p, events[1][2] is t._validator))
        if not bad:
            v.ensure('what was validated is used', events[2][1] is p)
            c = events[2][2]
            if c is not None: v.ensure('with no definitions', len(c.cache) == 0)
