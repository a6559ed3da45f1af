"""TreeBuilder under contract: loop invariants, the contract of its recursion, and the contracts of what it calls.
Only used by the verifier (symbolic side)."""
import array
from ccnpy.core.HashValue import HashValue
from ccnpy.core.Name import Name, NameComponent
from ccnpy.flic.HashGroupBuilder import HashGroupBuilder
from ccnpy.flic.ManifestTreeOptions import ManifestTreeOptions
from ccnpy.flic.name_constructor.FileMetadata import FileMetadata, ChunkMetadata
from ccnpy.flic.name_constructor.NameConstructorContext import NameConstructorContext
from ccnpy.flic.name_constructor.SchemaType import SchemaType
from ccnpy.flic.tlvs.Locators import Locators
from ccnpy.flic.tlvs.NodeData import NodeData
from ccnpy.flic.tree import TreeBuilder as module
from ccnpy.flic.tree.TreeBuildReturnValue import TreeBuilderReturnValue
from ccnpy.flic.tree.TreeParameters import TreeParameters
from specs import flat

H, P, S = SchemaType.HASHED, SchemaType.PREFIX, SchemaType.SEGMENTED
TreeBuilder = module.TreeBuilder

class Solution:
    """a plan: d direct and m indirect pointers per internal manifest, height H (C11)"""
    def __init__(self, d, m, height): self.d, self.m, self.height = d, m, height
    def direct_per_node(self): return self.d
    def indirect_per_node(self): return self.m
    def tree_height(self): return self.height
    def total_nodes(self): return 0

class Ids:
    """contract of ManifestIdFactory (C12): each height counts down through a range of its own"""
    def __init__(self, w):
        self.w, self.next, self.drawn = w, w.v.function('next id'), None
    def get_next_id(self, height):
        v, r, old = self.w.v, self.next(height), self.next
        v.ensure('only heights of the plan', v.all(height >= 0, height <= self.w.H))
        v.assume(v.all(r >= 0, r < 2 ** 40))
        self.next = lambda h: v.ite(h == height, r - 1, old(h))
        self.drawn = r
        return r

class Packet:
    def __init__(self, h): self.hash, self.written = h, False
    def content_object_hash(self): return self.hash

class Run:
    """the hashes of `count` subtrees that cover the chunks [a, b), with consecutive ids from `first` on"""
    def __init__(self, w, a, b, count, first): self.w, self.a, self.b, self.count, self.first = w, a, b, count, first
    def __call__(self, i): return self.w.hash()

class Factory:
    """contract of ManifestFactory.build_packet: a packet whose manifest holds the node (C05, C08)"""
    def __init__(self, w): self.w, self.built = w, None
    def build_packet(self, source=None, name=None, expiry_time=None):
        w, v = self.w, self.w.v
        h = w.hash()
        p = h.packet = Packet(h)
        h.span = w.check_node(source)
        h.id = w.ids.drawn
        v.ensure('the expiry time that was asked for', expiry_time is w.o.manifest_expiry_time)
        p.name, p.node = name, source
        self.built = p
        return p

class Sink:
    def __init__(self, w): self.w, self.last = w, None
    def put(self, p):
        p.written = True
        self.last = p

class World:
    """a file of n chunks, a plan, a tree builder in the middle of its work"""
    def __init__(self, v, schema):
        self.v = v
        self.n = v.int('chunks', 1, 2 ** 32)
        self.d, self.m = v.int('direct', 1, 1800), v.int('indirect', 0, 1800)
        self.H = v.int('height', 0, 2 ** 33)
        # the chunks of a file are numbered in a row (C15), from any number on
        self.numbered_from = v.int('first chunk number', 0, 2 ** 32)
        v.assume(v.all(self.d + self.m <= 1800, self.d + self.m >= 2))
        self.q = self.d + self.m
        B = v.function('bytes before')
        seen = []
        def before(i):
            x = B(i)
            v.assume(v.all(x >= 0, x < 2 ** 60))
            # bytes before a chunk grow with its number
            for j in seen[-4:]: v.assume(v.all(v.implies(j <= i, B(j) <= x), v.implies(i <= j, x <= B(j))))
            seen.append(i)
            return x
        self.before = before
        C = v.function('capacity')
        def cap(level):
            # the chunks that fit in a full tree of this many levels
            x = C(level)
            v.assume(v.implies(level == 0, x == self.q))
            v.assume(v.all(x >= self.q, v.implies(level <= self.H, x <= C(self.H)), v.implies(level >= self.H, x >= C(self.H))))
            return x
        self.cap = cap
        # the plan has room for the file (C11: any_height_has_room, any_chain_has_room, levels_of_a_full_tree)
        v.assume(self.n <= C(self.H))
        v.assume(v.implies(self.m == 0, self.n <= self.q))
        name = Name([NameComponent(1, v.bytes('root', 1, 8))])
        self.o = ManifestTreeOptions(name=name, schema_type=schema, signer=None, max_packet_size=9000, debug=False,
                                     add_node_subtree_size=v.bool('node sizes'), add_group_leaf_size=v.bool('leaf sizes'), add_group_subtree_size=v.bool('group sizes'))
        if schema == S or (schema == P and v.bool('own prefix')): self.o.data_prefix = Name([NameComponent(1, v.bytes('prefix', 9, 12))])
        if schema == H and v.bool('own locators'): self.o.data_locators = Locators.from_name(Name([NameComponent(1, v.bytes('locator', 9, 12))]))
        self.names = NameConstructorContext.create(self.o)
        self.leaf = lambda i: self.chunk_hash(i)
        self.file = FileMetadata(total_bytes=before(self.n), chunk_metadata=v.elements(lambda i: self.chunk(i), 0, self.n))
        self.factory, self.sink = Factory(self), Sink(self)
        self.ids = Ids(self)
        # manifests are counted at one height, any one
        self.x, self.B, self.start = v.fresh('a height', 0), v.function('manifests there below a height'), self.ids.next
        w = self
        class TheIds:
            def __new__(cls, tree_degree, max_height):
                v.ensure('ids are for this tree', v.all(tree_degree == w.m, max_height == w.H))
                return w.ids
        v.assumed(module, 'ManifestIdFactory', TheIds)
        self.t = TreeBuilder(file_metadata=self.file, tree_parameters=TreeParameters(self.file, 9000, Solution(self.d, self.m, self.H)),
                             manifest_factory=self.factory, packet_output=self.sink, tree_options=self.o, name_ctx=self.names)
        v.fits(self.t, '_file_metadata', '_params', '_factory', '_tree_options', '_packet_output', '_name_ctx', '_manifest_graph', '_manifest_count', '_leaf_count',
               '_internal_count', '_last_manifest_id', '_manifest_id_factory')
        v.fits(TreeBuilder.Segment(0, 1), '_head', '_tail')
        v.fits(HashGroupBuilder(), *flat.BUILDER)
        flat.assume(v)
    def most(self, h):
        """the manifests at height x that a tree below one manifest at height h can have: m^(x-h)"""
        v, B, x = self.v, self.B, self.x
        v.assume(v.all(B(h) >= 0, v.implies(h > x, B(h) == 0), v.implies(h == x, B(h) == 1), v.implies(h < x, B(h) == self.m * B(h + 1))))
        # lemma: no subtree has more than the whole tree (fan_out_sums)
        v.assume(v.implies(v.all(self.m >= 1, h >= 0), B(h) <= B(0)))
        return B(h)
    def drawn(self, before): return before(self.x) - self.ids.next(self.x)
    def hash(self): return HashValue.create_sha256(self.v.blob('hash', 32, 32))
    def chunk_hash(self, i):
        h = self.hash()
        h.leaf = i
        return h
    def chunk(self, i):
        return ChunkMetadata(chunk_number=self.numbered_from + i, payload_bytes=self.before(i + 1) - self.before(i), content_object_hash=self.chunk_hash(i))
    def span_bytes(self, a, b): return self.before(b) - self.before(a)
    def run(self, a, b, count, first): return self.v.elements(Run(self, a, b, count, first), 0, count)

    def cover(self, pointers):
        """(conditions, first chunk, chunk after the last, data pointers, subtrees, id of the first subtree): what a list of
        pointers refers to, in order; the conditions say that it is one run of chunks without holes"""
        v = self.v
        cs, a, at, direct, indirect, first = [], None, None, 0, 0, None
        for kind, x, lo, hi in v.parts(pointers):
            if kind == 'run' and isinstance(x, Run):
                lo, hi, k, i = x.a, x.b, x.count, x.first
                indirect = indirect + k
            elif kind == 'run':
                if x is not self.leaf: raise TypeError('unknown pointers')
                direct = direct + (hi - lo)
                k = None
            elif hasattr(x, 'leaf'):
                lo, hi, k = x.leaf, x.leaf + 1, None
                direct = direct + 1
            elif hasattr(x, 'span'):
                (lo, hi), k, i = x.span, 1, x.id
                indirect = indirect + 1
                cs.append(x.packet.written)
            else:
                cs.append(False)
                continue
            if a is None: a = at = lo
            cs.append(at == lo)
            if k is None: cs.append(indirect == 0)       # data before manifests: the order of reading
            elif i is not None:
                if first is None: first = nexti = i
                cs.append(v.any(k == 0, i == nexti))
                nexti = nexti + k
            at = hi
        return cs, a, at, direct, indirect, first

    def check_node(self, node):
        """the node refers to one run of chunks, in order, with the sizes and ids of what is below; returns the run"""
        v, o = self.v, self.o
        gs = node.hash_groups()
        a = at = None
        total = 0
        v.ensure('one or two groups', v.any(len(gs) == 1, len(gs) == 2))
        both = []
        for g in gs:
            cs, lo, hi, direct, indirect, first = self.cover(g.pointers()._hash_values)
            v.ensure('pointers are the chunks below, in order, without holes', v.all(*cs))
            v.ensure('no empty groups', v.all(direct + indirect > 0))
            if a is None: a = at = lo
            v.ensure('groups continue each other', at == lo)
            at = hi
            both.append((direct, indirect))
            total = total + direct + indirect
            gd = g.group_data()
            hasd, hasi = bool(direct > 0), bool(indirect > 0)
            v.ensure('data before manifests', not hasd or g is gs[0])
            if hasd:
                v.ensure("the data's name constructor", gd.nc_id().id() == self.names.data_schema_impl.nc_id().id())
                if self.names.data_schema_impl.uses_name_id():
                    v.ensure('data is numbered from the first chunk', v.all(not hasi, gd.start_segment_id() is not None))
                    v.ensure('data is numbered from the first chunk', gd.start_segment_id().value() == self.numbered_from + lo)
            if hasi:
                v.ensure("the manifests' name constructor", gd.nc_id().id() == self.names.manifest_schema_impl.nc_id().id())
                if self.names.manifest_schema_impl.uses_name_id():
                    v.ensure('manifests are numbered from the first one', v.all(not hasd, gd.start_segment_id() is not None))
                    v.ensure('manifests are numbered from the first one', gd.start_segment_id().value() == first)
            if not self.names.data_schema_impl.uses_name_id() and not self.names.manifest_schema_impl.uses_name_id():
                v.ensure('no ids for names without', gd.start_segment_id() is None)
            below = self.span_bytes(lo, hi)
            if o.add_group_leaf_size:
                split = hi if not hasi else lo if not hasd else None
                # with manifests and data in one group the data comes first
                v.ensure("a group's leaf size", v.any(hasi, gd.leaf_size().size() == below))
                if hasi: v.ensure("a group's leaf size", gd.leaf_size().size() == self.span_bytes(lo, lo + direct))
            else: v.ensure('no leaf size', gd.leaf_size() is None)
            if o.add_group_subtree_size:
                if o.add_node_subtree_size or not hasi: v.ensure("a group's subtree size", gd.subtree_size().size() == below)
            else: v.ensure('no subtree size', gd.subtree_size() is None)
        direct, indirect = sum([x for x, _ in both]), sum([x for _, x in both])
        v.ensure('no more pointers than planned', total <= self.q)
        v.ensure('internal manifests keep to the split', v.any(indirect == 0, v.all(direct <= self.d, indirect <= self.m)))
        nd = node.node_data()
        if o.add_node_subtree_size: v.ensure("a manifest's subtree size", nd.subtree_size().size() == self.span_bytes(a, at))
        else: v.ensure('no node data', nd is None)
        return a, at

    def subtree(self, a, b, number):
        """a manifest that covers [a, b)"""
        h = self.hash()
        p = h.packet = Packet(h)
        h.span, h.id, p.written = (a, b), number, True
        node = Node(NodeData(subtree_size=self.span_bytes(a, b)) if self.o.add_node_subtree_size else None)
        return TreeBuilderReturnValue(packet=p, node=node)

    def assume_recursion(self, level, on_call=None):
        """calls of _bottom_up_preorder stand for its contract; returns the real function"""
        w, v = self, self.v
        def sub(t, segment, level=None, right_most_child=None):
            v.ensure('there is something to point to', v.neg(segment.empty()))
            v.ensure('levels of the plan', v.all(level >= 0, level <= w.H))
            if on_call is None: v.ensure('the recursion ends', v.all(level < w.level, right_most_child is None))
            end = segment.tail()
            if right_most_child is not None:
                a, end = right_most_child.packet.hash.span
                v.ensure('the right-most child is what follows', v.all(level >= 1, a == segment.tail(), end - a == w.cap(level - 1), right_most_child.packet.written))
                number = right_most_child.packet.hash.id
                v.ensure("the right-most child's id", v.all(number == w.ids.next(w.H - level + 1) + 1, number >= 0, number < 2 ** 40))
            at = v.fresh('next chunk', 0)
            v.assume(v.all(at >= segment.head(), at < segment.tail()))
            v.assume(v.any(at == segment.head(), end - at == w.cap(level)))
            segment.decrement_tail(segment.tail() - at)
            h = w.H - level
            old, other = w.ids.next, v.function('next id')
            number = old(h)
            v.assume(v.all(number >= 0, number < 2 ** 40))
            w.ids.next = lambda x: v.ite(x < h, old(x), v.ite(x == h, number - 1, other(x)))
            k = w.drawn(old)
            v.assume(v.all(k >= 0, k <= w.most(h) - (w.most(h + 1) if right_most_child is not None else 0)))
            t._last_manifest_id = number
            w.counters(t)
            return w.subtree(at, end, number)
        return v.assumed(TreeBuilder, '_bottom_up_preorder', sub)
    def middle(self):
        """the builder in the middle of its work"""
        self.counters(self.t)
        if self.t._last_manifest_id is None: self.t._last_manifest_id = self.v.fresh('last id', 0)
    def counters(self, t):
        t._manifest_count, t._leaf_count, t._internal_count = self.v.fresh('manifests', 0), self.v.fresh('leaf manifests', 0), self.v.fresh('internal manifests', 0)

class Node:
    def __init__(self, nd): self.nd = nd
    def node_data(self): return self.nd

class LeafLoop:
    """_build_leaf_packet: the builder holds the first i chunks"""
    def __init__(self, w): self.w = w
    def holds(self, l):
        w, b, head = self.w, l['builder'], l['head']
        cs, lo, hi, direct, indirect, _ = w.cover(b._pointers)
        i = l.i
        return [('the chunks in order', w.v.all(*cs, indirect == 0, direct == i, w.v.any(i == 0, w.v.all(lo == head, hi == head + i)) if lo is not None else i == 0)),
                ('counted', w.v.all(b._direct_count == i, b._indirect_count == 0, b._indirect_size == 0, b._direct_size == w.span_bytes(head, head + i)))]
    def havoc(self, l):
        b, head = l['builder'], l['head']
        b._pointers.become(self.w.v.elements(self.w.leaf, head, head + l.i))
        b._direct_count = l.i
        b._direct_size = self.w.span_bytes(head, head + l.i)
    scratch = ('i', 'chunk_metadata')

class IndirectLoop:
    """_interior_add_indirect: the builder holds subtrees that cover what follows the segment"""
    def __init__(self, w): self.w = w
    def start(self, l):
        """the state when the loop is reached"""
        g, w, b = l.g, self.w, l['builders'].indirect_builder
        if 'head' in g: return
        g['head'] = l['segment'].head()
        cs, lo, hi, direct, indirect, first = w.cover(b._pointers)
        g['end'] = l['segment'].tail() if lo is None else hi
        g['count'], g['next'] = indirect, w.ids.next
        # subtrees that are full, one after the other
        M = w.v.function('chunks of full subtrees')
        c = w.cap(l['level'] - 1)
        w.v.assume(w.v.all(M(0) == 0, M(1) == c, w.cap(l['level']) == w.d + M(w.m)))
        def full(k):
            w.v.assume(w.v.all(M(k + 1) == M(k) + c))
            return M(k)
        g['full'] = w.full = full
    def holds(self, l):
        self.start(l)
        w, g, v, s, b, t = self.w, l.g, self.w.v, l['segment'], l['builders'].indirect_builder, l['self']
        cs, lo, hi, direct, k, first = w.cover(b._pointers)
        h = w.H - l['level']
        covered = v.any(k == 0, v.all(lo == s.tail(), hi == g['end'])) if lo is not None else True
        sz = w.span_bytes(s.tail(), g['end']) if w.o.add_node_subtree_size else 0
        c = [('the subtrees cover what follows the segment', v.all(*cs, direct == 0, covered, v.any(k > 0, s.tail() == g['end']))),
             ('counted', v.all(b._indirect_count == k, k >= g['count'], k <= w.m, b._indirect_size == sz)),
             ('the reservation stands', v.all(s.head() == g['head'], s.head() <= s.tail())),
             ('subtrees are full unless the chunks are used up', v.any(s.tail() == s.head(), g['end'] - s.tail() == g['full'](k)))]
        x = v.same_var('any height', g)
        c += [('one id per subtree', w.ids.next(h + 1) == g['next'](h + 1) - (k - g['count'])),
              ('ids above are untouched', v.implies(x <= h, w.ids.next(x) == g['next'](x)))]
        drawn, one = w.drawn(g['next']), w.most(h + 1)
        c.append(('no more manifests below than there is room for', v.all(drawn >= 0, drawn <= (k - g['count']) * one)))
        if first is not None:
            c.append(('ids are consecutive', v.any(k == 0, v.all(first == w.ids.next(h + 1) + 1, t._last_manifest_id == first, first >= 0, first < 2 ** 40))))
        return c
    def havoc(self, l):
        w, g, v, s, b, t = self.w, l.g, self.w.v, l['segment'], l['builders'].indirect_builder, l['self']
        h = w.H - l['level']
        k, at = v.fresh('subtrees', 0), v.fresh('next chunk', 0)
        v.assume(v.all(at <= s.tail(), k <= w.m, at >= g['head']))
        s.decrement_tail(s.tail() - at)
        other = v.function('next id')
        g0 = g['next']
        w.ids.next = lambda x: v.ite(x <= h, g0(x), other(x))
        b._pointers.become(w.run(at, g['end'], k, w.ids.next(h + 1) + 1))
        b._indirect_count = k
        b._indirect_size = w.span_bytes(at, g['end']) if w.o.add_node_subtree_size else 0
        last = v.fresh('last id')
        v.assume(v.any(k == 0, v.all(last == w.ids.next(h + 1) + 1, last >= 0, last < 2 ** 40)))
        t._last_manifest_id = last
        w.counters(t)
        l.modifies(s, '_tail')
    scratch = ('child',)
    def measure(self, l): return l['segment'].tail() - l['segment'].head()

class DirectLoop:
    """_interior_add_direct: the builder holds the chunks taken from the end of the segment, before what it held"""
    def __init__(self, w): self.w = w
    def start(self, l):
        g, b = l.g, l['builders'].direct_builder
        if 'old' in g: return
        g['old'], g['head'], g['end'] = b._pointers.copy(), l['segment'].head(), l['segment'].tail()
    def holds(self, l):
        self.start(l)
        w, g, v, s, b = self.w, l.g, self.w.v, l['segment'], l['builders'].direct_builder
        cs, lo, hi, direct, k, first = w.cover(b._pointers)
        least = l['least_chunk_id']
        end = g['end'] if len(g['old']) == 0 else w.cover(g['old'])[2]
        taken = g['end'] - s.tail()
        return [('the chunks after the segment, in order', v.all(*cs, v.any(v.all(lo == s.tail(), hi == end), v.all(taken == 0, direct == 0)) if lo is not None else taken == 0)),
                ('the manifests are kept', v.same_tail(b._pointers, g['old'])),
                ('counted', v.all(direct == taken, taken >= 0, b._direct_count == taken, taken <= w.d, b._direct_size == w.span_bytes(s.tail(), g['end']))),
                ('the segment', v.all(s.head() == g['head'], s.head() <= s.tail())),
                ('the first chunk', taken == 0 if least is None else v.all(taken > 0, least == w.numbered_from + s.tail()))]
    def havoc(self, l):
        w, g, v, s, b = self.w, l.g, self.w.v, l['segment'], l['builders'].direct_builder
        at = v.fresh('next chunk', 0)
        v.assume(v.all(at >= g['head'], at <= g['end']))
        some = bool(at < g['end'])
        s.decrement_tail(s.tail() - at)
        new = v.elements(w.leaf, at, g['end']) if some else v.elements(w.leaf, 0, 0)
        for part in g['old'].segs: new.push(part)
        b._pointers.become(new)
        b._direct_count = g['end'] - at
        b._direct_size = w.span_bytes(at, g['end'])
        l['least_chunk_id'] = w.numbered_from + at if some else None
        l.modifies(s, '_tail')
    scratch = ('chunk_metadata',)
    def measure(self, l): return l['segment'].tail() - l['segment'].head()

class BuildLoop:
    """build: the tree so far covers what follows the segment, and is full while there is more"""
    def __init__(self, w): self.w = w
    def holds(self, l):
        w, v, s, r = self.w, self.w.v, l['segment'], l['root_return_value']
        h = r.packet.hash
        lo, hi = h.span
        level = l['level']
        drawn = w.drawn(w.start)
        return [('no more manifests than there is room for', v.any(w.m == 0, v.all(drawn >= 0, drawn <= w.most(w.H - level)))),
                ('the tree covers what follows the segment', v.all(lo == s.tail(), hi == w.n, s.head() == 0, s.tail() >= 0, s.tail() < w.n)),
                ('it is written', v.all(r.packet.written)),
                ('levels', v.all(level >= 0, level <= w.H)),
                ('it is full while there is more', v.any(s.tail() == 0, w.n - s.tail() == w.cap(level))),
                ('its id', v.all(h.id == w.ids.next(w.H - level) + 1, h.id >= 0, h.id < 2 ** 40))]
    def havoc(self, l):
        w, v, s = self.w, self.w.v, l['segment']
        at = v.fresh('next chunk', 0)
        level = v.fresh('level', 0)
        v.assume(v.all(at <= s.tail(), level <= w.H))
        s.decrement_tail(s.tail() - at)
        w.ids.next = v.function('next id')
        l['level'] = level
        number = w.ids.next(w.H - level) + 1
        v.assume(v.all(number >= 0, number < 2 ** 40))
        l['root_return_value'] = w.subtree(at, w.n, number)
        w.t._last_manifest_id = v.fresh('last id')
        w.counters(w.t)
        w.sink.last = l['root_return_value'].packet
        l.modifies(s, '_tail')
        l.modifies(w.factory, 'built')
    def measure(self, l): return l['segment'].tail()

def finished(w, r, a, b, level, before, right_most=False):
    """what a manifest under construction must be when it is done"""
    v, p = w.v, r.packet
    v.ensure('the packet that was built', p is w.factory.built)
    v.ensure('written', v.all(p.written, w.sink.last is p))
    v.ensure('the node that was built', r.node is p.node)
    v.ensure('covers the chunks', v.all(p.hash.span[0] == a, p.hash.span[1] == b))
    h = w.H - level
    number = before(h)
    impl = w.names.manifest_schema_impl
    if w.o.schema_type == H: v.ensure('no name', p.name is None)
    else: v.ensure('its name', v.same_bytes(p.name.serialize(), impl.get_name(number).serialize()))
    v.ensure('one id at its height', v.all(w.ids.next(h) == number - 1, w.t._last_manifest_id == number))
    drawn = w.drawn(before)
    v.ensure('no more manifests than there is room for', v.all(drawn >= 0, drawn <= w.most(h) - (w.most(h + 1) if right_most else 0)))
    x = v.fresh('any height above')
    v.ensure('ids above are untouched', v.implies(x < h, w.ids.next(x) == before(x)))
    p.hash.id = number

def register(contract, schema, label, pid='C13'):

    shared = ['TreeBuilder._bottom_up_preorder', 'TreeBuilder._leaf_manifest', 'TreeBuilder._build_leaf_packet', 'TreeBuilder._build_packet', 'TreeBuilder._write_packet',
              'TreeBuilder._get_next_manifest_name', 'TreeBuilder._get_start_segment_id', 'TreeBuilder.Segment', 'HashGroupBuilder.append_direct', 'HashGroupBuilder.hash_group', 'Tlv.flatten']
    @contract(pid, 'leaf_manifest_' + label, shared, native=False, tags=('inductive',))
    def leaf(v):
        w = World(v, schema)
        head, tail, w.level = v.int('head', 0, 2 ** 32), v.int('tail', 1, 2 ** 32), v.int('level', 0, 2 ** 33)
        v.assume(v.all(head < tail, tail <= w.n, w.level <= w.H, v.any(w.level == 0, tail - head <= w.q)))
        s = TreeBuilder.Segment(head, tail)
        w.middle()
        real = w.assume_recursion(w.level)
        v.loop('TreeBuilder._build_leaf_packet', 0, LeafLoop(w), 'for')
        before = w.ids.next
        r = real(w.t, s, w.level)
        finished(w, r, s.tail(), tail, w.level, before)
        v.ensure('as many chunks as fit', v.any(s.tail() == head, tail - s.tail() == w.cap(w.level)))
        v.ensure('at least one', v.all(s.head() == head, s.tail() >= head, s.tail() < tail))

    @contract(pid, 'interior_manifest_' + label, shared + ['TreeBuilder._interior_manifest', 'TreeBuilder._interior_add_right_most_child', 'TreeBuilder._interior_add_indirect', 'TreeBuilder._interior_add_direct', 'TreeBuilder._interior_packet',
              'TreeBuilder._get_optional_subtree_size', 'HashGroupBuilderPair.hash_groups', 'HashGroupBuilder.prepend_direct', 'HashGroupBuilder.prepend_indirect', 'HashGroupBuilder.append_indirect'], native=False, weight=2, tags=('inductive',))
    def interior(v):
        w = World(v, schema)
        head, tail, w.level = v.int('head', 0, 2 ** 32), v.int('tail', 1, 2 ** 32), v.int('level', 1, 2 ** 33)
        v.assume(v.all(head < tail, tail <= w.n, w.level <= w.H))
        s = TreeBuilder.Segment(head, tail)
        r, end = None, tail
        if v.bool('right-most child'):
            end = w.n
            number = w.ids.next(w.H - w.level + 1) + 1
            v.assume(v.all(number >= 0, number < 2 ** 40))
            r = w.subtree(tail, end, number)
            w.t._last_manifest_id = number
            v.assume(v.all(tail < end, end - tail == w.cap(w.level - 1)))
        else: v.assume(tail - head > w.q)
        # a tree of one manifest is finished after the first
        v.assume(w.m >= 1)
        w.middle()
        real = w.assume_recursion(w.level)
        v.loop('TreeBuilder._interior_add_indirect', 0, IndirectLoop(w))
        v.loop('TreeBuilder._interior_add_direct', 0, DirectLoop(w))
        before = w.ids.next
        right_most = r is not None
        r = real(w.t, s, w.level, r)
        finished(w, r, s.tail(), end, w.level, before, right_most)
        v.ensure('as many chunks as fit', v.any(s.tail() == head, end - s.tail() == w.cap(w.level)))
        v.ensure('at least one', v.all(s.head() == head, s.tail() >= head, s.tail() < tail))

    @contract(pid, 'whole_tree_' + label, ['TreeBuilder.build', 'TreeBuilder.__init__'] + shared, native=False, tags=('inductive',))
    def whole(v):
        w = World(v, schema)
        real = w.assume_recursion(None, on_call=True)
        v.loop('TreeBuilder._build_leaf_packet', 0, LeafLoop(w), 'for')
        v.loop('TreeBuilder.build', 0, BuildLoop(w))
        first = w.ids.next(w.H)
        w.leaf_id = first
        write = TreeBuilder._write_packet
        p = w.t.build()
        v.ensure('the tree covers the file', v.all(p.hash.span[0] == 0, p.hash.span[1] == w.n))
        v.ensure('its root is written', p.written)
        # m^x: each height has an id for every manifest (C12: any_draws)
        v.ensure('no more manifests at a height than ids', v.any(w.m == 0, w.drawn(w.start) <= w.most(0)))

def register_lemma(contract, pid):
    @contract(pid, 'fan_out_sums', [], native=False)
    def sums(v):
        """what World.most assumes of m^(x-h): by induction over h"""
        v.powers()
        m, x, h = v.int('fan-out', 1, 1800), v.int('a height', 0, 2 ** 33), v.int('height', 0, 2 ** 33)
        v.assume(h < x)
        v.ensure('one height further down', v.power(m, x - h) == m * v.power(m, x - h - 1))
        v.ensure('the height itself', v.power(m, x - x) == 1)
        v.assume(v.power(m, x - h) <= v.power(m, x))
        v.ensure('no more than from the top', v.power(m, x - h - 1) <= v.power(m, x))
