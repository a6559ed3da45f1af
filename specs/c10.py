from pyvc_api import contract
import array
from ccnpy.core.HashValue import HashValue
from ccnpy.core.Name import Name, NameComponent
from ccnpy.core.Tlv import Tlv
from ccnpy.flic.HashGroupBuilder import HashGroupBuilder
from ccnpy.flic.ManifestTreeOptions import ManifestTreeOptions
from ccnpy.flic.name_constructor.NameConstructorContext import NameConstructorContext
from ccnpy.flic.name_constructor.SchemaType import SchemaType
from ccnpy.flic.tlvs.HashGroup import HashGroup
from ccnpy.flic.tlvs.Locators import Locators
from ccnpy.core.ExpiryTime import ExpiryTime
from ccnpy.flic.ManifestFactory import ManifestFactory
from ccnpy.flic.tlvs.GroupData import GroupData
from ccnpy.flic.tlvs.LeafSize import LeafSize
from ccnpy.flic.tlvs.Manifest import Manifest
from ccnpy.flic.tlvs.NcDef import NcDef
from ccnpy.flic.tlvs.NcId import NcId
from ccnpy.flic.tlvs.NcSchema import PrefixSchema
from ccnpy.flic.tlvs.Pointers import Pointers
from ccnpy.flic.tlvs.SubtreeSize import SubtreeSize
from ccnpy.flic.tlvs.StartSegmentId import StartSegmentId
from ccnpy.flic.tree.HashGroupBuilderPair import HashGroupBuilderPair
from ccnpy.flic.tree.SizedPointer import SizedPointer

from specs import flat
M64 = 2 ** 64 - 1
OPS = ['append_direct', 'prepend_direct', 'append_indirect', 'prepend_indirect']
def h(v, label='h'): return HashValue.create_sha256(v.array(label, 32, 32))
def size(v): return v.int('size', 0, 2 ** 40) if v.bool('sized') else None
def add(b, op, x, s):
    if op == 'append_direct': b.append_direct(x, s)
    elif op == 'prepend_direct': b.prepend_direct(x, s)
    elif op == 'append_indirect': b.append_indirect(x, s)
    else: b.prepend_indirect(x, s)
def same_pointers(v, label, got, want):
    v.ensure(label + ': as many', len(got) == len(want))
    for i in range(len(want)): v.ensure(label + ': in this order', v.all(got[i] == want[i], v.same_bytes(got[i].value(), want[i].value())))
class Model:
    """what a builder holds, as the statement says it"""
    def __init__(self, md, mi): self.p, self.n, self.max, self.s = [], [0, 0], [md, mi], [0, 0]
    def add(self, op, x, s):
        k = 1 if op.endswith('indirect') else 0
        self.p = self.p + [x] if op.startswith('append') else [x] + self.p
        self.n[k] = self.n[k] + 1
        if s is not None: self.s[k] = self.s[k] + s
def agree(v, b, m):
    v.ensure('direct count', b.direct_count() == m.n[0])
    v.ensure('indirect count', b.indirect_count() == m.n[1])
    v.ensure('direct size is the sum over direct pointers', b.direct_size() == m.s[0])
    v.ensure('indirect size is the sum over indirect pointers', b.indirect_size() == m.s[1])
    v.ensure('direct full exactly when no direct slot is left', (b.is_direct_full() == True) == (m.n[0] >= m.max[0]))
    v.ensure('indirect full exactly when no indirect slot is left', (b.is_indirect_full() == True) == (m.n[1] >= m.max[1]))

@contract('C10', 'builder_history', ['HashGroupBuilder.append_direct', 'HashGroupBuilder.prepend_direct', 'HashGroupBuilder.append_indirect', 'HashGroupBuilder.prepend_indirect', 'HashGroupBuilder.is_direct_full', 'HashGroupBuilder.is_indirect_full', 'HashGroupBuilder.pointers'],
          bounded='histories of up to 3 additions, any capacities and sizes', weight=4)
def history(v):
    md, mi = v.int('max direct', 0, 2 ** 20), v.int('max indirect', 0, 2 ** 20)
    b, m = HashGroupBuilder(md, mi), Model(md, mi)
    agree(v, b, m)
    for i in range(v.few('additions', 0, 3, 12)):
        op, x = v.choice('op', OPS), h(v)
        s = v.int('size', 0, 2 ** 40)
        k = 1 if op.endswith('indirect') else 0
        full = m.n[k] >= m.max[k]
        r, err = v.outcome(lambda: add(b, op, x, s), (Exception,))
        v.ensure('refused exactly when there is no slot', (err is not None) == full)
        if err is None: m.add(op, x, s)
        agree(v, b, m)
    if len(m.p) > 0: same_pointers(v, 'pointers', list(b.pointers()), m.p)

@contract('C10', 'unsized', ['HashGroupBuilder.append_direct', 'HashGroupBuilder.prepend_direct', 'HashGroupBuilder.append_indirect', 'HashGroupBuilder.prepend_indirect'], bounded='one to two additions, with and without sizes')
def unsized(v):
    b, m = HashGroupBuilder(), Model(2 ** 60, 2 ** 60)
    for i in range(v.few('additions', 1, 2, 12)):
        op, x, s = v.choice('op', OPS), h(v), size(v)
        add(b, op, x, s)
        m.add(op, x, s)
    agree(v, b, m)
    same_pointers(v, 'pointers', list(b.pointers()), m.p)

@contract('C10', 'hash_group', ['HashGroupBuilder.hash_group', 'HashGroupBuilder.pointers'], bounded='groups of up to 2 pointers', weight=2)
def hash_group(v):
    b, m = HashGroupBuilder(), Model(2 ** 60, 2 ** 60)
    for i in range(v.few('additions', 1, 2, 12)):
        op, x = v.choice('op', OPS), h(v)
        s = v.int('size', 0, 2 ** 40)
        add(b, op, x, s)
        m.add(op, x, s)
    leaf, tree = v.bool('leaf size'), v.bool('subtree size')
    nc = NcId(v.int('nc id', 0, 2 ** 32)) if v.bool('nc id?') else None
    st = StartSegmentId(v.int('start', 0, M64)) if v.bool('start?') else None
    g = b.hash_group(nc_id=nc, start_segment_id=st, include_leaf_size=leaf, include_subtree_size=tree)
    same_pointers(v, 'pointers', list(g.pointers()), m.p)
    d = g.group_data()
    if not (leaf or tree or nc is not None or st is not None):
        v.ensure('no metadata asked for, none given', d is None)
        return
    v.ensure('leaf size', d.leaf_size().value() == m.s[0] if leaf else d.leaf_size() is None)
    v.ensure('subtree size', d.subtree_size().value() == m.s[0] + m.s[1] if tree else d.subtree_size() is None)
    v.ensure('name constructor id', d.nc_id() == nc if nc is not None else d.nc_id() is None)
    v.ensure('start id', d.start_segment_id() == st if st is not None else d.start_segment_id() is None)
    v.ensure('the builder still holds its pointers', b.direct_count() + b.indirect_count() == len(m.p))

def name(s): return Name([NameComponent.create_name_segment(s)])
def context(v, kind):
    n = name(b'root')
    o = dict(name=n, signer=None)
    if kind == 'hashed': return NameConstructorContext.create(ManifestTreeOptions(schema_type=SchemaType.HASHED, **o))
    if kind == 'hashed, two locators': return NameConstructorContext.create(ManifestTreeOptions(schema_type=SchemaType.HASHED, data_locators=Locators.from_name(name(b'data')), **o))
    if kind == 'prefix': return NameConstructorContext.create(ManifestTreeOptions(schema_type=SchemaType.PREFIX, manifest_prefix=name(b'm'), data_prefix=name(b'd'), **o))
    return NameConstructorContext.create(ManifestTreeOptions(schema_type=SchemaType.SEGMENTED, manifest_prefix=name(b'm'), data_prefix=name(b'd'), **o))
TWO = {'hashed': False, 'hashed, two locators': True, 'prefix': True, 'segmented': True}

@contract('C10', 'pair_history', ['HashGroupBuilderPair.prepend_direct', 'HashGroupBuilderPair.append_indirect', 'HashGroupBuilderPair.prepend_indirect', 'HashGroupBuilderPair.is_direct_full', 'HashGroupBuilderPair.is_indirect_full', 'HashGroupBuilderPair.hash_groups'],
          bounded='histories of up to 3 additions, any capacities and sizes', weight=4)
def pair(v):
    kind = v.choice('names', sorted(TWO))
    ctx = context(v, kind)
    two = TWO[kind]
    v.ensure('one group exactly when data and manifests share a constructor', ctx.hash_group_count() == (2 if two else 1))
    md, mi = v.int('max direct', 0, 2 ** 20), v.int('max indirect', 0, 2 ** 20)
    b = HashGroupBuilderPair(ctx, max_direct=md, max_indirect=mi)
    whole, dir, ind = Model(md, mi), Model(md, 0), Model(0, mi)
    for i in range(v.few('additions', 0, 3, 12)):
        op = v.choice('op', ['prepend_direct', 'append_indirect', 'prepend_indirect'])
        x, s = h(v), v.int('size', 0, 2 ** 40)
        k = 1 if op.endswith('indirect') else 0
        full = whole.n[k] >= whole.max[k]
        r, err = v.outcome(lambda: add(b, op, x, s), (Exception,))
        v.ensure('refused exactly when there is no slot', (err is not None) == full)
        if err is None:
            whole.add(op, x, s)
            (ind if k else dir).add(op, x, s)
        v.ensure('full', v.all((b.is_direct_full() == True) == (whole.n[0] >= md), (b.is_indirect_full() == True) == (whole.n[1] >= mi)))
        v.ensure('sizes', v.all(b.direct_size() == whole.s[0], b.indirect_size() == whole.s[1]))
    if len(dir.p) == 0 and len(ind.p) == 0 or two and (len(dir.p) == 0 or len(ind.p) == 0): return
    leaf, tree = v.bool('leaf size'), v.bool('subtree size')
    ds = is_ = None
    if two and v.bool('start ids'): ds, is_ = StartSegmentId(v.int('direct start', 0, M64)), StartSegmentId(v.int('indirect start', 0, M64))
    gs = b.hash_groups(include_leaf_size=leaf, include_subtree_size=tree, direct_start_segment_id=ds, indirect_start_segment_id=is_)
    if not two:
        v.ensure('one group', len(gs) == 1)
        expect = [(gs[0], whole, ctx.manifest_schema_impl.nc_id(), None)]
    else:
        v.ensure('two groups', len(gs) == 2)
        expect = [(gs[0], dir, ctx.data_schema_impl.nc_id(), ds), (gs[1], ind, ctx.manifest_schema_impl.nc_id(), is_)]
        v.ensure('the constructors have different ids', v.neg(ctx.data_schema_impl.nc_id() == ctx.manifest_schema_impl.nc_id()))
    for g, m, nc, st in expect:
        same_pointers(v, 'group pointers', list(g.pointers()), m.p)
        d = g.group_data()
        v.ensure('name constructor id', d.nc_id() == nc)
        v.ensure('start id', d.start_segment_id() == st if st is not None else d.start_segment_id() is None)
        v.ensure('leaf size', d.leaf_size().value() == m.s[0] if leaf else d.leaf_size() is None)
        v.ensure('subtree size', d.subtree_size().value() == m.s[0] + m.s[1] if tree else d.subtree_size() is None)

@contract('C10', 'long_histories', ['HashGroupBuilder.append_direct', 'HashGroupBuilder.prepend_direct', 'HashGroupBuilder.append_indirect', 'HashGroupBuilder.prepend_indirect', 'HashGroupBuilderPair.hash_groups'], sym=False, bounded='native only: random histories of up to 60 additions')
def long_histories(v):
    md, mi = v.int('max direct', 0, 40), v.int('max indirect', 0, 40)
    pair = v.bool('pair')
    kind = v.choice('names', sorted(TWO))
    b = HashGroupBuilderPair(context(v, kind), md, mi) if pair else HashGroupBuilder(md, mi)
    m, dir, ind = Model(md, mi), Model(md, 0), Model(0, mi)
    for i in range(v.int('n', 0, 60)):
        op = v.choice('op', OPS[1:] if pair else OPS)
        x, s = HashValue.create_sha256(array.array('B', v.sha256(bytes([i])))), v.int('size', 0, 10 ** 6)
        k = 1 if op.endswith('indirect') else 0
        r, err = v.outcome(lambda: add(b, op, x, s), (Exception,))
        v.ensure('refused exactly when there is no slot', (err is not None) == (m.n[k] >= m.max[k]))
        if err is None:
            m.add(op, x, s)
            (ind if k else dir).add(op, x, s)
        v.ensure('full', v.all(b.is_direct_full() == (m.n[0] >= md), b.is_indirect_full() == (m.n[1] >= mi)))
    v.ensure('sizes', v.all(b.direct_size() == m.s[0], b.indirect_size() == m.s[1]))
    if not pair:
        if len(m.p) > 0: same_pointers(v, 'pointers', list(b.pointers()), m.p)
    elif not TWO[kind]:
        if len(m.p) > 0: same_pointers(v, 'pointers', list(b.hash_groups(True, True)[0].pointers()), m.p)
    elif len(dir.p) > 0 and len(ind.p) > 0:
        g = b.hash_groups(True, True)
        same_pointers(v, 'direct pointers', list(g[0].pointers()), dir.p)
        same_pointers(v, 'indirect pointers', list(g[1].pointers()), ind.p)

@contract('C10', 'sized_pointer', ['SizedPointer'])
def sized(v):
    x, n = h(v), v.int('n', 0, 2 ** 40)
    p = SizedPointer(x, n)
    v.ensure('hash and length', v.all(p.content_object_hash() is x, p.length() == n))

# any number of additions: the state after any history, one more addition
def numbered(v, k, run=0):
    x = HashValue.create_sha256(v.blob('hash', 32, 32))
    x.number, x.run = k, run
    return x
class State:
    """a builder that holds any number of pointers: nd direct and ni indirect ones, of sizes sd and si in all"""
    def __init__(self, v, b, md, mi, nd, ni, run=0):
        self.v, self.b, self.md, self.mi, self.nd, self.ni, self.tag = v, b, md, mi, nd, ni, run
        self.n = nd + ni
        self.sd, self.si = v.int('direct bytes', 0, 2 ** 70), v.int('indirect bytes', 0, 2 ** 70)
        v.fits(b, *flat.BUILDER)
        v.put(b, '_pointers', v.elements(lambda i: numbered(v, i, run), 0, self.n))
        v.put(b, '_direct_count', nd)
        v.put(b, '_indirect_count', ni)
        v.put(b, '_direct_size', self.sd)
        v.put(b, '_indirect_size', self.si)
    def check(self, op=None, x=None, s=None, pointers=None):
        v, b = self.v, self.b
        k = 0 if op is None else 1
        d = 1 if op is not None and op.endswith('_direct') else 0
        i = k - d
        s = 0 if s is None else s
        v.ensure('direct count', b.direct_count() == self.nd + d)
        v.ensure('indirect count', b.indirect_count() == self.ni + i)
        v.ensure('direct size is the sum over direct pointers', b.direct_size() == self.sd + d * s)
        v.ensure('indirect size is the sum over indirect pointers', b.indirect_size() == self.si + i * s)
        v.ensure('direct full exactly when no direct slot is left', (b.is_direct_full() == True) == (self.nd + d >= self.md))
        v.ensure('indirect full exactly when no indirect slot is left', (b.is_indirect_full() == True) == (self.ni + i >= self.mi))
        if pointers is None:
            # a Pointers TLV holds at most 1820 hashes of this size
            if not (self.n + k > 0 and self.n + k <= 1820): return
            pointers = b.pointers()
        v.ensure('as many pointers', len(pointers) == self.n + k)
        at = v.int('at', 0, 2 ** 21)
        v.assume(at < self.n + k)
        got = pointers[at]
        old = at - 1 if op is not None and op.startswith('prepend') else at
        if v.all(old >= 0, old < self.n): v.ensure('the old pointers in their order', v.all(got.number == old, got.run == self.tag))
        else: v.ensure('the new pointer at its end', got is x)
def attempt(v, b, op, x, s): return v.outcome(lambda: add(b, op, x, s), (AssertionError, ValueError, RuntimeError, IndexError, OverflowError))

@contract('C10', 'any_builder_history', ['HashGroupBuilder.append_direct', 'HashGroupBuilder.prepend_direct', 'HashGroupBuilder.append_indirect', 'HashGroupBuilder.prepend_indirect', 'HashGroupBuilder.is_direct_full', 'HashGroupBuilder.is_indirect_full', 'HashGroupBuilder.direct_count', 'HashGroupBuilder.indirect_count', 'HashGroupBuilder.direct_size', 'HashGroupBuilder.indirect_size', 'HashGroupBuilder.pointers'],
          native=False, tags=('inductive',))
def any_history(v):
    flat.assume(v)
    limited = v.bool('capacities')
    md, mi = (v.int('max direct', 0, 2 ** 20), v.int('max indirect', 0, 2 ** 20)) if limited else (2 ** 21, 2 ** 21)
    b = HashGroupBuilder(md, mi) if limited else HashGroupBuilder()
    v.ensure('starts empty', v.all(b.direct_count() == 0, b.indirect_count() == 0, b.direct_size() == 0, b.indirect_size() == 0))
    st = State(v, b, md, mi, v.int('direct', 0, 2 ** 20), v.int('indirect', 0, 2 ** 20))
    v.assume(v.all(st.nd <= md, st.ni <= mi))
    other = HashGroupBuilder(md, mi)
    st.check()
    op, x, s = v.choice('op', OPS), numbered(v, -1), size(v)
    r, err = attempt(v, b, op, x, s)
    v.ensure('refused exactly when there is no slot', (err is not None) == ((st.nd >= md) if op.endswith('_direct') else (st.ni >= mi)))
    if err is None: st.check(op, x, s)
    else: st.check()
    v.ensure('other builders are untouched', other.direct_count() + other.indirect_count() + other.direct_size() + other.indirect_size() == 0)

def check_group(v, g, st, leaf, tree, nc, start):
    v.ensure('as many pointers', len(g.pointers()) == st.n)
    at = v.int('pointer', 0, 2 ** 21)
    v.assume(at < st.n)
    v.ensure('in order', v.all(g.pointers()[at].number == at, g.pointers()[at].run == st.tag))
    d = g.group_data()
    if not (leaf or tree or nc is not None or start is not None):
        v.ensure('no metadata asked for, none given', d is None)
        return
    v.ensure('leaf size', d.leaf_size().value() == st.sd if leaf else d.leaf_size() is None)
    v.ensure('subtree size', d.subtree_size().value() == st.sd + st.si if tree else d.subtree_size() is None)
    v.ensure('name constructor id', d.nc_id() == nc if nc is not None else d.nc_id() is None)
    v.ensure('start id', d.start_segment_id() == start if start is not None else d.start_segment_id() is None)

@contract('C10', 'any_hash_group', ['HashGroupBuilder.hash_group', 'HashGroupBuilder.pointers', 'HashGroup', 'GroupData', 'Pointers'], native=False, tags=('inductive',))
def any_group(v):
    flat.assume(v)
    b = HashGroupBuilder()
    st = State(v, b, 2 ** 21, 2 ** 21, v.int('direct', 0, 800), v.int('indirect', 0, 800))
    v.assume(st.n > 0)
    v.assume(v.all(st.sd < 2 ** 60, st.si < 2 ** 60))
    leaf, tree = v.bool('leaf size'), v.bool('subtree size')
    nc = NcId(v.int('nc id', 0, 2 ** 32)) if v.bool('nc id?') else None
    start = StartSegmentId(v.int('start', 0, M64)) if v.bool('start?') else None
    g = b.hash_group(nc_id=nc, start_segment_id=start, include_leaf_size=leaf, include_subtree_size=tree)
    check_group(v, g, st, leaf, tree, nc, start)
    st.check()

@contract('C10', 'any_pair_history', ['HashGroupBuilderPair.prepend_direct', 'HashGroupBuilderPair.append_indirect', 'HashGroupBuilderPair.prepend_indirect', 'HashGroupBuilderPair.is_direct_full', 'HashGroupBuilderPair.is_indirect_full', 'HashGroupBuilderPair.direct_size', 'HashGroupBuilderPair.indirect_size', 'HashGroupBuilderPair.hash_groups'],
          native=False, tags=('inductive',), weight=3)
def any_pair(v):
    flat.assume(v)
    kind = v.choice('names', sorted(TWO))
    ctx, two = context(v, kind), TWO[kind]
    md, mi = v.int('max direct', 0, 2 ** 20), v.int('max indirect', 0, 2 ** 20)
    b = HashGroupBuilderPair(ctx, max_direct=md, max_indirect=mi)
    nd, ni = v.int('direct', 0, 800), v.int('indirect', 0, 800)
    v.assume(v.all(nd <= md, ni <= mi))
    if two: sts = [State(v, b.direct_builder, md, 0, nd, 0, 0), State(v, b.indirect_builder, 0, mi, 0, ni, 1)]
    else: sts = [State(v, b.direct_builder, md, mi, nd, ni)]
    if two: v.assume(v.all(sts[0].si == 0, sts[1].sd == 0))
    sd, si = sts[0].sd, sts[-1].si
    v.ensure('full', v.all((b.is_direct_full() == True) == (nd >= md), (b.is_indirect_full() == True) == (ni >= mi)))
    v.ensure('sizes', v.all(b.direct_size() == sd, b.indirect_size() == si))
    if v.bool('one more'):
        op, x, s = v.choice('op', OPS[1:]), numbered(v, -1), size(v)
        r, err = attempt(v, b, op, x, s)
        direct = op.endswith('_direct')
        v.ensure('refused exactly when there is no slot', (err is not None) == ((nd >= md) if direct else (ni >= mi)))
        mine = sts[0] if direct else sts[-1]
        for st in sts:
            if err is None and st is mine: st.check(op, x, s)
            else: st.check()
        extra = 0 if s is None or err is not None else s
        v.ensure('sizes', v.all(b.direct_size() == sd + (extra if direct else 0), b.indirect_size() == si + (0 if direct else extra)))
        return
    v.assume(v.all(sd < 2 ** 60, si < 2 ** 60))
    if two: v.assume(v.all(nd > 0, ni > 0))
    else: v.assume(nd + ni > 0)
    leaf, tree = v.bool('leaf size'), v.bool('subtree size')
    ds = is_ = None
    if two and v.bool('start ids'): ds, is_ = StartSegmentId(v.int('direct start', 0, M64)), StartSegmentId(v.int('indirect start', 0, M64))
    gs = b.hash_groups(include_leaf_size=leaf, include_subtree_size=tree, direct_start_segment_id=ds, indirect_start_segment_id=is_)
    v.ensure('one group or two', len(gs) == len(sts))
    check_group(v, gs[0], sts[0], leaf, tree, (ctx.data_schema_impl if two else ctx.manifest_schema_impl).nc_id(), ds)
    if two:
        check_group(v, gs[1], sts[1], leaf, tree, ctx.manifest_schema_impl.nc_id(), is_)
        v.ensure('the constructors have different ids', v.neg(ctx.data_schema_impl.nc_id() == ctx.manifest_schema_impl.nc_id()))

flat.register(contract, 'C10')

FIELDS = ['node_subtree_size', 'group_subtree_size', 'group_leaf_size', 'nc_id', 'start_segment_id', 'nc_defs']
def same_field(v, label, got, want):
    v.ensure(label + ': present exactly when given', (got is None) == (want is None))
    if want is not None: v.ensure(label + ': as given', v.all(got == want, v.same_bytes(got.serialize(), want.serialize())))
@contract('C10', 'factory_nodes', ['ManifestFactory.build_packet', 'ManifestFactory._build', 'ManifestFactory._build_from_pointers', 'ManifestFactory._build_node_from_hashgroups', 'ManifestFactory._build_from_node',
                                   'Manifest.content_object', 'TreeBuilderReturnValue.__init__'], bounded='1 or 2 hash groups of 2 pointers', weight=3)
def factory_nodes(v):
    o = ManifestTreeOptions(name=None, schema_type=SchemaType.HASHED, signer=None, max_packet_size=9000,
                            add_node_subtree_size=v.bool('node sizes'), add_group_subtree_size=v.bool('group sizes'), add_group_leaf_size=v.bool('leaf sizes'))
    ptrs = [h(v) for i in range(v.few('pointers', 2, 2, 20))]
    only = v.choice('given', FIELDS + ['all', 'none'])
    raw = v.bool('sizes as numbers') if only == 'all' or only.endswith('size') else False
    def given(k, make): return make() if only in (k, 'all') else None
    def number(k): return given(k, lambda: v.int(k, 0, 2 ** 60))
    n, g, l = number('node_subtree_size'), number('group_subtree_size'), number('group_leaf_size')
    wrap = lambda cls, x: None if x is None else cls(x)
    nc, seg = given('nc_id', lambda: NcId(v.int('nc id', 0, 2 ** 32))), given('start_segment_id', lambda: StartSegmentId(v.int('first id', 0, 2 ** 40)))
    defs = given('nc_defs', lambda: [NcDef(NcId(v.int('def id', 0, 2 ** 32)), PrefixSchema(name=Name([NameComponent(1, v.bytes('prefix', 1, 8))])))])
    own = GroupData(nc_id=NcId(v.int('own id', 0, 2 ** 32)), leaf_size=LeafSize(v.int('own leaf', 0, 2 ** 60)))
    source = v.choice('source', ['pointers', 'group', 'groups'])
    group = HashGroup(group_data=own, pointers=Pointers(ptrs))
    src = Pointers(ptrs) if source == 'pointers' else group if source == 'group' else [group, HashGroup(pointers=Pointers(ptrs))]
    f = ManifestFactory(o)
    name = None if source == 'pointers' else Name([NameComponent(1, v.bytes('segment', 1, 8))])
    expiry = None if source == 'group' else ExpiryTime(v.msec(v.int('expiry', 0, 2 ** 45)))
    if raw: p = f.build_packet(src, nc_defs=defs, node_subtree_size=n, group_subtree_size=g, group_leaf_size=l, nc_id=nc, start_segment_id=seg, name=name, expiry_time=expiry)
    else: p = f.build_packet(src, nc_defs=defs, node_subtree_size=wrap(SubtreeSize, n), group_subtree_size=wrap(SubtreeSize, g), group_leaf_size=wrap(LeafSize, l), nc_id=nc, start_segment_id=seg, name=name, expiry_time=expiry)
    same_field(v, 'name', p.body().name(), name)
    same_field(v, 'expiry time', p.body().expiry_time(), expiry)
    node = Manifest.from_content_object(p.body()).node()
    want = node.hash_groups()
    v.ensure('as many groups', len(want) == (2 if source == 'groups' else 1))
    for x in want: same_pointers(v, 'pointers', [y for y in x.pointers()], ptrs)
    nd = node.node_data()
    n = n if o.add_node_subtree_size else None
    v.ensure('node data exactly when there is something to say', (nd is None) == (n is None and defs is None))
    if nd is not None:
        same_field(v, 'node size', nd.subtree_size(), wrap(SubtreeSize, n))
        got = nd.nc_defs() or []
        v.ensure('the definitions', len(got) == (0 if defs is None else 1))
        if defs is not None: same_field(v, 'definition', got[0], defs[0])
    if source == 'pointers':
        g, l = g if o.add_group_subtree_size else None, l if o.add_group_leaf_size else None
        d = want[0].group_data()
        v.ensure('group data exactly when there is something to say', (d is None) == (g is None and l is None and nc is None and seg is None))
        if d is not None:
            for label, a, b in (('group size', d.subtree_size(), wrap(SubtreeSize, g)), ('leaf size', d.leaf_size(), wrap(LeafSize, l)), ('nc id', d.nc_id(), nc), ('start id', d.start_segment_id(), seg)): same_field(v, label, a, b)
    else:
        same_field(v, 'group data', want[0].group_data(), own)
        if source == 'groups': v.ensure('no group data', want[1].group_data() is None)
