from pyvc_api import contract
from ccnpy.flic.tree.ManifestIdFactory import ManifestIdFactory
from specs.trees import *

def count(k, h):
    """the number of manifests a tree of fan-out k can have at heights 0..h"""
    n, x = 0, 1
    for _ in range(h + 1): n, x = n + x, x * k
    return n

@contract('C12', 'level_ranges', ['ManifestIdFactory.__init__', 'ManifestIdFactory.get_next_id'], bounded='trees of height up to 5, every fan-out; the first, second and last id of each level', weight=2)
def ranges(v):
    k = v.int('fan-out', 1, 2 ** 32)
    top = v.small('height', 0, 5)
    f = ManifestIdFactory(tree_degree=k, max_height=top)
    first = []
    for h in range(top + 1):
        a = f.get_next_id(h)
        v.ensure('ids are non-negative', a >= 0)
        v.ensure("a level's ids start at its last", a == count(k, h) - 1)
        first.append(a)
    for h in range(top + 1):
        # a level above has room for k^h ids: they end above the last id of the level before
        lo = first[h - 1] + 1 if h > 0 else 0
        v.ensure('the ranges of levels are adjacent', first[h] - lo + 1 == count(k, h) - (count(k, h - 1) if h > 0 else 0))
    for h in range(top + 1):
        if first[h] >= 1 and (h == 0 or first[h] > first[h - 1] + 1):
            b = f.get_next_id(h)
            v.ensure('ids of a level go down one by one', b == first[h] - 1)

@contract('C12', 'draws', ['ManifestIdFactory.get_next_id'], bounded='fan-outs 1..4, heights up to 2, up to 4 draws in any order of levels', weight=3)
def draws(v):
    k, top = v.small('fan-out', 1, 4), v.small('height', 0, 2)
    f = ManifestIdFactory(tree_degree=k, max_height=top)
    cap = [count(k, h) - (count(k, h - 1) if h else 0) for h in range(top + 1)]
    left = list(cap)
    seen = []
    for i in range(4):
        open_levels = [h for h in range(top + 1) if left[h] > 0]
        if not open_levels: break
        h = v.choice('level', open_levels)
        left[h] -= 1
        x = f.get_next_id(h)
        v.ensure('never handed out before', x not in seen)
        v.ensure('within the range of its level', x <= count(k, h) - 1 and x >= count(k, h) - cap[h])
        v.ensure('one below the previous of its level', x == count(k, h) - 1 - (cap[h] - left[h] - 1))
        seen.append(x)

@contract('C12', 'whole_levels', ['ManifestIdFactory.get_next_id'], sym=False, bounded='native: fan-outs up to 60 and heights up to 12, every id of small trees drawn in random order')
def levels(v):
    k, top = v.small('fan-out', 1, 60), v.small('height', 0, 12)
    while count(k, top) > 3000: top -= 1
    f = ManifestIdFactory(tree_degree=k, max_height=top)
    left = {h: k ** h for h in range(top + 1)}
    last, seen = {}, set()
    while left:
        h = v.choice('level', sorted(left))
        for _ in range(v.small('draws', 1, 20)):
            if h not in left: break
            x = f.get_next_id(h)
            v.ensure('a non-negative integer', isinstance(x, int) and x >= 0)
            v.ensure('never handed out before', x not in seen)
            v.ensure('consecutive', h not in last or x == last[h] - 1)
            v.ensure('in the range of its level', count(k, h) - k ** h <= x < count(k, h))
            last[h] = x
            seen.add(x)
            left[h] -= 1
            if left[h] == 0: del left[h]
    v.ensure('every id used', seen == set(range(count(k, top))))
    for h in range(top + 1):
        n = 0
        while n <= count(k, top):
            r, e = v.outcome(lambda: f.get_next_id(h), (OverflowError,))
            if e is not None: break
            v.ensure('never negative', r >= 0)
            n += 1
        v.ensure('refused when there are none left', e is not None)

@contract('C12', 'high_trees', ['ManifestIdFactory.__init__', 'ManifestIdFactory.get_next_id'], sym=False, bounded='native: fan-outs up to 10^6 and heights up to 60')
def high(v):
    k, top = v.int('fan-out', 1, 10 ** 6), v.int('height', 0, 60)
    f = ManifestIdFactory(tree_degree=k, max_height=top)
    for h in range(top + 1):
        x = f.get_next_id(h)
        v.ensure('exact last id of the level', x == count(k, h) - 1)
        if k > 1 and h: v.ensure('consecutive', f.get_next_id(h) == x - 1)

def ids(v, b, r):
    """segment ids of the manifests below the root"""
    out = []
    for m in r.manifests:
        if m.root: continue
        c = m.name.component(m.name.count() - 1)
        n = int.from_bytes(bytes(c.value()), 'big')
        out.append(n)
        v.ensure('shortest encoding', bytes(c.value()) == n.to_bytes(max(1, (n.bit_length() + 7) // 8), 'big'))
    v.ensure('no two manifests share an id', len(set(out)) == len(out))
    v.ensure('no two manifests share a name', len({wire(m.name) for m in r.manifests}) == len(r.manifests))

@contract('C12', 'tree_names', ['TreeBuilder.build', 'ManifestTree.build'], sym=False, bounded='native: segmented trees with random options and up to 4000 chunks', weight=4)
def tree_names(v):
    o, ks = options(v, schema=S, encryption=v.choice('encryption', ['none', 'none', 'none', 'psk', 'rsa']))
    b = build(o, chunks(v, v.choice('n', [v.small('few', 1, 40), v.int('more', 1, 400), v.int('most', 1, 4000)])))
    ids(v, b, Reader(v, b, ks))

@contract('C12', 'small_tree_names', ['TreeBuilder.build', 'ManifestTree.build'], sym=False, bounded='native: 12 consecutive chunk counts from a random start up to 150 for one fan-out of 2..12', weight=3)
def small_tree_names(v):
    o, ks = options(v, schema=S, encryption='none', degree=v.small('degree', 2, 12), mps=1500, sizes=False)
    n0 = v.small('first', 1, 140)
    for n in range(n0, n0 + 12):
        b = build(o, chunks(v, n))
        ids(v, b, Reader(v, b, ks))

# the ids of a whole tree: every manifest draws one, at its height; no height needs more than it has; groups are numbered
from specs import levels, building
levels.register(contract)
building.register(contract, S, 'segmented', 'C12')
building.register_lemma(contract, 'C12')

from specs import roots
roots.register(contract, 'C12')
