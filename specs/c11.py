from pyvc_api import contract
import math
from ccnpy.flic.tree.TreeOptimizer import TreeOptimizer
from ccnpy.flic.tree.OptimizerResult import OptimizerResult
from ccnpy.flic.tree.TreeParameters import TreeParameters

N = 2 ** 45     # floats divide exactly enough up to here

def capacity(k, d, m):
    'direct pointers in a tree of k internal nodes: theirs, and d+m in each leaf at the free ends of the k*m indirect pointers'
    return k * d + (k * m - (k - 1)) * (d + m)

@contract('C11', 'capacity_of_a_split', ['TreeOptimizer.calculate_n', 'TreeOptimizer.calculate_waste'])
def calc_n(v):
    n, k, d, m = v.int('n', 1, N), v.int('k', -1, 2 ** 40), v.int('d', 0, 2000), v.int('m', 0, 2000)
    t = TreeOptimizer(n, d + m)
    v.ensure('capacity', t.calculate_n(k, d, m) == capacity(k, d, m))
    v.ensure('waste is what is left over', t.calculate_waste(k, d, m) == capacity(k, d, m) - n)

@contract('C11', 'fewest_internal_nodes', ['TreeOptimizer.calculate_k'])
def calc_k(v):
    n, d, m = v.int('n', 1, N), v.int('d', 0, 2000), v.int('m', 1, 2000)
    v.assume(d + m >= 2)
    k = TreeOptimizer(n, d + m).calculate_k(d, m)
    v.ensure('a whole number', isinstance(k, int))
    v.ensure('room for every chunk', capacity(k, d, m) >= n)
    v.ensure('one internal node less has no room', capacity(k - 1, d, m) < n)

@contract('C11', 'fewest_internal_nodes_flat', ['TreeOptimizer.calculate_k'])
def calc_k0(v):
    n, d = v.int('n', 1, N), v.int('d', 1, 2000)
    k = TreeOptimizer(n, d).calculate_k(d, 0)
    v.ensure('without indirect pointers one node must do', k == (1 if n <= d else math.inf))

@contract('C11', 'plan', ['OptimizerResult.__init__', 'OptimizerResult._calculate_num_leaf_nodes', 'OptimizerResult._sanity_check'])
def plan(v):
    n, k, d, m, q = v.int('n', 1, N), v.int('k', -1, 2 ** 40), v.int('d', 0, 2000), v.small('m', 0, 3), v.int('q', 0, 2000)
    w = v.int('w', -5, 5)
    v.assume(v.any(d > 1, m > 0))
    v.assume(k + d + m >= 1)
    if v.bool('balanced'): q = d + m
    v.assume(q > 0)
    r, e = v.outcome(lambda: OptimizerResult(n, q, d, m, k, w), (ValueError,))
    if e is not None:
        v.ensure('refused only if the split does not add up', d + m != q)
        return
    leaf = r.num_leaf_nodes()
    v.ensure('a split that does not add up is refused', d + m == q)
    v.ensure('as asked', v.all(r.num_data_objects() == n, r.num_pointers() == q, r.direct_per_node() == d, r.indirect_per_node() == m,
                               r.num_internal_nodes() == k, r.waste() == w))
    v.ensure('room for every chunk', leaf * q + k * d >= n)
    v.ensure('no leaf too many', v.all(leaf >= 0, v.any(leaf == 0, (leaf - 1) * q + k * d < n)))
    v.ensure('total', r.total_nodes() == k + leaf)

@contract('C11', 'leaves_fit', ['TreeOptimizer.calculate_k', 'OptimizerResult._calculate_num_leaf_nodes'])
def leaves_fit(v):
    n, d, m = v.int('n', 1, N), v.int('d', 0, 2000), v.small('m', 1, 40)
    q = d + m
    v.assume(q >= 2)
    v.assume(n > q)
    t = TreeOptimizer(n, q)
    k = t.calculate_k(d, m)
    leaves = OptimizerResult(n, q, d, m, k, t.calculate_waste(k, d, m)).num_leaf_nodes()
    v.ensure('at least one internal node', k >= 1)
    v.ensure('every manifest but the root has an indirect pointer to it', k + leaves - 1 <= k * m)
    v.ensure('and no internal node is without use', k + leaves - 1 > (k - 1) * m)

def powers(m, e): return (m ** e - 1) // (m - 1)

@contract('C11', 'height', ['OptimizerResult._calculate_tree_height', 'OptimizerResult.tree_height'], weight=2)
def height(v):
    m = v.choice('m', [2, 3, 4, 5, 7, 16, 33])
    k, d = v.int('k', 1, 2 ** 35), v.int('d', 0, 2000)
    n = v.int('n', 1, N)
    v.assume((k * m - k + 1) * (d + m) + k * d >= n)
    r = OptimizerResult(n, d + m, d, m, k, 0)
    h, total = r.tree_height(), r.total_nodes()
    v.ensure('a whole number of levels', v.all(isinstance(h, int), h >= 0))
    # the rounding of the logarithm may cost one level, never one too few
    for e in range(0, 44):
        if m ** e > 2 ** 45: break
        v.ensure('a full tree of this height has room for every manifest', v.implies(h == e, powers(m, e + 1) >= total))
        v.ensure('with two levels less it would not', v.implies(h == e + 2, powers(m, e + 1) < total))

@contract('C11', 'height_chain', ['OptimizerResult._calculate_tree_height'])
def height1(v):
    k, d, n = v.int('k', 1, 2 ** 35), v.int('d', 1, 2000), v.int('n', 1, N)
    r = OptimizerResult(n, d + 1, d, 1, k, 0)
    v.ensure('a chain is as high as it has nodes', r.tree_height() == r.total_nodes())

@contract('C11', 'height_flat', ['OptimizerResult._calculate_tree_height'])
def height0(v):
    d, n = v.int('d', 2, 2000), v.int('n', 1, N)
    v.assume(n <= d)
    r = OptimizerResult(n, d, d, 0, 1, d - n)
    v.ensure('one manifest is enough', v.all(r.total_nodes() == 1, r.num_leaf_nodes() == 0))
    v.ensure('at most one level below the root', v.all(r.tree_height() >= 0, r.tree_height() <= 1))

# ---- choosing among the splits

def split_of(r): return (r.direct_per_node(), r.indirect_per_node(), r.num_internal_nodes())

def is_candidate(v, r, n, q, t):
    d, m, k = split_of(r)
    v.ensure('uses all pointers', v.all(d + m == q, d >= 1, m >= 0, r.num_pointers() == q, r.num_data_objects() == n))
    v.ensure('has as many internal nodes as the split needs', k == t.calculate_k(d, m))
    v.ensure('room for every chunk', capacity(k, d, m) >= n)
    v.ensure('room in the planned nodes', r.num_leaf_nodes() * q + k * d >= n)
    v.ensure('waste is what is left over', r.waste() == capacity(k, d, m) - n)
    v.ensure('waste is not negative', r.waste() >= 0)

def splits(n, q, t):
    'every split of q pointers with room for n chunks: (d, m, k, waste)'
    out = []
    for m in range(q):
        if m == 0 and n > q: continue
        k = t.calculate_k(q - m, m)
        out.append((q - m, m, k, capacity(k, q - m, m) - n))
    return out

def exactly(v, what, results, all_splits, good):
    'results are exactly the splits for which good holds, in order of m'
    v.ensure('at least one', len(results) >= 1)
    ms = [r.indirect_per_node() for r in results]
    for a, b in zip(ms, ms[1:]): v.ensure('in order of fan-out, none twice', a < b)
    for s in all_splits:
        v.ensure(what, v.any(*[m == s[1] for m in ms]) == good(s))

def two(v, q, n, which):
    t = TreeOptimizer(n, q)
    ss = splits(n, q, t)
    least_k = lambda s: v.all(*[s[2] <= o[2] for o in ss])
    least_w = lambda s: v.all(*[s[3] <= o[3] for o in ss])
    if which == 'k':
        rs = t.minimize_k()
        for r in rs: is_candidate(v, r, n, q, t)
        exactly(v, 'exactly the splits with the fewest internal nodes', rs, ss, least_k)
    elif which == 'w':
        rs = t.minimize_waste()
        for r in rs: is_candidate(v, r, n, q, t)
        exactly(v, 'exactly the splits with the least waste', rs, ss, least_w)
    elif which == 'kw' or which == 'plan':
        r = t.minimize_k_min_waste() if which == 'kw' else getattr(TreeParameters, '_optimize_tree', lambda n, q: t.minimize_k_min_waste())(n, q)
        is_candidate(v, r, n, q, t)
        for s in ss:
            v.ensure('no split has fewer internal nodes', r.num_internal_nodes() <= s[2])
            v.ensure('no split with as few internal nodes wastes less', v.implies(s[2] == r.num_internal_nodes(), s[3] >= r.waste()))
    else:
        r = t.minimize_waste_min_height()
        is_candidate(v, r, n, q, t)
        for s in ss: v.ensure('no split wastes less', s[3] >= r.waste())
        for o in t.minimize_waste():
            v.ensure('no split with as little waste is lower', r.tree_height() <= o.tree_height())

F = ['TreeOptimizer.minimize_k', 'TreeOptimizer.minimize_k_min_waste', 'TreeOptimizer.minimize_waste', 'TreeOptimizer.minimize_waste_min_height',
     'TreeParameters._optimize_tree']

@contract('C11', 'choice', F, bounded='2 to 7 pointers per manifest (any number of chunks)', weight=4)
def choice_small(v):
    which = v.choice('criterion', ['k', 'w', 'kw', 'wh', 'plan'])
    q = v.small('q', 2, 7)
    two(v, q, v.int('n', 1, N), which)

@contract('C11', 'choice_wide', F + ['OptimizerResult.__init__'], sym=False, bounded='native runs, up to 80 pointers per manifest')
def choice_wide(v):
    which = v.choice('criterion', ['k', 'w', 'kw', 'wh', 'plan'])
    two(v, v.int('q', 2, 80), v.int('n', 1, v.choice('size', [20, 300, 5000, 10 ** 6, 2 ** 40])), which)

@contract('C11', 'any_plan', ['OptimizerResult.__init__', 'OptimizerResult._calculate_num_leaf_nodes', 'OptimizerResult._calculate_tree_height', 'OptimizerResult._sanity_check'], native=False)
def any_plan(v):
    v.powers()
    n, k, d, m = v.int('n', 1, N), v.int('k', 1, 2 ** 40), v.int('d', 0, 2000), v.int('m', 2, 2000)
    q = d + m
    r, e = v.outcome(lambda: OptimizerResult(n, q, d, m, k, 0), (ValueError,))
    v.ensure('accepted', e is None)
    leaf, h, total = r.num_leaf_nodes(), r.tree_height(), r.total_nodes()
    v.ensure('as asked', v.all(r.num_data_objects() == n, r.num_pointers() == q, r.direct_per_node() == d, r.indirect_per_node() == m, r.num_internal_nodes() == k))
    v.ensure('room for every chunk', leaf * q + k * d >= n)
    v.ensure('no leaf too many', v.all(leaf >= 0, v.any(leaf == 0, (leaf - 1) * q + k * d < n)))
    v.ensure('total', total == k + leaf)
    v.ensure('a whole number of levels', v.all(isinstance(h, int), h >= 0))
    v.ensure('a full tree of this height has room for every manifest', v.power(m, h + 1) >= (m - 1) * total + 1)
    v.ensure('a lower tree has not', v.implies(h >= 1, v.power(m, h) < (m - 1) * total + 1))

@contract('C11', 'any_leaves', ['TreeOptimizer.calculate_k', 'OptimizerResult._calculate_num_leaf_nodes'], native=False)
def any_leaves(v):
    n, k, d, m, leaf = v.int('n', 1, N), v.int('k', 1, 2 ** 40), v.int('d', 0, 2000), v.int('m', 1, 2000), v.int('leaf', 0, 2 ** 45)
    q = d + m
    v.assume(v.all(q >= 2, n > q))
    # the plan's internal nodes (fewest_internal_nodes) and leaves (any_plan)
    v.assume(v.all(capacity(k, d, m) >= n, capacity(k - 1, d, m) < n, leaf * q + k * d >= n, v.any(leaf == 0, (leaf - 1) * q + k * d < n)))
    free, before = k * m - (k - 1), (k - 1) * (m - 1)
    v.ensure('leaves at the free pointers', leaf <= free)
    v.ensure('more leaves than one internal node less has pointers for', leaf > before)
    v.ensure('every manifest but the root has an indirect pointer to it', k + leaf - 1 <= k * m)
    v.ensure('and no internal node is without use', k + leaf - 1 > (k - 1) * m)

@contract('C11', 'any_height_has_room', ['OptimizerResult._calculate_tree_height'], native=False)
def any_room(v):
    """a full tree of the planned height has room for every chunk"""
    n, k, d, m, leaf, h = v.int('n', 1, N), v.int('k', 1, 2 ** 40), v.int('d', 0, 2000), v.int('m', 2, 2000), v.int('leaf', 0, 2 ** 45), v.int('height', 0, 2 ** 40)
    q = d + m
    p = v.int('manifests at the greatest height', 1, 2 ** 200)
    a = v.int('manifests above it', 0, 2 ** 200)
    total = k + leaf
    # any_plan, any_leaves, geometric_sums (C12)
    v.assume(v.all((m - 1) * a + 1 == p, p * m >= (m - 1) * total + 1, k + leaf - 1 > (k - 1) * m, capacity(k, d, m) >= n))
    v.ensure('the planned internal nodes are above it', k <= a)
    v.ensure('room in all', a * d + p * q >= n)

@contract('C11', 'any_chain_has_room', ['OptimizerResult._calculate_tree_height', 'OptimizerResult._calculate_num_leaf_nodes'], native=False)
def any_chain(v):
    """fan-out 1: each manifest but the last has d chunks and one manifest"""
    n, k, d = v.int('n', 1, N), v.int('k', 1, 2 ** 40), v.int('d', 1, 2000)
    v.assume(v.all(n > d + 1, capacity(k, d, 1) >= n, capacity(k - 1, d, 1) < n))
    r = OptimizerResult(n, d + 1, d, 1, k, 0)
    v.ensure('as high as it has manifests', r.tree_height() == k + r.num_leaf_nodes())
    v.ensure('room in all', r.tree_height() * d + (d + 1) >= n)

@contract('C11', 'flat_is_never_chosen', ['TreeOptimizer.calculate_k'])
def never_flat(v):
    """a split without indirect pointers never has the fewest internal nodes: the tree builder can rely on a fan-out of at least 1"""
    n, q = v.int('n', 1, N), v.int('q', 2, 2000)
    t = TreeOptimizer(n, q)
    v.ensure('a split with one has fewer', t.calculate_k(q - 1, 1) < t.calculate_k(q, 0))

@contract('C11', 'levels_of_a_full_tree', [], native=False)
def full_levels(v):
    """chunks in a full tree of l + 1 levels: the manifests above the last hold d each, the last q each"""
    d, m, a, p = v.int('d', 0, 2000), v.int('m', 2, 2000), v.int('manifests above', 0, 2 ** 200), v.int('manifests below', 1, 2 ** 200)
    v.ensure('one level', 0 * d + 1 * (d + m) == d + m)
    v.ensure('a level more: d of its own and m trees', (m * a + 1) * d + (m * p) * (d + m) == d + m * (a * d + p * (d + m)))

from specs import choosing
choosing.register(contract)
