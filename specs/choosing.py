"""TreeOptimizer's choices among any number of splits: loop invariants and the contracts of what is called.
Only used by the verifier (symbolic side)."""
import math
from ccnpy.flic.tree import TreeOptimizer as module
TreeOptimizer = module.TreeOptimizer

def capacity(k, d, m): return k * d + (k * m - (k - 1)) * (d + m)

class Result:
    """contract of OptimizerResult: what it was made of (plan), some height (height)"""
    def __init__(self, w, m): self.w, self.m = w, m
    def waste(self): return self.w.W(self.m)
    def tree_height(self): return self.w.H(self.m)

class Splits:
    """the splits of q pointers, and what calculate_k and calculate_waste say about them (fewest_internal_nodes, capacity_of_a_split)"""
    def __init__(self, v):
        self.v = v
        self.n, self.q = v.int('chunks', 1, 2 ** 45), v.int('pointers', 2, 2000)
        self.K, self.W, self.H = v.function('internal nodes'), v.function('waste'), v.function('height')
        self.t = TreeOptimizer(self.n, self.q)
        v.fits(self.t, '_num_direct_nodes', '_num_pointers')
        w = self
        def k(t, d, m):
            v.ensure('a split', v.all(m >= 0, d >= 1, d + m == w.q))
            if m == 0: return (1 if w.n <= w.q else math.inf)
            return w.nodes(m)
        def waste(t, k, d, m):
            v.ensure('the waste of a split', v.all(m >= 0, d + m == w.q))
            if k == math.inf: return real_waste(t, k, d, m)
            v.ensure('with the internal nodes it needs', k == w.nodes(m))
            return w.waste(m)
        v.assumed(TreeOptimizer, 'calculate_k', k)
        real_waste = v.assumed(TreeOptimizer, 'calculate_waste', waste)
        class TheResult:
            def __new__(cls, num_data_objects, num_pointers, direct_per_node, indirect_per_node, num_internal_nodes, waste):
                m = indirect_per_node
                v.ensure('a plan for this file', v.all(num_data_objects == w.n, num_pointers == w.q, direct_per_node == w.q - m, m >= 0, m < w.q))
                v.ensure('a plan with the nodes it needs', num_internal_nodes == w.nodes(m))
                v.ensure('a plan with its waste', waste == w.waste(m))
                return Result(w, m)
        v.assumed(module, 'OptimizerResult', TheResult)
        # any one split, to compare with
        self.c = v.int('a split', 0, 2000)
        v.assume(v.all(self.c < self.q, self.candidate(self.c)))
        self.nodes(self.c)
        self.waste(self.c)
    def candidate(self, m): return self.v.any(m > 0, self.n <= self.q)
    def nodes(self, m):
        k = self.K(m)
        self.v.assume(self.v.implies(m == 0, k == 1))
        return k
    def waste(self, m):
        x = self.W(m)
        self.v.assume(x >= 0)
        return x
    def height(self, m):
        x = self.H(m)
        self.v.assume(x >= 0)
        return x

class Best:
    """the splits for which a key is least, in order"""
    def __init__(self, w, key, best, below, tag):
        v = w.v
        self.w, self.key, self.best, self.below = w, key, best, below
        self.M = v.function('split ' + tag)
        self.at = v.fresh('place of the split', 0)
        self.count = v.fresh('results', 1)
        v.assume(self.count <= w.q)
        self.seen = []
        c = w.c
        v.assume(v.implies(c < below, v.all(key(c) >= best, v.implies(key(c) == best, v.all(self.at < self.count, self.M(self.at) == c)))))
        self.list = v.elements(self, 0, self.count)
    def __call__(self, i):
        w, v, M = self.w, self.w.v, self.M
        x = M(i)
        v.assume(v.all(x >= 0, x < self.below, x < w.q, w.candidate(x), self.key(x) == self.best))
        for j in self.seen: v.assume(v.all(v.implies(j < i, M(j) < x), v.implies(i < j, x < M(j)), v.implies(i == j, M(j) == x)))
        self.seen.append(i)
        w.nodes(x)
        w.waste(x)
        return Result(w, x)

class Enumerate:
    """minimize_k, minimize_waste: the best among the first i splits"""
    def __init__(self, w, key, name): self.w, self.key, self.name = w, key, name
    def holds(self, l):
        w, v, best, rs, i, c = self.w, self.w.v, l[self.name], l['best_solutions'], l.i, self.w.c
        if len(rs) == 0:
            none = v.any(i == 0, v.all(i == 1, w.n > w.q))
            return [('nothing yet', v.all(best == math.inf, none))]
        a, b = v.fresh('a result', 0), v.fresh('a later result', 0)
        v.assume(v.all(a < b, b <= len(rs)))
        m = rs[a].m
        out = [('something', best < math.inf),
               ('results are splits so far', v.all(m >= 0, m < i, w.candidate(m))),
               ('with the least key', self.key(m) == best)]
        if b < len(rs): out.append(('in order, none twice', m < rs[b].m))
        out.append(('no split so far is better', v.implies(c < i, self.key(c) >= best)))
        if v.all(c < i, self.key(c) == best):
            place = v.ite(c == i - 1, len(rs) - 1, l.g['best'].at) if 'best' in l.g else len(rs) - 1
            good = v.all(place >= 0, place < len(rs))
            out.append(('every split as good is a result', good))
            if good: out.append(('every split as good is a result', rs[place].m == c))
        return out
    def havoc(self, l):
        w, v, i = self.w, self.w.v, l.i
        l[self.name], l['best_solutions'] = l[self.name], l['best_solutions']
        if bool(v.any(i == 0, v.all(i == 1, w.n > w.q))): return
        best = v.fresh('best')
        l.g['best'] = B = Best(w, self.key, best, i, 'so far')
        l[self.name] = best
        l['best_solutions'] = B.list
        l.modifies(B.list)
    scratch = ('m', 'd', 'k', 'w', 'solution')

class Pick:
    """minimize_k_min_waste, minimize_waste_min_height: the first of least key among the first i of the results"""
    def __init__(self, w, key, sol, least, B): self.w, self.key, self.sol, self.least, self.B = w, key, sol, least, B
    def holds(self, l):
        w, v, r, least, i, B = self.w, self.w.v, l[self.sol], l[self.least], l.i, self.B
        if r is None: return [('nothing yet', v.all(i == 0, least == math.inf))]
        m = r.m
        return [('one of the results', v.all(m >= 0, m < w.q, w.candidate(m), B.key(m) == B.best)),
                ('its key', v.all(least == self.key(m), i > 0)),
                ('none before is better', v.implies(B.at < i, self.key(B.M(B.at)) >= least))]
    def havoc(self, l):
        w, v, i = self.w, self.w.v, l.i
        l[self.sol], l[self.least] = l[self.sol], l[self.least]
        if bool(i == 0): return
        m = v.fresh('picked', 0)
        w.nodes(m)
        w.waste(m)
        l[self.sol], l[self.least] = Result(w, m), self.key(m)
    scratch = ('s',)

def register(contract):
    def enumerated(w, rs, key, below):
        v, c = w.v, w.c
        v.ensure('at least one', len(rs) >= 1)
        a, b = v.fresh('a result', 0), v.fresh('a later result', 0)
        v.assume(v.all(a < b, b <= len(rs)))
        m = rs[a].m
        v.ensure('a split with room', v.all(m >= 0, m < w.q, w.candidate(m)))
        v.ensure('as good as any split', key(m) <= key(c))
        if b < len(rs): v.ensure('in order, none twice', m < rs[b].m)
        if key(c) == key(m):
            v.ensure('every split as good is a result', v.all(below.at >= 0, below.at < len(rs)))
            v.ensure('every split as good is a result', rs[below.at].m == c)

    @contract('C11', 'any_least_nodes', ['TreeOptimizer.minimize_k'], native=False, tags=('inductive',))
    def least_k(v):
        w = Splits(v)
        s = Enumerate(w, w.nodes, 'best_k')
        v.loop('TreeOptimizer.minimize_k', 0, s, 'for')
        got = w.t.minimize_k()
        enumerated(w, got, w.nodes, got_best(got))

    @contract('C11', 'any_least_waste', ['TreeOptimizer.minimize_waste'], native=False, tags=('inductive',))
    def least_w(v):
        w = Splits(v)
        v.loop('TreeOptimizer.minimize_waste', 0, Enumerate(w, w.waste, 'best_w'), 'for')
        got = w.t.minimize_waste()
        enumerated(w, got, w.waste, got_best(got))

    def got_best(rs):
        return rs.segs[0].fn

    def picked(v, name, of, enum, enumkey, key, sol, least):
        w = Splits(v)
        B = Best(w, getattr(w, enumkey), v.fresh('best'), w.q, 'of all')
        v.assumed(TreeOptimizer, enum, lambda t: B.list)
        kf, bf = getattr(w, key), getattr(w, enumkey)
        v.loop(name, 0, Pick(w, kf, sol, least, B), 'for')
        r = of(w.t)
        m, c = r.m, w.c
        v.ensure('a split with room', v.all(m >= 0, m < w.q, w.candidate(m)))
        v.ensure('no split is better', bf(m) <= bf(c))
        v.ensure('no split as good is better in the second place', v.implies(bf(c) == bf(m), kf(m) <= kf(c)))

    @contract('C11', 'any_least_nodes_least_waste', ['TreeOptimizer.minimize_k_min_waste'], native=False, tags=('inductive',))
    def kw(v): picked(v, 'TreeOptimizer.minimize_k_min_waste', lambda t: t.minimize_k_min_waste(), 'minimize_k', 'nodes', 'waste', 'best_solution', 'min_waste')

    @contract('C11', 'any_least_waste_least_height', ['TreeOptimizer.minimize_waste_min_height'], native=False, tags=('inductive',))
    def wh(v): picked(v, 'TreeOptimizer.minimize_waste_min_height', lambda t: t.minimize_waste_min_height(), 'minimize_waste', 'waste', 'height', 'min_solution', 'min_height')
