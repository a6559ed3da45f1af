"""The ids of a tree's manifests, level by level: k^h of them at height h"""

class Levels:
    def __init__(self, v, k):
        self.v, self.k = v, k
        v.powers()
        self.G = v.function('manifests down to a height')
    def upto(self, h):
        """manifests at heights 0..h: 1 + k + ... + k^h (the facts are proved in geometric_sums)"""
        x = self.G(h)
        v, k = self.v, self.k
        v.assume(v.implies(h >= 0, v.all((k - 1) * x + 1 == v.power(k, h + 1), x >= h + 1, v.implies(k == 1, x == h + 1), x == self.G(h - 1) + v.power(k, h))))
        v.assume(v.implies(h <= -1, x == 0))
        return x
    def below(self, h): return self.upto(h) - self.v.power(self.k, h)
    def ordered(self, a, b):
        self.v.assume(self.v.implies(a < b, self.upto(a) <= self.upto(b) - self.v.power(self.k, b)))
        self.v.assume(self.v.implies(b < a, self.upto(b) <= self.upto(a) - self.v.power(self.k, a)))

def register(contract):
    from ccnpy.flic.tree.ManifestIdFactory import ManifestIdFactory

    @contract('C12', 'geometric_sums', [], native=False)
    def sums(v):
        v.powers()
        k, h, x = v.int('fan-out', 1, 2 ** 32), v.int('height', 0, 2 ** 33), v.int('manifests', 1, 2 ** 70)
        v.ensure('height 0', (k - 1) * 1 + 1 == k)
        v.assume(v.all((k - 1) * x + 1 == v.power(k, h + 1), x >= h + 1, v.implies(k == 1, x == h + 1)))
        y = k * x + 1
        # one height more
        v.ensure('as many as the powers say', (k - 1) * y + 1 == k * v.power(k, h + 1))
        v.ensure('as the recurrence says', k * v.power(k, h + 1) == v.power(k, h + 2))
        v.ensure('the next power more', y == x + v.power(k, h + 1))
        v.ensure('at least one per height', v.all(y >= h + 2, v.implies(k == 1, y == h + 2)))
        # heights are ordered
        a = v.int('manifests of a lower height', 0, 2 ** 70)
        v.assume(a <= x)
        v.ensure('what is below is below the next height', v.all(a <= y - v.power(k, h + 1), x <= y - v.power(k, h + 1)))

    @contract('C12', 'any_level_ranges', ['ManifestIdFactory.__init__', 'ManifestIdFactory._last_id_for_height', 'ManifestIdFactory.get_next_id'], native=False)
    def ranges(v):
        k, top, h = v.int('fan-out', 1, 2 ** 32), v.int('greatest height', 0, 2 ** 33), v.int('height', 0, 2 ** 33)
        v.assume(h <= top)
        L = Levels(v, k)
        last = L.upto(h)
        f = ManifestIdFactory(tree_degree=k, max_height=top)
        a = f.get_next_id(h)
        v.ensure("a height's ids start at its last", a == last - 1)
        v.ensure('ids are non-negative', a >= 0)
        if v.power(k, h) > 1: v.ensure('and go down one by one', f.get_next_id(h) == a - 1)

    @contract('C12', 'any_draws', ['ManifestIdFactory.get_next_id'], native=False, tags=('inductive',))
    def draws(v):
        k, top, h, j = v.int('fan-out', 1, 2 ** 32), v.int('greatest height', 0, 2 ** 33), v.int('height', 0, 2 ** 33), v.int('other height', 0, 2 ** 33)
        v.assume(v.all(h <= top, j <= top))
        L = Levels(v, k)
        f = ManifestIdFactory(tree_degree=k, max_height=top)
        v.fits(f, '_tree_degree', '_max_height', '_next_ids')
        # any ids may have been drawn
        drawn = v.function('ids drawn')
        v.put(f, '_next_ids', v.elements(lambda i: L.G(i) - 1 - drawn(i), 0, top + 1))
        for x in (h, j):
            L.upto(x)
            v.assume(v.all(drawn(x) >= 0, drawn(x) <= v.power(k, x)))
        if drawn(h) == v.power(k, h):
            if h == 0: v.raises('none left', (OverflowError,), lambda: f.get_next_id(h))
            return
        a = f.get_next_id(h)
        v.ensure('the next of its height', a == L.upto(h) - 1 - drawn(h))
        v.ensure('in the range of its height', v.all(a >= L.below(h), a < L.upto(h)))
        if h == j:
            if drawn(h) + 1 < v.power(k, h): v.ensure('one after the other', f.get_next_id(h) == a - 1)
            return
        L.ordered(h, j)
        if drawn(j) < v.power(k, j):
            b = f.get_next_id(j)
            v.ensure('other heights are untouched', b == L.upto(j) - 1 - drawn(j))
            v.ensure('no id is of two heights', v.neg(v.any(v.all(b >= L.below(h), b < L.upto(h)), a == b)))
