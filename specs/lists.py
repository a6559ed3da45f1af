"""Lists of any number of elements, laid out one after another in a text.

A list is  any elements (k of them), the element e, any elements (m of them); its text is  P + wire(e) + S  with P and S
arbitrary bytes (empty exactly when k or m is 0).  The loops that write and read such texts are cut: the body is run at e,
and what it proves for an arbitrary position holds for each position of each list."""
from ccnpy.core.Tlv import Tlv

class Others:
    """elements the loop body does not see"""
    def __init__(self, text): self.text = text
    def __call__(self, i): return NotSeen()
class NotSeen: pass

def wire(v, x):
    if x is None: return v.cat()
    return x.serialize() if hasattr(x, 'serialize') else v.cat([x])

class Many:
    def __init__(self, v, name, e, room=60000, least=4):
        self.e = e
        self.k, self.m = v.int(name + ' before', 0, 60000), v.int(name + ' after', 0, 60000)
        self.P, self.S = v.blob(name + ' text before', 0, room), v.blob(name + ' text after', 0, room)
        v.assume(v.all(len(self.P) >= least * self.k, (self.k == 0) == (len(self.P) == 0), len(self.S) >= least * self.m, (self.m == 0) == (len(self.S) == 0)))
        self.before, self.after = Others(self.P), Others(self.S)
        self.wire = wire(v, e)
        self.text = v.cat(self.P, self.wire, self.S)
        self.n = self.k + self.m + 1
        self.v = v
    def but(self, e):
        """the same list, with another element in the place of e"""
        o = object.__new__(Many)
        o.__dict__.update(self.__dict__, e=e, wire=wire(self.v, e), text=self.v.cat(self.P, wire(self.v, e), self.S))
        return o
    def list(self, upto='end'):
        """the elements before, up to or after e"""
        l = self.v.elements(self.before, 0, self.k)
        if upto == 'e': return l
        l.append(self.e)
        l.extend(self.v.elements(self.after, 0, self.m))
        return l
    def is_list(self, l, same):
        """(condition) l is this list, but for another e that is the same"""
        if not len(l) == self.n or isinstance(l[self.k], NotSeen): return False
        runs = [x for kind, x, lo, hi in self.v.parts(l) if kind == 'run']
        return self.v.all(all(x is self.before or x is self.after for x in runs), same(l[self.k], self.e))
    def one_more(self, l, same):
        """(condition) l is the list up to e"""
        if not len(l) == self.k + 1 or isinstance(l[self.k], NotSeen): return False
        runs = [x for kind, x, lo, hi in self.v.parts(l) if kind == 'run']
        return self.v.all(all(x is self.before for x in runs), same(l[self.k], self.e))

class Flatten:
    """Tlv.flatten of lists with runs: the bytes so far are the text of the elements so far"""
    def __init__(self, v): self.v = v
    def applies(self, value): return self.v.has_run(value)
    def bounds(self, l):
        """(index, text before, element, text after) of each element in sight; then the end"""
        v, at, text, out = self.v, 0, v_empty(self.v), []
        for kind, x, lo, hi in v.parts(l['value']):
            if kind == 'one':
                after = v.cat(text, wire(v, x))
                out.append((at, text, after))
                at, text = at + 1, after
            else: at, text = at + (hi - lo), v.cat(text, x.text)
        return out + [(at, text, text)]
    def holds(self, l):
        want = v_empty(self.v)
        if 'i' in l.g: want = l.g['before'] if l.i is l.g['i'] else l.g['after']
        return [('the text of the elements so far', self.v.all(isinstance(l['byte_list'], list), self.v.same_bytes(l['byte_list'], want)))]
    def havoc(self, l):
        i, before, after = self.v.choice('element', self.bounds(l))
        self.v.assume(l.i == i)
        l.modifies(l['byte_list'])
        l['byte_list'].clear()
        l['byte_list'].extend(before)
        l.g['i'], l.g['before'], l.g['after'] = l.i, before, after
    scratch = ('x',)
def v_empty(v): return v.cat()

class Parse:
    """the loop of a parser over inner TLVs.  items: ('one', variable, object) or ('any', variable, Many) or ('skip', None, object) in the order of the
    text; same(parsed, object) -> condition"""
    def __init__(self, v, items, same, scratch=(), fixed=()):
        self.v, self.items, self.same, self.scratch, self.fixed = v, items, same, scratch, fixed
    def start(self, j):
        n = 0
        for kind, var, x in self.items[:j]: n = n + (len(x.text) if kind == 'any' else len(x.serialize()))
        return n
    def state(self, l, j, there):
        """the variables before item j (or, there: at its e; 'after': just behind it)"""
        v, cs = self.v, []
        for i, (kind, var, x) in enumerate(self.items):
            if kind == 'skip': continue
            done = i < j or (i == j and there == 'after')
            if kind == 'one': cs.append((var, self.same(l[var], x) if done else l[var] is None))
            elif i < j: cs.append((var, x.is_list(l[var], self.same)))
            elif i == j and there == 'after': cs.append((var, x.one_more(l[var], self.same)))
            elif i == j and there: cs.append((var, len(l[var]) == x.k))
            else: cs.append((var, len(l[var]) == 0))
        return cs
    def holds(self, l):
        v, g = self.v, l.g
        if 'at' not in g: j, there = 0, False
        elif l['offset'] is g['at']: j, there = g['j'], g['there']
        else: j, there = g['j'], 'after'
        off = self.start(j)
        if there:
            kind, var, x = self.items[j]
            off = off + (len(x.P) if kind == 'any' else 0)
            if there == 'after': off = off + len(x.wire if kind == 'any' else x.serialize())
        return [('as far as the elements read', l['offset'] == off)] + self.state(l, j, there)
    def havoc(self, l):
        v, g = self.v, l.g
        j = v.choice('where', list(range(len(self.items) + 1)))
        for i, (kind, var, x) in enumerate(self.items):
            if kind == 'one': l[var] = x if i < j else None
            if kind == 'any':
                l.modifies(l[var])
                l[var].clear()
                if i < j: l[var].extend(x.list())
                elif i == j: l[var].extend(x.list('e'))
        there = j < len(self.items)
        off = self.start(j)
        if there and self.items[j][0] == 'any': off = off + len(self.items[j][2].P)
        # one object of its own, to tell the loop head from what follows
        at = v.fresh('offset', 0)
        v.assume(at == off)
        l['offset'] = at
        g['at'], g['j'], g['there'] = at, j, there
    def measure(self, l): return 70000 - l['offset']

class AnyOrder:
    """the loop of a parser whose fields come in any order: at the loop head any text has been read, any of the fields are
    set, and what follows is one of them, a TLV of an unknown type, something that is no TLV, or nothing.

    fields: [(variable, object as parsed, wire, is a list)]; table: the fields are entries of the dict l['values'], by the
    argument names that l['name_class_pairs'] gives to the classes"""
    SCRATCH = ('inner_tlv', 'tlv', 'name_class', 'arg_name', 'clazz', 'keyid_tlv', 'der', 'hash_group', 'e')
    def __init__(self, v, fields, unknown, skips, base=0, table=False, order=lambda i, there: True, ends=None, there=None):
        self.v, self.fields, self.skips, self.base, self.table, self.scratch = v, fields, skips, base, table, self.SCRATCH
        self.unseen = Others(v.blob('elements so far', 4, 60000))
        self.there = there or [v.bool('read %d' % i) for i in range(len(fields))]
        self.k = v.int('in lists', 1, 10000)
        self.next = 'end' if ends else v.choice('next', list(range(len(fields))) + ['unknown', 'cut'] + (['end'] if ends is None else []))
        # unknown TLVs are text, too
        self.P = v.blob('text before', 0, 50000)
        v.assume(len(self.P) >= 4 * sum(self.there))
        if not skips and not any(self.there): v.assume(len(self.P) == 0)
        self.S = v.blob('text after', 0, 5000)
        self.bad = False
        if self.next == 'end': self.X = v.cat()
        elif self.next == 'cut':
            self.X = v.blob('no tlv', 1, 5000)
            v.assume(v.any(len(self.X) < 4, v.all(len(self.X) >= 4, 256 * self.X[2] + self.X[3] > len(self.X) - 4)) if len(self.X) >= 4 else True)
            self.bad = True
        elif self.next == 'unknown':
            self.X = unknown
            self.bad = not skips
        else:
            i = self.next
            self.X = fields[i][2]
            self.bad = (self.there[i] and not fields[i][3]) or not order(i, self.there)
        self.text = v.cat(self.P, self.X) if self.next in ('cut', 'end') else v.cat(self.P, self.X, self.S)
    def beside(self, v, fields, there):
        """the same text, read by a parser of other fields"""
        b = object.__new__(AnyOrder)
        b.__dict__.update(self.__dict__, fields=fields, there=there, next=self.next if self.next in ('cut', 'end') else 'unknown')
        b.bad = b.next == 'cut' or (b.next == 'unknown' and not b.skips)
        return b
    def applies(self, l):
        return not self.table or all(any(p[1] is f[0] for p in l['name_class_pairs']) for f in self.fields)
    def names(self, l):
        if not self.table: return [f[0] for f in self.fields]
        by = {c.class_type(): n for n, c in [(p[0], p[1]) for p in l['name_class_pairs']]}
        return [by[f[0].class_type()] for f in self.fields]
    def vars(self, l): return l['values'] if self.table else l
    def holds(self, l):
        v, g = self.v, l.g
        new = None
        if 'at' not in g: there, off = [False] * len(self.fields), self.base
        elif l['offset'] is g['at']: there, off = self.there, self.base + len(self.P)
        else:
            if self.bad: return [('a repeated, unknown or damaged field is refused', False)]
            off, there = self.base + len(self.P) + len(self.X), list(self.there)
            if self.next != 'unknown': new, there[self.next] = self.next, True
        cs = [('as far as the fields read', l['offset'] == off)]
        xs = self.vars(l)
        for i, n in enumerate(self.names(l)):
            f = self.fields[i]
            if f[3]: c = len(xs[n]) == (self.k if self.there[i] and 'at' in g else 0) + (1 if i == new else 0)
            elif not there[i]: c = xs[n] is None
            elif i == new: c = same_field(v, xs[n], f[1])
            else: c = xs[n] is f[1]
            if f[3] and i == new and not bool(same_field(v, xs[n][len(xs[n]) - 1], f[1])): c = False
            cs.append((n, c))
        if self.table: cs.append(('no other entries', len(xs) == len(l['name_class_pairs'])))
        return cs
    def havoc(self, l):
        xs = self.vars(l)
        if self.table: l.modifies(xs)
        for i, n in enumerate(self.names(l)):
            f = self.fields[i]
            if f[3]:
                l.modifies(xs[n])
                xs[n].clear()
                if self.there[i]: xs[n].extend(self.v.elements(self.unseen, 0, self.k))
            else: xs[n] = f[1] if self.there[i] else None
        at = self.v.fresh('offset', 0)
        self.v.assume(at == self.base + len(self.P))
        l['offset'] = l.g['at'] = at
    def measure(self, l): return 200000 - l['offset']
class OneOf:
    """different parsers that share a loop"""
    def __init__(self, *specs): self.specs, self.scratch = specs, specs[0].scratch
    def of(self, l): return [s for s in self.specs if s.applies(l)]
    def applies(self, l): return len(self.of(l)) == 1
    def holds(self, l): return self.of(l)[0].holds(l)
    def havoc(self, l): self.of(l)[0].havoc(l)
    def measure(self, l): return self.of(l)[0].measure(l)
def same_field(v, a, b): return type(a) is type(b) and v.all(type(a) is type(b), a == b, v.same_bytes(a.serialize(), b.serialize()))
