"""Mechanical instrumentation of the source of /repo, redone from the current tree on every run.

What it does (and all it does): loops get a head at which a registered invariant (induct.py) cuts them, otherwise they run
as they are; list/dict/set displays and comprehensions build pyvc containers; truth
tests, and/or/not go through pyvc so that symbolic conditions split the path; bytes literals become pyvc
sequences; f-strings and %-formats become opaque strings when they contain symbolic values; builtins and
imported external modules are replaced by their pyvc counterparts/models; annotations are not evaluated
(as with `from __future__ import annotations`).  Control flow, calls, assignments, attributes, classes,
arithmetic, comparisons and exceptions run as CPython runs them.
"""
import ast, builtins, os, sys, types, __future__, importlib.abc, importlib.machinery, hashlib

HELP = '_pv'

def _h(name, *args):
    return ast.Call(func=ast.Attribute(value=ast.Name(id=HELP, ctx=ast.Load()), attr=name, ctx=ast.Load()),
                    args=list(args), keywords=[])

def _lam(args, body):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args], vararg=None,
                      kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]), body=body)

def _has_yield(node):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for n in ast.walk(node))

def _stored(body):
    """names assigned in the statements (not in nested functions)"""
    out, todo = [], list(body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)): out.append(x.name)
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in out: out.append(x.id)
        todo += list(ast.iter_child_nodes(x))
    return sorted(set(out))

def _rebind(var, names, arrive=False):
    """if the loop is cut by an invariant: bind the variables the loop changes to what the invariant says"""
    src = f"if {var}.on:\n"
    src += f"    {var}.l = {var}.arrive({{k: x for k, x in {HELP}.locals().items() if k[:4] != '_pv_'}})\n" if arrive else f"    pass\n"
    for x in names: src += f"    if {x!r} in {var}.l.rebound: {x} = {var}.l[{x!r}]\n"
    return ast.parse(src).body

class T(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.fn = []
        self.loopno = {}
        self.depth = 0
        self.tmp = 0

    # ---- containers
    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and any(isinstance(x, ast.Starred) for x in n.elts):
            return _h('Ls', *[ast.Tuple(elts=[ast.Constant(isinstance(x, ast.Starred)), x.value if isinstance(x, ast.Starred) else x], ctx=ast.Load()) for x in n.elts])
        return _h('L', n) if isinstance(n.ctx, ast.Load) else n
    def visit_ListComp(self, n):
        self.generic_visit(n)
        g = n.generators[0]
        if len(n.generators) == 1 and isinstance(g.target, ast.Name) and not _has_yield(n):
            conds = [_lam([g.target.id], c) for c in g.ifs]
            return _h('lcomp', _lam([g.target.id], n.elt), g.iter, ast.Tuple(elts=conds, ctx=ast.Load()))
        return _h('LC', ast.GeneratorExp(elt=n.elt, generators=n.generators))
    def visit_Dict(self, n):
        self.generic_visit(n)
        if any(k is None for k in n.keys):
            parts = [ast.Tuple(elts=[ast.Constant(k is None), k or ast.Constant(None), v], ctx=ast.Load())
                     for k, v in zip(n.keys, n.values)]
            return _h('Dm', *parts)
        return _h('D', *[ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(n.keys, n.values)])
    def visit_DictComp(self, n):
        self.generic_visit(n)
        return _h('DG', ast.GeneratorExp(elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), generators=n.generators))
    def visit_Set(self, n):
        self.generic_visit(n)
        return _h('S', ast.Tuple(elts=n.elts, ctx=ast.Load()))
    def visit_SetComp(self, n):
        self.generic_visit(n)
        return _h('S', ast.GeneratorExp(elt=n.elt, generators=n.generators))
    def visit_comprehension(self, n):
        self.generic_visit(n)
        n.ifs = [_h('t', c) for c in n.ifs]
        return n
    # ---- truth
    def visit_If(self, n):
        self.generic_visit(n); n.test = _h('t', n.test); return n
    def visit_IfExp(self, n):
        self.generic_visit(n); n.test = _h('t', n.test); return n
    def visit_Assert(self, n):
        self.generic_visit(n); n.test = _h('t', n.test); return n
    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not): n.operand = _h('t', n.operand)
        return n
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if _has_yield(n): return n
        return _h('and_' if isinstance(n.op, ast.And) else 'or_', n.values[0], *[_lam([], v) for v in n.values[1:]])
    # ---- strings and bytes
    def visit_Constant(self, n):
        if isinstance(n.value, bytes): return _h('B', n)
        return n
    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant): parts.append(v)
            else:
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion),
                             self.visit(v.format_spec) if v.format_spec else ast.Constant('')], ctx=ast.Load()))
        return _h('fs', *parts)
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and not (isinstance(n.left, ast.Constant) and not isinstance(n.left.value, str)):
            return _h('mod', n.left, n.right)
        return n
    # ---- loops
    def _loop(self, n):
        key = '.'.join(self.fn)
        k = self.loopno.get(key, 0)
        self.loopno[key] = k + 1
        return f"{self.mod}:{key}#{k}"
    def _cuttable(self, n):
        # inside a function; generators keep their own control flow
        return self.depth > 0
    def visit_While(self, n):
        lid = self._loop(n)
        names = _stored(n.body)
        self.generic_visit(n)
        n.test = _h('t', n.test)
        if not self._cuttable(n) or n.orelse: return n
        # while T: B   ->   while True: (cut loops: invariant here); if not T: break; B
        self.tmp += 1
        var = f'_pv_l{self.tmp}'
        new = ast.While(test=ast.Constant(True), orelse=[],
                        body=_rebind(var, names, arrive=True) + [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=[ast.Break()], orelse=[])] + n.body)
        return [ast.Assign(targets=[ast.Name(id=var, ctx=ast.Store())], value=_h('loop', ast.Constant(lid))), ast.copy_location(new, n)]
    def visit_For(self, n):
        lid = self._loop(n)
        names = _stored(n.body)
        self.generic_visit(n)
        if not self._cuttable(n):
            n.iter = _h('it', n.iter)
            return n
        self.tmp += 1
        var = f'_pv_l{self.tmp}'
        n.iter = _h('fit', ast.Name(id=var, ctx=ast.Load()), n.iter)
        n.body = _rebind(var, names) + n.body
        n.orelse = _rebind(var, names) + n.orelse
        return [ast.Assign(targets=[ast.Name(id=var, ctx=ast.Store())], value=_h('floop', ast.Constant(lid))), n]
    # ---- functions
    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        self.depth += 1
        n.returns = None
        a = n.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            x.annotation = None
        self._pure_generator(n)
        self.generic_visit(n)
        self.depth -= 1
        self.fn.pop()
        return n
    def _pure_generator(self, n):
        # a body that is only `for x in E: yield x` (or `yield from E`): an iterator over E
        b = [s for s in n.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if len(b) != 1: return
        s, e = b[0], None
        if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name) and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) \
                and isinstance(s.body[0].value, ast.Yield) and isinstance(s.body[0].value.value, ast.Name) and s.body[0].value.value.id == s.target.id:
            e = s.iter
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.YieldFrom): e = s.value.value
        if e is None or _has_yield(e): return
        n.body = [ast.Return(value=_h('genrope', _lam([], e)))]
    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        d, self.depth = self.depth, 0
        self.generic_visit(n)
        self.depth = d
        self.fn.pop()
        return n
    def visit_AnnAssign(self, n):
        n.value = self.visit(n.value) if n.value is not None else None
        return n

def transform(src, filename, modname):
    tree = ast.parse(src, filename)
    t = T(modname)
    body = []
    for st in tree.body:
        # docstrings stay
        body.append(t.visit(st))
    tree.body = body
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', flags=__future__.annotations.compiler_flag, dont_inherit=True)

class Loader(importlib.abc.Loader):
    def __init__(self, path, builtins_dict, helper, log):
        self.path, self.bd, self.helper, self.log = path, builtins_dict, helper, log
    def create_module(self, spec): return None
    def exec_module(self, module):
        with open(self.path, 'rb') as f: raw = f.read()
        self.log[module.__name__] = (self.path, hashlib.sha256(raw).hexdigest())
        code = transform(raw.decode(), self.path, module.__name__)
        module.__dict__['__builtins__'] = self.bd
        module.__dict__[HELP] = self.helper
        exec(code, module.__dict__)
        from . import summaries
        summaries.after_load(module)

class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots, builtins_dict, helper):
        self.roots = roots           # {'ccnpy': '/repo/ccnpy', 'specs': '/verif/specs'}
        self.bd, self.helper = builtins_dict, helper
        self.log = {}
    def find_spec(self, name, path=None, target=None):
        parts = name.split('.')
        if parts[0] not in self.roots: return None
        p = os.path.join(self.roots[parts[0]], *parts[1:])
        if os.path.isdir(p):
            init = os.path.join(p, '__init__.py')
            if os.path.exists(init):
                return self._pkg(name, init, p)
            s = importlib.machinery.ModuleSpec(name, None, is_package=True)
            s.submodule_search_locations = [p]
            return s
        f = p + '.py'
        if os.path.exists(f):
            s = importlib.machinery.ModuleSpec(name, Loader(f, self.bd, self.helper, self.log), origin=f)
            s.has_location = True
            return s
        return None
    def _pkg(self, name, init, p):
        s = importlib.machinery.ModuleSpec(name, Loader(init, self.bd, self.helper, self.log), origin=init, is_package=True)
        s.submodule_search_locations = [p]
        return s
