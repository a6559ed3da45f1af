"""runs contracts symbolically"""
import sys, os, time, traceback, json
import z3
from . import core, transform, models, api, seq, induct
from .core import *
from .seq import SymSeq, SymDict, SymSet

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Stats:
    def __init__(self):
        self.queries = 0; self.solver_s = 0.0

FINDER = None
def text(e):
    """str(e); the message may hold symbolic text"""
    try: return str(e)
    except Exception: return '...'

def install():
    global FINDER
    if FINDER is None:
        FINDER = transform.Finder({'ccnpy': os.path.join(REPO, 'ccnpy'), 'specs': os.path.join(VERIF, 'specs')},
                                  models.make_builtins(), models.Helper)
        sys.meta_path.insert(0, FINDER)
    return FINDER

class Recorder:
    def __init__(self):
        self.labels = {}      # label -> [proved, refuted, unknown]
        self.viol = []
        self.unknown = []
        self.notes = {}
        self.samples = []
    def obligation(self, label, c):
        cx = core.CTX
        st = self.labels.setdefault(label, [0, 0, 0])
        e = z3.simplify(zb(c))
        if z3.is_true(e):
            st[0] += 1
            return
        s = cx.solver
        s.set('timeout', core.PROVE_MS)
        cx.shared.queries += 1
        t = time.time()
        s.push()
        s.add(z3.Not(e))
        r = s.check()
        if r != z3.unsat and cx.float_axioms:
            s.add(*cx.float_axioms)
            r = s.check()
        m = s.model() if r == z3.sat else None
        s.pop()
        s.set('timeout', core.FEAS_MS)
        cx.shared.solver_s += time.time() - t
        if r == z3.unsat:
            st[0] += 1
            if len(self.samples) < 3: self.samples.append({'obligation': label, 'path_condition_size': len(cx.pc)})
            cx.add(e)
            return
        if r == z3.sat:
            st[1] += 1
            self.viol.append((label, extract(m), list(cx.abstract)))
            raise api.Refuted(label)
        st[2] += 1
        self.unknown.append(label)
        cx.add(e)
        if cx.solver.check() == z3.unsat: raise PathEnd("after unknown")

def extract(m):
    cx = core.CTX
    out = {}
    for name, kind, x in cx.inputs:
        if kind == 'int':
            out[name] = m.eval(x.e, model_completion=True).as_long()
        elif kind == 'choice':
            out[name] = x
        elif kind == 'bytes':
            b, n = x
            n = n if isinstance(n, int) else m.eval(n.e, model_completion=True).as_long()
            vals = []
            for i in range(min(n, 70000)):
                try: vals.append(m.eval(b.f(i), model_completion=True).as_long() & 0xFF)
                except Exception: vals.append(0)
            out[name] = bytes(vals).hex()
    return out

def run_slice(con, prefixes, seconds, max_paths=100000, max_viol=4):
    """explore the paths below the given decision prefixes for at most about `seconds`; what is left comes back as 'left'"""
    rec = Recorder()
    shared = Stats()
    t0 = time.time()
    deadline = t0 + seconds
    stack = list(prefixes)
    paths = ok = pruned = 0
    unsupported = {}
    max_trace = 0
    while stack:
        if paths and (time.time() > deadline or paths >= max_paths or len(rec.viol) >= max_viol): break
        prefix = stack.pop()
        # a single path may take longer than the slice
        cx = Ctx(prefix, max(deadline, time.time() + PATH_S), shared)
        core.CTX = cx
        paths += 1
        v = api.V(rec)
        try:
            con.fn(v)
            ok += 1
        except induct.LoopDone: ok += 1
        except PathEnd: pruned += 1
        except api.Refuted: pass
        except Budget: unsupported['path time limit'] = unsupported.get('path time limit', 0) + 1
        except Unsupported as e:
            k = f"{e} @ {where(e)}"
            unsupported[k] = unsupported.get(k, 0) + 1
        except z3.Z3Exception as e:
            k = f"z3: {e} @ {where(e)}"
            unsupported[k] = unsupported.get(k, 0) + 1
        except RecursionError as e:
            unsupported['recursion'] = 1
        except Exception as e:
            if os.environ.get('PYVC_TB'): import traceback; traceback.print_exc()
            if 'inductive' in con.tags and isinstance(e, (AttributeError, TypeError, NameError, ImportError)):
                # the contract's stand-ins no longer fit the code: says nothing about the property
                k = f"contract does not fit: {type(e).__name__}: {text(e)[:100]} @ {where(e)}"
                unsupported[k] = unsupported.get(k, 0) + 1
                stack.extend(cx.pending)
                continue
            # an exception the contract does not allow: feasible path => refuted
            label = f"no {type(e).__name__} escapes"
            if cx.float_axioms: cx.solver.add(*cx.float_axioms)
            r = cx.solver.check()
            if r == z3.sat:
                st = rec.labels.setdefault(label, [0, 0, 0]); st[1] += 1
                m = cx.solver.model()
                rec.viol.append((label, extract(m), list(cx.abstract) + [f"exception {type(e).__name__}: {text(e)[:200]} @ {where(e)}"]))
            elif r == z3.unknown:
                rec.labels.setdefault(label, [0, 0, 0])[2] += 1
                rec.unknown.append(label + f" ({e} @ {where(e)})")
        finally:
            for o, name, old in reversed(cx.undo): setattr(o, name, old)
            core.CTX = None
            restore_globals()
        stack.extend(cx.pending)
        max_trace = max(max_trace, len(cx.trace))
    return dict(contract=con.name, pid=con.pid, paths=paths, ok_paths=ok, pruned=pruned, obligations=rec.labels,
                violations=[dict(label=l, inputs=i, abstract=a) for l, i, a in rec.viol],
                unsupported=unsupported, unknown=rec.unknown[:5], queries=shared.queries,
                solver_s=shared.solver_s, wall_s=time.time() - t0, max_decisions=max_trace, samples=rec.samples, left=stack)

PATH_S = 60

GLOBALS = None
def note_globals():
    """module and class variables of /repo as they are when it has just been loaded: every path starts from them"""
    global GLOBALS
    GLOBALS = []
    for m in list(sys.modules.values()):
        if not getattr(m, '__name__', '').startswith('ccnpy'): continue
        for o in [m] + [c for c in vars(m).values() if isinstance(c, type) and c.__module__ == m.__name__ and not hasattr(c, '__members__')]:
            for k, x in list(vars(o).items()):
                if k.startswith('__'): continue
                if x is None or isinstance(x, (int, str, float, bytes)): GLOBALS.append((o, k, x, None))
                elif isinstance(x, SymSeq) and x.kind == 'list': GLOBALS.append((o, k, x, x.copy().segs))
                elif isinstance(x, SymDict): GLOBALS.append((o, k, x, [list(y) for y in x.ents]))
                elif isinstance(x, SymSet): GLOBALS.append((o, k, x, [list(y) for y in x.d.ents]))

def restore_globals():
    if GLOBALS is None: note_globals()
    for o, k, x, inner in GLOBALS:
        if o.__dict__.get(k) is not x: setattr(o, k, x)
        if inner is None: continue
        if isinstance(x, SymSeq): x.segs = SymSeq('list', inner).copy().segs
        elif isinstance(x, SymDict): x.ents = [list(y) for y in inner]
        else: x.d.ents = [list(y) for y in inner]

def empty(con):
    return dict(contract=con.name, pid=con.pid, status='undecided', paths=0, ok_paths=0, pruned=0, obligations={}, violations=[],
                unsupported={}, unknown=[], queries=0, solver_s=0.0, wall_s=0.0, max_decisions=0, samples=[], left=[], budget=False)

def merge(a, b):
    for k in ('paths', 'ok_paths', 'pruned', 'queries', 'solver_s', 'wall_s'): a[k] += b[k]
    for k, st in b['obligations'].items():
        x = a['obligations'].setdefault(k, [0, 0, 0])
        for i in range(3): x[i] += st[i]
    a['violations'] += b['violations']
    for k, n in b['unsupported'].items(): a['unsupported'][k] = a['unsupported'].get(k, 0) + n
    a['unknown'] = (a['unknown'] + b['unknown'])[:5]
    a['max_decisions'] = max(a['max_decisions'], b['max_decisions'])
    a['samples'] = (a['samples'] + b['samples'])[:3]
    return a

def finish(a):
    a['proved'] = sum(x[0] for x in a['obligations'].values())
    if a['violations']: a['status'] = 'refuted'
    elif a['unsupported'] or a['unknown'] or a['budget']: a['status'] = 'undecided'
    elif a['proved'] == 0 or a['ok_paths'] == 0: a['status'] = 'vacuous'
    else: a['status'] = 'proved'
    a['solver_s'] = round(a['solver_s'], 2); a['wall_s'] = round(a['wall_s'], 2)
    a.pop('left', None)
    return a

def run_contract(con, seconds):
    a = empty(con)
    b = run_slice(con, [[]], seconds)
    merge(a, b)
    a['budget'] = bool(b['left']) and not b['violations']
    return finish(a)

def where(e):
    tb = e.__traceback__
    out = []
    while tb:
        f = tb.tb_frame.f_code
        if '/ccnpy/' in f.co_filename or '/specs/' in f.co_filename:
            out.append(f"{os.path.basename(f.co_filename)}:{tb.tb_lineno}")
        tb = tb.tb_next
    return '>'.join(out[-3:])

def load_spec(pid):
    import importlib
    install()
    importlib.import_module(f"specs.{pid.lower()}")
    note_globals()
    return [c for (p, n), c in api.CONTRACTS.items() if p == pid]

if __name__ == '__main__':
    pid = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    secs = float(sys.argv[3]) if len(sys.argv) > 3 else 60
    sys.setrecursionlimit(5000)
    from . import summaries
    if pid != 'CALLEES' and pid != 'C02': summaries.ACTIVE.update(['number_to_array', 'array_to_number'])
    for c in load_spec(pid):
        if only and only not in c.name: continue
        if not c.sym: continue
        r = run_contract(c, secs)
        short = {k: r[k] for k in ('contract', 'status', 'paths', 'ok_paths', 'proved', 'wall_s', 'solver_s', 'queries')}
        print(json.dumps(short))
        for x in r['violations']: print('   VIOL', json.dumps(x)[:600])
        for x in list(r['unsupported'].items())[:6]: print('   UNSUP', x)
        if r['unknown']: print('   UNKNOWN', r['unknown'])
        if r['budget']: print('   BUDGET')
