#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> [--tier quick|thorough]      decide one property on /repo's current tree
   check.py --replay <file>                          run a recorded counterexample against the real code
   check.py --baseline <property>                    (maintenance) rewrite baseline/<property>.json
exit 0: held; exit 1 + VIOLATION line: broken."""
import sys, os, json, time, subprocess, multiprocessing as mp, traceback, hashlib, tempfile, re
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
os.chdir(VERIF)
REPO = os.environ.get('VERIF_REPO', '/repo')
NATIVE = os.environ.get('VERIF_NATIVE_PY', '/opt/venv/bin/python')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
CHECKER = "pyvc (VC generation by instrumented execution of /repo's source) + z3"
TRUST = [
    "pyvc itself: transform.py (mechanical instrumentation), its models of CPython builtins, bytes/bytearray/array('B')/list/dict",
    "z3 (python3-vt z3-solver)",
    "models of external code: struct, array, hashlib/sha256 (ideal: injective), os.urandom (arbitrary bytes), crc32c (a function of the text), "
    "cryptography AES-GCM/CCM (ideal AEAD), RSA PKCS1v15 signature (ideal), RSA-OAEP (ideal, label- and key-bound), datetime.timestamp, logging (no effect)",
    "floats are reals followed by a rounding step rn(x) with |rn(x)-x| <= 2^-53 |x|, exact for integers and small quotients (theory.py); no infinities or NaNs except math.inf",
    "the loop, recursion, list and tree induction schemas of induct.py/seq.py (invariant established, preserved, measure decreasing => holds for all iterations); object identity of the state they havoc is checked by frame conditions",
    "__str__/__repr__/log text is opaque and has no effect",
]

def run_native(req, timeout):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', VERIF_REPO=REPO)
    td = tempfile.mkdtemp(prefix='pvn')
    try:
        p = subprocess.run([NATIVE, '-B', '-X', 'pycache_prefix=' + td, os.path.join(VERIF, 'pyvc/native/run_native.py')],
                           input=json.dumps(req), capture_output=True, text=True, timeout=timeout, env=env, cwd=td)
        if p.returncode != 0:
            return dict(error=p.stderr[-3000:])
        return json.loads(p.stdout.strip().splitlines()[-1])
    except subprocess.TimeoutExpired:
        return dict(error='timeout')
    finally:
        subprocess.run(['rm', '-rf', td])

def sym_worker(args):
    pid, name, prefixes, secs, active = args
    sys.setrecursionlimit(6000)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from pyvc import engine, api, summaries
    summaries.ACTIVE = set(active)
    con = api.CONTRACTS[(pid, name)]
    try:
        return engine.run_slice(con, prefixes, secs)
    except BaseException as e:
        r = engine.empty(con)
        r['unsupported'] = {f'engine: {type(e).__name__}: {str(e)[:300]}': 1}
        return r

class Sched:
    """explores the paths of all contracts on a process pool, a slice at a time"""
    def __init__(self, pool, engine, active, slice_s=4.0):
        self.pool, self.engine, self.active, self.slice_s = pool, engine, active, slice_s
        self.jobs = []
    def run(self, cons, budget_of, wall):
        import collections
        eng = self.engine
        res = {c.name: eng.empty(c) for c in cons}
        left = {c.name: [[]] for c in cons}           # prefixes not handed out
        out = {c.name: 0 for c in cons}
        order = sorted(cons, key=lambda c: -c.weight)
        t0 = time.time()
        running = []
        def stop(c):
            r = res[c.name]
            if len(r['violations']) >= 4: left[c.name] = []
            elif r['wall_s'] > budget_of(c) or time.time() - t0 > wall:
                if left[c.name]: r['budget'] = True
                left[c.name] = []
        while True:
            # hand out work: contracts with fewest running slices first
            for c in order: stop(c)
            while len(running) < JOBS:
                cand = [c for c in order if left[c.name]]
                if not cand: break
                c = min(cand, key=lambda c: (out[c.name], -c.weight))
                l = left[c.name]
                k = max(1, len(l) // (JOBS if len(cand) < 3 else 2))
                part, left[c.name] = l[:k], l[k:]
                out[c.name] += 1
                first = res[c.name]['paths'] == 0
                running.append((c, self.pool.apply_async(sym_worker, ((c.pid, c.name, part, 1.0 if first else self.slice_s, self.active),)), time.time()))
            if not running: break
            nxt = []
            got = False
            for c, r, ts in running:
                if r.ready():
                    got = True
                    out[c.name] -= 1
                    try: x = r.get()
                    except BaseException as e:
                        x = eng.empty(c); x['unsupported'] = {f'worker lost: {type(e).__name__}': 1}
                    eng.merge(res[c.name], x)
                    left[c.name] += x['left']
                elif time.time() - ts > 240:
                    got = True
                    out[c.name] -= 1
                    res[c.name]['unsupported']['worker lost or stuck'] = 1
                    left[c.name] = []
                else: nxt.append((c, r, ts))
            running = nxt
            if not got: time.sleep(0.02)
        return [eng.finish(res[c.name]) for c in cons]

def native_worker(args):
    req, timeout = args
    return run_native(req, timeout)

def load(pid):
    from pyvc import engine
    engine.load_spec('CALLEES')
    return engine.load_spec(pid), engine

def callee_contracts(engine):
    engine.load_spec('CALLEES')
    from pyvc import api
    return [c for (p, n), c in api.CONTRACTS.items() if p == 'CALLEES']

def known(pid):
    out = []
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\S+) contract=(\S+) label="([^"]*)" (.*)', l)
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3), m.group(4).strip()))
    return out

def check(pid, tier, write_baseline=False):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    quick = tier == 'quick'
    sym_secs = float(os.environ.get('VERIF_SYM_S', '75' if quick else '900'))
    nat_secs = float(os.environ.get('VERIF_NAT_S', '24' if quick else '300'))
    load_err = None
    try:
        cons, engine = load(pid)
    except BaseException as e:
        load_err = traceback.format_exc()[-1500:]
        cons = None
    results, natives, callees, active = [], [], [], []
    sys.setrecursionlimit(6000)
    if cons is None:
        # the instrumented tree cannot be loaded: the bounded stand-in decides
        names = re.findall(r"^@contract\('%s', '(\w+)'" % pid, open(os.path.join(VERIF, 'specs', pid.lower() + '.py')).read(), re.M)
        symc = []
    else:
        names = [c.name for c in cons if c.native]
        symc = [c for c in cons if c.sym]
    nshard = 2 if quick else 4
    reqs = []
    for sh in range(nshard):
        for g in range(2):
            part = names[g::2]
            if part:
                reqs.append((dict(mode='random', pid=pid, contracts=part, seed=seed, seconds=nat_secs, shard=sh, known=[[c, l] for c, l, _ in known(pid)]), nat_secs * 3 + 120))
    with mp.get_context('fork').Pool(JOBS, maxtasksperchild=4) as pool, mp.get_context('fork').Pool(4, maxtasksperchild=1) as pool2:
        rn = [pool2.apply_async(native_worker, (r,)) for r in reqs]
        active, callees = [], []
        if symc and pid != 'CALLEES':
            if pid != 'C02':
                callees = Sched(pool, engine, []).run(callee_contracts(engine), lambda c: 60, 90)
                if all(r['status'] == 'proved' for r in callees): active = sorted(r['contract'] for r in callees)
            results = Sched(pool, engine, active).run(symc, lambda c: sym_secs * c.weight, float(os.environ.get('VERIF_WALL_S', '240' if quick else '1500')))
        for r in rn:
            try: natives.append(r.get(timeout=nat_secs * 3 + 200))
            except BaseException as e: natives.append(dict(error=str(e)))
    bounded_of = {c.name: c.bounded for c in cons} if cons else {}
    base = baseline(pid)
    viol = []       # (contract, label, inputs, detail, found)
    # native violations are already replayed
    nerr = [n['error'] for n in natives if isinstance(n, dict)]
    nat = {}
    for n in natives:
        if isinstance(n, dict): continue
        for x in n:
            a = nat.setdefault(x['contract'], dict(runs=0, ok=0, discarded=0, timeouts=0, distinct=0, ensures=0, slowest_s=0, sample=None))
            for k in ('runs', 'ok', 'discarded', 'timeouts', 'distinct', 'ensures'): a[k] += x[k]
            a['slowest_s'] = max(a['slowest_s'], x['slowest_s'])
            a['sample'] = a['sample'] or x['sample']
            for w in [x['violation'], x['known']]:
                if not w: continue
                viol.append((x['contract'], w['label'], w['inputs'], w['detail'], 'bounded native search'))
    # symbolic refutations: replay on the real code
    notes = []
    for r in results:
        r['replayed'] = 0
        for w in r['violations']:
            if any(v[0] == r['contract'] for v in viol): 
                r['replayed'] += 1
                continue
            con = [c for c in cons if c.name == r['contract']][0]
            rep = {}
            if con.native:
                rep = run_native(dict(mode='replay', pid=pid, contract=r['contract'], inputs=w['inputs']), 200)
                if rep.get('outcome') == 'violated':
                    viol.append((r['contract'], rep['label'], w['inputs'], rep['detail'], 'verifier counterexample: obligation ' + w['label']))
                    r['replayed'] += 1
                    continue
            if 'inductive' in (con.tags or ()) and base.get('status', {}).get(con.name) == 'proved':
                # the counterexample is a state in the middle of a loop or a recursion: inputs alone do not lead to it
                viol.append((r['contract'], w['label'], w['inputs'], json.dumps(w['abstract']), None))
                continue
            notes.append(f"{r['contract']}: refuted obligation '{w['label']}' did not reproduce on the real code ({rep.get('outcome', rep)}) {w['abstract'][:2]}: undecided")
            r['status'] = 'undecided'
    # verdict
    kf = known(pid)
    lines, nviol = [], 0
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    seen = set()
    for c, label, inputs, detail, how in viol:
        if (c, label) in seen: continue
        seen.add((c, label))
        k = [x for x in kf if x[0] == c and x[1] == label]
        if k:
            lines.append(f"KNOWN-FINDING: property={pid} {k[0][2]}")
            continue
        nviol += 1
        p = os.path.join('replays', f"{pid}-{c}-{hashlib.md5(label.encode()).hexdigest()[:6]}.json")
        json.dump(dict(property=pid, contract=c, obligation=label, inputs=inputs, found_by=how, output=detail,
                       replay_cmd=f"./check.py --replay {p}"), open(os.path.join(VERIF, p), 'w'), indent=1)
        lines.append(f"VIOLATION property={pid} replay={p}" + ("" if how else " no-failing-input-found"))
        print(f"# {pid} contract {c}: obligation '{label}' fails ({how or 'no concrete input'})")
    # evidence
    obl = sum(len(r['obligations']) for r in results)
    dis = sum(1 for r in results for k, s in r['obligations'].items()
              if s[0] and not s[1] and not s[2] and r['status'] in ('proved',))
    proved = [r['contract'] for r in results if r['status'] == 'proved']
    undec = {r['contract']: dict(unsupported=list(r['unsupported'])[:4], unknown=r['unknown'], budget=r['budget'])
             for r in results if r['status'] not in ('proved', 'refuted')}
    changed = []
    if cons:
        for r in results:
            b = base.get('status', {}).get(r['contract'])
            if b == 'proved' and r['status'] != 'proved' and r['status'] != 'refuted': changed.append(r['contract'])
    level = LEVELS.get(pid, 'proof')
    fns = sorted({f for c in (cons or []) if c.sym for f in c.functions})
    modules = sorted(engine.FINDER.log) if cons else []
    cov = dict(
        obligations=obl, discharged=dis,
        obligation_instances=sum(s[0] + s[1] + s[2] for r in results for s in r['obligations'].values()),
        instances_discharged=sum(s[0] for r in results for s in r['obligations'].values()),
        checker_cmd=f"./check.py {pid} --tier {tier}", trusted_base=TRUST,
        backend=CHECKER, solver_s=round(sum(r['solver_s'] for r in results), 2), solver_queries=sum(r['queries'] for r in results),
        paths=sum(r['paths'] for r in results),
        contracts={r['contract']: dict(status=r['status'], unbounded=(not bounded_of.get(r['contract'])),
                                       bound=bounded_of.get(r['contract']), paths=r['paths'],
                                       obligations={k: dict(discharged=s[0], refuted=s[1], unknown=s[2]) for k, s in r['obligations'].items()},
                                       wall_s=r['wall_s']) for r in results},
        callee_contracts_used={r['contract']: dict(status=r['status'], obligations={k: dict(discharged=s[0], refuted=s[1], unknown=s[2]) for k, s in r['obligations'].items()}, in_use=r['contract'] in active) for r in callees},
        functions_under_contract=fns, modules_verified=[m for m in modules if m.startswith('ccnpy')],
        undecided=undec, notes=notes, no_longer_proved=changed,
        bounded_native=dict(rule="each contract is also run on the untouched real code with seeded boundary-biased inputs; distinct inputs counted; discarded = precondition false",
                            evaluations=sum(a['runs'] for a in nat.values()), distinct_nontrivial=sum(a['distinct'] for a in nat.values()),
                            per_contract=nat, errors=nerr),
        evaluations=sum(a['runs'] for a in nat.values()), distinct_nontrivial=sum(a['distinct'] for a in nat.values()),
        rule="contract preconditions satisfied and at least one clause evaluated on the real code; distinct by input",
        samples=[dict(contract=k, input=a['sample']) for k, a in list(nat.items())[:3]] + [s for r in results[:3] for s in r['samples'][:1]],
        explanation="deductive obligations on the real functions, discharged by z3; contracts whose bound is not null, and those listed as undecided, are decided by bounded checks only",
    )
    if load_err: cov['load_error'] = load_err
    own = json.load(open(os.path.join(VERIF, 'assumptions.json'))).get(pid, [])
    assumptions = TRUST + own + [f"bounded: {k}: {b}" for k, b in bounded_of.items() if b] + \
        [f"undecided deductively, bounded native run only: {k}" for k in undec]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=nviol)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w'), indent=1)
    if write_baseline:
        os.makedirs(os.path.join(VERIF, 'baseline'), exist_ok=True)
        json.dump(dict(status={r['contract']: r['status'] for r in sorted(results, key=lambda r: r['contract'])}, native=sorted(names)),
                  open(os.path.join(VERIF, 'baseline', f'{pid}.json'), 'w'), indent=1, sort_keys=True)
    for l in lines: print(l)
    print(f"{pid} {tier}: contracts {len(results)}, proved {len(proved)}, undecided {len(undec)}, obligations {obl} discharged {dis}, "
          f"native runs {cov['evaluations']}, violations {nviol}, {ev['wall_s']} s")
    for n in notes: print('  note:', n[:300])
    for k, u in undec.items(): print('  undecided:', k, json.dumps(u)[:400])
    if nerr: print('  native error:', nerr[0][-600:])
    if nviol: return 1
    if nerr and not nat:
        if any(not n.startswith('timeout') for n in nerr):
            # the functions under contract are gone or cannot be loaded
            p = os.path.join('replays', f"{pid}-load.json")
            json.dump(dict(property=pid, contract='load', obligation='the functions under contract exist and load', output=nerr[0]), open(p, 'w'))
            print(f"VIOLATION property={pid} replay={p} no-failing-input-found")
            return 1
    if not obl and not cov['evaluations']:
        print(f'{pid}: nothing examined')
        return 2
    return 0

def baseline(pid):
    f = os.path.join(VERIF, 'baseline', f'{pid}.json')
    return json.load(open(f)) if os.path.exists(f) else {}

LEVELS = {}
lv = os.path.join(VERIF, 'levels.json')
if os.path.exists(lv): LEVELS = json.load(open(lv))

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--replay':
        d = json.load(open(a[1]))
        r = run_native(dict(mode='replay', pid=d['property'], contract=d['contract'], inputs=d['inputs']), 300)
        print(json.dumps(r, indent=1))
        sys.exit(1 if r.get('outcome') == 'violated' else 0)
    wb = False
    if a[0] == '--baseline': wb = True; a = a[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    sys.exit(check(a[0], tier, wb))
