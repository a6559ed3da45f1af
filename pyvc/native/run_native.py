"""native runner: random search or replay.  usage: run_native.py <json request on stdin>"""
import sys, os, json, time, random, hashlib, traceback, importlib, io, contextlib, signal, faulthandler
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.dirname(os.path.dirname(HERE)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
import pyvc_api as api
import logging
logging.disable(logging.CRITICAL)

class Timeout(BaseException): pass
def _alarm(*a): raise Timeout()

def attempt(con, source, replaying=False, limit=20):
    """-> (outcome, label, log, detail)"""
    v = api.V(source)
    v.replaying = replaying
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            con.fn(v)
        signal.setitimer(signal.ITIMER_REAL, 0)
        return 'ok', None, v.log, v.nens
    except api.Discard: return 'discard', None, v.log, None
    except Timeout: return 'timeout', None, v.log, None
    except api.Violated as e:
        return 'violated', e.label, v.log, 'contract clause false: ' + e.label
    except MemoryError: return 'memory', None, v.log, None
    except Exception as e:
        return 'violated', f"no {type(e).__name__} escapes", v.log, traceback.format_exc()[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        v.cleanup()

def main():
    req = json.load(sys.stdin)
    importlib.import_module('specs.' + req['pid'].lower())
    import ccnpy
    cons = {n: c for (p, n), c in api.CONTRACTS.items() if p == req['pid']}
    if req['mode'] == 'replay':
        con = cons[req['contract']]
        src = api.ReplaySource(req['inputs'])
        o, label, log, detail = attempt(con, src, True, 90)
        if o == 'timeout': o, label, detail = 'violated', 'the calls under contract return', 'no result within 90 s'
        print(json.dumps(dict(outcome=o, label=label, detail=detail, missing=src.missing)))
        return
    # random
    names = req['contracts'] if req['contracts'] is not None else sorted(cons)
    total = req['seconds']
    tw = sum(cons[n].weight for n in names)
    out = []
    for n in names:
        con = cons[n]
        if not con.native: continue
        share = total * con.weight / tw
        t0 = time.time()
        rng = random.Random(hashlib.sha256(f"{req['seed']}/{req['pid']}/{n}/{req.get('shard',0)}".encode()).digest())
        k = ok = disc = to = 0; slowest = 0.0
        seen = set()
        viol = known = None
        nens = 0
        sample = None
        while time.time() - t0 < share and k < req.get('max_runs', 10**9):
            k += 1
            src = api.RandomSource(random.Random(rng.getrandbits(64)))
            t1 = time.time()
            o, label, log, detail = attempt(con, src)
            if o == 'ok': slowest = max(slowest, time.time() - t1)
            if o == 'ok':
                ok += 1; nens += detail
                h = hashlib.md5(repr(sorted(log.items())).encode()).digest()[:8]
                seen.add(h)
                if sample is None or (ok < 20 and len(repr(log)) > len(repr(sample))): sample = log
            elif o == 'discard': disc += 1
            elif o == 'timeout':
                to += 1
                # every contract run takes well under 10 s on an idle machine
                o, label, log2, detail = attempt(con, api.ReplaySource(log), True, 90)
                if o == 'timeout':
                    viol = dict(label='the calls under contract return', inputs=log, detail='no result within 90 s')
                    break
                elif o == 'violated':
                    viol = dict(label=label, inputs=log2, detail=detail)
                    break
            elif o == 'memory': to += 1
            elif [n, label] in req.get('known', []): known = dict(label=label, inputs=log, detail=detail)
            else:
                viol = dict(label=label, inputs=log, detail=detail)
                break
        out.append(dict(contract=n, runs=k, ok=ok, discarded=disc, timeouts=to, distinct=len(seen), ensures=nens,
                        slowest_s=round(slowest, 2), violation=viol, known=known, sample={a: (str(b)[:80]) for a, b in list((sample or {}).items())[:12]}))
    print(json.dumps(out))
main()
