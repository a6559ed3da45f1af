import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
lv = json.load(open(os.path.join(V, 'levels.json')))
notes = json.load(open(os.path.join(V, 'tools/notes.json')))
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(V, 'specs', pid.lower() + '.py')):
        checks.append(dict(property=pid, quick_cmd=f"./check.py {pid} --tier quick", thorough_cmd=f"./check.py {pid} --tier thorough",
            technique="contract-based deductive verification: contracts on the real functions, VCs generated from /repo's own source (pyvc: symbolic execution, callee contracts, loop invariants, recursion and induction contracts), discharged by z3; counterexamples replayed on the real code",
            level=lv.get(pid, 'proof'), level_note=notes.get(pid, notes['default'])))
    else:
        na.append(dict(property=pid, reason=notes.get('na_' + pid, 'no check built yet')))
m = dict(version=1, setup_cmd="/opt/veriftools/pyvenv/bin/python -c 'import z3' && /opt/venv/bin/python -c 'import cryptography, crc32c'",
         hooks=dict(guard="none", enable="no hooks: /repo is instrumented in memory on every run; nothing in /repo is guarded", source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
