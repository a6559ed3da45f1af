"""Author a planted bug: confirm it in a scratch copy and store it under seeded/<id>/.

Usage: plant.py SPEC.py [id...]   -- SPEC.py defines BUGS = {id: dict(property=, edits=[(path, old, new)], demo=python source, needs=, breaks=)}
Not used by any check.
"""
import json, os, pathlib, runpy, shutil, subprocess, sys, tempfile

HERE = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"

def sh(cmd, cwd, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8", TZ="UTC", PYTHONHASHSEED="0")
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:] or list(bugs)
    for bid in want:
        b = bugs[bid]
        tmp = pathlib.Path(tempfile.mkdtemp(prefix="plant-"))
        try:
            repo = tmp / "repo"
            subprocess.run(["cp", "-a", "/repo", str(repo)], check=True)
            out = HERE / "seeded" / bid
            demo_dir = tmp / "demo"; demo_dir.mkdir()
            (demo_dir / "demo.py").write_text(b["demo"].lstrip("\n"))
            (demo_dir / "demo.sh").write_text(
                '#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\n'
                'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
                'exec /opt/venv/bin/python "$here/demo.py"\n')
            os.chmod(demo_dir / "demo.sh", 0o755)
            r = sh(["bash", str(demo_dir / "demo.sh")], repo)
            if r.returncode != 0:
                print(bid, "DEMO FAILS ON CLEAN TREE", r.stdout[-800:]); continue
            for path, old, new in b["edits"]:
                p = repo / path
                s = p.read_text()
                if s.count(old) != 1:
                    print(bid, "edit does not match once:", path, s.count(old)); break
                p.write_text(s.replace(old, new))
            else:
                r = sh(["bash", str(demo_dir / "demo.sh")], repo)
                if r.returncode == 0:
                    print(bid, "DEMO PASSES WITH BUG"); continue
                msg = r.stdout.strip().splitlines()[-1:] if r.stdout.strip() else ""
                t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "--timeout=300", "tests"], repo)
                if "205 passed" not in t.stdout:
                    print(bid, "TESTS FAIL", t.stdout.strip().splitlines()[-3:]); continue
                d = sh(["git", "diff"], repo).stdout
                out.mkdir(parents=True, exist_ok=True)
                for f in ("demo.py", "demo.sh"):
                    shutil.copy(demo_dir / f, out / f)
                (out / "patch.diff").write_text(d)
                (out / "meta.json").write_text(json.dumps(
                    {"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
                print(bid, "ok:", msg)
        finally:
            shutil.rmtree(tmp)
main()
