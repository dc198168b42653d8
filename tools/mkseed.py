"""Builds /verif/seeded/<id>/ from tools/seeds/*.py entries, confirming each in a scratch copy of /repo:
the patch applies, the repository's stable tests pass with it, the demo passes without and fails with it."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []


def seed(id, prop, file, old, new, needs, breaks, demo, count=1):
    SEEDS.append(dict(id=id, prop=prop, edits=[(file, old, new)] if isinstance(file, str) else list(file), needs=needs, breaks=breaks, demo=demo))


DEMO_SH = '#!/bin/bash\nPYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'
PRE = '''import numpy as np, xarray as xr, cftime, sys
import momlevel
from momlevel import derived, util, trend, reference
import momlevel as st
def check(ok, msg=""):
    if not ok:
        print("FAIL", msg); sys.exit(1)
'''


def main():
    exec(compile(open(os.path.join(HERE, "tools", "seeds.py")).read(), "seeds.py", "exec"), globals())
    only = sys.argv[1:]
    stable = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
    for s in SEEDS:
        if only and s["id"] not in only:
            continue
        tmp = f"/tmp/seed-{s['id']}"
        shutil.rmtree(tmp, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", tmp], check=True)
        out = os.path.join(HERE, "seeded", s["id"])
        os.makedirs(out, exist_ok=True)
        ok = True
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "demo.py"), "w").write(PRE + s["demo"].lstrip("\n"))
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
        r0 = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=tmp, capture_output=True, text=True)
        for f, old, new in s["edits"]:
            p = os.path.join(tmp, "src/momlevel", f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "old text occurs", t.count(old), "times in", f)
                ok = False
            open(p, "w").write(t.replace(old, new))
        d = subprocess.run(["git", "diff"], cwd=tmp, capture_output=True, text=True).stdout
        open(os.path.join(out, "patch.diff"), "w").write(d)
        r1 = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=tmp, capture_output=True, text=True)
        t = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=tmp, capture_output=True, text=True,
                           env=dict(os.environ, PYTHONPATH=tmp + "/src"))
        tail = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-300:]
        print(f"{s['id']}: demo clean={r0.returncode} bug={r1.returncode} tests: {tail}")
        if r0.returncode:
            print("   ", (r0.stdout + r0.stderr)[-400:])
        if not r1.returncode or not ok:
            print("    !!!", r1.stdout[-200:], r1.stderr[-200:])
        elif "Error" in r1.stderr:
            print("    (error)", r1.stderr.strip().splitlines()[-1][:150])
        shutil.rmtree(tmp, ignore_errors=True)


main()
