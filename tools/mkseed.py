#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID ...]: build, validate and store planted bugs.

SPEC.py defines SEEDS, a list of dicts: id, property, edits [(file, old, new)], demo (python source; run with the repo's
src first on sys.path), needs, what_it_breaks.  A bug is stored under seeded/<id> only if the 588 stable tests pass with
it and its demo passes without and fails with it.  Everything happens in a scratch copy of /repo.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]

DEMO = """#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1
exec env PYTHONPATH="$PWD/src" /opt/venv/bin/python "$here/demo.py"
"""


def sh(cmd, cwd, **kw):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=os.path.join(cwd, "src"), PYTHONHASHSEED="0")
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=env, **kw)


def norm(t):
    return t.replace('::', '.').replace('/', '.').replace('.py', '')


def one(s):
    w = f"/tmp/seedw/{s['id']}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(os.path.dirname(w), exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    out = [f"{s['id']} ({s['property']}):"]
    try:
        d = os.path.join(w, "demo_dir")
        os.makedirs(d)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        r = sh(["bash", os.path.join(d, "demo.sh")], w)
        if r.returncode != 0:
            return "\n".join(out + ["  DEMO FAILS UNPATCHED", r.stdout[-1500:], r.stderr[-1500:]])
        for f, old, new in s["edits"]:
            p = os.path.join(w, f if f.startswith("src/") else "src/psrpcore/" + f)
            t = open(p).read()
            if t.count(old) != 1:
                return "\n".join(out + [f"  EDIT matches {t.count(old)} times in {f}: {old[:60]!r}"])
            open(p, "w").write(t.replace(old, new))
        r = sh(["bash", os.path.join(d, "demo.sh")], w, timeout=300)
        if r.returncode == 0:
            return "\n".join(out + ["  DEMO PASSES WITH THE BUG"])
        demo_tail = (r.stderr.strip().splitlines() or [""])[-1]
        r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-rA"], w)
        ok = {l.split(" ", 1)[1].split(" - ")[0] for l in r.stdout.splitlines() if l.startswith("PASSED ")}
        missing = [t for t in STABLE if norm(t) not in {norm(o) for o in ok}]
        if missing:
            return "\n".join(out + [f"  TESTS FAIL: {len(missing)}: {missing[:4]}"])
        diff = subprocess.run(["git", "-C", w, "diff", "--", "src"], capture_output=True, text=True).stdout
        dst = os.path.join(HERE, "seeded", s["id"])
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        open(os.path.join(dst, "patch.diff"), "w").write(diff)
        shutil.copy(os.path.join(d, "demo.py"), dst)
        shutil.copy(os.path.join(d, "demo.sh"), dst)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what_it_breaks"]}, open(os.path.join(dst, "meta.json"), "w"), indent=1)
        out.append(f"  valid; demo: {demo_tail[:150]}")
        out.append(check(s["property"], w))
    except Exception as e:
        out.append("  ERROR %r" % e)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return "\n".join(out)


def check(pid, w):
    if not os.path.exists(os.path.join(HERE, "psa/checks", pid.lower() + ".py")):
        return "  (no check yet)"
    env = dict(os.environ, PSA_ROOT=os.path.join(w, "src"), PSA_EVIDENCE=os.path.join(w, "ev"))
    r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), pid], capture_output=True, text=True, env=env)
    lines = [l for l in r.stdout.splitlines() if not l.startswith("VIOLATION")][:4]
    return f"  check {pid}: exit {r.returncode} " + ("CAUGHT" if r.returncode == 1 else "MISSED") + "\n" + "\n".join("      " + l[:300] for l in lines) + r.stderr[-500:]


def recheck(i):
    """Run the check against a stored bug."""
    w = f"/tmp/seedw/{i}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(os.path.dirname(w), exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    try:
        d = os.path.join(HERE, "seeded", i)
        r = subprocess.run(["git", "-C", w, "apply", os.path.join(d, "patch.diff")], capture_output=True, text=True)
        if r.returncode:
            return f"{i}: PATCH DOES NOT APPLY {r.stderr[:200]}"
        return f"{i}: " + check(json.load(open(os.path.join(d, "meta.json")))["property"], w)
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "recheck":
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
        with ThreadPoolExecutor(8) as ex:
            for r in ex.map(recheck, ids):
                print(r)
    else:
        seeds = runpy.run_path(sys.argv[1])["SEEDS"]
        if sys.argv[2:]:
            seeds = [s for s in seeds if s["id"] in sys.argv[2:]]
        with ThreadPoolExecutor(8) as ex:
            for r in ex.map(one, seeds):
                print(r)
