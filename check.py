#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property of /repo's current source."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from psa.interp import Program  # noqa: E402
from psa.report import Check  # noqa: E402


def load_known():
    with open(os.path.join(HERE, "known_findings.json")) as fh:
        return json.load(fh)["findings"]


class NoProgram:
    def __init__(self, root):
        self.root, self.files = root, []


def main(argv):
    pid = argv[1]
    tier = argv[argv.index("--tier") + 1] if "--tier" in argv else os.environ.get("VERIF_TIER", "quick")
    root = os.environ.get("PSA_ROOT", "/repo/src")
    mod = importlib.import_module("psa.checks." + pid.lower())
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        prog = Program(root)
    except Exception as e:  # the package cannot be read (it does not build either)
        chk = Check(pid, NoProgram(root), tier, seed, load_known())
        chk.undec("analysis", "package", f"{type(e).__name__}: {e}")
        return chk.finish(mod.META)
    chk = Check(pid, prog, tier, seed, load_known())
    try:
        mod.check(chk)
    except Exception as e:
        import traceback
        chk.undec("analysis", pid, f"{type(e).__name__}: {e} {traceback.format_exc()[-400:]}")
    return chk.finish(mod.META)


if __name__ == "__main__":
    if len(sys.argv) < 2:
        print(__doc__)
        sys.exit(2)
    if sys.argv[1] == "all":
        import subprocess
        rc = 0
        ids = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "psa", "checks")) if f.startswith("c") and f[1:-3].isdigit())
        for i in ids:
            rc |= subprocess.call([sys.executable, __file__, i] + sys.argv[2:])
        sys.exit(rc)
    sys.exit(main(sys.argv))
