"""Obligations, findings and evidence."""
import json
import os
import time
import traceback

from .interp import AnchorLost, Unsupported

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("PSA_EVIDENCE") or os.path.join(HERE, "evidence")


def last(it):
    """The repository function that ran last on the path."""
    if getattr(it, "last_fn", None) is None:
        return None
    f, node = it.last_fn
    return f"{os.path.relpath(f.module.path, os.path.dirname(it.prog.root))}:{getattr(node, 'lineno', f.node.lineno)} ({f.qual})"


class Stop(Exception):
    pass


class Check:
    def __init__(self, pid, prog, tier, seed, known):
        self.pid, self.prog, self.tier, self.seed = pid, prog, tier, seed
        self.known = known
        self.ok_n = 0
        self.rules = {}
        self.findings = []
        self.undecided = []
        self.samples = []
        self.paths = 0
        self.functions = set()
        self.t0 = time.time()
        self.current = None
        prog.deadline = self.t0 + (500 if tier == "quick" else 5000)

    # ------------------------------------------------------------------ recording
    def ok(self, rule, construct, n=1):
        self.ok_n += n
        self.rules[rule] = self.rules.get(rule, 0) + n
        if len(self.samples) < 400:
            self.samples.append(f"{rule}: {construct}")

    def bad(self, rule, construct, detail, where=None, path=None):
        if path is not None and path.interp.opaque:
            self.undec(rule, construct, f"depends on the unmodelled {path.interp.opaque[0]}")
            return
        self.rules[rule] = self.rules.get(rule, 0) + 1
        f = {"property": self.pid, "rule": rule, "construct": construct, "detail": detail, "where": where}
        if path is not None:
            f["path"] = path.describe_facts()[:2000]
            f["where"] = where or path.where or last(path.interp)
            f["effects"] = [repr(e)[:300] for e in path.effects if e.kind not in ("log",)][-12:]
        k = (rule, construct)
        if k not in {(x["rule"], x["construct"]) for x in self.findings}:
            self.findings.append(f)

    def undec(self, rule, construct, why):
        self.undecided.append({"rule": rule, "construct": construct, "why": str(why)[:500]})

    def need(self, cond, rule, construct, detail, where=None, path=None):
        if cond:
            self.ok(rule, construct)
        else:
            self.bad(rule, construct, detail, where, path)
        return cond

    def attempt(self, rule, construct, fn):
        """Decide one obligation; code the analysis does not understand leaves it undecided, never an alarm."""
        n = len(self.findings)
        if n and time.time() - self.t0 > 60:
            self.undec(rule, construct, "not looked at, violations were found before")
            return None
        self.current = construct
        try:
            return fn()
        except (Unsupported, AnchorLost) as e:
            del self.findings[n:]
            self.undec(rule, construct, f"{type(e).__name__}: {e}")
        except Stop:
            pass
        except Exception as e:  # the analyser met something it has no model for
            del self.findings[n:]
            self.undec(rule, construct, f"{type(e).__name__}: {e} {traceback.format_exc().splitlines()[-3].strip()}")
        return None

    def seen(self, paths):
        self.paths += len(paths)
        for why in sorted(set(getattr(paths, "incomplete", [])))[:5]:
            self.undec("paths", self.current or "", why)
        for p in paths:
            self.functions |= p.interp.fn_seen
        return paths

    # ------------------------------------------------------------------ output
    def finish(self, meta):
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        new, known = [], []
        for f in self.findings:
            e = next((k for k in self.known if k.get("status") == "open" and k["property"] == self.pid
                      and k["rule"] == f["rule"] and k["construct"] == f["construct"]), None)
            (known if e else new).append((f, e))
        for i, (f, _) in enumerate(new):
            path = os.path.join(EVID, "replay", f"{self.pid}-{i + 1}.json")
            with open(path, "w") as fh:
                json.dump(f, fh, indent=1)
            print(f"VIOLATION property={self.pid} replay={path}")
            print(f"  {f['rule']}: {f['construct']}: {f['detail']} [{f['where']}]")
        for f, e in known:
            print(f"KNOWN-FINDING: property={self.pid} {e['what']}")
        for u in self.undecided[:20]:
            print(f"undecided {u['rule']}: {u['construct']}: {u['why']}")
        cov = {
            "explanation": meta["explanation"],
            "rules": meta["rules"],
            "obligations": self.ok_n + len(self.findings) + len(self.undecided),
            "discharged": self.ok_n,
            "violated": len(self.findings),
            "undecided": self.undecided,
            "by_rule": self.rules,
            "abstract_paths": self.paths,
            "functions_analysed": sorted(f"{m}:{q}" for m, q in self.functions),
            "files_analysed": sorted(os.path.relpath(f, os.path.dirname(self.prog.root)) for f in self.prog.files),
            "sample_obligations": self.samples,
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": meta["level"], "coverage": cov,
              "wall_s": round(time.time() - self.t0, 3)}
        if "extra" in meta:
            cov.update(meta["extra"])
        with open(os.path.join(EVID, f"{self.pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        print(f"{self.pid}: {cov['obligations']} obligations, {self.ok_n} discharged, {len(new)} violations, "
              f"{len(known)} known, {len(self.undecided)} undecided, {self.paths} paths, {ev['wall_s']} s")
        return 1 if new else 0
