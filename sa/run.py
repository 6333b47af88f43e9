"""python3 -m sa.run <PROPERTY> : run one check against the current tree of /repo"""
from __future__ import annotations

import importlib
import json
import os
import sys
import time
import traceback

from .interp import DEADLINE, Cut, Engine, Stop
from .program import AnchorError, Program

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.p = Program(REPO)
        self.findings = {}
        self.obligations = {}
        self.engines = []
        self.assumptions = []
        self.info = {}
        self.rules = {}
        self.cuts = []
        self.new = 0

    def rule(self, rid, text):
        self.rules[rid] = text

    def client(self, src):
        self.p.add_client(src)

    def engine(self, env=None, **kw):
        e = Engine(self.p, env, **kw)
        if env is not None and hasattr(env, "setup"):
            env.setup(e)
        self.new += len(self.engines[-1].findings) if self.engines else 0
        self.engines.append(e)
        if self.new > 60 and any(not is_known(self.pid, f) for x in self.engines for f in x.findings.values()):
            raise Stop("enough violations")
        return e

    def report(self, rule, construct, msg, at=None, path=()):
        k = (rule, construct, msg)
        if k not in self.findings:
            self.findings[k] = {"rule": rule, "construct": construct, "message": msg, "at": at, "path": list(path)}

    def oblige(self, name, n=1):
        self.obligations[name] = self.obligations.get(name, 0) + n

    def total(self, name):
        return self.obligations.get(name, 0) + sum(e.obligations.get(name, 0) for e in self.engines)

    def need(self, name, n):
        """the rule must have matched at least n instances (a rule matching nothing passes vacuously)"""
        if self.total(name) < n:
            raise AnchorError(f"rule instance count for '{name}' is {self.total(name)}, at least {n} confirmed by hand")

    def undecided(self, text):
        """a configuration whose analysis was given up (reported in the evidence; the instance counts bound how many may be)"""
        self.cuts.append(text)

    def assume(self, text):
        self.assumptions.append(text)

    def collect(self):
        for e in self.engines:
            for k, f in e.findings.items():
                self.findings.setdefault(k, f)


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x for x in json.load(f) if x["property"] == pid and x["status"] == "known"]


def is_known(pid, f):
    return next((x for x in known_findings(pid) if x["rule"] == f["rule"] and x["construct"] == f["construct"] and x.get("message") in (None, f["message"])), None)


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ctx = None
    try:
        DEADLINE[0] = t0 + (500 if tier == "quick" else 3600)
        mod = importlib.import_module(f"sa.checks.{pid.lower()}")
        ctx = Ctx(pid, tier)
        mod.run(ctx)
        ctx.collect()
    except (AnchorError, Cut, Stop) as ex:
        # what was established before the analysis had to stop is still a violation
        if ctx is not None:
            ctx.collect()
        if ctx is None or not any(not is_known(pid, f) for f in ctx.findings.values()):
            print(f"ANALYSIS-BROKEN property={pid}: {ex}")
            return 2
    except SyntaxError as ex:
        print(f"ANALYSIS-BROKEN property={pid}: cannot parse the tree: {ex}")
        return 2
    except Exception:
        print(f"ANALYSIS-BROKEN property={pid}:")
        traceback.print_exc()
        return 2
    viol, kn = [], []
    for (rule, construct, msg), f in sorted(ctx.findings.items(), key=lambda kv: repr(kv[0])):
        k = is_known(pid, f)
        if k:
            kn.append((k, f))
        else:
            viol.append(f)
    fns = {}
    for e in ctx.engines:
        fns.update(e.fns_seen)
    obl = dict(ctx.obligations)
    for e in ctx.engines:
        for k, v in e.obligations.items():
            obl[k] = obl.get(k, 0) + v
    total = sum(obl.values())
    coverage = {
        "explanation": mod.__doc__.strip() if mod.__doc__ else "",
        "rules": ctx.rules,
        "rule_instances": obl,
        "rule_instances_total": total,
        "functions_analysed": dict(sorted(fns.items())),
        "functions_analysed_count": len(fns),
        "call_sites_interpreted": sum(len(e.sites) for e in ctx.engines),
        "abstract_steps": sum(e.steps for e in ctx.engines),
        "modules_parsed": len(ctx.p.modules),
        "loop_cuts": sorted(set().union(*[e.loopcuts for e in ctx.engines]) if ctx.engines else []),
        "undecided": ctx.cuts,
        "known_findings": [k["what"] for k, _ in kn],
        "unmodelled": sorted(set(n for e in ctx.engines for n in e.notes))[:20],
    }
    coverage.update(ctx.info)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": coverage,
        "assumptions": ctx.assumptions, "wall_s": round(time.time() - t0, 3), "violations": len(viol),
    }
    base = os.environ.get("SA_OUT", VERIF)
    os.makedirs(os.path.join(base, "evidence"), exist_ok=True)
    with open(os.path.join(base, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    if total == 0:
        print(f"ANALYSIS-BROKEN property={pid}: no rule instance was examined")
        return 2
    seen = set()
    for k, f in kn:
        if k["what"] not in seen:
            seen.add(k["what"])
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if viol:
        out = os.path.join(base, "out")
        os.makedirs(out, exist_ok=True)
        rp = os.path.join(out, f"{pid}.txt")
        with open(rp, "w") as fh:
            for f in viol:
                fh.write(f"[{f['rule']}] {f['construct']}: {f['message']}\n  at {f['at']}\n  rule: {ctx.rules.get(f['rule'], '')}\n  path:\n")
                for ln in f["path"]:
                    fh.write(f"    {ln}\n")
                fh.write("\n")
        for f in viol[:12]:
            print(f"  [{f['rule']}] {f['construct']}: {f['message']} (at {f['at']})")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    print(f"OK property={pid} rule_instances={total} functions={len(fns)} wall={time.time()-t0:.1f}s")
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
