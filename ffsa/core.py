"""Check driver: obligations, known findings, evidence and verdict lines."""
from __future__ import annotations

import ast
import importlib
import inspect
import json
import os
import sys
import time
import traceback

from .project import AnalysisBroken, Project

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("FFSA_EVIDENCE", os.path.join(VERIF, "evidence"))


class Ctx:
    def __init__(self, pid, tier, proj=None):
        self.pid = pid
        self.tier = tier
        self.p = proj or Project()
        self.obligations = []  # (rule, construct, ok)
        self.viol = []
        self.notes = []
        self.floors = {}
        self.analysed = set()
        self.skipped = []
        self.canaries = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def check(self, rule, construct, ok, loc="", msg=""):
        """One obligation: `construct` satisfies `rule`."""
        self.obligations.append((rule, construct, bool(ok)))
        if not ok:
            self.viol.append({"rule": rule, "construct": construct, "loc": loc, "message": msg})
        return bool(ok)

    def note(self, s):
        self.notes.append(s)

    def skip(self, rule, construct, why):
        """An instance the analysis cannot decide (neither pass nor violation)."""
        self.skipped.append({"rule": rule, "construct": construct, "why": why})

    def floor(self, rule, n):
        """The rule must have had at least n instances (guards against vacuous passes)."""
        self.floors[rule] = n

    def func(self, q):
        f = self.p.func(q)
        self.analysed.add(f.qual)
        return f

    def canary(self, rule, ok):
        """A built-in positive example of a zero-count rule still matches."""
        self.canaries.append((rule, bool(ok)))
        if not ok:
            raise AnalysisBroken(f"canary of rule {rule} no longer matches")


def load_known():
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            head, _, desc = line[len("known:"):].partition(" :: ")
            d = dict(x.split("=", 1) for x in head.split() if "=" in x)
            known[(d["property"], d["key"])] = desc
    return known


def key_of(v):
    return f"{v['rule']}|{v['construct']}".replace(" ", "_")


STRICT = os.environ.get("FFSA_STRICT") == "1"


def guard(fn, name, ctx):
    """A section of a check: code it cannot analyse leaves the section undecided, not the others."""
    def run_section(*args, **kwargs):
        try:
            return fn(*args, **kwargs)
        except Exception as e:  # noqa: BLE001
            why = str(e) if isinstance(e, AnalysisBroken) else f"{type(e).__name__}: {e}"
            ctx.broken.append((name, why))
            return None
    return run_section


def guard_sections(mod, ctx):
    """Guard the functions of the module that its `check` calls for their effect."""
    body = ast.parse(inspect.getsource(mod.check)).body[0]
    roots = [v for st in ast.walk(body) if not isinstance(st, ast.Expr) for v in (getattr(st, "value", None), getattr(st, "iter", None), getattr(st, "test", None)) if isinstance(v, ast.AST)]
    used = {n.func.id for v in roots for n in ast.walk(v) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)}
    names = {n.id for n in ast.walk(body) if isinstance(n, ast.Name)} - used
    for n in names:
        fn = getattr(mod, n, None)
        if inspect.isfunction(fn) and fn.__module__ == mod.__name__:
            setattr(mod, n, guard(fn, n, ctx))


def run(pid, tier):
    t0 = time.time()
    mod = importlib.import_module(f"ffsa.rules.{pid.lower()}")
    ctx = Ctx(pid, tier)
    ctx.broken = []
    if not STRICT:
        guard_sections(mod, ctx)
    mod.check(ctx)
    counts = {}
    for r, c, ok in ctx.obligations:
        counts.setdefault(r, [0, 0])
        counts[r][0] += 1
        counts[r][1] += ok
    known = load_known()
    new, listed = [], []
    seen = set()
    for v in ctx.viol:
        k = key_of(v)
        if k in seen:
            continue
        seen.add(k)
        (listed if (pid, k) in known else new).append(v)
    low = []
    for r, n in ctx.floors.items():
        got = counts.get(r, [0, 0])[0] + sum(s["rule"] == r for s in ctx.skipped)
        if got < n:
            low.append(r)
            ctx.broken.append((f"rule {r}", f"only {got} instances found, at least {n} were confirmed by hand"))
    if not new and ctx.broken and (STRICT or 2 * len(low) > len(ctx.floors)):
        raise AnalysisBroken("; ".join(f"{n}: {why}" for n, why in ctx.broken))
    if not ctx.obligations:
        raise AnalysisBroken("no obligations were generated" + "".join(f"; {n}: {why}" for n, why in ctx.broken))
    os.makedirs(EVID, exist_ok=True)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "other",
        "coverage": {
            "explanation": (mod.__doc__ or "").strip(),
            "obligations": len(ctx.obligations),
            "discharged": sum(1 for o in ctx.obligations if o[2]),
            "rules": {r: {"instances": a, "holding": b, "confirmed_minimum": ctx.floors.get(r, 0)} for r, (a, b) in sorted(counts.items())},
            "constructs": sorted({f"{r}: {c}" for r, c, _ in ctx.obligations}),
            "functions_analysed": sorted(ctx.analysed),
            "source_units": len(ctx.p.modules),
            "source_lines": sum(m.lines for m in ctx.p.modules.values()),
            "undecided_instances": ctx.skipped,
            "undecided_sections": [{"section": n, "why": why} for n, why in ctx.broken],
            "canaries": [r for r, _ in ctx.canaries],
            "notes": ctx.notes,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    with open(os.path.join(EVID, f"{pid}.json"), "w") as fp:
        json.dump(ev, fp, indent=1)
    print(f"[{pid}] {ev['coverage']['discharged']}/{len(ctx.obligations)} obligations hold over {len(counts)} rules; {len(ctx.analysed)} functions; {len(ctx.skipped)} undecided; {ev['wall_s']}s")
    for r, (a, b) in sorted(counts.items()):
        print(f"   {r}: {b}/{a}")
    for n, why in ctx.broken:
        print(f"UNDECIDED property={pid} {n}: {why}")
    for v in listed:
        print(f"KNOWN-FINDING: property={pid} {v['construct']} at {v['loc']}: {v['message']} [{known[(pid, key_of(v))]}]")
    if new:
        rp = os.path.join(EVID, f"{pid}.violations.json")
        with open(rp, "w") as fp:
            json.dump(new, fp, indent=1)
        for v in new:
            print(f"  {v['loc']}: rule {v['rule']} broken by {v['construct']}: {v['message']}   (key {key_of(v)})")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    try:
        rc = run(pid, tier)
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={pid}: {e}")
        rc = 3
    except RecursionError as e:
        print(f"ANALYSIS-BROKEN property={pid}: recursion limit: {e}")
        rc = 3
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={pid}: internal error")
        rc = 3
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    sys.exit(main(sys.argv[1:]))
