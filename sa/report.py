"""Running one property: obligations, extra rules, evidence and the verdict lines."""
import json
import os
import sys
import time

from .compare import EQ, NEQ, UND
from .obligations import CALLS, THIN, World
from .program import AnalysisError
from .table import T, parse
from . import rules

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Item:
    """one decided (or undecided) obligation"""

    def __init__(self, oid, verdict, rule, loc, detail, level=""):
        self.id, self.verdict, self.rule, self.loc, self.detail, self.level = oid, verdict, rule, loc, detail, level


def where(loc):
    if not loc:
        return "?"
    return f"{loc[0]}:{loc[1]} ({loc[2]})" if len(loc) > 2 else str(loc)


def decide(world, pid):
    """-> list of Items"""
    items = []
    for spec in T.get(pid, ()):
        entry, cats = parse(spec)
        vs = world.entry(entry)
        for c in cats:
            v = vs.get(c)
            if v is None:
                continue
            bad = [d for d in v.diffs if d.verdict == v.verdict] if v.verdict != EQ else []
            verdict = v.verdict
            via = ""
            if verdict == EQ and v.level in (CALLS.name, THIN.name):
                # equal as long as the operations it calls are what they were: follow the ones that are not
                via = world.changed_callee(entry, c)
                if via:
                    verdict = NEQ
                    bad = via[1]
            loc = bad[0].loc if bad else v.loc
            detail = "; ".join(f"{d.part}: {d.detail}" for d in bad[:3])
            if via:
                detail = f"through {via[0]}: " + detail
            items.append(Item(f"{entry}/{c}", verdict, "behaviour summary equals the reference model", loc, detail, v.level))
    scope = set()
    for spec in T.get(pid, ()):
        entry, _ = parse(spec)
        for level in world.levels(entry):
            scope |= getattr(world.cache.get(("cur", entry, level.name)), "analysed", set())
    for r in rules.RULES.get(pid, ()):
        try:
            found = list(r(world, scope))
        except Exception as e:              # a construct the rule does not understand: nothing is decided
            found = [(r.kind, UND, None, f"{type(e).__name__}: {e}")]
        items += [Item(i[0], i[1], r.__doc__.strip().split("\n")[0], i[2], i[3], "rule") for i in found]
    return items


def known(pid):
    out = set()
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            if l.startswith("finding:"):
                parts = l.split()
                if parts[1] == f"property={pid}":
                    out.add(parts[2])
    return out


def run(pid, tier="quick", root="/repo"):
    t0 = time.time()
    sys.setrecursionlimit(20000)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        world = World(root)
        items = decide(world, pid)
    except AnalysisError as e:
        print(f"ANALYSIS-ERROR property={pid} {e}")
        return 2
    extra = {}
    if tier == "thorough":
        from . import selftest
        try:
            extra = selftest.run(pid, world, seed)
        except AnalysisError as e:
            print(f"ANALYSIS-ERROR property={pid} {e}")
            return 2
    kf = known(pid)
    bad = [i for i in items if i.verdict == NEQ]
    unlisted = [i for i in bad if i.id not in kf]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    counts = {v: sum(1 for i in items if i.verdict == v) for v in (EQ, NEQ, UND)}
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static analysis of /repo's current source. Each obligation is one observable part (returned value, rejected inputs, resulting fields, writes and calls) of one "
                           "entry point, or one instance of a structural rule. An entry part holds when its normal-form summary, computed by symbolic dataflow over the resolved program with "
                           "callees inlined or kept as API calls, equals that of the reference model for every input; 'undecided' parts are outside what the normaliser understands and are "
                           "not counted as discharged.",
            "obligations": len(items), "discharged": counts[EQ], "violated": counts[NEQ], "undecided": counts[UND],
            "functions_analysed": len(world.analysed), "call_sites_resolved": world.calls, "cases_compared": world.rows,
            "constructs_not_understood": sorted(str(u) for u in world.unknown)[:20],
            "samples": [{"obligation": i.id, "verdict": i.verdict, "rule": i.rule, "level": i.level, "where": where(i.loc)} for i in items[:400]],
            "undecided_parts": [{"obligation": i.id, "where": where(i.loc), "why": i.detail[:500]} for i in items if i.verdict == UND],
            **extra,
        },
        "assumptions": ["the interpreter semantics implemented in sa/interp.py agree with CPython for the constructs used", "numpy, PIL, pymatgen, monty, json and multiprocessing behave as documented",
                        "user-supplied controllers, criteria and artists do not modify the states they are shown"],
        "wall_s": round(time.time() - t0, 3), "violations": len(unlisted),
    }
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    for i in bad:
        if i.id in kf:
            print(f"KNOWN-FINDING: property={pid} {i.id} {where(i.loc)}")
    print(f"{pid}: {len(items)} obligations, {counts[EQ]} discharged, {counts[UND]} undecided, {counts[NEQ]} violated; {len(world.analysed)} functions analysed")
    if unlisted:
        rp = os.path.join(HERE, "evidence", f"{pid}.violations.txt")
        with open(rp, "w", encoding="utf-8") as f:
            for i in unlisted:
                f.write(f"{i.id}\n  rule: {i.rule} [{i.level}]\n  at: {where(i.loc)}\n  {i.detail}\n\n")
        for i in unlisted[:8]:
            print(f"  {where(i.loc)}: {i.id}: {i.detail[:400]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if extra.get("selftest_missed"):
        pass
    return 0
