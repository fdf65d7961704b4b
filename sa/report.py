"""Verdict and evidence of one run."""
import json
import os
from collections import Counter, OrderedDict

LEVELS = {}


def short(p):
    i = p.find("/src/")
    return p[i + 1:] if i >= 0 and "rustlib" not in p else p


def report(R, prop, known, here):
    groups = OrderedDict()
    for o in R.obs:
        if o.status == "violation":
            groups.setdefault(o.key(), []).append(o)
    kf = [(k, t) for p, k, t in known if p == prop]
    listed = {k for k, t in kf}
    path = os.path.join(here, "evidence", "%s.violations.txt" % prop)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path):
        os.remove(path)
    for k, t in kf:
        if k in groups:
            print("KNOWN-FINDING: property=%s %s (%s)" % (prop, t, k))
    new = [(k, v) for k, v in groups.items() if k not in listed]
    und = Counter()
    for o in R.obs:
        if o.status == "undecided":
            und[(o.key(), o.detail)] += 1
    n = Counter(o.status for o in R.obs)
    print("%s: %d rules, %d obligations: %d established, %d violated, %d undecided" % (
        prop, len(R.rules_run), len(R.obs), n["ok"], n["violation"], n["undecided"]))
    for (k, d), c in list(und.items())[:10]:
        print("undecided: %s: %s" % (k, (d or "")[:200]))
    R.known_hit = [k for k, t in kf if k in groups]
    R.new = new
    if not new:
        return 0
    with open(path, "w") as f:
        for k, obs in new:
            o = obs[0]
            f.write("rule %s: %s\n  function: %s\n  at: %s\n  found: %s\n  on the path where: %s\n  occurrences: %d\n\n" % (
                o.rule, o.label, o.fn, short(o.where or "?"), o.detail, "; ".join(o.guards or ["(always)"])[:1500], len(obs)))
    print(open(path).read())
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


EXPLAIN = (
    "Static analysis of the type-checked MIR of the current working tree (all features). Every analysed function is "
    "interpreted abstractly, path by path, over unknown inputs and memory: values are numbered, branch conditions are kept as "
    "equalities and difference bounds, loops are summarised by an inductive invariant. An obligation is one instance of a rule "
    "on one path of one function; it is established when it follows from the facts of the path."
)


def evidence(R, prop, tier, here, wall, dump_s):
    n = Counter(o.status for o in R.obs)
    rules = OrderedDict()
    for o in R.obs:
        rules.setdefault(o.rule, OrderedDict()).setdefault(o.label, Counter())[o.status] += 1
    obs_by_fn = Counter(o.fn for o in R.obs)
    und = sorted({"%s: %s" % (o.key(), (o.detail or "")[:300]) for o in R.obs if o.status == "undecided"})
    samples = []
    for o in R.obs[:: max(1, len(R.obs) // 5)][:6]:
        samples.append({"rule": o.rule, "obligation": o.label, "function": o.fn, "status": o.status})
    cov = {
        "explanation": EXPLAIN,
        "obligations": len(R.obs),
        "established": n["ok"],
        "violated": n["violation"],
        "undecided": n["undecided"],
        "undecided_detail": und[:50],
        "rules": [{"rule": r, "labels": [{"label": l, **dict(c)} for l, c in ls.items()]} for r, ls in rules.items()],
        "functions_analysed": [{"function": k, "runs": v["runs"], "paths": v["exits"]} for k, v in sorted(R.funcs.items())],
        "functions_with_obligations": len(obs_by_fn),
        "paths": R.paths,
        "loops_summarised": R.loops,
        "basic_blocks_covered": sum(len(v) for v in R.blocks.values()),
        "bodies_entered": len(R.blocks),
        "abstract_steps": R.steps,
        "samples": samples,
        "known_findings_seen": getattr(R, "known_hit", []),
        "dump_s": round(dump_s, 2),
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": cov,
        "assumptions": [
            "library functions behave as their models in sa/models.py; rustc's MIR is what is executed",
            "arithmetic overflow checks pass; allocation does not fail",
            "user callbacks terminate or unwind; Ord/Eq of component ids are those of TypeId",
        ],
        "wall_s": round(wall, 2),
        "violations": len(getattr(R, "new", [])),
    }
    d = os.path.join(here, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
