"""python3-vt -m sx.check C01 [quick|thorough]: decide one property."""
import hashlib
import importlib
import json
import os
import sys
import time
from . import run

VERIF = run.VERIF
BUDGET = {"quick": 130.0, "thorough": 600.0}


def load_known():
    """known findings: lines  KNOWN property=C.. scenario=.. label=.. inputs=<json>"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p, encoding="utf-8"):
            if ln.startswith("known:"):
                out.append(json.loads(ln[len("known:"):]))
    return out


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in BUDGET:
        tier = "quick"
    verbose = "-v" in argv or "-vv" in argv
    only = [a[2:] for a in argv if a.startswith("-s")]
    budget = BUDGET[tier]
    for a in argv:
        if a.startswith("-t"):
            budget = float(a[2:])
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    run.setup_path()
    mod = prop.lower()
    try:
        sm = importlib.import_module("scn." + mod)
        scs = []
        for name, fn, kw in sm.scenarios(tier):
            m, _, f = fn.rpartition(":")
            scs.append({"name": name, "mod": m or mod, "fn": f, "kw": kw})
    except Exception as e:
        # the code under test does not even import: nothing could be decided
        print("cannot load scenarios:", repr(e))
        raise
    if only:
        scs = [s for s in scs if any(o in s["name"] for o in only)]
    ex = run.Explorer(scs, budget, int(os.environ.get("SX_PROCS", "8")), seed, verbose=verbose).run()
    total = run.new_acc()
    per = []
    for s, a in zip(scs, ex.acc):
        left = a["left"]
        run.merge(total, a)
        per.append({"scenario": s["name"], "bound": describe(s), "paths": a["paths"], "branch_decisions": a["branches"],
                    "discharged": a["discharged"], "validated": a["validated"], "queries": a["queries"],
                    "solver_s": round(a["solver_s"], 2), "exhausted": left == 0 and not a["found"],
                    "reached": a["validated"] > 0,
                    "outside_bound_paths": a["aborted"], "inconclusive": a["inconclusive"],
                    "incomplete": a["incomplete"]})
        if verbose and ("-vv" in argv or left or a["found"] or a["inconclusive"] or a["incomplete"] or not a["validated"]):
            print("%-34s paths %6d disch %6d val %6d left %5d cpu %6.1f q %6d %s %s found %d" % (
                s["name"], a["paths"], a["discharged"], a["validated"], left, a["cpu"], a["queries"],
                a["inconclusive"] or "", a["incomplete"] or "", len(a["found"])))
    if verbose:
        for e in total["errors"][:12]:
            print("  !", e)
    # counterexamples: replay in a fresh process
    viol = []
    known = [k for k in load_known() if k["property"] == prop]
    knownhit = []
    rdir = os.path.join(VERIF, "evidence", "replay")
    spurious = 0
    for s, a in zip(scs, ex.acc):
        for f in a["found"][:3]:
            rec = {"property": prop, "name": s["name"], "mod": s["mod"], "fn": s["fn"], "kw": s["kw"],
                   "inputs": f["inputs"], "labels": f["labels"], "found_by": f["how"]}
            k = [k for k in known if k["fn"] == s["fn"] and k["kw"] == s["kw"] and k["inputs"] == f["inputs"]]
            if k:
                knownhit.append(k[0])
                continue
            os.makedirs(rdir, exist_ok=True)
            h = hashlib.sha1(json.dumps(rec, sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(rdir, "%s-%s.json" % (prop, h))
            json.dump(rec, open(path, "w"), indent=1)
            ok, out = run.replay_subprocess(path)
            if ok:
                viol.append((path, out))
            else:
                spurious += 1
                os.unlink(path)
                if verbose:
                    print("not reproduced:", out)
        if len(viol) >= 3:
            break
    wall = time.time() - t0
    exhausted = sum(1 for p in per if p["exhausted"])
    write_evidence(prop, tier, seed, total, per, ex, viol, spurious, wall, sm)
    for k in knownhit:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s %s: %d paths, %d obligations discharged by z3, %d witnesses replayed on the real code, %d queries "
          "(%.1f s solver), %d/%d scenarios exhausted, %d inconclusive, %.1f s" % (
              prop, tier, total["paths"], total["discharged"], total["validated"], total["queries"], total["solver_s"],
              exhausted, len(per), sum(total["inconclusive"].values()), wall))
    if ex.fatal:
        print("engine could not start:", ex.fatal[-1500:])
    if viol:
        for path, out in viol:
            print(out)
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if ex.fatal:
        return 2    # nothing was decided
    return 0


def describe(s):
    t = s["kw"].get("tmpl")
    if not t:
        return {k: repr(v)[:160] for k, v in s["kw"].items()}
    out = ""
    for x in t:
        if isinstance(x, str):
            out += ascii(x if len(x) < 80 else x[:30] + "...(%d)" % len(x))[1:-1]
        else:
            out += "{%d x %s}" % (x[1], x[2] if len(x) > 2 else "scalar")
    d = {"input": out}
    for k, v in s["kw"].items():
        if k != "tmpl":
            d[k] = repr(v)[:160]
    return d


ASSUME = [
    "ICU is replaced by real ICU on concrete strings and by a model on symbolic ones: ASCII, fullwidth ASCII, "
    "U+3002, U+FF61 and U+00AD; other symbolic code points in domains and labels starting with xn-- are outside",
    "CPython built-ins (str, bytes, int, list, dict, re, codecs, urllib quoting) are modelled by the executor; every "
    "path's witness is replayed on the real code and any disagreement is counted as inconclusive",
    "logging has no effect on results unless the scenario checks validation reports",
]


def write_evidence(prop, tier, seed, total, per, ex, viol, spurious, wall, sm):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    samples = total["samples"][:6] or [{"note": "no path completed"}]
    cov = {
        "states": total["paths"], "transitions": total["branches"],
        "traces_validated_against_impl": total["validated"], "samples": samples,
        "obligations_discharged": total["discharged"], "assertions_checked": total["checks"],
        "queries": total["queries"], "sat": total["sat"], "unsat": total["unsat"], "unknown": total["unknown"],
        "solver_s": round(total["solver_s"], 2), "cpu_s": round(total["cpu"], 1),
        "scenarios": per, "scenarios_exhausted": sum(1 for p in per if p["exhausted"]),
        "scenarios_total": len(per), "vacuous_scenarios": [p["scenario"] for p in per if not p["reached"]],
        "inconclusive": total["inconclusive"], "unreproduced_counterexamples": spurious,
        "incomplete_paths": total["incomplete"], "assumed_bounds": total["assumed"],
        "forked_concretisations": total["concretised"],
        "functions_encoded": functions_encoded(total), "notes": total["errors"][:8],
        "exhaustive": all(p["exhausted"] for p in per) and not total["inconclusive"] and not total["incomplete"],
    }
    if ex.fatal:
        cov["fatal"] = ex.fatal[-1500:]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": ASSUME + list(getattr(sm, "ASSUMPTIONS", [])), "wall_s": round(wall, 2),
          "violations": len(viol)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)


def functions_encoded(total):
    """functions of the code under test that were executed symbolically in this run"""
    return ["%s (line %d)" % (n, ln) for n, ln in sorted(((n, l) for n, l in total["functions"].items() if "<locals>" not in n), key=lambda x: (x[0].split(":")[0], x[1]))]


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
