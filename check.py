#!/usr/bin/env python3
"""python3 check.py <PROPERTY> [--tier quick|thorough] [-v]

Decides one property of /repo by abstract interpretation of its source (see DESIGN.md) and writes
evidence/<PROPERTY>.json.  Nothing of the analysed program is imported or executed."""
import argparse
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "spec"))


def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property="):
                # finding: property=<id> key=<construct> :: <what fails>
                head, what = line.split(" :: ", 1)
                parts = dict(x.split("=", 1) for x in head[len("finding: "):].split(" ", 1))
                out.append((parts["property"], parts["key"], what))
    return out


def work(case):
    from sa.harness import run_case
    return run_case(case)


def lint(prop, tier):
    from sa import lints, binding
    return lints.run(prop, tier)


def fmt_kw(kw):
    return ", ".join("%s=%r" % x for x in kw.items())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--jobs", type=int, default=max(1, min(8, os.cpu_count() or 1)))
    a = ap.parse_args()
    t0 = time.time()
    from sa import registry
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cases = registry.cases(a.prop, a.tier)
    for c in cases:
        c.update(prop=a.prop, seed=seed)
    rule = registry.RULES[a.prop]
    results = []
    deadline = t0 + (720 if a.tier == "quick" else 7200)
    if cases:
        cases.sort(key=lambda c: "ALE" not in repr(c["kw"]))     # the long ones first
        ctx = mp.get_context("fork")
        with ctx.Pool(min(a.jobs, len(cases)), maxtasksperchild=4) as pool:
            it = pool.imap_unordered(work, cases, chunksize=1)
            for _ in cases:
                try:
                    results.append(it.next(max(1, deadline - time.time())))
                except mp.TimeoutError:
                    break
    missing = len(cases) - len(results)
    results.sort(key=lambda r: (r["func"], repr(r["kw"])))
    lr = lint(a.prop, a.tier)
    bad = {}
    for r in results:
        for label, loc, what, ex in r["bad"]:
            key = "%s:%s" % (r["func"], label)
            bad.setdefault(key, []).append((r, label, loc, what, ex))
    for f in lr["violations"]:
        bad.setdefault(f["key"], []).append(({"func": f["rule"], "kw": {}, "functions": []}, f["construct"], f["loc"], f["what"], f.get("detail", "")))
    known = [(k, w) for p, k, w in known_findings() if p == a.prop]
    nviol = 0
    EV = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
    rdir = os.path.join(EV, "replay")
    os.makedirs(rdir, exist_ok=True)
    for key in sorted(bad):
        r, label, loc, what, ex = bad[key][0]
        hit = [w for k, w in known if k == key]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, hit[0]))
            continue
        nviol += 1
        path = os.path.join(rdir, "%s-%d.json" % (a.prop, nviol))
        with open(path, "w") as fh:
            json.dump({"property": a.prop, "key": key, "rule": rule, "scenario": r["func"], "options": r["kw"], "obligation": label,
                       "construct": "%s:%s in %s" % (loc[0], loc[2], loc[1]), "difference": what, "detail": ex,
                       "other_option_settings": [fmt_kw(x[0]["kw"]) for x in bad[key][1:20]],
                       "functions_on_the_path": r["functions"],
                       "rerun": "python3 check.py %s" % a.prop}, fh, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        print("  %s(%s): %s: %s" % (r["func"], fmt_kw(r["kw"]), label, what))
        print("  at %s:%s in %s" % (loc[0], loc[2], loc[1]))
        if r["functions"]:
            print("  analysed path: " + ", ".join(r["functions"][:40]))
        if ex:
            print("  " + ex[:900])
    und = [("%s(%s)" % (r["func"], fmt_kw(r["kw"])), "%s: %s" % tuple(u)) for r in results for u in r["undecided"]] + lr["undecided"]
    if missing:
        und.append(("%d scenarios" % missing, "not analysed within the time limit"))
    if a.v:
        for u in und:
            print("UNDECIDED", u[0], u[1])
        for r in results:
            for u in r.get("unref", []):
                print("UNREFUTED %s(%s) %s" % (r["func"], fmt_kw(r["kw"]), u))
    tot = lambda k: sum(r[k] for r in results)
    funcs = sorted(set(f for r in results for f in r["functions"]))
    ob = tot("obligations") + lr["obligations"]
    cov = {
        "explanation": "Static analysis (abstract interpretation of the source to value graphs; congruence of normal forms%s). %s" % (
            "; " + lr["technique"] if lr["technique"] else "", rule),
        "rule": rule,
        "scenarios_analysed": len(results),
        "obligations": ob,
        "leaf_obligations_decided_by_congruence": tot("congruent"),
        "leaf_obligations_not_congruent_and_not_refuted": tot("unrefuted"),
        "valuations_used_as_refutation_filter": tot("samples"),
        "infeasible_exits": tot("vacuous"),
        "lint_obligations": lr["obligations"], "lint_constructs": lr["constructs"],
        "undecided": len(und), "undecided_list": [list(u) for u in und[:40]],
        "functions_analysed": len(funcs), "functions": funcs,
        "seconds_by_scenario": {"%s(%s)" % (r["func"], fmt_kw(r["kw"])): r["seconds"] for r in sorted(results, key=lambda r: -r["seconds"])[:10]},
        "samples": ["%s(%s): %d obligations, %d congruent, %d not refuted, %d undecided" % (r["func"], fmt_kw(r["kw"]), r["obligations"], r["congruent"], r["unrefuted"], len(r["undecided"])) for r in results[:12]] or lr["samples"],
    }
    ev = {"property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed, "level": "other", "coverage": cov,
          "assumptions": registry.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(EV, exist_ok=True)
    with open(os.path.join(EV, a.prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print("property %s: %d scenarios, %d obligations, %d leaves congruent, %d unrefuted, %d undecided, %d violations, %.1fs" % (
        a.prop, len(results), ob, tot("congruent"), tot("unrefuted"), len(und), nviol, time.time() - t0))
    return 1 if nviol else 0


if __name__ == "__main__":
    sys.exit(main())
