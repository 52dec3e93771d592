"""Entry point of every registered check.

    python3-vt run.py C01 [--tier quick|thorough] [--case NAME] [--strict]

Loads the current source of /repo through the instrumenting loader, explores every harness of
the property with the solver, replays counterexamples natively, writes evidence/<id>.json.
Exit 0: the property held on everything explored; exit 1: VIOLATION (reproduced natively)."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
REPO = os.environ.get("SX_REPO", "/repo")
SITE = "/opt/venv/lib/python3.12/site-packages"


def load(pid):
    sys.path.append(SITE)
    from sx import loader

    loader.install(
        {
            "snuba_sdk": (REPO, True),
            "parsimonious": (SITE, False),
            "props": (HERE, False),
        }
    )
    import snuba_sdk  # noqa: F401

    return importlib.import_module("props." + pid.lower()), loader


def known_for(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        d = json.load(f)
    return {k["key"]: k["what"] for k in d.get("known", []) if k["property"] == pid}


_G = {}


def work(i):
    import logging

    logging.disable(logging.CRITICAL)
    from sx.harness import run_case

    left = _G["deadline"] - time.time()
    return run_case(_G["cases"][i], HERE, REPO, max(1.0, min(_G["timeout"], left)), _G["validate"])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("--strict", action="store_true", help="development: inconclusive is an error")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--timeout", type=float)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    pid = a.prop
    budget = a.timeout or (600 if a.tier == "quick" else 3000)
    ev = {
        "property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking", "coverage": {}, "wall_s": 0.0, "violations": 0,
    }
    evdir = os.environ.get("SX_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(os.path.join(evdir, "replays"), exist_ok=True)
    evpath = os.path.join(evdir, pid + ".json")
    known = known_for(pid)
    try:
        mod, loader = load(pid)
        from sx.harness import Case

        cases = [Case(pid.lower(), a.tier, c, frozenset(known)) for c in mod.cases(a.tier)]
        if a.case:
            cases = [c for c in cases if a.case in c.name]
    except Exception as x:
        # the SDK does not import through the encoder: fall back to saying so (nothing explored)
        import traceback

        ev["coverage"] = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                          "samples": [], "inconclusive": ["encoding failed: %r" % x]}
        ev["wall_s"] = round(time.time() - t0, 2)
        with open(evpath, "w") as f:
            json.dump(ev, f, indent=1)
        traceback.print_exc()
        print("INCONCLUSIVE property=%s encoding failed: %r" % (pid, x))
        return 2
    _G.update(cases=cases, timeout=budget, validate=True,
              deadline=t0 + (780 if a.tier == "quick" else 20000))
    # long cases first
    order = sorted(range(len(cases)), key=lambda i: -cases[i].opts.get("cost", 1))
    results = []
    if a.jobs == 1 or len(cases) == 1:
        for i in order:
            results.append(work(i))
    else:
        with mp.get_context("fork").Pool(min(a.jobs, len(cases))) as pool:
            for r in pool.imap_unordered(work, order, chunksize=1):
                results.append(r)
                if a.v:
                    print(brief(r), flush=True)
                if sum(len(x["violations"]) for x in results) >= (1 if os.environ.get("SX_FAILFAST") else 12):
                    break  # enough evidence; the pool is torn down
    results.sort(key=lambda r: r["case"])
    rc = 0
    incon = []
    seen = {}
    for r in results:
        if a.v and (a.jobs == 1 or len(cases) == 1):
            print(brief(r))
        for k, n in r["known"].items():
            seen[k] = seen.get(k, 0) + n
        for v in r["violations"]:
            import hashlib

            h = hashlib.sha1((r["case"] + json.dumps(v["witness"])).encode()).hexdigest()[:10]
            path = os.path.join(evdir, "replays", "%s-%s.json" % (pid, h))
            with open(path, "w") as f:
                json.dump({"property": pid, "module": pid.lower(), "tier": a.tier, "case": r["case"],
                           "witness": v["witness"], "message": v["message"], "symbolic": v["symbolic"]}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  case %s: %s" % (r["case"], v["message"]))
            from sx.harness import show

            print("  with %r" % (show(v["witness"]),))
            rc = 1
        for s in r["spurious"]:
            incon.append("%s: counterexample not reproduced natively: %s" % (r["case"], s["message"]))
            if a.v or a.strict:
                print("SPURIOUS", r["case"], json.dumps(s)[:1500])
        for g in r["gaps"]:
            incon.append("%s: %s" % (r["case"], g))
        for mm in r["mismatch"]:
            incon.append("%s: witness disagrees with the native run" % r["case"])
            if a.v or a.strict:
                print("MISMATCH", r["case"], json.dumps(mm)[:1500])
        if not r["complete"] and not r["gaps"]:
            incon.append("%s: exploration budget exhausted" % r["case"])
        if r["concretised"]:
            incon.append("%s: %d values concretised" % (r["case"], r["concretised"]))
        if r["vacuous"]:
            incon.append("%s: not reached: %s" % (r["case"], r["vacuous"]))
        if r["unknown"]:
            incon.append("%s: %d solver unknowns" % (r["case"], r["unknown"]))
    for k in seen:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    tot = lambda k: sum(r[k] for r in results)  # noqa: E731
    enc = {m: len(f) for m, f in loader.ENCODED.items() if m.startswith(("snuba_sdk", "parsimonious"))}
    ev["coverage"] = {
        "states": tot("paths") - tot("aborted"),
        "transitions": tot("forks") + len(results),
        "traces_validated_against_impl": tot("validated"),
        "samples": [s for r in results for s in r["samples"]][:12],
        "exhaustive": not incon,
        "explanation": "states = feasible paths explored over symbolic inputs; transitions = decisions "
        "where the solver found more than one outcome; every assertion is decided by an SMT query "
        "over all values on its path; each path's model was re-run natively and compared.",
        "harnesses": [
            {k: r[k] for k in ("case", "bounds", "paths", "queries", "assertions", "complete", "reached", "solver_s", "wall_s")}
            for r in results
        ],
        "queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"),
        "assertions_discharged": tot("assertions"), "assertions_trivial": tot("trivial"),
        "solver_s": round(tot("solver_s"), 2),
        "functions_encoded": enc, "inconclusive": incon,
        "known_findings": sorted(seen),
        "outside_bounds": getattr(mod, "OUTSIDE", ""),
    }
    ev["assumptions"] = list(getattr(mod, "ASSUMPTIONS", [])) + [
        "symbolic characters range over all Unicode scalar values except U+F8F0 and U+F8F1",
        "CPython, the standard library and z3 are trusted; unmodelled calls are concretised and listed",
    ]
    ev["violations"] = sum(len(r["violations"]) for r in results)
    ev["wall_s"] = round(time.time() - t0, 2)
    with open(evpath, "w") as f:
        json.dump(ev, f, indent=1)
    for s in incon[:20]:
        print("INCONCLUSIVE property=%s %s" % (pid, s[:600]))
    print(
        "%s %s: %d harnesses, %d paths, %d queries (%d unsat), %d assertions, %d native validations, "
        "solver %.1fs, wall %.1fs" % (pid, a.tier, len(results), tot("paths"), tot("queries"), tot("unsat"),
                                      tot("assertions"), tot("validated"), tot("solver_s"), time.time() - t0)
    )
    if a.strict and rc == 0 and incon:
        return 3
    return rc


def brief(r):
    return "%-50s paths=%d queries=%d asserts=%d valid=%d viol=%s spur=%s mis=%s conc=%d gaps=%d complete=%s %.1fs" % (
        r["case"], r["paths"], r["queries"], r["assertions"], r["validated"], r.get("nviol", 0),
        r.get("nspur", 0), r.get("nmis", 0), r["concretised"], len(r["gaps"]), r["complete"], r["wall_s"])


if __name__ == "__main__":
    sys.exit(main())
