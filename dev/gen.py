"""Writes properties.jsonl and MANIFEST.json from dev/propdefs.py (development helper)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from propdefs import NOT_APPLICABLE, PROPS  # noqa: E402

TOP = os.path.dirname(HERE)
with open(os.path.join(TOP, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
checks = []
na = {x[0] for x in NOT_APPLICABLE}
for p in PROPS:
    if p["id"] in na:
        continue
    if not os.path.exists(os.path.join(TOP, "props", p["id"].lower() + ".py")):
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3-vt run.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3-vt run.py %s --tier thorough" % p["id"],
        "technique": "symbolic execution of the SDK's current source with z3 deciding every branch and assertion; counterexamples replayed natively",
        "level": "model_checking",
        "level_note": p["note"] + " Bounded: holds for all values within the bounds listed in the evidence file; each explored path's model is re-run on the untouched code. Trusted: CPython, the standard library, z3 and the instrumenting loader (validated path by path against native runs).",
    })
missing = [p["id"] for p in PROPS if p["id"] not in {c["property"] for c in checks} | na]
json.dump({
    "version": 1,
    "setup_cmd": "python3-vt -c 'import z3' && /opt/venv/bin/python -c 'import parsimonious'",
    "checks": checks,
    "not_applicable": [{"property": a, "reason": b} for a, b in NOT_APPLICABLE]
    + [{"property": m, "reason": "check not built yet"} for m in missing],
    "notes": "Engine in sx/, harnesses in props/, entry point run.py, native replay replay.py; see DESIGN.md.",
}, open(os.path.join(TOP, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties", len(checks), "checks", "missing", missing)

# -- DESIGN.md
import ast  # noqa: E402


def module_text(pid, what):
    p = os.path.join(TOP, "props", pid.lower() + ".py")
    if not os.path.exists(p):
        return ""
    tree = ast.parse(open(p).read())
    if what == "doc":
        return ast.get_docstring(tree) or ""
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == what:
            try:
                return ast.literal_eval(n.value)
            except ValueError:
                return ""
    return ""


def harness_docs(pid):
    p = os.path.join(TOP, "props", pid.lower() + ".py")
    if not os.path.exists(p):
        return []
    tree = ast.parse(open(p).read())
    return ["`%s`: %s" % (n.name, " ".join(ast.get_docstring(n).split())) for n in tree.body
            if isinstance(n, ast.FunctionDef) and ast.get_docstring(n) and n.args.args and n.args.args[0].arg == "ctx"]


rows = []
for p in PROPS:
    if not os.path.exists(os.path.join(TOP, "props", p["id"].lower() + ".py")):
        rows.append("### %s %s\n\n%s\n" % (p["id"], p["title"], p["note"]))
        continue
    out = module_text(p["id"], "OUTSIDE")
    rows.append("### %s %s\n\n%s Oracle: %s\n\nHarnesses:\n\n%s\n\nOutside the bounds: %s.\n" % (
        p["id"], p["title"], p["note"], p.get("oracle", "the statement, as an independent specification in `props/%s.py`." % p["id"].lower()),
        "\n".join("* " + h for h in harness_docs(p["id"])), out or "see the evidence file"))
res = os.path.join(HERE, "seed_results.json")
srows = ["| seeded bug | property | needs | caught by |", "|---|---|---|---|"]
results = json.load(open(res)) if os.path.exists(res) else {}
for d in sorted(os.listdir(os.path.join(TOP, "seeded"))):
    m = json.load(open(os.path.join(TOP, "seeded", d, "meta.json")))
    srows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], results.get(d, "?")))
s = open(os.path.join(HERE, "DESIGN.in.md")).read()
s = s.replace("@@TABLE@@", "\n".join(rows)).replace("@@SEEDS@@", "\n".join(srows))
open(os.path.join(TOP, "DESIGN.md"), "w").write(s)
