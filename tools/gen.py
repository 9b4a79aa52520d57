"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import MISSED, NOT_APPLICABLE, NOTES, P  # noqa: E402

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(
            json.dumps(
                dict(
                    id=p["id"], title=p["title"], statement=p["statement"],
                    quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                    anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                 observe_at=p.get("observe", []), hook_needed=None),
                )
            )
            + "\n"
        )
na = [dict(property=p["id"], reason=p["na"]) for p in P if p.get("na")]
checks = [
    dict(
        property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
        technique=p.get("technique", "symbolic execution of the real Python code with z3, counterexamples replayed"),
        level="other", level_note=p["note"],
    )
    for p in P if not p.get("na")
]
json.dump(dict(version=1, setup_cmd="./check.sh setup", checks=checks, not_applicable=na + NOT_APPLICABLE, notes=NOTES),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")

# DESIGN.md
out = [open(os.path.join(HERE, "design_head.md")).read()]
for p in P:
    src = open(os.path.join(ROOT, "harness", p["id"].lower() + ".py")).read()
    import ast

    meta, doc = {}, ast.get_docstring(ast.parse(src)) or ""
    fns = []
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "META":
            meta = {k.arg: (ast.literal_eval(k.value)) for k in node.value.keywords}
        if isinstance(node, ast.FunctionDef) and any(a.arg == "ctx" for a in node.args.args):
            d = ast.get_docstring(node)
            fns.append(f"`{node.name}`" + (f" ({d.splitlines()[0].rstrip('.')})" if d else ""))
    out.append(f"\n### {p['id']} {p['title']}\n\n{p['statement']}\n\n")
    out.append(f"* Anchors: {', '.join(p['files'])}\n")
    if p.get("how"):
        out.append(f"* Encoding and oracle: {p['how']}\n")
    out.append(f"* Harness `harness/{p['id'].lower()}.py`: {', '.join(fns)}\n")
    out.append(f"* Bounds: {meta.get('bounds', p['note'])}\n")
    out.append(f"* Outside: {meta.get('outside', '')}\n* Assumed: {'; '.join(meta.get('assumptions', []))}\n")
    out.append(f"* Why tests cannot settle it: {p['why']}\n")
tail = open(os.path.join(HERE, "design_tail.md")).read()
rows = []
SEED = os.path.join(ROOT, "seeded")
for d in sorted(os.listdir(SEED)):
    mf = os.path.join(SEED, d, "meta.json")
    if os.path.exists(mf):
        m = json.load(open(mf))
        rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {'missed' if d in MISSED else 'caught'} |")
out.append(tail + "| id | property | breaks | needs | |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n")
open(os.path.join(ROOT, "DESIGN.md"), "w").write("".join(out))
