"""Writes MANIFEST.json from the check modules that exist."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    try:
        m = importlib.import_module("miemon.checks." + p["id"].lower())
    except ModuleNotFoundError as e:
        if "miemon" not in str(e):
            raise
        na.append(dict(property=p["id"], reason="check not built yet"))
        continue
    checks.append(dict(
        property=p["id"], quick_cmd=f"./run.sh {p['id']} quick", thorough_cmd=f"./run.sh {p['id']} thorough",
        evidence_file=f"evidence/{p['id']}.json",
        technique=getattr(m, "TECHNIQUE", "runtime monitoring of the real code with an arbitrary-precision reference oracle"),
        level="exploration", level_note=" ".join(getattr(m, "NOTE", "; ".join(m.ASSUMPTIONS)).split())))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
    notes="Pure Python target: checks import pymiediff from /repo/src (asserted), nothing is compiled. No hooks in /repo are needed."),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
