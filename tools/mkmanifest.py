"""Writes MANIFEST.json from properties.jsonl and the Property objects."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from pf.index import MODULE_OF

TECH = {
    "S": "property-based testing (grammar and mutation generators, reference parser / round-trip / metamorphic oracles, shrinking)",
    "P": "property-based testing (generated sources, tiling invariant and reference classification, shrinking)",
    "R": "property-based testing (generated bundles, arguments, options and histories against reference models, shrinking)",
    "T": "property-based testing (generated files through the commands, differential oracle, shrinking)",
    "D": "property-based testing (generated git repositories and build histories against a model, shrinking)",
}
checks = []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    prop = importlib.import_module("pf.props." + MODULE_OF[pid]).PROPS[pid]
    note = "Exploration: no violation among the generated cases. " + "; ".join(f"{s.name}: {s.quick} cases quick, {s.thorough} thorough" for s in prop.segments) + "."
    if prop.assumptions:
        note += " Assumes: " + "; ".join(prop.assumptions) + "."
    checks.append({
        "property": pid,
        "quick_cmd": f"./run.py {pid}",
        "thorough_cmd": f"VERIF_TIER=thorough ./run.py {pid}",
        "evidence_file": f"evidence/{pid}.json",
        "technique": TECH[pid[0]],
        "level": "exploration",
        "level_note": note,
    })
doc = {"version": 1, "setup_cmd": "./run.py --selftest", "checks": checks, "not_applicable": [],
       "notes": "No hooks in /repo. Every check is ./run.py <id>; VERIF_SEED fixes all random choices; ./run.py <id> --replay FILE replays a shrunk failure. Nothing is built: the .py files of /repo's working tree are imported directly (no byte-code caches)."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(doc, fh, indent=1, ensure_ascii=False)
    fh.write("\n")
print(len(checks))
