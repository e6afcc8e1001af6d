"""Writes DESIGN.md: tools/design_head.md + one section per property + tools/design_tail.md + the table of planted bugs."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from pf.index import MODULE_OF

HERE = os.path.dirname(os.path.abspath(__file__))
out = [open(os.path.join(HERE, "design_head.md")).read().rstrip() + "\n\n## Per property\n"]
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    prop = importlib.import_module("pf.props." + MODULE_OF[pid]).PROPS[pid]
    out.append(f"### {pid} {p['title']}\n")
    out.append(f"- Quantifies over: {p['quantifier']['text']}.")
    out.append(f"- Generated, oracle, non-trivial rule: {prop.rule}")
    out.append("- Bounds (quick / thorough cases): " + ", ".join(f"{s.name} {s.quick} / {s.thorough}" for s in prop.segments) + f"; module pf/props/{MODULE_OF[pid]}.py.")
    if prop.assumptions:
        out.append("- Assumes: " + "; ".join(prop.assumptions) + ".")
    out.append(f"- Why the tests cannot: {p['why_tests_cant']}\n")
out.append(open(os.path.join(HERE, "design_tail.md")).read().rstrip() + "\n")
out.append("## Known findings and repairs\n\nFrom known_findings.jsonl, which the checks read.\n")
for line in open(os.path.join(ROOT, "known_findings.jsonl")):
    k = json.loads(line)
    if k["status"] == "known":
        out.append(f"- known: property={k['property']} ({k['key']}) {k['what']}")
    else:
        out.append(f"- {k['line']}")
out.append("\n## Planted bugs\n")
res = {}
rp = os.path.join(HERE, "seeded_results.json")
if os.path.exists(rp):
    res = json.load(open(rp))
sd = os.path.join(ROOT, "seeded")
names = sorted(os.listdir(sd)) if os.path.isdir(sd) else []
out.append(f"{len(names)} changes are kept under seeded/. 'Caught by' names every check that reported a violation with the change applied (quick tier, VERIF_SEED=1, own property first; tools/campaign.py).\n")
out.append("| change | property | what it breaks | caught by |\n|---|---|---|---|")
for n in names:
    m = json.load(open(os.path.join(sd, n, "meta.json")))
    c = res.get(n)
    out.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {'not run' if c is None else ', '.join(c) or 'none'} |")
with open(os.path.join(ROOT, "DESIGN.md"), "w") as fh:
    fh.write("\n".join(out) + "\n")
