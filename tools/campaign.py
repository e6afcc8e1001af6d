"""campaign.py [--all-checks] [--seed N] [--dir D] [ids...]: run the checks against each planted bug in a scratch clone.

By default only the bug's own property is run; results are merged into tools/seeded_results.json.
"""
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
allc = "--all-checks" in args
seed = "1"
if "--seed" in args:
    i = args.index("--seed")
    seed = args[i + 1]
    del args[i:i + 2]
base = os.path.join(ROOT, "seeded")
if "--dir" in args:  # other planted bugs: nothing is recorded
    i = args.index("--dir")
    base = args[i + 1]
    del args[i:i + 2]
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(base))
pids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
rp = os.path.join(ROOT, "tools", "seeded_results.json")
results = json.load(open(rp)) if os.path.exists(rp) else {}
PKG = {"fluent.syntax": "SPT R15 R16 R08 R09 R02", "fluent.runtime": "R", "fluent.pygments": "PT", "fluent.docs": "D", "tools": "T"}
for n in ids:
    d = os.path.join(base, n)
    own = json.load(open(d + "/meta.json"))["property"]
    patch = open(d + "/patch.diff").read()
    todo = [own]
    if allc:
        pk = {m.split("/")[0] for m in re.findall(r"^--- a/(\S+)", patch, re.M)}
        want = " ".join(PKG.get(p, "") for p in pk)
        todo += [p for p in pids if p != own and (p[0] in want.split()[0] or p in want)]
    tmp = tempfile.mkdtemp(prefix="camp-", dir="/tmp")
    r = tmp + "/r"
    caught = []
    note = ""
    try:
        subprocess.run(["git", "clone", "-q", "--shared", "/repo", r], check=True)
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=r, check=True)
        for p in todo:
            o = subprocess.run([ROOT + "/run.py", p], cwd=ROOT, env=dict(os.environ, VERIF_REPO=r, VERIF_SEED=seed), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if o.returncode == 1 and f"VIOLATION property={p} " in o.stdout:
                caught.append(p)
                if p == own:
                    note = " | ".join(l for l in o.stdout.splitlines() if l.startswith((p + " [", "case:")))[:400]
            elif o.returncode != 0:
                caught.append(f"{p}(error {o.returncode})")
                note += o.stdout[-300:]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    prev = results.get(n, [])
    results[n] = caught if allc else sorted(set(caught) | {p for p in prev if p not in todo}, key=lambda p: (p != own, p))
    print("caught" if own in caught else "MISSED", n, own, caught, note, flush=True)
    if base == os.path.join(ROOT, "seeded"):
        json.dump(dict(sorted(results.items())), open(rp, "w"), indent=1)
