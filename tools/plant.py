"""plant.py SPEC.py [ids...]: turn a list of planted bugs into seeded/<id>/ after checking each in a scratch copy.

SPEC.py defines BUGS = [dict(id, prop, file or subs with files, subs=[(old, new)], needs, breaks, demo)].
The demo is Python; it runs with the packages of the current directory in front.
"""
import concurrent.futures, json, os, re, runpy, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "17557a9"
EXTRA = os.environ.get("EXTRA")  # a directory: keep also changes to lines of fix commits and pure additions, there
SH = '#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'
HEAD = 'import os\nimport sys\n\nfor p in ("syntax", "runtime", "pygments", "docs"):\n    sys.path.insert(0, os.path.join(os.getcwd(), "fluent." + p))\n\n'


def run(cmd, cwd, timeout=300, **kw):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", LANG="C.UTF-8")
    env.update(kw)
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def tests(copy):
    pp = ":".join(f"{copy}/fluent.{p}" for p in ("syntax", "runtime", "pygments", "docs"))
    total = 0
    for p in ("fluent.syntax", "fluent.runtime", "fluent.pygments"):
        rc, out = run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-x", "-p", "no:cacheprovider", f"--rootdir={copy}"], f"{copy}/{p}", PYTHONPATH=pp)
        m = re.search(r"(\d+) passed", out)
        if rc != 0 or not m:
            return False, " ".join(re.findall(r"^(?:FAILED|ERROR).*", out, re.M))[:200] or out[-300:]
        total += int(m.group(1))
    return total >= 453, f"{total} passed"


def base_lines(path):
    rc, out = run(["git", "blame", "-s", "HEAD", "--", path], "/repo")
    ok = set()
    for i, l in enumerate(out.splitlines(), 1):
        if l.lstrip("^").startswith(BASE[:6]):
            ok.add(i)
    return ok


def one(b):
    copy = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        run(["git", "clone", "-q", "--shared", "/repo", copy + "/r"], "/tmp")
        r = copy + "/r"
        subs = b["subs"]
        for s in subs:
            f, old, new = s if len(s) == 3 else (b["file"],) + tuple(s)
            path = os.path.join(r, f)
            text = open(path, encoding="utf-8").read()
            if text.count(old) != 1:
                return b["id"], False, f"{text.count(old)} occurrences of {old!r} in {f}"
            open(path, "w", encoding="utf-8").write(text.replace(old, new))
        rc, diff = run(["git", "diff"], r)
        rc, d0 = run(["git", "diff", "-U0"], r)
        cur, removed = None, 0
        for l in d0.splitlines():
            if l.startswith("--- a/"):
                cur = l[6:]
                bl = base_lines(cur)
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
            if m:
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for k in range(a, a + n):
                    removed += 1
                    if k not in bl and not EXTRA:
                        return b["id"], False, f"{cur}:{k} is not a line of the original repository"
        if not removed and not EXTRA:
            return b["id"], False, "only adds lines"
        ok, msg = tests(r)
        if not ok:
            return b["id"], False, "tests fail: " + msg
        dd = copy + "/demo"
        os.mkdir(dd)
        demo = b["demo"].lstrip("\n")
        open(dd + "/demo.py", "w").write(demo if demo.startswith("#raw") else HEAD + demo)
        open(dd + "/demo.sh", "w").write(SH)
        os.chmod(dd + "/demo.sh", 0o755)
        rc0, o0 = run([dd + "/demo.sh"], "/repo")
        if rc0 != 0:
            return b["id"], False, "demo fails on /repo: " + o0[-1500:]
        rc1, o1 = run([dd + "/demo.sh"], r)
        if rc1 == 0:
            return b["id"], False, "demo passes with the patch: " + o1[-500:]
        out = os.path.join(EXTRA or ROOT + "/seeded", b["id"])
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(out)
        for f in ("demo.py", "demo.sh"):
            shutil.copy(dd + "/" + f, out + "/" + f)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        return b["id"], True, o1.strip().splitlines()[-1][:150] if o1.strip() else ""
    finally:
        shutil.rmtree(copy, ignore_errors=True)


bugs = runpy.run_path(sys.argv[1])["BUGS"]
if len(sys.argv) > 2:
    bugs = [b for b in bugs if b["id"] in sys.argv[2:]]
with concurrent.futures.ThreadPoolExecutor(8) as ex:
    for id, ok, msg in ex.map(one, bugs):
        print("KEPT" if ok else "----", id, msg)
