"""T01, D01: the command-line tools and the docs build."""
import contextlib
import datetime as dt
import html.parser
import io
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

from .. import env
from .. import gen, mast as M
from ..engine import Property, Segment, Violation

import fluent.docs
import fluent.docs.build
import fluent.docs.tags
import fluent.pygments.cli
from fluent.syntax import parse, serialize

PROPS = {}


def fail(msg, *a):
    raise Violation(msg.format(*a) if a else msg)


# --------------------------------------------------------------------------- T01
def run_tool(name, path):
    """Standard output of tools/<name>.py, run in this process."""
    buf = io.BytesIO()
    out = io.TextIOWrapper(buf, encoding="utf-8", newline="", write_through=True)
    saved = sys.argv, list(sys.path)
    sys.argv = [name, path]
    try:
        with contextlib.redirect_stdout(out):
            if name == "pygments":
                fluent.pygments.cli.main()
            else:
                runpy.run_path(os.path.join(env.REPO, "tools", name + ".py"), run_name="__main__")
    except SystemExit as e:
        if e.code not in (None, 0):
            fail("{} ended with {!r}", name, e.code)
    finally:
        sys.argv, sys.path[:] = saved
    out.flush()
    return buf.getvalue().decode("utf-8")


ASCII = {"LC_ALL": "C", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "PYTHONIOENCODING": "utf-8"}


def spawn_tool(name, path, module=False, ascii=False, cwd=None):
    if name == "pygments":
        cmd = [sys.executable] + (["-m", "fluent.pygments.cli"] if module else ["-c", "from fluent.pygments.cli import main; main()"])
    else:
        cmd = [sys.executable, os.path.join(env.REPO, "tools", name + ".py")]
    e = dict(os.environ, PYTHONPATH=os.pathsep.join(os.path.join(env.REPO, p) for p in env.PACKAGES), PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent-pycache")
    e.update(ASCII if ascii else {"PYTHONUTF8": "1"})
    r = subprocess.run(cmd + [path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd)
    if r.returncode:
        fail("{} ended with {}: {}", name, r.returncode, r.stderr.decode("utf-8", "replace")[-400:])
    return r.stdout.decode("utf-8")


ANSI = re.compile("\x1b\\[[0-9;]*m")


def tool_source(d):
    s = gen.any_source(d) if d.chance(1, 2) else gen.render(d, gen.resource(d, gen.DEFAULT, 4))
    s = s.encode("utf-8", "replace").decode("utf-8").replace("\x1b", "e")
    if d.chance(1, 6):
        s = s.replace("\r", "").replace("\n", "\r\n")
    return gen.large(d, s, 16)


def tools_check(d, run):
    src = tool_source(d)
    d.show(src)
    d.nontrivial(len(src) > 10)
    fd, path = tempfile.mkstemp(prefix=d.choice(["verif-t01-", "verif-t01-a b-", "verif-t01-\u00fc-"]), suffix=d.choice([".ftl", ".ftl", ".txt", ""]))
    jpath = path + ".json"
    try:
        with os.fdopen(fd, "wb") as fh:
            fh.write(src.encode("utf-8"))
        ast = parse(src)
        printed = run("parse", path)
        try:
            got = json.loads(printed)
        except ValueError as e:
            fail("parse.py printed no JSON: {}", e)
        diff = M.diff(got, ast.to_json())
        if diff:
            fail("parse.py: {}", diff)
        with open(jpath, "wb") as fh:
            fh.write(printed.encode("utf-8"))
        want = serialize(ast)
        ser = run("serialize", jpath)
        if ser not in (want, want + "\n"):
            fail("serialize.py printed {!r}, expected {!r}", ser, want)
        fmt = run("fluentfmt", path)
        if fmt != ser:
            fail("fluentfmt.py printed {!r}, parse.py | serialize.py {!r}", fmt, ser)
        if "\r" not in src.replace("\r\n", ""):
            with open(path, "wb") as fh:
                fh.write(fmt.encode("utf-8"))
            again = run("fluentfmt", path)
            if again.rstrip("\n") != fmt.rstrip("\n"):
                fail("fluentfmt.py of its own output {!r} printed {!r}", fmt, again)
            with open(path, "wb") as fh:
                fh.write(src.encode("utf-8"))
        shown = ANSI.sub("", run("pygments", path))
        norm = src.replace("\r\n", "\n").replace("\r", "\n")
        # pygments itself drops a byte order mark and outer line ends
        if norm.startswith("\ufeff"):
            norm = norm[1:]
        if shown.strip("\n") != norm.strip("\n"):
            fail("the pygments command printed {!r}", shown)
    finally:
        for p in (path, jpath):
            if os.path.exists(p):
                os.unlink(p)


def tools_case(d):
    tools_check(d, run_tool)


def spawned_case(d):
    """The commands as processes: from another directory, and where the locale is not UTF-8."""
    module, ascii, near = d.chance(1, 2), d.chance(1, 2), d.chance(1, 2)
    d.label("ASCII locale" if ascii else "UTF-8")

    def run(name, path):
        if near:
            return spawn_tool(name, os.path.basename(path), module, ascii, os.path.dirname(path))
        return spawn_tool(name, path, module, ascii)
    tools_check(d, run)


PROPS["T01"] = Property(
    "T01",
    "Files with generated valid, mutated and malformed contents (CRLF, lone CR, byte order mark, control and non-BMP characters) are given to the four commands, in-process and (spawned) as real processes, also from the file's directory and in an ASCII locale; their output is compared with parse, serialize and the file. Non-trivial: more than ten characters.",
    [Segment("tools", tools_case, 1800), Segment("spawned", spawned_case, 40, 400)],
    ["files contain no escape characters of their own", "the serializer's known finding with lone carriage returns is left out of the idempotence check", "pygments itself drops a byte order mark and leading and trailing line ends and turns CRLF into LF", "standard output is UTF-8"],
    scale=1,
)


# --------------------------------------------------------------------------- D01
NOBODY = 65534
PROJECTS = ["fluent.syntax", "fluent.pygments", "fluent.runtime", "fluent.x"]
STUB = """#!/bin/sh
# stands in for sphinx-build: writes down how it was called
n=$(ls "$VERIF_LOG" | wc -l)
rec="$VERIF_LOG/$(printf %04d "$n")"
mkdir "$rec"
for a; do printf '%s\\n' "$a"; done > "$rec/args"
printf '%s' "$PYTHONPATH" > "$rec/pythonpath"
pwd > "$rec/cwd"
src=; dst=; conf=; trees=; all=; strict=
while [ $# -gt 0 ]; do
  case "$1" in
    -c) shift; conf=$1; [ $# -gt 0 ] && shift;;
    -d) shift; trees=$1; [ $# -gt 0 ] && shift;;
    -A|-D|-b|-j|-t|-w) shift; [ $# -gt 0 ] && shift;;
    --write-all) all=1; shift;;
    --fail-on-warning) strict=1; shift;;
    --*) shift;;
    -*) case "$1" in *a*) all=1;; esac; case "$1" in *W*) strict=1;; esac; shift;;
    *) if [ -z "$src" ]; then src=$1; else dst=$1; fi; shift;;
  esac
done
printf '%s' "$src" > "$rec/src"
printf '%s' "$dst" > "$rec/dst"
cat "$src/marker" > "$rec/marker" 2>/dev/null
cat "$src/_templates/versions.html" > "$rec/versions" 2>/dev/null
[ -n "$conf" ] || conf=$src
(cd "$conf" && pwd -P) > "$rec/conf"
if [ ! -f "$conf/conf.py" ]; then exit 2; fi
if [ -n "$VERIF_FAIL" ] && [ "$VERIF_FAIL" = "$(cat "$src/marker")" ]; then exit 2; fi
if [ -n "$VERIF_WARN" ] && [ "$VERIF_WARN" = "$(cat "$src/marker")" ] && [ -n "$strict" ]; then exit 1; fi
[ -n "$trees" ] || trees=$dst/.doctrees
mkdir -p "$dst/_static" "$trees"
echo t > "$trees/environment.pickle"
echo page > "$dst/index.html"
# without -a, pages with unchanged sources are left as they are
if [ -n "$all" ] || [ ! -f "$dst/page.html" ] || [ "$(cat "$src/marker")" != "$(head -n 1 "$dst/page.html")" ]; then
  cat "$src/marker" > "$dst/page.html"
  echo >> "$dst/page.html"
  cat "$src/_templates/versions.html" >> "$dst/page.html" 2>/dev/null
fi
echo o > "$dst/_static/documentation_options.js"
echo t > "$dst/_static/theme.css"
echo t > "$dst/_static/doctools.js"
for f in documentation_extra.js options.js my_documentation_options.js documentation_options.js.map documentation_options.css Documentation_Options.js language_data.js LICENSE .nojekyll a.b.c documentation_options; do
  echo t > "$dst/_static/$f"
done
exit 0
"""


try:
    with open(os.path.join(env.REPO, "scripts", "build-docs"), encoding="utf-8") as _fh:
        SCRIPT = _fh.read()
except OSError:
    SCRIPT = None


class Page(html.parser.HTMLParser):
    """Links, version and redirect of a page."""

    def __init__(self, text):
        super().__init__()
        self.links, self.version, self.refresh, self.to = [], [], [], None
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        attrs = dict(attrs)
        if tag == "a" and "href" in attrs:
            self.links.append([attrs["href"], ""])
            self.to = self.links[-1]
        elif tag == "span" and attrs.get("class") == "version":
            self.version.append([None, ""])
            self.to = self.version[-1]
        elif tag == "meta" and (attrs.get("http-equiv") or "").lower() == "refresh":
            self.refresh.append(attrs.get("content"))

    def handle_endtag(self, tag):
        if tag in ("a", "span"):
            self.to = None

    def handle_data(self, data):
        if self.to is not None:
            self.to[1] += data


class Escape(Exception):
    pass


def guard(base):
    """An audit hook that stops every change outside base."""
    base = base.rstrip("/")

    def inside(p, dir_fd=-1):
        if isinstance(p, int):
            return True
        p = os.fsdecode(p)
        if not os.path.isabs(p):
            root = os.readlink(f"/proc/self/fd/{dir_fd}") if isinstance(dir_fd, int) and dir_fd >= 0 else os.getcwd()
            p = os.path.join(root, p)
        head, tail = os.path.split(os.path.normpath(p))
        q = os.path.join(os.path.realpath(head), tail)
        return q == base or q.startswith(base + "/") or q == "/dev/null"
    wr = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND

    def hook(event, args):
        bad = None
        if event == "open":
            path, mode, flags = args
            if flags and flags & wr and not isinstance(path, int) and not inside(path):
                bad = path
        elif event in ("os.remove", "os.rmdir", "shutil.rmtree"):
            if not inside(args[0], args[1] if len(args) > 1 and args[1] is not None else -1):
                bad = args[0]
        elif event in ("os.mkdir",):
            if not inside(args[0], args[2]):
                bad = args[0]
        elif event in ("os.rename", "os.link"):
            if not inside(args[0], args[2]) or not inside(args[1], args[3]):
                bad = args
        elif event == "os.symlink":
            if not inside(args[1], args[2]):
                bad = args[1]
        elif event in ("os.chmod", "os.chown", "os.truncate", "os.utime"):
            if not isinstance(args[0], int) and not inside(args[0]):
                bad = args[0]
        elif event in ("os.kill", "os.killpg"):
            bad = args
        if bad is not None:
            raise Escape(f"{event} {bad!r}")
    return hook


def contained(base, envvars, fn):
    """Runs fn in a child process of an unprivileged user, in base; its error text or None."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        msg = None
        try:
            os.close(r)
            os.chdir(base)
            if os.getuid() == 0:
                os.setgroups([])
                os.setgid(NOBODY)
                os.setuid(NOBODY)
            os.environ.update(envvars)
            for k in ("GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE", "PYTHONPATH"):
                os.environ.pop(k, None)
            tempfile.tempdir = None
            null = os.open("/dev/null", os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(null, fd)
            sys.addaudithook(guard(base))
            fn()
        except BaseException as e:
            msg = f"{type(e).__name__}: {e}"
        try:
            if msg is not None:
                os.write(w, msg[:3000].encode("utf-8", "replace"))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        out = fh.read().decode("utf-8", "replace")
    os.waitpid(pid, 0)
    return out or None


def tree(base, skip=()):
    out = {}
    for root, dirs, files in os.walk(base):
        rel = os.path.relpath(root, base)
        dirs[:] = [x for x in dirs if os.path.normpath(os.path.join(rel, x)) not in skip]
        for f in files + [x for x in dirs if os.path.islink(os.path.join(root, x))]:
            p = os.path.join(root, f)
            if os.path.islink(p):
                out[os.path.normpath(os.path.join(rel, f))] = "-> " + os.readlink(p)
            else:
                with open(p, "rb") as fh:
                    out[os.path.normpath(os.path.join(rel, f))] = fh.read()
    return out


def history(d, script):
    """(projects in the repository, [(commit date, [tags])])"""
    projects = d.shuffled(PROJECTS)[:1 + d.draw(3)] if not script else d.shuffled(PROJECTS[:3]) + PROJECTS[3:][:d.draw(1)]
    day = dt.datetime(2020, 1, 1, 12, tzinfo=dt.timezone.utc) if not script else dt.datetime(2020, 4, 20, 12, tzinfo=dt.timezone.utc)
    commits, count = [], {}
    for _ in range(1 + d.draw(5)):
        day += dt.timedelta(days=d.draw(3) * 10, hours=1 + d.draw(5))
        tags = []
        for p in projects:
            if d.chance(2, 5):
                count[p] = count.get(p, 0) + 1
                tags.append((p, d.choice(["0.{}", "1.{}.0", "9.{}", "{}.0a1"]).format(count[p] if d.chance(3, 4) else 30 - count[p])))
        commits.append((day, tags))
    return projects, commits


def docs_case(d):
    script = d.chance(1, 5) and SCRIPT is not None  # scripts/build-docs instead of the functions
    projects, commits = history(d, script)
    seen = set()
    for i, (day, tags) in enumerate(commits):
        commits[i] = (day, [t for t in tags if not (t in seen or seen.add(t))])
    days = [day.date() for day, _ in commits]
    runs = []
    for _ in range(1 + d.draw(1)):
        wanted = [p for p in projects if d.chance(4, 5)] or projects[:1]
        cut = d.choice([None, days[0] - dt.timedelta(days=1)] + [x for x in days] + [days[-1] - dt.timedelta(days=1)])
        runs.append((d.shuffled(wanted), cut))
    order = d.draw(1)
    pre = d.draw(4)
    repo = d.choice(["python-fluent", "repo", "x.y"])
    whole = d.chance(1, 3)
    if script:
        # its cut-off date is fixed
        runs = [([p for p in w if p != "fluent.x"] or PROJECTS[:1], None if c is None or d.chance(1, 4) else dt.date(2020, 5, 1)) for w, c in runs]
        if d.chance(1, 3):
            runs[0] = (PROJECTS[:3], runs[0][1])
            whole = True
    annotated = d.draw(255) if d.chance(1, 3) else 0
    late = d.draw(15) if d.chance(1, 2) else 0
    # sphinx-build failing, or giving a warning, for one version in the last run
    broken = None
    if d.chance(1, 8):
        p = d.choice(projects)
        broken = (d.choice(["VERIF_FAIL", "VERIF_WARN"]), d.choice([(p, "dev")] + [t for _, tags in commits for t in tags] + [None]))
    d.show({"script": script, "projects": projects, "commits": [(str(day), tags) for day, tags in commits], "runs": [(w, str(c)) for w, c in runs], "repo": repo, "stale stable": pre, "annotated": annotated, "added late": late, "broken": broken})
    d.nontrivial(sum(len(t) for _, t in commits) > 1 and any(c for _, c in runs))
    base = os.path.realpath(tempfile.mkdtemp(prefix="verif-d01-"))
    try:
        docs(d, base, projects, commits, runs, order, pre, repo, whole, annotated, late, script, broken)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def builds(commits, wanted, cut):
    """{project: its releases newer than the cut-off, newest first}"""
    releases = {p: [] for p in wanted}
    for day, tags in reversed(commits):
        for p, v in tags:
            if p in releases and cut is not None and day.date() > cut:
                releases[p].append(v)
    return releases


def docs(d, base, projects, commits, runs, order, pre, repo, whole, annotated, late, script, broken):
    work, tmp, bin_, home = (os.path.join(base, x) for x in ("work", "tmp", "bin", "home"))
    for x in (work, tmp, bin_, home):
        os.mkdir(x)
    with open(os.path.join(bin_, "sphinx-build"), "w") as fh:
        fh.write(STUB)
    os.chmod(os.path.join(bin_, "sphinx-build"), 0o755)
    # the repository, as a fast-import stream
    out = []

    def data(s):
        b = s.encode()
        return f"data {len(b)}\n{s}\n"
    others = ["fluent.other"]
    # some projects were added to the repository with their first release, or with the last commit
    since = {p: next((i for i, (_, tags) in enumerate(commits) if p in [q for q, _ in tags]), len(commits) - 1) if late >> n & 1 else 0 for n, p in enumerate(projects)}
    for i, (day, tags) in enumerate(commits):
        out.append(f"commit refs/heads/main\ncommitter A <a@b> {int(day.timestamp())} +0000\n" + data(f"c{i}"))
        for p in [p for p in projects if since[p] <= i] + others:
            v = next((v for q, v in tags if q == p), f"unreleased{i}")
            out.append(f"M 644 inline {p}/docs/marker\n" + data(f"{p} {v}"))
            out.append(f"M 644 inline {p}/docs/index.rst\n" + data(f"{p} {v}"))
            out.append(f"M 644 inline {p}/fluent/code.py\n" + data("# code"))
            if order:
                out.append(f"M 644 inline {p}/docs/_templates/layout.html\n" + data("layout"))
        out.append("M 644 inline .gitignore\n" + data("_build\n/fluent.*/docs/_templates/versions.html\n"))
        out.append("M 644 inline docs/marker\n" + data("root"))
        out.append("M 644 inline docs/conf.py\n" + data("# conf"))
        for j, (p, v) in enumerate(tags):
            if annotated >> (i + j) & 1:
                out.append(f"tag {p}@{v}\nfrom refs/heads/main\ntagger A <a@b> {int(day.timestamp()) + 60} +0000\n" + data("release"))
            else:
                out.append(f"reset refs/tags/{p}@{v}\nfrom refs/heads/main\n\n")
        if i == 0:
            out.append("reset refs/tags/v1@2\nfrom refs/heads/main\n\nreset refs/tags/fluent.other@7.7\nfrom refs/heads/main\n\n")
    os.mkdir(os.path.join(work, "log"))
    environ = {"PATH": bin_ + ":/usr/local/bin:/usr/bin:/bin", "HOME": home, "TMPDIR": tmp, "GIT_CONFIG_NOSYSTEM": "1", "GIT_CONFIG_GLOBAL": "/dev/null", "VERIF_LOG": os.path.join(base, "log"), "LC_ALL": "C.UTF-8"}
    os.rmdir(os.path.join(work, "log"))
    os.mkdir(os.path.join(base, "log"))
    for root, dirs, files in os.walk(base):
        os.chown(root, NOBODY, NOBODY)
        for f in files:
            os.chown(os.path.join(root, f), NOBODY, NOBODY)

    def start():
        os.chdir("work")
        subprocess.run(["git", "init", "-q", "-b", "main"], check=True)
        subprocess.run(["git", "fast-import", "--quiet"], input="".join(out).encode(), check=True)
        subprocess.run(["git", "reset", "-q", "--hard", "main"], check=True)
        for p in projects:
            with open(f"{p}/docs/marker", "w") as fh:
                fh.write(f"{p} dev")
        if pre:
            p = projects[0]
            os.makedirs(f"_build/{repo}/{p}")
            s = f"_build/{repo}/{p}/stable"
            if pre == 1:
                os.makedirs(s + "/sub")
                with open(s + "/sub/f", "w") as fh:
                    fh.write("old")
            elif pre == 2:
                os.symlink("gone", s)
            elif pre == 3:
                os.makedirs(f"_build/{repo}/{p}/0.0.1")
                with open(f"_build/{repo}/{p}/0.0.1/keep.html", "w") as fh:
                    fh.write("keep")
                os.mkdir(f"_build/{repo}/{p}/0.0.1/_static")
                with open(f"_build/{repo}/{p}/0.0.1/_static/keep.css", "w") as fh:
                    fh.write("keep")
                os.symlink("0.0.1", s)
            else:
                os.mkdir("precious")
                with open("precious/f", "w") as fh:
                    fh.write("keep")
                os.symlink(os.path.abspath("precious"), s)
    err = contained(base, environ, start)
    if err:
        raise RuntimeError("harness: " + err)
    skip = {".git", "_build"}
    refs = git_refs(work)
    before = tree(work, skip)
    for n, (wanted, cut) in enumerate(runs):
        failing = None
        if broken and n == len(runs) - 1:
            failing = "root" if broken[1] is None else "{} {}".format(*broken[1])
            environ[broken[0]] = failing
            must = whole if broken[1] is None else broken[1][0] in wanted and (broken[1][1] == "dev" or broken[1][1] in builds(commits, wanted, cut)[broken[1][0]])
            d.label("failing build" if must else "failing build of something else")
        built = tree(os.path.join(work, "_build"))
        for x in os.listdir(os.path.join(base, "log")):
            shutil.rmtree(os.path.join(base, "log", x))
        given = list(wanted)

        def go():
            os.chdir("work")
            if script:
                argv = [repo] + (["--dev"] if cut is None else [])
                docs = (["."] if whole else []) + wanted
                if docs != [".", *PROJECTS[:3]]:
                    for p in docs:
                        argv += ["--doc", p]
                elif order:
                    argv.reverse()
                sys.argv = ["build-docs"] + argv
                exec(compile(SCRIPT, "build-docs", "exec"), {"__name__": "__main__"})
                if not os.path.isfile(f"_build/{repo}/.nojekyll"):
                    raise Exception("no .nojekyll file")
                return
            if whole:
                fluent.docs.build_root(repo)
            if cut is None and order:
                fluent.docs.build.build(repo, wanted)
            else:
                fluent.docs.build.build(repo, wanted, cut)
            if whole:
                fluent.docs.finalize_builddir(repo)
                if not os.path.isfile(f"_build/{repo}/.nojekyll"):
                    raise Exception("no .nojekyll file")
            if wanted != given:
                raise Exception("the list of projects was changed")
        err = contained(base, environ, go)
        if failing and must:
            if not err:
                fail("sphinx-build {} for {}, but the build ended normally", "failed" if broken[0] == "VERIF_FAIL" else "had warnings", failing)
            if err.startswith("Escape"):
                fail("the build ended with {}", err)
            return
        if err:
            fail("the build ended with {}", err)
        check_run(d, base, work, tmp, before, built, skip, commits, given, cut, repo, whole, pre)
        if git_refs(work) != refs:
            fail("branches or tags of the repository were changed: {}", sorted(set(git_refs(work)) ^ set(refs)))


def git_refs(work):
    r = subprocess.run(["git", "-c", "safe.directory=*", "for-each-ref"], cwd=work, stdout=subprocess.PIPE, check=True, env={"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/nonexistent", "GIT_CONFIG_NOSYSTEM": "1"})
    return r.stdout.decode().splitlines()


def check_run(d, base, work, tmp, before, built, skip, commits, wanted, cut, repo, whole, pre):
    releases = builds(commits, wanted, cut)
    d.label("releases:%d" % min(5, sum(map(len, releases.values()))))
    expect = {}
    for p in wanted:
        for v in ["dev"] + releases[p]:
            expect[f"_build/{repo}/{p}/{v}"] = (p, v)
    if whole:
        expect[f"_build/{repo}"] = (None, None)
    seen = {}
    logs = os.path.join(base, "log")
    for n in sorted(os.listdir(logs)):
        rec = {}
        for f in os.listdir(os.path.join(logs, n)):
            with open(os.path.join(logs, n, f), encoding="utf-8") as fh:
                rec[f] = fh.read()
        cwd = rec["cwd"].strip()
        dst = os.path.relpath(os.path.join(cwd, rec["dst"]), work)
        if dst not in expect:
            fail("something is built into {}: {}", dst, rec)
        if dst in seen:
            fail("{} is built twice", dst)
        seen[dst] = rec
        p, v = expect[dst]
        if rec.get("conf", "").strip() != os.path.join(work, "docs"):
            fail("{} is built with the configuration in {!r}", dst, rec.get("conf"))
        args = rec["args"].splitlines()
        if f"root_url=/{repo}" not in [b for a, b in zip(args, args[1:]) if a == "-A"]:
            fail("{}: no root_url for {} in {}", dst, repo, args)
        if p is None:
            if rec["marker"] != "root":
                fail("the top-level docs are built from {!r}", rec["src"])
            continue
        if rec["marker"] != f"{p} {v}":
            fail("{} is built from a checkout of {!r}", dst, rec["marker"])
        versions = (["dev", "stable"] + releases[p]) if releases[p] else ["dev"]
        shown = Page(rec.get("versions", ""))
        if [(a, b.strip()) for a, b in shown.links] != [(f"/{repo}/{p}/{x}", x) for x in versions]:
            fail("{}: the version list has {}, expected {}", dst, shown.links, versions)
        here = [x.strip() for _, x in shown.version]
        if here != [v]:
            fail("{}: the page's own version is shown as {}", dst, here)
        opts = [args[i + 1] for i, a in enumerate(args[:-1]) if a == "-D"]
        if f"project={p}" not in opts:
            fail("{}: no project option in {}", dst, args)
        rel = [o for o in opts if o.startswith("release=")]
        if rel != ([f"release={v}"] if v != "dev" else []):
            fail("{}: release options {}", dst, rel)
        code = os.path.realpath(os.path.join(cwd, rec["pythonpath"].split(os.pathsep)[0]))
        if code != os.path.realpath(os.path.join(cwd, os.path.dirname(rec["src"]))):
            fail("{}: built with the code in {}", dst, rec["pythonpath"])
    if set(seen) != set(expect):
        fail("not built: {}", sorted(set(expect) - set(seen)))
    # the results
    for p in wanted:
        top = os.path.join(work, "_build", repo, p)
        with open(os.path.join(top, "index.html")) as fh:
            page = fh.read()
        target = "stable" if releases[p] else "dev"
        m = re.fullmatch(r"\s*0\s*;\s*URL\s*=\s*(.*?)/?\s*", (Page(page).refresh or [""])[0] or "", re.I)
        if not m or m.group(1) != target:
            fail("{}/index.html redirects to {!r}, expected {}", p, page, target)
        if releases[p]:
            s = os.path.join(top, "stable")
            if os.path.realpath(s) != os.path.join(top, releases[p][0]):
                fail("{}: stable is {}, expected {}", p, os.path.realpath(s), releases[p][0])
        for v in ["dev"] + releases[p]:
            st = os.path.join(top, v, "_static")
            if not os.path.isfile(os.path.join(top, v, "page.html")):
                fail("{} {}: a page is missing", p, v)
            with open(os.path.join(top, v, "page.html"), encoding="utf-8") as fh:
                page = fh.read()
            if page != f"{p} {v}\n" + seen[f"_build/{repo}/{p}/{v}"].get("versions", ""):
                fail("{} {}: the page is {!r}", p, v, page)
            if not os.path.isdir(st) or os.listdir(st) != ["documentation_options.js"]:
                fail("{} {}: _static has {}", p, v, os.listdir(st) if os.path.isdir(st) else None)
    # everything else in the build directory
    now = tree(os.path.join(work, "_build"))
    mine = [f"{repo}/{p}/{v}/" for p in wanted for v in ["dev"] + releases[p]] + [f"{repo}/{p}/index.html" for p in wanted] + [f"{repo}/{p}/stable" for p in wanted if releases[p]]
    for k in sorted(set(built) | set(now)):
        if k.startswith("doctrees") or k == f"{repo}/.nojekyll" or any(k.startswith(x) for x in mine):
            continue
        if whole and (k.count("/") == 1 or k.startswith((f"{repo}/_static/", f"{repo}/.doctrees/"))):
            continue
        if built.get(k) != now.get(k):
            fail("_build/{} was {!r}, now {!r}", k, built.get(k), now.get(k))
    after = {k: v for k, v in tree(work, skip).items() if not (k.endswith("docs/_templates/versions.html") and k not in before)}
    if after != before:
        fail("files of the working tree were changed: {}", sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k)))
    if os.listdir(tmp):
        fail("left in the temporary directory: {}", os.listdir(tmp))
    with open(os.path.join(work, ".git", "HEAD")) as fh:
        if fh.read().strip() != "ref: refs/heads/main":
            fail("the repository's own checkout was changed")
    extra = set(os.listdir(base)) - {"work", "tmp", "bin", "home", "log"}
    if extra:
        fail("created outside the build directory: {}", extra)


def tags_case(d):
    """get_tag_infos and TagInfo on a made-up history."""
    base = os.path.realpath(tempfile.mkdtemp(prefix="verif-d01-"))
    try:
        n = d.draw(8)
        made, want = [], []
        cut = dt.date(2021, 6, 15)
        day = dt.date(2021, 6, 20)
        for i in range(n):
            day -= dt.timedelta(days=d.draw(3))
            p, v = d.choice(PROJECTS), d.choice(["0.1", "1.0a2", "10.0", "2020.1"]) + str(i)
            made.append((p, v, day, d.chance(1, 2)))
            if day > cut:
                want.append([p, v, day.isoformat(), f"{p}@{v}"])
        d.show({"tags": [(p, v, str(day), light) for p, v, day, light in made]})
        d.nontrivial(n > 2)
        # a real repository with these tags, the newest made last
        stream = ["commit refs/heads/main\ncommitter A <a@b> 1500000000 +0000\ndata 1\nx\n"]
        for i, (p, v, day, light) in enumerate(reversed(made)):
            when = int(dt.datetime(day.year, day.month, day.day, 8, 0, i, tzinfo=dt.timezone.utc).timestamp())
            if light:
                stream.append(f"commit refs/heads/main\ncommitter A <a@b> {when} +0000\ndata 1\nx\nreset refs/tags/{p}@{v}\nfrom refs/heads/main\n\n")
            else:
                stream.append(f"tag {p}@{v}\nfrom refs/heads/main\ntagger A <a@b> {when} +0000\ndata 1\nx\n")
        stream.append("reset refs/tags/other@1\nfrom refs/heads/main\n\n")
        os.chown(base, NOBODY, NOBODY)

        def go():
            subprocess.run(["git", "init", "-q", "-b", "main"], check=True)
            subprocess.run(["git", "fast-import", "--quiet"], input="".join(stream).encode(), check=True)
            infos = fluent.docs.tags.get_tag_infos(cut)
            with open("out", "w") as fh:
                json.dump([[t.project, t.version, t.date.isoformat(), t.tag] for t in infos], fh)
        err = contained(base, {"PATH": "/usr/local/bin:/usr/bin:/bin", "TMPDIR": base, "HOME": base, "GIT_CONFIG_NOSYSTEM": "1", "GIT_CONFIG_GLOBAL": "/dev/null", "LC_ALL": "C.UTF-8"}, go)
        if err:
            fail("get_tag_infos: {}", err)
        with open(os.path.join(base, "out")) as fh:
            got = json.load(fh)
        if got != want:
            fail("tags {}, expected {}", got, want)
    finally:
        shutil.rmtree(base, ignore_errors=True)


PROPS["D01"] = Property(
    "D01",
    "docs: Real git repositories in scratch directories (one to four projects, up to six commits, tags of wanted, unwanted and foreign projects), with build() (or scripts/build-docs) run once or twice as an unprivileged user under an audit hook; sphinx-build is a stub that records its arguments, the checkout it was pointed at, the configuration and the version list, leaves unchanged pages alone without -a, and fails or warns on one version in an eighth of the cases. Stale stable entries (directory, dangling link, link to an old release, link to a precious directory). Compared: set of builds, checkouts, version lists, redirects, stable links, pages, the rest of the build directory, working tree, temporary directory. Non-trivial: two or more tags and a cut-off.",
    [Segment("docs", docs_case, 220), Segment("tags", tags_case, 160)],
    ["the dates of a project's tags differ", "sphinx-build itself is a stand-in", "every tagged checkout has the project's docs folder"],
    scale=1,
)
