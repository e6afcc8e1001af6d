"""R15, R16: fallback over locales, and loading from disk."""
import datetime as dt
import os
import shutil
import tempfile
from decimal import Decimal

from .. import env  # noqa: F401
from .. import gen, mast as M, refeval as RE
from .. import world as W
from ..engine import Property, Segment, Violation

from fluent.runtime import AbstractResourceLoader, FluentBundle, FluentLocalization, FluentResource, FluentResourceLoader
from fluent.syntax import FluentParser

PROPS = {}
IDS = ["a", "b", "c", "d", "e"]
TAGS = ["en-US", "de", "fr", "pl", "ar", "xx-nope", "en", "zz"]


def fail(msg, *a):
    raise Violation(msg.format(*a) if a else msg)


def usable(locs):
    for t in locs:
        if t not in ("xx-nope", "zz"):
            return t
    return None


# --------------------------------------------------------------------------- R15
def some_ids(d, k):
    out = []
    while len(out) < k:
        n = gen.identifier(d) if not out or d.chance(1, 2) else out[-1] + d.choice(["-", "_", "A", "0", "-t"])
        if n not in out:
            out.append(n)
    return out


def l10n_resource(d, tag, IDS=IDS):
    """A model resource with a few of the ids."""
    body, used = [], set()
    for n in IDS:
        if not d.chance(2, 5):
            continue
        elems = [M.text(f"{tag}/{n} ")]
        for _ in range(d.draw(2)):
            k = d.draw(5)
            if k <= 1:
                elems.append(M.placeable(M.var(d.choice(["n", "n", "x", "user-name"]))))
            elif k == 2:
                elems.append(M.placeable(M.msgref(d.choice(IDS), "at" if d.chance(1, 4) else None)))
            elif k == 3:
                elems.append(M.placeable(M.termref("t")))
            elif k == 4:
                elems.append(M.placeable(M.call("NOW", M.callargs()) if d.chance(1, 3) else M.call(d.choice(["FN", "NUMBER"]), M.callargs([M.var("n")]))))
            else:
                elems.append(M.placeable(M.select(M.var("n"), [M.variant(M.ident("one"), M.pattern([M.text("one")])), M.variant(M.ident("many"), M.pattern([M.text("many")])), M.variant(M.ident("other"), M.pattern([M.text("other")]), True)])))
        pat = M.pattern(elems) if len(elems) > 1 or d.chance(1, 2) else M.pattern([M.text(f"{tag}/{n}")])
        if pat["elements"][-1]["type"] == "TextElement":
            pat["elements"][-1] = M.text(pat["elements"][-1]["value"].rstrip())
        if d.chance(1, 12):
            pat = M.pattern([M.placeable(M.string(""))])
        attrs = [M.attribute("at", M.pattern([M.text(f"{tag}/{n}.at")]))] if d.chance(1, 3) else []
        if d.chance(1, 6):
            body.append(M.message(n, None, attrs or [M.attribute("at", M.pattern([M.text("only")]))]))
        else:
            body.append(M.message(n, pat, attrs))
        used.add(n)
    if d.chance(1, 2):
        body.append(M.term("t", M.pattern([M.text(f"term/{tag}")])))
    return M.resource(body)


class Loader(AbstractResourceLoader):
    """Hands out prepared resources and records what is asked of it."""

    def __init__(self, table, log, as_list):
        self.table, self.log, self.as_list = table, log, as_list

    def resources(self, locale, resource_ids):
        if self.as_list:
            self.log.append(("ask", locale, list(resource_ids)))
            return [list(x) for x in self.table[locale]]
        return self._gen(locale, resource_ids)

    def _gen(self, locale, resource_ids):
        self.log.append(("ask", locale, list(resource_ids)))
        for i, x in enumerate(self.table[locale]):
            self.log.append(("yield", locale, i))
            yield list(x)
        self.log.append(("end", locale))


def fallback_case(d):
    ids = IDS if d.chance(2, 3) else some_ids(d, 5)
    locales = []
    for _ in range(1 + d.draw(3) if not d.chance(1, 12) else 12):
        t = d.choice(TAGS)
        if t not in locales:
            locales.append(t)
    if usable(locales) is None:
        locales.append("de")
    rids = [f"{i}.ftl" for i in range(1 + d.draw(2))]
    table, models = {}, []  # models: one per bundle, in order
    for i, t in enumerate(locales):
        table[t] = []
        for j in range(d.weighted([(5, 1), (2, 2), (2, 0), (1, 3)])):
            lst = [l10n_resource(d, f"{t}.{j}", ids) for _ in range(1 + d.weighted([(3, 0), (3, 1), (2, 2), (1, 4)]))]
            table[t].append([FluentResource(gen.render(d, m, fancy=False)) for m in lst])
            models.append((i, lst))
    iso = d.choice([None, False, True])
    log, made = [], []
    now = [0]
    given = {"FN": lambda x: f"fn({x.format(None) if hasattr(x, 'name') else int(x)})", "NOW": lambda: f"at {now[0]}"}
    leaf = d.choice(ids)
    fns = None if d.chance(1, 4) else given

    class Bundle(FluentBundle):
        def __init__(self, locs, functions=None, use_isolating=True):
            made.append((list(locs), functions, use_isolating))
            super().__init__(locs, functions=functions, use_isolating=use_isolating)

    kw = {}
    if iso is not None:
        kw["use_isolating"] = iso
    if fns is not None:
        kw["functions"] = fns
    custom = d.chance(3, 4)
    if custom:
        kw["bundle_class"] = Bundle
    if fns is not None and d.chance(1, 4):
        fns["CROSS"] = lambda: "cross " + box[0].format_value(leaf, {"n": 1})
    loader = Loader(table, log, d.chance(1, 3))
    given_locales, given_rids = list(locales), list(rids)
    box = [FluentLocalization(locales, rids, loader, **kw)]
    other = FluentLocalization(list(reversed(locales)), rids, loader) if d.chance(1, 6) else None
    l10n = box[0]
    rfns = None if fns is None else {"FN": lambda x: "fn(" + (x.name if isinstance(x, RE.Non) else str(int(x.value))) + ")", "NOW": lambda: f"at {now[0]}"}
    refs = []
    for i, lst in models:
        tag = usable(locales[i:])
        ms, ts = RE.entries(lst)
        refs.append((i, RE.RefBundle(tag or "en-US", ms, ts, rfns, bool(iso)) if tag else None, ms))
    show = {"locales": locales, "bundles": [(locales[i], [sorted(e["id"]["name"] for e in m["body"]) for m in lst]) for i, lst in models], "isolating": iso, "ops": []}
    d.show(show)
    if log or made:
        fail("something was loaded before anything was formatted: {} {}", log, made)
    needed, spanned = 0, set()
    for _ in range(2 + d.draw(8) if not d.chance(1, 16) else 40):
        n = d.choice(ids + ids + ["zz", "", d.choice(ids) + ".at", "-" + d.choice(ids), "A", "a ", "{ a }"])
        args = d.choice([None, {}, {"n": 1}, {"n": 5}, {"n": 1234}])
        if args is not None and d.chance(1, 2):
            for v in ("x", "user-name", "unused"):
                if d.chance(2, 3):
                    args[v] = d.choice(["text", "", "{ $n }", 1.5, 0, 12345, Decimal("2.5"), dt.date(2020, 5, 6), "y z" * 50])
        before = None if args is None else dict(args)
        now[0] += 1
        show["ops"].append([n, args])
        if other is not None and d.chance(1, 2):
            keep, log[:] = list(log), []
            other.format_value(n, args)
            log[:] = keep
        want, at = n, len(refs)
        for k, (i, ref, ms) in enumerate(refs):
            if n in ms and ms[n]["value"] is not None:
                at = k
                want = None
                if ref is not None:
                    rargs = {q: x if isinstance(x, str) else RE.Dt(x) if isinstance(x, dt.date) else RE.Num(x) for q, x in (args or {}).items()}
                    try:
                        want = ref.format(ms[n]["value"], rargs)[0]
                    except RE.TooBig:
                        want = None
                break
        got = l10n.format_value(n, args) if args is not None or d.chance(1, 2) else l10n.format_value(n)
        if not isinstance(got, str):
            fail("format_value({!r}) returned {!r}", n, got)
        if args != before:
            fail("format_value changed its arguments {} to {}", before, args)
        if want is not None and got != want:
            fail("format_value({!r}, {}) is {!r}, expected {!r} from bundle {}", n, args, got, want, at)
        spanned.add(at)
        needed = max(needed, min(at + 1, len(refs)))
        exhausted = len(refs) in spanned
        if custom and len(made) != needed:
            fail("{} bundles have been made, {} are needed", len(made), needed)
        asked = [x[1] for x in log if x[0] == "ask"]
        last = len(locales) if exhausted else refs[needed - 1][0] + 1
        if asked != locales[:last]:
            fail("resources were requested for {}, needed: {}", asked, locales[:last])
        if any(x[2] != rids for x in log if x[0] == "ask"):
            fail("other resource ids were requested: {}", log)
        if not loader.as_list:
            ylds = sum(x[0] == "yield" for x in log)
            if ylds != needed:
                fail("{} lists of resources were taken, {} are needed", ylds, needed)
    if custom:
        for k, (locs, f, i_) in enumerate(made):
            w = locales[refs[k][0]:]
            if locs != w:
                fail("bundle {} was made for {}, expected {}", k, locs, w)
            if f is not fns and f != fns:
                fail("bundle {} was given the functions {}", k, f)
            if i_ is not bool(iso):
                fail("bundle {}: use_isolating={}", k, i_)
    if locales != given_locales or rids != given_rids:
        fail("the caller's lists were changed")
    d.nontrivial(len(refs) > 1 and len(spanned) > 1)
    d.label("bundles:%d" % len(refs), "exhausted" if len(refs) in spanned else "not exhausted")


def cross_case(d):
    """A function that itself uses the localization."""
    n = 1 + d.draw(3)
    locales = ["en-US", "de", "fr", "pl"][:n]
    where = {m: d.draw(n) for m in ("outer", "inner")}  # n: nowhere
    table = {}
    for i, t in enumerate(locales):
        src = "filler = x\n"
        if where["outer"] == i:
            src += "outer = <{ CROSS() }>\n"
        if where["inner"] == i:
            src += f"inner = in/{t}\n"
        table[t] = [[FluentResource(src)]]
    log = []
    fns = {"CROSS": lambda: l10n.format_value("inner")}
    l10n = FluentLocalization(locales, ["x"], Loader(table, log, d.chance(1, 2)), functions=fns)
    d.show({"locales": locales, "where": where})
    d.nontrivial(n > 1)
    inner = "inner" if where["inner"] == n else "in/" + locales[where["inner"]]
    want = "outer" if where["outer"] == n else f"<{inner}>"
    for m, w in (("outer", want), ("inner", inner), ("outer", want)) if d.chance(1, 2) else (("inner", inner), ("outer", want), ("inner", inner)):
        got = l10n.format_value(m)
        if got != w:
            fail("{} gives {!r}, expected {!r}", m, got, w)
    asked = [x[1] for x in log if x[0] == "ask"]
    if asked != locales[:len(asked)]:
        fail("requested {}", asked)


def subclass_case(d):
    """A localization of one's own, as docs/internals.rst describes it: _bundles yields bundles made by _create_bundle."""
    if not all(hasattr(FluentLocalization, n) for n in ("_bundles", "_create_bundle")):
        return
    n = 1 + d.draw(2)
    ids = IDS if d.chance(2, 3) else some_ids(d, 5)
    locales = d.shuffled(["en-US", "de", "fr", "pl"])[:n]
    models = [[l10n_resource(d, f"{t}.{j}", ids) for j in range(1 + d.draw(1))] for t in locales]
    compiled = [[FluentResource(gen.render(d, m, fancy=False)) for m in lst] for lst in models]
    iso = d.choice([None, False, True])
    now = [0]
    fns = {"FN": lambda x: f"fn({x.format(None) if hasattr(x, 'name') else int(x)})", "NOW": lambda: f"at {now[0]}"} if d.chance(3, 4) else None
    reuse, asked = d.chance(1, 2), []

    class Own(FluentLocalization):
        def __init__(self, **kw):
            super().__init__(locales, [], None, **kw)
            self.own = {}

        def _bundles(self):
            for i in range(n):
                asked.append(i)
                if i not in self.own or not reuse:
                    self.own[i] = self._create_bundle(locales[i:])
                    for r in compiled[i]:
                        self.own[i].add_resource(r)
                yield self.own[i]

    kw = {} if iso is None else {"use_isolating": iso}
    if fns:
        kw["functions"] = fns
    l10n = Own(**kw)
    if asked:
        fail("bundles were asked for before anything was formatted")
    rfns = None if fns is None else {"FN": lambda x: "fn(" + (x.name if isinstance(x, RE.Non) else str(int(x.value))) + ")", "NOW": lambda: f"at {now[0]}"}
    refs = [RE.RefBundle(t, *RE.entries(lst), rfns, bool(iso)) for t, lst in zip(locales, models)]
    entries = [RE.entries(lst)[0] for lst in models]
    show = {"locales": locales, "bundles": [sorted(e) for e in entries], "isolating": iso, "ops": []}
    d.show(show)
    spanned = set()
    for _ in range(2 + d.draw(6)):
        m = d.choice(ids + ["zz"])
        args = d.choice([None, {}, {"n": 1}, {"n": 5}])
        show["ops"].append([m, args])
        now[0] += 1
        del asked[:]
        want, at = m, n
        for k, e in enumerate(entries):
            if m in e and e[m]["value"] is not None:
                at = k
                try:
                    want = refs[k].format(e[m]["value"], {q: RE.Num(x) for q, x in (args or {}).items()})[0]
                except RE.TooBig:
                    want = None
                break
        got = l10n.format_value(m, args)
        if want is not None and got != want:
            fail("format_value({!r}, {}) is {!r}, expected {!r} from the subclass's bundle {}", m, args, got, want, at)
        if asked != list(range(min(at + 1, n))):
            fail("format_value({!r}) took the bundles {} of the subclass, expected the first {}", m, asked, min(at + 1, n))
        spanned.add(at)
    d.nontrivial(n > 1 and len(spanned) > 1)


PROPS["R15"] = Property(
    "R15",
    "fallback: up to four (sometimes eight) locales with zero to three lists of partial resources each, a recording loader (list or generator) and bundle class, two to ten (sometimes forty) format_value calls with arguments of several names and types, which must stay as given; results against the first bundle in order that has the message with a value (reference resolver), and after every call the loader's and the bundle class's call logs against what was needed so far. A function whose value changes between calls is among the fallback and subclass cases. cross: a function that calls format_value. subclass: a localization with bundles of its own, as docs/internals.rst describes. Non-trivial: more than one bundle and results from more than one; more than one locale.",
    [Segment("fallback", fallback_case, 6000), Segment("cross", cross_case, 600), Segment("subclass", subclass_case, 800)],
    ["the locales of one localization are distinct", "the loader yields no empty lists and does not fail"],
)


# --------------------------------------------------------------------------- R16
LOCS = ["en", "de-AT", "zh-Hant", "en_US", "fr", "sr-Cyrl-RS", "ca-ES-valencia", "EN", "x", "de-CH-1996-u-nu-latn", "1", "e n", "\u00e9", "tlh.utf8", "@", "%s"]
FNAMES = ["main.ftl", "b.ftl", "sub/c.ftl", "{locale}.ftl", "x-{locale}/d.ftl", "deep/er/{locale}/e.ftl", "nolocale", "\u00e9.ftl", "a b.ftl", "{locale}-{locale}.ftl", ".hidden", "B.FTL", "main.ftl.bak", "e\u0301.ftl", "%s%d.ftl", "~a$b.ftl", "-x.ftl", "sub/../c.ftl", "many/a/b/c/d/e/f.ftl", "#a?.ftl", "" + "y" * 120 + ".ftl"]
ROOTS = ["link/../r2/{locale}", "r2/./{locale}", "r1/../r2", "r1/{locale}", "r2", "l10n/{locale}/files", "{locale}", "r3-{locale}", "r 4/\u00fc/{locale}", "."]
EXTRAS = ["k = \u00fcmlaut \u05d0 \U0001f600\n", "k = crlf\r\nl = x\r\n", "# c\n\nk = { $x ->\n   *[o] v\n }\n", "broken\n\nk = v", "", "\n", "k = a\n    .b = c\n-t = T\n", "k = lone\rcr\nl = m\n", "\ufeffk = bom\n", "k = \u2028sep\x0b\x0c\x85 v\n"]


def content(d):
    s = "".join(d.choice(EXTRAS) if d.chance(2, 3) else gen.any_source(d, 2) for _ in range(1 + d.draw(1)))
    return gen.large(d, s, 60).encode("utf-8", "replace")


def disk_case(d):
    base = tempfile.mkdtemp(prefix="verif-r16-")
    cwd = os.getcwd()
    try:
        disk(d, base)
    finally:
        os.chdir(cwd)
        shutil.rmtree(base, ignore_errors=True)


def subst(s, loc):
    return loc.join(s.split("{locale}"))


def disk(d, base):
    roots = []
    for _ in range(1 + (d.draw(7) if d.chance(1, 10) else d.draw(2))):
        r = d.choice(ROOTS)
        if r not in roots or d.chance(1, 3):
            roots.append(r)
    os.makedirs(os.path.join(base, "else", "where"))
    os.symlink(os.path.join("else", "where"), os.path.join(base, "link"))
    os.makedirs(os.path.join(base, "r1"))
    ids = []
    for _ in range(1 + (d.draw(12) if d.chance(1, 10) else d.draw(3))):
        f = d.choice(FNAMES)
        if f not in ids or d.chance(1, 6):
            ids.append(f)
    locs = d.shuffled(LOCS)[:1 + d.draw(2)]
    relative = d.chance(1, 6)
    files, dirs, links = {}, [], []
    for loc in locs:
        for r in roots:
            for f in ids:
                p = os.path.realpath(os.path.join(base, subst(r, loc), subst(f, loc)))
                if p in files:
                    continue
                k = d.weighted([(12, "file"), (6, "none"), (2, "dir"), (1, "link"), (1, "broken link")])
                if k == "file":
                    files[p] = content(d)
                elif k == "dir":
                    dirs.append(p)
                elif "link" in k:
                    links.append((p, k == "link"))
    for p, c in files.items():
        try:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as fh:
                fh.write(c)
        except OSError:
            pass
    for p in dirs:
        try:
            os.makedirs(p, exist_ok=True)
        except OSError:
            pass
    for i, (p, whole) in enumerate(links):
        try:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            target = os.path.join(base, "else", f"target{i}")
            if whole:
                with open(target, "wb") as fh:
                    fh.write(content(d))
            os.symlink(target, p)
        except OSError:
            pass
    if relative:
        os.chdir(base)
        rr = list(roots)
    else:
        rr = [os.path.join(base, r) if r != "." else base for r in roots]
    if d.chance(1, 5):
        rr = [r + "/" for r in rr]
    arg = rr[0] if len(rr) == 1 and d.chance(2, 3) else rr
    loader = FluentResourceLoader(arg)
    d.show({"roots": roots, "ids": ids, "locales": locs, "relative": relative, "files": {os.path.relpath(p, base): c.decode() for p, c in files.items()}})
    missing = found = 0
    for again in range(1 + d.draw(1)):
        if again:
            # The disk changes: same sizes, other contents; files come and go
            for p in list(files):
                k = d.draw(5)
                if k == 0 and os.path.isfile(p):
                    os.unlink(p)
                elif k < 4 and os.path.isfile(p):
                    st = os.stat(p)
                    c = files[p].replace(b"v", b"w").replace(b"x", b"y").replace(b"k", b"q")
                    with open(p, "wb") as fh:
                        fh.write(c)
                    if k == 1:
                        os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
            if d.chance(1, 2):
                loader = FluentResourceLoader(arg)
        gens, wants = [], []
        for loc in locs:
            want = []
            for r in roots:
                lst = []
                for f in ids:
                    p = os.path.join(base, subst(r, loc), subst(f, loc))
                    if os.path.isfile(p):
                        with open(p, "rb") as fh:
                            lst.append(FluentParser().parse(fh.read().decode("utf-8")).to_json())
                        found += 1
                    else:
                        missing += 1
                if lst:
                    want.append(lst)
            g = loader.resources(loc, list(ids))
            if d.chance(1, 2):
                g = list(g)
            gens.append((loc, g))
            wants.append(want)
        for (loc, g), want in zip(gens, wants):
            got = []
            for lst in g:
                got.append([x.to_json() for x in lst])
                for x in lst:  # they belong to the caller
                    x.body.clear()
            if len(got) != len(want):
                fail("{}: {} lists of resources, expected {}", loc, len(got), len(want))
            for i, (a, b) in enumerate(zip(got, want)):
                diff = M.diff(a, b)
                if diff:
                    fail("{}: list {}: {}", loc, i, diff)
    d.nontrivial(found > 1 and missing > 0)
    d.label("found" if found else "nothing found", "missing" if missing else "all there")


def whole_case(d):
    """Localization and loader together, on files."""
    base = tempfile.mkdtemp(prefix="verif-r16-")
    try:
        locs = d.shuffled(["en-US", "de", "fr", "pl"])[:1 + d.draw(2)]
        roots = ["one/{locale}", "two/{locale}"][:1 + d.draw(1)]
        ids = ["a.ftl", "b.ftl", "c.ftl"][:1 + d.draw(2)]
        order = []
        for loc in locs:
            for r in roots:
                merged = {}
                some = False
                for f in ids:
                    if d.chance(1, 3):
                        continue
                    msgs = [m for m in "pqrs" if d.chance(2, 5)]
                    p = os.path.join(base, subst(r, loc), f)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "w", encoding="utf-8", newline=d.choice(["\n", "\r\n"])) as fh:
                        fh.write("".join(f"{m} = {m} {loc} {r[:3]} {f} \u00e9 {{ $n }}\n" for m in msgs))
                    some = True
                    for m in msgs:
                        merged.setdefault(m, f"{m} {loc} {r[:3]} {f} \u00e9 5")
                if some:
                    order.append(merged)
        l10n = FluentLocalization(locs, ids, FluentResourceLoader([os.path.join(base, r) for r in roots]))
        d.show({"locales": locs, "roots": roots, "ids": ids, "bundles": order})
        d.nontrivial(len(order) > 1)
        for m in d.shuffled(list("pqrst")):
            want = next((b[m] for b in order if m in b), m)
            got = l10n.format_value(m, {"n": 5})
            if got != want:
                fail("{} gives {!r}, expected {!r}", m, got, want)
    finally:
        shutil.rmtree(base, ignore_errors=True)


PROPS["R16"] = Property(
    "R16",
    "disk: files written to a scratch directory for one to three roots, up to four resource ids and up to three locales ({locale} anywhere and repeatedly in roots and ids, non-ASCII names, missing files, directories in their place, CRLF, lone CR, BOM, malformed contents, relative roots, the same root twice or spelled with dots or through a symbolic link; files changed in place, sizes and times kept, and loaded again); the loader's lists against the parse of the bytes on disk, exactly. whole: FluentLocalization on such files. Non-trivial: several files found and one missing; more than one bundle.",
    [Segment("disk", disk_case, 3000), Segment("whole", whole_case, 1000)],
    ["files are valid UTF-8; paths contain no other braces than {locale}"],
    scale=1,
)
