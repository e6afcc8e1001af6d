"""R08, R09, R17: bundles as stores, purity of formatting, choice of locale."""
import collections
import copy
import datetime as dt
import threading
from decimal import Decimal

from .. import env  # noqa: F401
from .. import gen, mast as M, refdate, refeval as RE, refnum, refplural, threads
from .. import world as W
from ..engine import Property, Segment, Violation, alone

import babel
from fluent.runtime import FluentBundle, FluentResource
from fluent.runtime.types import FluentType, fluent_date, fluent_number
from fluent.syntax import ast

PROPS = {}


def fail(msg, *a):
    raise Violation(msg.format(*a) if a else msg)


# --------------------------------------------------------------------------- R08
IDS = ["a", "b", "c", "d"]


def some_ids(d):
    """Four ids, seldom more; as often as not the same four short ones."""
    if d.chance(1, 2):
        return IDS
    out = []
    n = 4 if d.chance(3, 4) else 5 + d.draw(25)
    while len(out) < n:
        i = gen.identifier(d) if not out or d.chance(1, 2) else out[-1] + d.choice(["-", "_", "A", "0", "-t"])
        if i not in out:
            out.append(i)
    return out


def lookups(ids):
    return ids + ["-" + ids[0], "-" + ids[1], ids[0] + ".t", "", "-", "nope", "A", "--" + ids[0], ids[1].swapcase(), ids[2] + " ", ids[3][:-1]]


def store_entry(d, serial, IDS):
    """A model entry whose text names its origin."""
    n = d.choice(IDS)
    elems = [M.text(f"<{serial}:")]
    for _ in range(d.draw(2)):
        k = d.draw(3)
        if k == 0:
            elems.append(M.text("."))
        elif k == 1:
            elems.append(M.placeable(M.msgref(d.choice(IDS), "t" if d.chance(1, 3) else None)))
        elif k == 2:
            elems.append(M.placeable(M.termref(d.choice(IDS))))
        else:
            elems.append(M.placeable(M.select(M.termref(d.choice(IDS), "t"), [M.variant(M.ident("x"), M.pattern([M.text("X")])), M.variant(M.ident(f"t{serial - 1}"), M.pattern([M.text("P")])), M.variant(M.ident("o"), M.pattern([M.text("O")]), True)])))
    if d.chance(1, 40):
        # a number key with more digits than int() takes
        elems.append(M.placeable(M.select(M.string("x"), [M.variant(M.number("7" * (4200 + d.draw(300))), M.pattern([M.text("no")])), M.variant(M.ident("o"), M.pattern([M.text("O")]), True)])))
    elems.append(M.text(">"))
    out = []
    for e in elems:
        if out and e["type"] == out[-1]["type"] == "TextElement":
            out[-1] = M.text(out[-1]["value"] + e["value"])
        else:
            out.append(e)
    attrs = [M.attribute("t", M.pattern([M.text(f"t{serial}")]))] if d.chance(1, 2) else []
    if attrs and d.chance(1, 3):
        attrs = d.shuffled(attrs + [M.attribute(x, M.pattern([M.text(x)])) for x in ("A", "u", "a-b")[: 1 + d.draw(2)]])
    if attrs and d.chance(1, 5):
        # the same attribute again: the last one counts
        attrs = d.shuffled(attrs + [M.attribute(a["id"]["name"], M.pattern([M.text(f"again{i}")])) for i, a in enumerate(attrs[: 1 + d.draw(1)])])
    comment = M.comment("Comment", "note") if d.chance(1, 8) else None
    if d.chance(1, 3):
        return M.term(n, M.pattern(out), attrs, comment)
    if attrs and d.chance(1, 4):
        return M.message(n, None, attrs, comment)
    return M.message(n, M.pattern(out), attrs, comment)


def store_case(d):
    ids = some_ids(d)
    LOOKUPS = lookups(ids)
    stores = []
    for _ in range(1 + d.chance(1, 3)):
        iso = not stores[0][1].use_isolating if stores and d.chance(2, 3) else d.chance(1, 2)
        locales = [d.choice(["en-US", "en-US", "pl"])]
        stores.append((FluentBundle(locales, use_isolating=iso), RE.RefBundle(locales[0], {}, {}, None, iso), locales, list(locales)))
    log, serial, kept, overridden = [], 0, [], 0
    for _ in range(3 + d.draw(17) if not d.chance(1, 20) else 90):
        op = d.weighted([(4, "add"), (3, "format"), (2, "get"), (2, "has"), (1, "again"), (1, "attr")])
        which = d.draw(len(stores) - 1)
        b, ref = stores[which][:2]
        if op in ("add", "again"):
            if op == "again" and kept:
                model, res = d.choice(kept)
            else:
                body = []
                for _ in range(d.draw(3) if not d.chance(1, 30) else 40):
                    serial += 1
                    body.append(store_entry(d, serial, ids))
                    if d.chance(1, 8):
                        body.append(M.comment(d.choice(["GroupComment", "ResourceComment", "Comment"]), "x"))
                model = M.resource(body)
                how = d.draw(2)
                if how == 2:
                    res = M.build(ast, model)
                    if d.chance(1, 2):
                        res.body.insert(d.draw(len(res.body)), ast.Junk(ids[0] + " = junk"))
                else:
                    src = gen.render(d, model, fancy=how == 1)
                    if d.chance(1, 3):
                        src += "\n" + d.choice([ids[0] + " = { broken\n", f"-{ids[1]} =\n", "err\n", ids[2] + "\n    .t = x\n", "9 = x\n"])
                    res = FluentResource(src)
                kept.append((model, res))
            mode = d.draw(4)
            override = mode >= 3
            if mode == 0:
                b.add_resource(res)
            elif mode == 4:
                b.add_resource(res, True)
            else:
                b.add_resource(res, allow_overrides=override)
            changed = []
            for e in model["body"]:
                if e["type"] not in ("Message", "Term"):
                    continue
                table = ref.messages if e["type"] == "Message" else ref.terms
                n = e["id"]["name"]
                if n in table and override:
                    overridden += 1
                if n not in table or override:
                    table[n] = e
                    changed.append(n)
            log.append(["add", [(e["type"][0] + " " + e["id"]["name"]) for e in model["body"] if "id" in e], override, which])
        elif op == "has":
            i = d.choice(LOOKUPS)
            log.append(["has", i, which])
            got = b.has_message(i)
            if got is not (i in ref.messages):
                d.show(log)
                fail("has_message({!r}) is {!r}", i, got)
        else:
            i = d.choice(LOOKUPS) if op == "get" else d.choice(ids)
            log.append([op, i, which])
            d.show(log)
            compare(b, ref, i, op == "get")
    d.show(log)
    d.nontrivial(overridden > 0 or len(kept) > 1)
    d.label("overrides" if overridden else "no override")
    for b, ref, locales, original in stores:
        for i in LOOKUPS:
            if b.has_message(i) is not (i in ref.messages):
                fail("has_message({!r}) is wrong in the end", i)
            compare(b, ref, i, False)
        if locales != original or list(b.locales) != original:
            fail("locales changed: {!r}", b.locales)


def compare(b, ref, i, only_get):
    try:
        m = b.get_message(i)
    except LookupError:
        if i in ref.messages:
            fail("get_message({!r}) raises LookupError", i)
        return
    e = ref.messages.get(i)
    if e is None:
        fail("get_message({!r}) returns something: {}", i, type(m).__name__)
    if m.id.name != i:
        fail("get_message({!r}) returned {!r}", i, m.id.name)
    if (m.value is None) != (e["value"] is None):
        fail("{!r}: value is {!r}", i, m.value)
    attrs = {a["id"]["name"]: a["value"] for a in e["attributes"]}
    if list(m.attributes) != list(attrs):
        fail("{!r}: attributes {}", i, list(m.attributes))
    if only_get:
        return
    for name, p, rp in [("", m.value, e["value"])] + [("." + a, m.attributes[a], v) for a, v in attrs.items()]:
        if rp is None:
            continue
        try:
            want = ref.format(rp, {})
        except RE.TooBig:
            continue
        W.check_result(b.format_pattern(p), want, i + name)


PROPS["R08"] = Property(
    "R08",
    "Random histories of add_resource (overriding or not, the same resource again, parsed or built, with junk and comments), has_message, get_message and formatting, over four ids (the usual four or any; seldom up to 29) used for messages and terms alike, in one bundle or two which share the resources, against a dictionary model and the reference resolver. Non-trivial: two or more resources or an override that replaced something.",
    [Segment("store", store_case, 6000)],
    ["attribute names are unique within an entry", "pattern objects are fetched anew after every add_resource"],
)


# --------------------------------------------------------------------------- R09
EXTRA = """cyc = a { cyc } b
cyd = { cye }
cye = { cyd }
b0 = { $x } { $y }
b1 = { b0 }{ b0 }{ b0 }{ b0 }{ b0 }{ b0 }
b2 = { b1 }{ b1 }{ b1 }{ b1 }{ b1 }{ b1 }
b3 = { b2 }{ b2 }{ b2 }{ b2 }{ b2 }{ b2 }
b4 = { b3 }{ b3 }{ b3 }{ b3 }{ b3 }{ b3 }
long = x { $long } y
num = { NUMBER($n, minimumFractionDigits: 3) } { $n } { NUMBER($n, useGrouping: 0) } { NUMBER($n, style: "percent") }
cur = { NUMBER($n, style: "currency", currency: "EUR") } { NUMBER($n, style: "currency", currency: "JPY", currencyDisplay: "code") } { NUMBER($n, maximumSignificantDigits: 2) }
plain = { $n } / { $x }
date = { DATETIME($day, dateStyle: "full") } { $day }
sel = { $n ->
    [one] One { $n }
    [5] Five
   *[other] Other { -tt(n: 1) } { $n }
 }
ord = { NUMBER($n, type: "ordinal") ->
    [one] st
    [two] nd
   *[other] th
 } { $n ->
    [one] one
   *[other] many
 }
-tt = term { $n } { $x }
    .at = one
tsel = { -tt.at ->
    [one] { -tt(x: "1") }
   *[other] no
 } { $x }
owns = { OWN1() } { OWN2() }
arg = { ECHO($n) } { INC($n) } { BOOM($x) } { BADFMT($x) } { ODD() }
"""


def snapshot(o, seen=None, private=False):
    """The state of an object, structurally (bounded); of a resource the private attributes, too."""
    seen = seen if seen is not None else {}
    if isinstance(o, (str, int, float, bytes, type(None), Decimal, dt.date)) and not hasattr(o, "options"):
        return repr(o)
    if id(o) in seen:
        return f"<{seen[id(o)]}>"
    seen[id(o)] = len(seen)
    if isinstance(o, dict):
        return {repr(k): snapshot(v, seen, private) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [type(o).__name__] + [snapshot(x, seen, private) for x in o]
    if hasattr(o, "__dict__") and (isinstance(o, (FluentType, ast.BaseNode)) or hasattr(type(o), "__attrs_attrs__")):
        v = vars(o)
        return [type(o).__name__, repr(o) if isinstance(o, (int, float, Decimal)) else ""] + [snapshot(v[k], seen, private) for k in sorted(v) if private or not k.startswith("_")]
    return type(o).__name__ + ":" + repr(o)


class Making(dict):
    def __missing__(self, key):
        self[key] = "made"
        return "made"


def purity_case(d):
    model = W.messages(d, W.PLAINCFG)
    src = gen.render(d, model, fancy=False) + "\n" + EXTRA
    excs = W.exceptions()
    sf, rf, slog, rlog = W.functions(excs)
    setups = [(d.choice(["en-US", "de", "fr", "pl"]), d.chance(1, 2), d.draw(2)) for _ in range(1 + d.draw(2))]
    if len(setups) > 1 and d.chance(1, 2):
        setups[1] = (setups[0][0], setups[1][1], setups[1][2])
    shared = FluentResource(src)
    pristine = FluentResource(src)
    before_resource = shared.to_json()
    before_snap = snapshot(shared)

    def make(setup, res):
        own = {**sf, f"OWN{setup[2]}": lambda *a, **k: "own"} if setup[2] else dict(sf)
        names = list(own)
        b = FluentBundle([setup[0]], functions=own, use_isolating=setup[1])
        b.add_resource(res)
        if list(own) != names:
            fail("the dict of functions was changed")
        return b
    bundles = [make(s, shared) for s in setups]
    argsets = []
    for i in range(1 + d.draw(2)):
        a, _ = W.arguments(d)
        if d.chance(3, 4):
            a["n"] = d.choice([1, 5, 1234.5, Decimal("2"), fluent_number(1, minimumFractionDigits=1), fluent_number(7, useGrouping=False), 2])
        if d.chance(1, 2):
            a["day"] = d.choice([dt.datetime(2020, 1, 2, 3, 4, 5), dt.date(2020, 1, 2), fluent_date(dt.datetime(2020, 1, 2, 3, 4), timeStyle="short"), fluent_date(dt.date(2020, 5, 6), dateStyle="long")])
        if d.chance(1, 3):
            a["long"] = "L" * d.choice([10, 2600])
        # Dicts of other kinds, among them ones that make up what is missing
        if d.chance(1, 3):
            a = d.choice([collections.OrderedDict, Making, lambda x: collections.defaultdict(str, x)])(a)
            for n in list(a)[: d.draw(2)]:
                del a[n]
        argsets.append(a)
    before_args = [(dict(a), snapshot(a)) for a in argsets]
    names = [e["id"]["name"] for e in model["body"] if e["type"] == "Message"] + [l.split(" ")[0] for l in EXTRA.splitlines() if l[:1].isalpha()]
    names = [n for n in names if bundles[0].has_message(n)]
    pats = {}

    def pattern(k, n, attr):
        m = bundles[k].get_message(n)
        return m.value if attr is None else m.attributes[attr]

    def outcome(b, p, a):
        t, errs = b.format_pattern(p, a) if a is not None else b.format_pattern(p)
        return t, [id(e) if any(e is x for x in excs) else (type(e).__name__, str(e)) for e in errs]
    targets = []
    for n in names:
        m = bundles[0].get_message(n)
        targets += [(n, None)] * (m.value is not None) + [(n, at) for at in m.attributes]
    baseline = {}

    def base(k, n, attr, j):
        key = (k, n, attr, j)
        if key not in baseline:
            fresh = make(setups[k], pristine)
            m = fresh.get_message(n)
            p = m.value if attr is None else m.attributes[attr]
            baseline[key] = outcome(fresh, p, None if j is None else argsets[j])
        return baseline[key]
    ops = []
    for _ in range(4 + d.draw(24)):
        k = d.draw(len(bundles) - 1)
        n, attr = d.choice(targets)
        j = d.draw(len(argsets)) if d.chance(7, 8) else len(argsets)
        j = None if j == len(argsets) else j
        ops.append((k, n, attr, j))
    d.show({"source": src[: -len(EXTRA)], "bundles": setups, "args": [repr(a)[:300] for a in argsets], "ops": ops})
    d.nontrivial(len(set(ops)) > 2)
    # Half of the baselines before the history, half after it
    for i, op in enumerate(ops):
        if i % 2:
            base(*op)
    got = {}
    for op in ops:
        k, n, attr, j = op
        p = pattern(k, n, attr)
        if (k, n, attr) not in pats:
            pats[k, n, attr] = p, snapshot(p)
        elif pats[k, n, attr][0] is not p and d.draw(1):
            p = pats[k, n, attr][0]
        r = outcome(bundles[k], p, None if j is None else argsets[j])
        if got.setdefault(op, r) != r:
            fail("{}: formatted {!r}, earlier {!r}", op, r, got[op])
    for op in ops:
        if base(*op) != got[op]:
            fail("{}: formatted {!r}, but in a new bundle {!r}", op, got[op], base(*op))
    for key, (p, snap) in pats.items():
        if snapshot(p) != snap:
            fail("{}: the pattern object was changed", key)
    for a, (flat, snap) in zip(argsets, before_args):
        if list(a) != list(flat) or any(a[x] is not flat[x] for x in flat):
            fail("the dict of arguments was changed")
        if snapshot(a) != snap:
            fail("an argument object was changed")
    if shared.to_json() != before_resource or snapshot(shared) != before_snap or snapshot(pristine) != before_snap:
        fail("the resource was changed")
    # and the values are right (shared state would spoil all of the above alike)
    ms, ts = RE.entries([model])
    for k, (tag, iso, own) in enumerate(setups):
        ref = RE.RefBundle(tag, ms, ts, rf, iso)
        for n, e in ms.items():
            if e["value"] is None:
                continue
            for j, a in enumerate(argsets):
                if any(isinstance(v, FluentType) for v in a.values()) or hasattr(a, "__missing__"):
                    continue
                try:
                    want = ref.format(e["value"], a)
                except RE.TooBig:
                    continue
                W.check_result(bundles[k].format_pattern(bundles[k].get_message(n).value, a), want, n)
    for k, (tag, iso, own) in enumerate(setups):
        b = bundles[k]
        got1 = b.format_pattern(b.get_message("plain").value, {"n": 12345.6789, "x": "q"})
        a, z = ("\u2068", "\u2069") if iso else ("", "")
        want = f"{a}{refnum.format_number(12345.6789, {}, tag)}{z} / {a}q{z}"
        if got1 != (want, []):
            fail("afterwards, plain gives {!r}, expected {!r}", got1, want)
        got1, errs = b.format_pattern(b.get_message("owns").value)
        want = " ".join(a + ("own" if own == i else f"OWN{i}()") + z for i in (1, 2))
        if got1 != want or len(errs) != (1 if own else 2):
            fail("owns gives {!r} in a bundle whose functions include {}", got1, f"OWN{own}" if own else "neither")


# Values that compare equal, or nearly, and still format differently.
D0 = dt.datetime(2021, 7, 4, 23, 59, 59, tzinfo=dt.timezone.utc)
TWINS = [
    ("1", "1.0", "True", "Decimal('1')", "Decimal('1.0')", "Decimal('1.000')", "fluent_number(1, minimumFractionDigits=1)", "fluent_number(1.0)", "fluent_number(1, type='ordinal')", "fluent_number(True, style='percent')", "'1'"),
    ("0", "0.0", "-0.0", "False", "Decimal('0')", "Decimal('-0.00')", "fluent_number(0, style='currency', currency='EUR')", "'0'", "''", "None"),
    ("5", "5.0", "Decimal('5.00')", "fluent_number(5, useGrouping=False)", "fluent_number(5, minimumIntegerDigits=3)", "fluent_number(Decimal('5'), style='percent')"),
    ("1234567", "1234567.0", "Decimal('1234567.0')", "fluent_number(1234567, useGrouping=False)", "fluent_number(1234567.0, useGrouping=True)", "fluent_number(1234567, maximumSignificantDigits=2)"),
    ("D0", "D0.astimezone(dt.timezone(dt.timedelta(hours=5)))", "fluent_date(D0, timeStyle='short')", "fluent_date(D0, dateStyle='full')", "fluent_date(D0, dateStyle='short', timeStyle='long')", "D0.replace(tzinfo=None)"),
    ("dt.date(2021, 7, 4)", "dt.datetime(2021, 7, 4)", "fluent_date(dt.date(2021, 7, 4), dateStyle='full')", "fluent_date(dt.datetime(2021, 7, 4), dateStyle='full')", "fluent_date(dt.datetime(2021, 7, 4), timeStyle='short')"),
    ("'one'", "'One'", "Text('one')", "'two'", "FluentNone('one')", "'on\\u0065'", "b'one'", "('one',)"),
]


class Text(str):
    pass


TWINSRC = """val = { $x } { $y } { $x }
num = { NUMBER($x, minimumFractionDigits: 2) } { NUMBER($x) } { NUMBER($x, style: "percent") } { $x }
numb = { NUMBER($x, minimumFractionDigits: 2) } { NUMBER($y, minimumFractionDigits: 2, useGrouping: 0) }
cur = { NUMBER($x, style: "currency", currency: "EUR") } { NUMBER($x, style: "currency", currency: "JPY") }
day = { DATETIME($x, dateStyle: "full") } { DATETIME($x, timeStyle: "short") } { $x }
sel = { $x ->
    [one] one
    [5] five
    [0] zero
    [1.0] one point
    [two] two
   *[other] other
 }
ord = { NUMBER($x, type: "ordinal") ->
    [one] st
   *[other] th
 } { $x ->
    [one] one
   *[other] many
 }
kind = { KIND($x) } { KIND($y, a: 1) } { KIND(1) } { KIND(1.0) } { KIND("1") }
lits = { 1 } { 1.0 } { 01.00 } { NUMBER(1) } { NUMBER(1.0, useGrouping: 0) } { "1" }
term = { -t(x: 1) } { -t(x: 1.0) } { -t(x: "1") } { -t } { $x }
-t = <{ $x }>
    .a = { $x }
tsel = { -t.a(x: 1.0) ->
    [1] int
   *[other] { -t(x: 1) }
 }
pct = { NUMBER($x, style: "percent") } { NUMBER($y) }
bad = { $x } { nope } { -nope } { NOPE($x) } { val.a } { $gone }
cyc = { cyc } { $x }
ref = { val } { num } { $y }
"""


def twin_values(spec):
    return {k: eval(v, {"Decimal": Decimal, "dt": dt, "D0": D0, "fluent_number": fluent_number, "fluent_date": fluent_date, "Text": Text, "FluentNone": W.FluentNone}) for k, v in spec}


def pristine_case(d):
    group = d.choice(TWINS)
    specs = [[("x", d.choice(group)), ("y", d.choice(group) if d.chance(3, 4) else d.choice(d.choice(TWINS)))] for _ in range(2 + d.draw(3))]
    setups = [(d.choice(["en-US", "de", "en_US", "fr", "en-GB", "pl", "ar", "xx"]), d.chance(1, 2), d.draw(2), d.draw(2)) for _ in range(1 + d.draw(2))]
    names = [line.split(" ")[0] for line in TWINSRC.splitlines() if line[:1].isalpha()]
    focus = [d.choice(names) for _ in range(1 + d.draw(2))]
    ops = [(d.draw(len(setups) - 1), d.choice(focus), d.draw(len(specs) - 1)) for _ in range(2 + d.draw(8))]
    d.show({"bundles": setups, "args": specs, "ops": ops})
    d.nontrivial(len(set(ops)) > 1)
    d.label("values like " + group[0])

    def make(tag, iso, kind, text):
        fns = [None, {"KIND": lambda *a, **k: W.sut_desc(a[0])}, {"KIND": lambda *a, **k: a[0]}][kind]
        b = FluentBundle([tag], functions=fns, use_isolating=iso)
        # the same names and, for some, the same text in other places
        b.add_resource(FluentResource([TWINSRC, "\n\n" + TWINSRC, TWINSRC.replace("<{ $x }>", "({ $x })")][text]))
        return b

    def one(bundles, op):
        k, n, j = op
        if bundles[k] is None:
            bundles[k] = make(*setups[k])
        b = bundles[k]
        t, errs = b.format_pattern(b.get_message(n).value, twin_values(specs[j]))
        return str(t), [W.show_error(e) for e in errs]
    got = alone(lambda: [one(bundles, op) for bundles in [[None] * len(setups)] for op in ops])
    seen = {}
    for i, op in enumerate(ops):
        if seen.setdefault(op, got[i]) != got[i]:
            fail("call {}: {} formatted {!r}, earlier {!r}", i, op, got[i], seen[op])
    for op in list(dict.fromkeys(ops))[-4:]:
        want = alone(lambda: one([None] * len(setups), op))
        if seen[op] != want:
            fail("{}: after other calls {!r}, as the first call of a process {!r}", op, seen[op], want)


# Formatting from inside formatting: functions and argument types that format other patterns,
# and calls on several threads that hand over to each other in the middle.
MIDSRC = EXTRA + """mid = { AGAIN() } { $x } { nope } { -tt } { $n }
mide = { $x }{ mid }{ AGAIN() } { -mt(x: "in", n: 5) } { $x }{ $gone } { mid.at }
    .at = { AGAIN() } { $x } { mide }
-mt = { $x } { AGAIN($x) } { $x } { -mu(n: 1) } { $n } { $gone }
    .at = { AGAIN() }
-mu = { $n } { AGAIN() } { $x } { $n }
mids = { AGAIN() ->
    [again] { $n } { AGAIN() } { $x } { $nope }
   *[other] no
 } { -mt.at ->
    [again] yes { -mu(n: 2) }
   *[other] no { $x }
 } { $n }
midc = { AGAIN() }{ midc }{ AGAIN() } { midd } { $x }
midd = { AGAIN() }{ midc }{ -mv }
-mv = { AGAIN() }{ midd }{ -mv }{ $x }
mida = { ECHO(AGAIN()) } { DESC(AGAIN(), $x, $t, k: 1) } { ECHO($x) } { BOOM(AGAIN()) } { $x }
midb = { $t } { mid } { $t } { ECHO($t) } { $x }
midx = { AGAIN() }{ b4 }{ AGAIN() }
midn = { NUMBER($n, minimumFractionDigits: 2) } { AGAIN() } { NUMBER($n, style: "percent") } { $day } { DATETIME($day, dateStyle: "full") }
mid1 = { AGAIN() }
mid2 = { $t }
"""


class Reentrant(FluentType):
    def __init__(self, again):
        self.again = again

    def format(self, locale):
        return self.again() + "@" + locale.language


def overlap_case(d):
    nthreads = 0 if d.chance(2, 3) else 2 + d.draw(1)
    model = W.messages(d, W.PLAINCFG, extra=False)
    src = gen.render(d, model, fancy=False) + "\n" + MIDSRC
    excs = W.exceptions()
    sf, _, _, _ = W.functions(excs)
    hook = [None]
    local = threading.local()

    def again(*a, **k):
        if hook[0] is not None:
            hook[0]()
        return "again"
    setups = [(d.choice(["en-US", "de", "fr", "pl"]), d.chance(1, 2)) for _ in range(1 + d.draw(1))]
    shared = FluentResource(src)

    def make(setup):
        b = FluentBundle([setup[0]], functions={**sf, "AGAIN": again}, use_isolating=setup[1])
        b.add_resource(shared)
        return b
    bundles = [make(s) for s in setups]
    argsets = [{}, {"t": Reentrant(again), "x": "x1", "n": 1}]
    for i in range(1 + d.draw(1)):
        a, _ = W.arguments(d)
        a["t"] = Reentrant(again)
        argsets.append(a)
    names = [l.split(" ")[0] for l in MIDSRC.splitlines() if l[:1].isalpha()] + [e["id"]["name"] for e in model["body"] if e["type"] == "Message"]
    mids = [n for n in names if n.startswith("mid")]
    names = [n for n in names if bundles[0].has_message(n)]

    def pattern(b, n):
        m = b.get_message(n)
        return m.value if m.value is not None else next(iter(m.attributes.values()))

    def outcome(b, n, j):
        t, errs = b.format_pattern(pattern(b, n), argsets[j])
        return t, [id(e) if any(e is x for x in excs) else (type(e).__name__, str(e)) for e in errs]

    def op():
        return d.draw(len(bundles) - 1), d.choice(mids) if d.chance(2, 3) else d.choice(names), d.draw(len(argsets) - 1)
    base, running = {}, []

    def check(o, r):
        if o not in base:
            saved, hook[0] = hook[0], None
            base[o] = outcome(make(setups[o[0]]), o[1], o[2])
            hook[0] = saved
        if r != base[o]:
            fail("{} formatted {!r}, alone {!r}", o, r, base[o])
    late = [0]
    if not nthreads:
        outer = [op() for _ in range(1 + d.draw(2))]
        inner = [op() for _ in range(1 + d.draw(11))]
        grow = d.chance(1, 4)
        d.show({"source": src[: -len(MIDSRC)], "bundles": setups, "args": [repr(a)[:300] for a in argsets], "outer": outer, "inner": inner, "grow": grow})
        count, nested = [0], []

        def nest():
            if len(running) > 3 or count[0] >= 40:
                return
            o = inner[count[0] % len(inner)]
            count[0] += 1
            if grow and count[0] % 5 == 0:
                late[0] += 1
                bundles[o[0]].add_resource(FluentResource(f"late{late[0]} = late {{ $x }}\nlate0 = first {late[0]}"))
                if bundles[o[0]].format_pattern(bundles[o[0]].get_message(f"late{late[0]}").value, {"x": late[0]})[0].strip("\u2069").replace("\u2068", "") != f"late {late[0]}":
                    fail("a message added while formatting is not found")
            running.append(o)
            nested.append((o, outcome(bundles[o[0]], o[1], o[2])))
            running.pop()
        for o in outer:
            hook[0] = nest
            running.append(o)
            r = outcome(bundles[o[0]], o[1], o[2])
            running.pop()
            hook[0] = None
            for x in nested + [(o, r)]:
                check(*x)
            nested.clear()
        d.nontrivial(count[0] > 1)
        d.label("nested")
        return
    # Threads: exactly one runs at a time; AGAIN hands over to one chosen in advance
    plans = [[op() for _ in range(1 + d.draw(3))] for _ in range(nthreads)]
    turns = [d.draw(nthreads - 1) for _ in range(1 + d.draw(15))]
    d.show({"source": src[: -len(MIDSRC)], "bundles": setups, "args": [repr(a)[:300] for a in argsets], "threads": plans, "turns": turns})
    locks = [threading.Semaphore(0) for _ in range(nthreads)]
    alive, results, switches, finished = set(range(nthreads)), [], [0], threading.Event()

    def hand_over(me):
        """To the next thread of the schedule, waiting until it is our turn again."""
        if switches[0] >= 60:
            return
        nxt = turns[switches[0] % len(turns)]
        switches[0] += 1
        if nxt != me and nxt in alive:
            locks[nxt].release()
            locks[me].acquire()

    def run(me):
        locks[me].acquire()
        local.me = me
        try:
            for o in plans[me]:
                results.append((o, outcome(bundles[o[0]], o[1], o[2])))
                hand_over(me)
        except BaseException as e:
            results.append((None, e))
        alive.discard(me)
        if alive:
            locks[min(alive)].release()
        else:
            finished.set()
    hook[0] = lambda: hand_over(local.me)
    ts = [threading.Thread(target=run, args=(i,), daemon=True) for i in range(nthreads)]
    for t in ts:
        t.start()
    locks[0].release()
    if not finished.wait(60):
        fail("the threads did not finish")
    for t in ts:
        t.join()
    hook[0] = None
    d.nontrivial(switches[0] > 1)
    d.label("threads")
    for o, r in results:
        if o is None:
            raise r
        check(o, r)


def race_case(d):
    """Threads sharing fresh bundles, changed over between any two lines of the library."""
    model = W.messages(d, W.PLAINCFG, extra=False)
    src = gen.render(d, model, fancy=False) + "\n" + MIDSRC
    excs = W.exceptions()
    sf, _, _, _ = W.functions(excs)
    setups = [(d.choice(["en-US", "de", "fr", "pl"]), d.chance(1, 2)) for _ in range(1 + d.draw(1))]
    shared = FluentResource(src)

    def make(setup):
        b = FluentBundle([setup[0]], functions={**sf, "AGAIN": lambda *a, **k: "again"}, use_isolating=setup[1])
        b.add_resource(shared)
        return b
    argsets = [{}, {"t": Reentrant(lambda: "t"), "x": "x1", "n": 1}, W.arguments(d)[0]]
    probe = make(setups[0])
    names = [l.split(" ")[0] for l in MIDSRC.splitlines() if l[:1].isalpha()] + [e["id"]["name"] for e in model["body"] if e["type"] == "Message"]
    names = [n for n in names if probe.has_message(n)]
    focus = [d.choice(names) for _ in range(1 + d.draw(2))]
    plans = [[(d.draw(len(setups) - 1), d.choice(focus), d.draw(len(argsets) - 1)) for _ in range(1 + d.draw(2))] for _ in range(2 + d.draw(1))]

    def outcome(b, n, j):
        m = b.get_message(n)
        t, errs = b.format_pattern(m.value if m.value is not None else next(iter(m.attributes.values())), argsets[j])
        return t, [id(e) if any(e is x for x in excs) else (type(e).__name__, str(e)) for e in errs]
    alone_ = [[threads.outcome(lambda: outcome(make(setups[k]), n, j)) for k, n, j in p] for p in plans]
    bundles = [make(s) for s in setups]
    turns = threads.schedule(d, len(plans))
    d.show({"source": src[: -len(MIDSRC)], "bundles": setups, "args": [repr(a)[:300] for a in argsets], "threads": plans, "turns": turns})
    threads.check(d, [[lambda o=o: outcome(bundles[o[0]], o[1], o[2]) for o in p] for p in plans], alone_, fail, turns)


def preload():
    """Babel's own locale data, read once before anything is forked."""
    for tag in ("en_US", "de", "fr", "en_GB", "pl", "ar"):
        loc = babel.Locale.parse(tag)
        loc.decimal_formats, loc.plural_form, loc.ordinal_form, loc.date_formats, loc.time_formats, loc.currency_symbols


PROPS["R09"] = Property(
    "R09",
    "Histories of 2 to 10 calls in a process of their own, over arguments that compare equal and format differently (1, 1.0, True, Decimal('1.0'), numbers and dates with options), each call compared with the same one made first in a fresh process. Histories of 4 to 28 formatting calls over one to three bundles sharing a Resource, with several argument sets, generated and fixed messages (failing, cyclic, exploding, with options). Each result is compared with the same call in a bundle of its own, with earlier results, and with the reference resolver; arguments, resource and patterns are compared structurally before and after. Overlapping calls: custom functions and argument types that format other patterns (to depth four, over the same bundle or another one, some also adding resources), and two or three threads handing over to each other inside the calls by a generated schedule (inside the calls of custom functions, and between any two lines of the library), each call compared with the same one alone. Non-trivial: three or more different calls, or two or more overlaps.",
    [Segment("pristine", pristine_case, 1200), Segment("purity", purity_case, 1600), Segment("overlap", overlap_case, 1500), Segment("race", race_case, 600)],
    ["custom functions are themselves pure"],
    setup=preload,
    scale=1,
)


# --------------------------------------------------------------------------- R17
GOOD = ["en", "en-US", "de", "de-AT", "de-CH", "fr", "fr-CA", "pl", "ar", "ru", "uk", "cs", "cy", "it", "sv", "ja", "zh-Hant-TW", "zh-CN", "nl", "et", "lt", "sl", "ko", "en-GB", "en-IN", "en_US", "EN-us", "pt-BR", "hi", "sr-Latn", "es-419", "fa-IR"]
BAD = ["xx", "xx-nope", "zz", "qqq", "", "-", "12", "e n", "\n", "en--US", "de-", "x_y_z_w_v", "fr-FOO", "\u00fc", "i-klingon", "en-US-u-hc-h12x", "*", "1-1", "en-x-priv", " en", "en ", "de\n", "\ten", "en-US ", "de- AT", "en-USA", "C", "POSIX", "en,de", "en/US", "../en", "\uff45\uff4e", "en\u2011US", "en-US\x00", "mul", "."]
CATS = ["zero", "one", "two", "few", "many", "other"]
SRC17 = "n = { $n }\nd = { DATETIME($d, dateStyle: \"long\", timeStyle: \"short\") }\nc = { $n ->\n" + "".join(f"    [{c}] {c}\n" for c in CATS[:-1]) + "   *[other] other\n }\no = { NUMBER($n, type: \"ordinal\") ->\n" + "".join(f"    [{c}] {c}\n" for c in CATS[:-1]) + "   *[other] other\n }\np = { NUMBER($n, style: \"percent\") } { NUMBER($n, style: \"currency\", currency: \"EUR\") }\n"


class Teller(FluentType):
    def format(self, locale):
        return str(locale)


def good(d):
    t = d.choice(GOOD) if d.chance(3, 4) else d.choice(refnum.ALL)
    return t.replace("-", "_") if d.chance(1, 12) else t.lower() if d.chance(1, 12) and t.count("-") == 1 and len(t) < 6 else t


def locale_case(d):
    locales = []
    for _ in range(d.size(4, 4, 5) if not d.chance(1, 12) else 12):
        locales.append(d.choice(BAD) if d.chance(3, 5) else good(d))
    if d.chance(4, 5) and not any(x not in BAD for x in locales):
        locales.append(good(d))
    given = list(locales)
    first = next((x for x in locales if x not in BAD), None)
    n = d.choice([0, 1, 2, 3, 5, 7, 8, 11, 12, 21, 22, 100, 101, 80, 1000000, 1234567, 1.5, 1234.5, -1, -22, 0.5, Decimal("3"), Decimal("1.2")])
    d.show({"locales": given, "n": repr(n)})
    d.nontrivial(first is not None and locales[0] in BAD)
    d.label("none usable" if first is None else "first usable" if locales[0] == first else "skipping")
    b = FluentBundle(locales, use_isolating=False)
    if locales != given or list(b.locales) != given:
        fail("the list of locales was changed to {}", locales)
    b.add_resource(FluentResource(SRC17 + "t = { $t }\n"))
    when = dt.datetime(2021, 7, 4, 13, 5, 6)
    out = {}
    for k in "ndcopt":
        t, errs = b.format_pattern(b.get_message(k).value, {"n": n, "d": when, "t": Teller()})
        if errs:
            fail("{}: {}", k, [W.show_error(e) for e in errs])
        out[k] = t
    if first is None:
        loc = babel.Locale.default()
        tag = str(loc)
        if out["t"] != tag:
            fail("no usable locale, but {!r} is used instead of the default {!r}", out["t"], tag)
    else:
        tag = first
    tag = tag.replace("_", "-")
    want = {
        "n": refnum.format_number(n, {}, tag), "d": refdate.format(when, {"dateStyle": "long", "timeStyle": "short"}, tag),
        "p": refnum.format_number(n, {"style": "percent"}, tag) + " " + refnum.format_number(n, {"style": "currency", "currency": "EUR"}, tag),
        "t": str(refnum.locale(tag)),
    }
    want["c"] = refplural.category(tag, "cardinal", n)
    want["o"] = refplural.category(tag, "ordinal", n)
    d.label("plural " + want["c"])
    for k, v in want.items():
        if out[k] != v:
            fail("{} gives {!r}, expected {!r} in {}", k, out[k], v, tag)


PROPS["R17"] = Property(
    "R17",
    "Lists of up to five known, unknown and malformed identifiers; numbers, percentages, currency, dates, cardinal and ordinal categories and the locale handed to a custom type are compared with those of the first usable one (own CLDR number formatting and hand-written plural rules). Non-trivial: the first identifier is unusable and a later one usable.",
    [Segment("locale", locale_case, 5000)],
    ["which identifiers are known is decided by Babel's locale data, for a fixed list of clear cases"],
)
