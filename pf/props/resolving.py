"""R01-R07, R10: the resolver, against the reference resolver."""
import collections
import datetime as dt
import functools
import math
import operator
import re
import time
from decimal import Decimal

from .. import env  # noqa: F401
from .. import gen, mast as M, refeval as RE, refnum
from .. import world as W
from ..engine import Property, Segment, Violation

from fluent.runtime import FluentBundle, FluentResource
from fluent.runtime.errors import FluentCyclicReferenceError
from fluent.runtime.types import FluentNone, FluentType, fluent_date, fluent_number
from fluent.syntax import ast

PROPS = {}


def fail(msg, *a):
    raise Violation(msg.format(*a) if a else msg)


def run_world(d, w, sargs, rargs, targets=None, check=None):
    """Formats every target in both and compares."""
    done = 0
    for n, attr, pat in targets or w.targets():
        del w.slog[:], w.rlog[:]
        try:
            want = w.ref.format(pat, rargs)
        except RE.TooBig:
            d.label("skipped: too big for the model")
            continue
        given = dict(sargs)
        if done == 1 and len(given) % 3 == 2:
            # a dict that makes up what it does not have
            given = collections.defaultdict(lambda: "made up", given)
        size = len(given)
        got = w.sut.format_pattern(w.sut_pattern(n, attr), given)
        if len(given) != size:
            raise Violation(f"{n}: formatting added to the arguments: {sorted(set(given) - set(sargs))}")
        where = n + ("." + attr if attr else "")
        W.check_result(got, want, where)
        if check:
            check(n, attr, pat, got, want)
        done += 1
        if want[1]:
            d.label("with errors")
            d.label(*{"error " + (e[0] if isinstance(e, tuple) else "function's own") for e in want[1]})
        else:
            d.label("without errors")
    return done


# --------------------------------------------------------------------------- R02
def resolve_case(d):
    model = W.messages(d)
    w = W.World(d, model)
    sargs, rargs = W.arguments(d)
    d.show(w.shown(sargs))
    kinds = {n["type"] for n in M.walk(model)}
    d.nontrivial(len(kinds & {"MessageReference", "TermReference", "FunctionReference", "SelectExpression", "VariableReference"}) >= 2)
    d.label(*("has " + k for k in kinds if k.endswith(("Reference", "Expression"))))
    run_world(d, w, sargs, rargs)


def chain_case(d):
    """Long acyclic chains and repeated references of every kind."""
    n = 3 + d.draw(12)
    body = []
    for i in range(n):
        is_term = d.weighted([(4, "msg"), (2, "term"), (2, "attr"), (1, "tattr")])
        nxt = i + 1
        elems = []
        for _ in range(1 + d.draw(2)):
            k = d.weighted([(5, "ref"), (2, "text"), (1, "var")])
            if k == "text" or nxt >= n:
                elems.append(M.text(f"<{i}>"))
            elif k == "var":
                elems.append(M.placeable(M.var("x")))
            else:
                j = nxt if d.chance(3, 4) else d.draw(n - nxt - 1) + nxt
                elems.append(M.placeable(("ref", j)))
        body.append([is_term, elems])
    for is_term, elems in body:
        for e in elems:
            if e["type"] == "Placeable" and isinstance(e["expression"], tuple):
                j = e["expression"][1]
                if body[j][0] == "attr":
                    ref = M.msgref(f"e{j}", "a")
                elif body[j][0] in ("term", "tattr"):
                    ref = M.termref(f"e{j}", None, M.callargs([], [M.named("x", M.string(f"t{j}"))]) if d.chance(1, 2) else None)
                else:
                    ref = M.msgref(f"e{j}")
                if body[j][0] == "tattr":
                    ref = M.select(M.termref(f"e{j}", "a"), [M.variant(M.ident("decoy"), M.pattern([M.text("d")]), False), M.variant(M.ident(f"k{j}"), M.pattern([M.placeable(ref)]), False), M.variant(M.ident("other"), M.pattern([M.text("o")]), True)])
                elif d.chance(1, 6):
                    ref = M.select(M.number("1"), [M.variant(M.ident("one"), M.pattern([M.placeable(ref)]), False), M.variant(M.ident("other"), M.pattern([M.text("o")]), True)])
                elif d.chance(1, 8):
                    ref = M.call("ECHO", M.callargs([ref]))
                e["expression"] = ref
    entries = []
    for i, (t, p) in enumerate(body):
        p = merge(p)
        around = lambda a: [M.attribute(d.choice(["b", "a", "A"]), M.pattern([M.text("decoy")])) for _ in range(d.draw(1))] + [M.attribute("a", a)] + [M.attribute("b", M.pattern([M.text("decoy")])) for _ in range(d.draw(1))]
        if t == "msg":
            entries.append(M.message(f"e{i}", p, around(M.pattern([M.text("at")])) if d.chance(1, 4) else []))
        elif t == "attr":
            entries.append(M.message(f"e{i}", M.pattern([M.text("value")]) if d.chance(1, 2) else None, around(p)))
        else:
            entries.append(M.term(f"e{i}", p, around(M.pattern([M.text(f"k{i}")])) if t == "tattr" else []))
    model = M.resource(entries)
    if d.chance(1, 4):
        W.rename(d, model)
    w = W.World(d, model)
    sargs, rargs = W.arguments(d, ["x"])
    d.show(w.shown(sargs))
    d.nontrivial()
    run_world(d, w, sargs, rargs)


def literals_case(d):
    """Patterns of many literals, with repetitions, now and then around a variable."""
    src, want = "", {}
    for i in range(1 + d.draw(3)):
        words = [d.choice(["a", "b", "ab", "a ", " a", "-", "\u00e9", "\U0001f600", "x" * 40, ","]) for _ in range(1 + d.draw(3))]
        form = d.choice(["message", "attribute", "term", "variant"])
        out, exp = "", ""
        was_text = False
        for _ in range(1 + d.draw(13)):
            w_ = d.choice(words)
            k = d.weighted([(3, "string"), (3, "text"), (1, "nested"), (1, "empty"), (1, "number" if d.chance(1, 4) else "string")])
            if k == "text" and was_text:
                k = "string"
            if k == "text" and not w_.startswith(" ") and not w_.endswith(" "):
                out, exp, was_text = out + w_, exp + w_, True
                continue
            was_text = False
            if k == "number":
                out, exp = out + "{ 7 }", exp + "\0" + "7" + "\1"
            elif k == "empty":
                out += '{ "" }'
            elif k == "nested":
                out, exp = out + '{ { "%s" } }' % w_, exp + w_
            else:
                out, exp = out + '{"%s"}' % w_, exp + w_
        if out == "{ 7 }" or exp.count("\0") and re.fullmatch(r"\{[^{}]*\}", out):
            exp = exp.replace("\0", "").replace("\1", "")
        if form == "message":
            src += f"m{i} = {out}\n"
        elif form == "attribute":
            src += f"m{i} = { '{' } k{i}.a { '}' }\nk{i} =\n    .b = no\n    .a = {out}\n"
        elif form == "term":
            src += f"m{i} = { '{' } -k{i} { '}' }\n-k{i} = {out}\n"
        else:
            src += "m%d = { $x ->\n    [no] no\n   *[other] %s\n }\n" % (i, out)
        want[f"m{i}"] = exp
    iso = d.chance(1, 2)
    b = FluentBundle(["en-US"], use_isolating=iso)
    b.add_resource(FluentResource(src))
    d.show(src)
    d.nontrivial(src.count("{") > 3)
    for m, exp in want.items():
        exp = exp.replace("\0", "\u2068" if iso else "").replace("\1", "\u2069" if iso else "")
        for _ in range(2):
            got = b.format_pattern(b.get_message(m).value, {"x": "x"})
            if got != (exp, []):
                fail("{} formatted {!r}, expected {!r}", m, got, exp)


def merge(elems):
    """A pattern without adjacent text elements."""
    out = []
    for e in elems:
        if e["type"] == "TextElement" and out and out[-1]["type"] == "TextElement":
            out[-1] = M.text(out[-1]["value"] + e["value"])
        else:
            out.append(dict(e))
    return M.pattern(out)


def long_text_probe():
    b = FluentBundle(["en"])
    b.add_resource(FluentResource("m = " + "x" * 3000 + " { $n }\n"))
    return b.format_pattern(b.get_message("m").value, {"n": 1})[0] == "{???}"


PROPS["R02"] = Property(
    "R02",
    "resolve: bundles of generated messages, attributes and terms referring to each other, to arguments and to functions; every message and attribute is formatted with generated arguments and compared with the reference resolver (text and errors). chain: reference chains up to 15 levels through messages, terms, attributes and selectors, among decoy attributes. literals: patterns of up to 14 literals with repetitions, against their concatenation. Non-trivial: at least two kinds of reference or expression.",
    [Segment("resolve", resolve_case, 6000), Segment("chain", chain_case, 2500), Segment("literals", literals_case, 4000)],
    ["texts, placeables and the whole expansion stay below the documented limits (2500 characters, 1000 parts)"],
    probes=[("long-text", long_text_probe)],
)


# --------------------------------------------------------------------------- R01
class StrSub(str):
    pass


class IntSub(int):
    pass


class Rude:
    def __str__(self):
        raise RuntimeError("no")
    __repr__ = __str__

    def __eq__(self, other):
        raise RuntimeError("no")
    __hash__ = object.__hash__


class Incomparable(FluentType):
    """A custom type that fails to compare, or compares to something that is neither true nor false."""

    def __init__(self, result=None):
        self.result = result

    def format(self, locale):
        return "incomparable"

    def __eq__(self, other):
        if self.result is None:
            raise self.failure
        return self.result
    failure = KeyError("no")
    __hash__ = object.__hash__


class NotADate(dt.datetime):
    """As pandas.NaT."""
    year = month = day = property(lambda self: float("nan"))


class IntRude(int):
    def __int__(self):
        raise LookupError("no")
    __index__ = __trunc__ = __int__


class FloatProxy(float):
    def __float__(self):
        raise LookupError("no")


class Doubtful:
    def __bool__(self):
        raise TypeError("neither")


class StrRude(str):
    def __eq__(self, other):
        raise LookupError("no")
    __hash__ = str.__hash__


class FloatRude(float):
    def __repr__(self):
        raise RuntimeError("no")


WILD = [
    lambda: float("inf"), lambda: float("-inf"), lambda: float("nan"), lambda: Decimal("NaN"), lambda: Decimal("sNaN"), lambda: Decimal("Infinity"), lambda: 10 ** 30, lambda: -10 ** 400, lambda: Decimal("1e40"), lambda: 1e308, lambda: 5e-324,
    lambda: Decimal("1E-50"), lambda: dt.datetime.min, lambda: dt.datetime.max, lambda: dt.date.min, lambda: dt.date.max, lambda: dt.datetime.max.replace(tzinfo=dt.timezone(dt.timedelta(hours=-23))), lambda: dt.datetime.min.replace(tzinfo=dt.timezone(dt.timedelta(hours=23))),
    lambda: "\ud800", lambda: "\x00", lambda: "x" * 2400, lambda: "x" * 3000, lambda: StrSub("sub"), lambda: IntSub(3), Rude, lambda: None, lambda: [1], lambda: FluentNone(), lambda: FluentNone("n"), lambda: FluentType(),
    lambda: fluent_number(5, minimumFractionDigits=400), lambda: fluent_number(5, minimumFractionDigits=-3), lambda: fluent_number(5, minimumIntegerDigits="x"), lambda: fluent_number(5.5, maximumSignificantDigits=0), lambda: fluent_number(5, style="currency", currency="NOPE"), lambda: fluent_number(5, style="currency", currency=7), lambda: fluent_number(1, useGrouping="maybe"), lambda: fluent_number(Decimal("NaN"), style="percent"), lambda: fluent_number(12, minimumSignificantDigits=5, maximumSignificantDigits=2), lambda: fluent_number(3, maximumFractionDigits=None, minimumFractionDigits=None),
    lambda: fluent_date(dt.datetime(2020, 1, 1), timeZone="No/Where"), lambda: fluent_date(dt.datetime(2020, 1, 1), timeZone=5), lambda: fluent_date(dt.datetime.max, timeZone="Asia/Tokyo"), lambda: W.BadType(ValueError("b")), lambda: W.BadType(KeyError("k")), lambda: W.BadType(TypeError("k")), lambda: W.BadType(RecursionError()), lambda: fluent_number(1, currency="EUR", style="currency", currencyDisplay="name"), lambda: True, lambda: FloatRude(2.5),
    lambda: NotADate(2020, 1, 1), lambda: IntRude(5), lambda: FloatProxy(2.5), Incomparable, lambda: Incomparable(Doubtful()), lambda: StrRude("one"), lambda: 10 ** 5000, lambda: fluent_number(0, minimumFractionDigits=10 ** 8), lambda: fluent_number(1, minimumIntegerDigits=10 ** 9), lambda: Decimal("1e9999"), lambda: Decimal("1e-99999"),
]
WILD_NUM = ["minimumFractionDigits", "maximumFractionDigits", "minimumIntegerDigits", "minimumSignificantDigits", "maximumSignificantDigits", "useGrouping", "style", "currency", "currencyDisplay", "type", "bogus", "value", "locale"]
WILD_DT = ["dateStyle", "timeStyle", "timeZone", "hour12", "weekday", "bogus", "era", "timeZoneName", "dt"]
WILD_LIT = ["0", "1", "-1", "99", "400", "99999999", "9" * 5000, "1.5", '"currency"', '"percent"', '"ordinal"', '"full"', '"short"', '"EUR"', '"US/Eastern"', '"No/Zone"', '""', '"code"', '"name"', '"\\u0000"', '"\\uD800"']


def wild_expr(d, depth=2):
    k = d.weighted([(4, "var"), (4, "num"), (3, "dtm"), (2, "ref"), (2, "call"), (1, "lit")])
    if k == "var":
        return "$" + d.choice(["x", "y", "z", "n", "none"])
    if k in ("num", "dtm"):
        names = []
        for _ in range(d.size(3)):
            n = d.choice(WILD_NUM if k == "num" else WILD_DT)
            if n not in names:
                names.append(n)
        inner = d.choice(["$x", "$y", "1234.5678", '"s"', "m1", "-t0", "-1"]) if depth < 1 or d.chance(3, 4) else wild_expr(d, depth - 1)
        args = ([inner] if d.chance(9, 10) else [inner, "2"] if d.chance(1, 2) else []) + [f"{n}: {d.choice(WILD_LIT)}" for n in names]
        return ("NUMBER(" if k == "num" else "DATETIME(") + ", ".join(args) + ")"
    if k == "ref":
        return d.choice(["m1", "m2", "m1.a", "nope", "nope.a", "-t0", "-t0(x: 1)", "-t9", '-t0($x, 1, x: "s")', "m0"])
    if k == "call":
        return d.choice(["BOOM", "ECHO", "NIL", "ODD", "BADFMT", "RAW", "RAW", "NOPE", "DESC"]) + "(" + (wild_expr(d, depth - 1) if depth > 0 and d.chance(2, 3) else "") + ")"
    return d.choice(['"s"', "1", "0.1", '"\\uD800"', "-99999999999999999999", "1.000000000000000000000000000000001", "1" * 4400, "0." + "3" * 5000])


def wild_placeable(d):
    e = wild_expr(d)
    if d.chance(1, 3) and not e.startswith(("m", "n")) and not (e.startswith("-t")):
        return "{ %s ->\n    [one] A\n    [1] B\n    [0.5] C%s\n   *[other] D\n    [few] E\n }" % (e, "\n    [" + "7" * 4400 + "] L" if d.chance(1, 9) else "")
    if d.chance(1, 6):
        return "{ -t0.a ->\n    [one] A\n   *[other] D\n }"
    return "{ %s }" % e


def never_raises_case(d):
    src = "m0 =\n START %s MID %s END\nm1 = %s\n    .a = %s tail\nm2 =\n    .b = %s\n-t0 = T %s\n    .a = %s\n" % tuple(wild_placeable(d) for _ in range(7))
    excs = W.exceptions()
    sf, _, slog, _ = W.functions(excs)
    tag = d.choice(["en-US", "de", "ar", "pl", "xx-bogus", "ja", "hi"])
    iso = d.chance(1, 2)
    b = FluentBundle([tag], functions=sf, use_isolating=iso)
    b.add_resource(FluentResource(src))
    args = {}
    for n in ("x", "y", "z", "n"):
        if d.chance(4, 5):
            args[n] = d.choice(WILD)() if d.chance(3, 4) else W.argument(d)[0]
    if not b.has_message("m0"):
        fail("the harness wrote a source that does not parse: {!r}", src)
    shown = {}
    for k, v in args.items():
        try:
            shown[k] = repr(v)[:80]
        except Exception:
            shown[k] = type(v).__name__
    d.show({"source": src, "locale": tag, "isolating": iso, "args": shown})
    d.nontrivial()
    big = any(isinstance(v, str) and len(v) > 1000 for v in args.values()) or "400" in src or ("DESC" in src and "1" * 4400 in src) or any(isinstance(v, Decimal) and abs(v.adjusted()) > 1000 for v in args.values()) or any(isinstance(v, FluentType) and getattr(getattr(v, "options", None), "minimumFractionDigits", None) == 400 for v in args.values())
    for n in ("m0", "m1", "m2"):
        if not b.has_message(n):
            continue
        m = b.get_message(n)
        for name, p in [("value", m.value)] + list(m.attributes.items()):
            if p is None:
                continue
            r = b.format_pattern(p, args) if args or d.chance(1, 2) else b.format_pattern(p)
            if type(r) is not tuple or len(r) != 2:
                fail("format_pattern returned {!r}", type(r))
            text, errors = r
            if not isinstance(text, str):
                fail("{}.{}: the result is a {}", n, name, type(text).__name__)
            text = str.__getitem__(text, slice(None))
            if type(errors) is not list or not all(isinstance(e, Exception) for e in errors):
                fail("{}.{}: errors {!r}", n, name, [type(e).__name__ for e in errors])
            d.label("errors:%d" % min(len(errors), 4))
            if text == "{???}" and not big:
                fail("{}.{}: given up although nothing is big: {}", n, name, [W.show_error(e)[:200] for e in errors])
            if text == "{???}":
                if not errors:
                    fail("given up without an error")
            elif n == "m0" and not (text.startswith("START ") and " MID " in text and text.endswith(" END")):
                fail("m0: the rest of the message is lost in {!r}", text)


PROPS["R01"] = Property(
    "R01",
    "Messages whose placeables call NUMBER/DATETIME with arbitrary option names and values, failing and odd functions, references (missing, cyclic, valueless), selectors; arguments include non-finite and huge numbers, extreme dates, invalid options, rude objects, surrogates and unsupported types. Non-trivial: every case.",
    [Segment("never-raises", never_raises_case, 9000)],
    ["what a custom function returns can be compared with ==", "arguments are a dict with string keys"],
)


# --------------------------------------------------------------------------- R03
LOCALES3 = ["en", "de", "fr", "it", "pl", "ru", "uk", "ar", "cs", "lt", "cy", "sl", "ja", "sv", "en-GB", "fr-CA", "ko"]
CATS = ["one", "other", "few", "many", "two", "zero"]


def sel_number(d):
    k = d.draw(6)
    if k <= 1:
        v = d.draw(25) if d.chance(2, 3) else d.choice([100, 101, 111, 112, 1000000, 80, 800, 2000000, 1001, 10 ** 9])
    elif k == 2:
        v = d.draw(300) / 10
    elif k == 3:
        v = float(d.draw(30))
    elif k == 4:
        v = Decimal(d.draw(30))
    elif k == 5:
        v = Decimal(d.draw(400)).scaleb(-d.draw(2))
        v = Decimal(format(v, "f"))
        if v == v.to_integral_value():
            v = Decimal(int(v))
        else:
            v = Decimal(format(v, "f").rstrip("0"))
    else:
        v = d.choice([0.1, 0.5, 1.5, 3.14, True, -0.0, 2 ** 53 + 1, Decimal(2 ** 53 + 1), float(2 ** 53), 10 ** 20 + 1, Decimal(10 ** 20 + 1), 1e20, Decimal("0.1"), Decimal("0.30000000000000004")])
    if d.chance(1, 6):
        v = -v
    return v


LONG_KEY = "a-rather-long-variant-key-" + "k" * 60


def key_for(d, v):
    """A variant key that has a chance."""
    k = d.draw(7)
    if k <= 2:
        return M.ident(d.choice(CATS))
    if k <= 5 and isinstance(v, (int, float, Decimal)) and Decimal(v).is_finite():
        x = Decimal(repr(v)) if isinstance(v, float) else Decimal(int(v)) if isinstance(v, int) else v
        s = format(x, "f")
        j = d.draw(6)
        if j == 6:
            # the next number there is, or one that differs in a late digit
            y = math.nextafter(float(x), d.choice([-math.inf, math.inf])) if d.chance(1, 2) else float(x) + d.choice([1, -1]) * 10.0 ** -d.draw(12)
            s = format(Decimal(repr(y)), "f")
        elif j == 5:
            s = str(int(x) + d.choice([-1, 1]))
        elif j == 1:
            s = s + (".0" if "." not in s else "0")
        elif j == 2:
            s = str(int(x))
        elif j == 3:
            s = ("-" if s.startswith("-") else "") + "0" + s.lstrip("-")
        elif j == 4:
            s = s.lstrip("-") if s.startswith("-") else "-" + s
        return M.number(s)
    if k == 5 and isinstance(v, str) and re.fullmatch(r"-?[0-9,]+(\.[0-9]+)?", v):
        return M.number(v.replace(",", ""))
    if k == 6 and isinstance(v, str) and gen.ID_RE.fullmatch(v):
        v = str(v.value) if isinstance(v, W.Shade) else v
        j = d.draw(9)
        if j > 3:
            return M.ident(v)
        near = [v.swapcase(), v + d.choice("x-_0"), v[:-1], v.replace("-", "_")][j]
        return M.ident(near or v)
    return d.choice([M.number("0"), M.number("1"), M.ident("x"), M.number("1.0"), M.ident("masc"), M.number("5")])


def one_select(d, i, terms, sargs, rargs):
    """A select expression, its selector's kind, and the text of its default variant."""
    X, T, V = "x" + str(i or ""), "t" + str(i), "VWU"[i]
    kind = d.weighted([(8, "var"), (3, "numlit"), (2, "strlit"), (4, "NUMBER"), (3, "tattr"), (2, "func"), (2, "strvar"), (2, "bad"), (2, "fnum")])
    v = None
    if kind == "var":
        v = sel_number(d)
        sargs[X], rargs[X] = v, RE.Num(v)
        sel = M.var(X)
    elif kind == "fnum":
        v = sel_number(d)
        o = d.choice([{"type": "ordinal"}, {"type": "cardinal"}, {"minimumFractionDigits": 2}, {"style": "percent"}])
        sargs[X], rargs[X] = fluent_number(v, **o), RE.Num(v, o)
        sel = M.var(X)
    elif kind == "numlit":
        s = gen.number_literal(d)
        v = float(s) if "." in s else int(s)
        sel = M.number(s)
    elif kind == "strlit":
        v = d.choice(["one", "masc", "x", "1", "other", "X-1_b", "5", LONG_KEY, "few"])
        sel = M.string(v)
    elif kind == "NUMBER":
        v = sel_number(d)
        sargs[X], rargs[X] = v, RE.Num(v)
        named = d.choice([[("type", M.string("ordinal"))], [("type", M.string("cardinal"))], [], [("minimumFractionDigits", M.number("1"))], [("type", M.string("ordinal")), ("useGrouping", M.number("0"))], [("style", M.string("nope"))]])
        sel = M.call("NUMBER", M.callargs([M.var(X)], [M.named(k, x) for k, x in named]))
    elif kind == "tattr":
        v = d.choice(["masc", "fem", "one", "other", "1", "5", "x y"])
        p = d.choice([M.pattern([M.text(v)]), M.pattern([M.placeable(M.string(v))]), M.pattern([M.placeable(M.var("g"))]), M.pattern([M.text(v + " "), M.placeable(M.var("g"))])])
        if d.chance(1, 6):
            p = M.pattern([M.placeable(M.number("1"))])
        terms.append(M.term(T, M.pattern([M.text("T")]), [M.attribute("a0", p)]))
        args = M.callargs([], [M.named("g", M.string(v))]) if d.chance(2, 3) else None
        sargs["g"] = rargs["g"] = d.choice(["masc", "fem"])
        sel = M.termref(T if d.chance(7, 8) else "t9", "a0" if d.chance(7, 8) else "a9", args)
    elif kind == "func":
        v = d.choice([1, 2, 4, "one"])
        fn = {1: ("INC", [M.number("0")]), 2: ("INC", [M.number("1")]), 4: ("INC", [M.number("3")]), "one": ("N-1_A", [])}[v]
        sel = M.call(fn[0], M.callargs(fn[1], [M.named("o", M.number("1"))] if d.chance(1, 3) and fn[1] else []))
        if d.chance(1, 3):
            sel = M.call(d.choice(["BOOM", "NIL", "ODD", "UNKNOWN", "BADFMT"]), M.callargs())
    elif kind == "strvar":
        v = d.choice(["one", "masc", "", "1", "other", "X-1_b", "5", "0.5", "few", "12.25", "1234", "1,234", "-3", "1.0", "123456789", W.Shade.ONE, LONG_KEY, "One", "one ", " one", "on", "ones", "nan", "oth\u0435r", "one\u200b", "\uff11"])
        sargs[X] = rargs[X] = v
        sel = M.var(X)
    else:
        sel = M.var(X)
        v = d.choice([None, [1], dt.date(2020, 1, 1), dt.datetime(2020, 1, 1), float("inf"), float("nan"), Decimal("NaN"), Decimal("-Infinity"), Decimal("sNaN"), FluentNone("one"), float("-inf")])
        if d.chance(3, 4):
            sargs[X] = v
            rargs[X] = RE.Num(v) if isinstance(v, (float, Decimal)) else RE.Dt(v) if isinstance(v, dt.date) else RE.Non("one") if isinstance(v, FluentNone) else v
    n = 1 + d.draw(5)
    dflt = d.draw(n - 1)
    variants = [M.variant(key_for(d, v), M.pattern([M.text(f"{V}{j}")]), j == dflt) for j in range(n)]
    return M.select(sel, variants), kind, f"{V}{dflt}"


def select_case(d):
    terms, sargs, rargs = [], {}, {}
    made = [one_select(d, i, terms, sargs, rargs) for i in range(1 if d.chance(3, 4) else 2 + d.draw(1))]
    exprs = [e for e, _, _ in made]
    # one after the other, or one in a variant of the other
    nested = len(made) > 1 and d.chance(1, 2)
    if nested:
        for outer, inner in zip(exprs, exprs[1:]):
            d.choice(outer["variants"])["value"]["elements"].append(M.placeable(inner))
        exprs = exprs[:1]
    elems = []
    for e in exprs:
        if elems:
            elems.append(M.text(" "))
        elems.append(M.placeable(e))
    if d.chance(1, 3):
        elems = [M.text("a ")] + elems + [M.text(" b")]
    pat = M.pattern(elems)
    where = d.draw(9)
    if where == 0:
        body = [M.message("m", M.pattern([M.placeable(M.msgref("far"))])), M.message("far", pat)]
    elif where == 1:
        body = [M.message("m", None, [M.attribute("at", pat)])]
    elif where == 2:
        body = [M.message("m", M.pattern([M.placeable(M.call("ECHO", M.callargs([M.placeable(M.select(M.string("q"), [M.variant(M.ident("q"), pat, True)]))])))]))]
    else:
        body = [M.message("m", pat)]
    model = M.resource(body + terms)
    w = W.World(d, model, tag=d.choice(LOCALES3) if d.chance(3, 4) else d.choice(refnum.ALL))
    d.show(w.shown(sargs))
    d.label(*("selector " + k for _, k, _ in made))
    d.nontrivial(any(len(e["variants"]) > 1 for e, _, _ in made))

    def check(n_, attr, pat, got, want):
        d.label("default" if made[0][2] in got[0] else "keyed")
    run_world(d, w, sargs, rargs, check=check)
    # the same bundle again, with other numbers or the same one otherwise
    for _ in range(1 + d.draw(2) if d.chance(1, 3) else 0):
        s2, r2 = dict(sargs), dict(rargs)
        for x, r in rargs.items():
            if not isinstance(r, RE.Num):
                continue
            v = r.value
            if isinstance(v, Decimal) and not v.is_finite() or v != v or v in (math.inf, -math.inf):
                continue
            k = d.draw(5)
            if k == 0:
                v = d.choice([v, -v, v + 1, sel_number(d)])
            if k == 1:
                v = Decimal(repr(v)) if isinstance(v, float) else Decimal(int(v)) if isinstance(v, int) else float(v)
                if isinstance(v, Decimal) and v == v.to_integral_value():
                    v = Decimal(int(v))
            o = d.choice([{"type": "ordinal"}, {"type": "cardinal"}, None, {"minimumFractionDigits": 2}])
            s2[x], r2[x] = (v, RE.Num(v)) if o is None else (fluent_number(v, **o), RE.Num(v, o))
            if k == 5:
                s2[x] = r2[x] = format(v, "f") if isinstance(v, Decimal) else str(v)
        run_world(d, w, s2, r2)


PROPS["R03"] = Property(
    "R03",
    "One to three select expressions, side by side or nested, in values, attributes, references and function arguments, over every kind of selector in 17 locales (a quarter of the cases: any of the 1082 of the locale data), with keys made to hit or narrowly miss (equal in another notation, negated, plural names); then the same bundle with the same and other numbers again, as cardinals, ordinals, Decimals, floats and text. Oracle: the matching rules with hand-written CLDR plural rules, and an interpreter of the rules' text for other locales. Non-trivial: more than one variant.",
    [Segment("select", select_case, 16000)],
    ["Decimals used as selectors carry no superfluous fraction zeros (their plural category would follow the visible digits)"],
)


# --------------------------------------------------------------------------- R04
NAMES = ("x", "y", "z")


def scope_pattern(d, ids, terms, depth=1, names=NAMES):
    elems = []
    for _ in range(1 + d.draw(3)):
        k = d.weighted([(5, "var"), (4, "term"), (3, "msg"), (1, "text"), (1, "fail"), (2, "sel"), (1, "tsel"), (1, "fn")])
        name = d.choice(names)
        if k == "var":
            elems += [M.text(f"[{name}="), M.placeable(M.var(name)), M.text("]")]
        elif k == "text":
            elems.append(M.text("-"))
        elif k == "msg":
            elems.append(M.placeable(M.msgref(d.choice(ids), "a0" if d.chance(1, 4) else None)))
        elif k in ("term", "tsel"):
            args = None
            if d.chance(2, 3):
                pos = [M.var(d.choice([names[0], "q"]))] if d.chance(1, 5) else []
                named, seen = [], set()
                for _ in range(d.size(2, 2, 3)):
                    nm = d.choice(names)
                    if nm not in seen:
                        seen.add(nm)
                        named.append(M.named(nm, M.string("T" + NAMES[names.index(nm)] + str(d.draw(9))) if d.chance(2, 3) else M.number(str(d.draw(3)) if d.chance(4, 5) else d.choice(["1.50", "-1", "1234567", "0.0"])) if d.chance(7, 8) else M.string(d.choice(["", " ", "one", "{ $x }", "t" * 70]))))
                args = M.callargs(pos, named)
            if k == "term":
                elems.append(M.placeable(M.termref(d.choice(terms), None, args)))
            else:
                elems.append(M.placeable(M.select(M.termref(d.choice(terms), "a0", args), [M.variant(M.ident("one"), M.pattern([M.placeable(M.var(names[0]))])), M.variant(M.ident("Tx1"), M.pattern([M.placeable(M.var(names[1]))])), M.variant(M.ident("other"), M.pattern([M.text("o:"), M.placeable(M.var(names[2]))]), True)])))
        elif k == "fail":
            elems.append(M.placeable(d.choice([M.msgref("nope"), M.termref("nope"), M.call("BOOM", M.callargs([M.var(names[0])])), M.msgref("m0", "nope"), M.termref("t0", None, M.callargs([M.number("1")]))])))
        elif k == "fn":
            elems.append(M.placeable(M.call(d.choice(["ECHO", "DESC"]), M.callargs([d.choice([M.termref(d.choice(terms), None, M.callargs([], [M.named(names[0], M.string("F"))])), M.var(name), M.msgref(d.choice(ids))]), M.var(d.choice(names[:2]))]))))
        elif depth > 0:
            elems.append(M.placeable(M.select(M.var(name), [M.variant(M.ident("one"), scope_pattern(d, ids, terms, depth - 1, names)), M.variant(M.ident("other"), scope_pattern(d, ids, terms, depth - 1, names), True)])))
        else:
            elems.append(M.placeable(M.var(name)))
    return merge(elems)


def scope_case(d):
    ids, terms = ["m0", "m1", "m2"], ["t0", "t1", "t2"]
    names = list(NAMES)
    if d.chance(1, 2):
        names = [d.choice(gen.PYNAMES[i::3]) for i in range(3)]
    body = []
    for i, n in enumerate(ids):
        later = ids[i + 1:] or ["nope"]
        if d.chance(1, 8):
            later = ids  # cycles allowed
        body.append(M.message(n, scope_pattern(d, later, terms, names=names), [M.attribute("a0", scope_pattern(d, later, terms, names=names))] if d.chance(1, 2) else []))
    for i, n in enumerate(terms):
        later = terms[i + 1:] or ["lost"]
        body.append(M.term(n, scope_pattern(d, ids[2:], later, names=names), [M.attribute("a0", scope_pattern(d, ["nope"], later, names=names) if d.chance(1, 2) else M.pattern([M.placeable(M.var(names[0]))]))]))
    model = M.resource(body)
    if d.chance(1, 12):
        gen.stretch(d, model, gen.Cfg(var_ids=names), True)
    if d.chance(1, 4):
        W.rename(d, model)
    w = W.World(d, model)
    sargs, rargs = {}, {}
    for n in names:
        if d.chance(3, 4):
            v = d.choice([f"arg-{n}", "one", 1, 2])
            sargs[n], rargs[n] = v, (v if isinstance(v, str) else RE.Num(v))
    d.show(w.shown(sargs))
    nt = [n for n in M.walk(model) if n["type"] == "TermReference"]
    d.nontrivial(len(nt) > 1)
    d.label("term references:%d" % min(len(nt), 8))
    run_world(d, w, sargs, rargs)


PROPS["R04"] = Property(
    "R04",
    "Webs of three messages and three terms that print which $x, $y, $z they see, calling each other with and without named and positional arguments, through selectors, variants and function arguments, some references failing or cyclic. Oracle: reference resolver with explicit scopes. Non-trivial: more than one term reference.",
    [Segment("scope", scope_case, 6000)],
)


# --------------------------------------------------------------------------- R05
def isolation_case(d):
    model = W.messages(d, W.PLAINCFG)
    sargs, rargs = W.arguments(d)
    a = W.World(d, model, isolating=True, how=2)
    b = W.World(d, model, tag=a.tag, isolating=False, how=2)
    d.show({"model": gen.render(d, model, fancy=False), **{k: v for k, v in a.shown(sargs).items() if k != "source"}})
    text = repr(model)
    if RE.FSI in text or RE.PDI in text or "2068" in text or "2069" in text:
        d.label("skipped: marks in the messages")
        return

    def check(n, attr, pat, got, want):
        s, errors = got
        depth = 0
        for c in s:
            depth += (c == RE.FSI) - (c == RE.PDI)
            if depth < 0:
                fail("unbalanced marks in {!r}", s)
        if depth:
            fail("unbalanced marks in {!r}", s)
        d.label("marks" if RE.FSI in s else "no marks")
        d.nontrivial(RE.FSI in s)
        if RE.FSI not in s and all(e["type"] == "TextElement" for e in pat["elements"]):
            d.label("text only")
        plain, perrors = b.sut.format_pattern(b.sut_pattern(n, attr), dict(sargs))
        if RE.FSI in plain or RE.PDI in plain:
            fail("marks without isolation: {!r}", plain)
        try:
            marked = a.ref.marked_selector(pat, rargs)
        except RE.TooBig:
            return
        if marked:
            d.label("skipped: a selector contains marks")
            return
        if s.replace(RE.FSI, "").replace(RE.PDI, "") != plain:
            fail("without its marks {!r} is not {!r}", s, plain)
        if [type(e) for e in errors] != [type(e) for e in perrors]:
            fail("isolation changes the errors: {} / {}", errors, perrors)
    run_world(d, a, sargs, rargs, check=check)
    run_world(d, b, sargs, rargs)


def exact_case(d):
    """One pattern of known elements: the output is written down directly."""
    args = {"x": "X", "n": 5, "e": ""}
    n = 1 + d.draw(4)
    elems, want, simple = [], [], []
    for _ in range(n):
        k = d.draw(8)
        if k == 0:
            elems.append(M.text("txt"))
            want.append(("t", "txt"))
        elif k == 1:
            elems.append(M.placeable(M.string("lit")))
            want.append(("t", "lit"))
        elif k == 2:
            elems.append(M.placeable(M.var("x")))
            want.append(("p", "X"))
        elif k == 3:
            elems.append(M.placeable(M.number("3")))
            want.append(("p", "3"))
        elif k == 4:
            elems.append(M.placeable(M.msgref("text")))
            want.append(("p", "ref"))
        elif k == 5:
            elems.append(M.placeable(M.msgref("sole")))
            want.append(("p", "X"))
        elif k == 6:
            elems.append(M.placeable(M.termref("two", None, M.callargs([], [M.named("v", M.string("V"))]))))
            want.append(("p", "two " + RE.FSI + "V" + RE.PDI))
        elif k == 7:
            elems.append(M.placeable(M.select(M.var("n"), [M.variant(M.number("5"), M.pattern([M.text("five "), M.placeable(M.var("x"))])), M.variant(M.ident("other"), M.pattern([M.text("o")]), True)])))
            want.append(("p", "five " + RE.FSI + "X" + RE.PDI))
        else:
            elems.append(M.placeable(M.var("e")))
            want.append(("p", ""))
    pat = merge(elems)
    sole = len(pat["elements"]) == 1
    model = M.resource([M.message("m", pat), M.message("text", M.pattern([M.text("ref")])), M.message("sole", M.pattern([M.placeable(M.var("x"))])), M.term("two", M.pattern([M.text("two "), M.placeable(M.var("v"))]))])
    src = gen.render(d, model)
    d.show(src)
    d.nontrivial(not sole)
    exp = "".join(s if t == "t" or sole else RE.FSI + s + RE.PDI for t, s in want)
    for iso in (True, False):
        b = FluentBundle(["en-US"], use_isolating=iso) if not iso or d.chance(1, 2) else FluentBundle(["en-US"])
        b.add_resource(FluentResource(src))
        got = b.format_pattern(b.get_message("m").value, args)
        w = exp if iso else exp.replace(RE.FSI, "").replace(RE.PDI, "")
        if got != (w, []):
            fail("formatted {!r}, expected {!r}", got, w)


PROPS["R05"] = Property(
    "R05",
    "isolation: generated bundles formatted with and without isolation; balance, stripping, equal errors, and the reference resolver's exact placement. exact: patterns of known elements with the output written down. Non-trivial: marks in the output; more than one element.",
    [Segment("isolation", isolation_case, 4000), Segment("exact", exact_case, 4000)],
    ["a placeable directly inside another counts as a placeable of its own", "selectors whose own text contains marks are left out of the stripping relation"],
)


# --------------------------------------------------------------------------- R06
FAILS = [
    lambda d: M.var("absent"), lambda d: M.msgref("nope"), lambda d: M.msgref("m0", "gone"), lambda d: M.msgref("nope", "a0"), lambda d: M.termref("lost"),
    lambda d: M.call("UNKNOWN", M.callargs([M.var("absent")] if d.chance(1, 2) else [])), lambda d: M.call("BOOM", M.callargs([M.string(d.choice("abcdefghij"))])),
    lambda d: M.var("bad"), lambda d: M.termref("t0", None, M.callargs([M.number("1")])), lambda d: M.msgref("valueless"), lambda d: M.call("NUMBER", M.callargs([M.string("s")])),
    lambda d: M.call("NUMBER", M.callargs([M.var("absent")])), lambda d: M.call("BADFMT", M.callargs([M.string(d.choice("abcdefg"))])), lambda d: M.call("DATETIME", M.callargs([M.var("n")])), lambda d: M.call("NIL", M.callargs()),
    lambda d: M.call("UNKNOWN", M.callargs([M.msgref("nope"), M.call("BOOM", M.callargs([M.string("q")])), M.var("absent2")])), lambda d: M.call("ECHO", M.callargs([M.msgref("nope")])), lambda d: M.termref("lost", None, M.callargs([M.var("absent")])), lambda d: M.termref("t0", None, M.callargs([M.var("absent"), M.msgref("nope")], [M.named("v", M.number("1"))])),
    lambda d: M.msgref("m1"), lambda d: M.termref("t1"),
    lambda d: some_call(d, False),
]
GOOD = [lambda d: M.var("n"), lambda d: M.string("s"), lambda d: M.termref("t0"), lambda d: M.msgref("ok"), lambda d: M.number("1"), lambda d: M.call("NUMBER", M.callargs([M.var("n")]))]


def some_call(d, attrs=True):
    """A term reference or call with up to three arguments of either kind."""
    pos = [d.choice(FAILS[:10] + GOOD)(d) for _ in range(d.size(3, 1, 3))]
    named = [M.named(x, d.choice([M.number("1"), M.string("V"), M.number("2.5")])) for x in d.shuffled(["v", "w", "x"])[:d.draw(3)]]
    args = M.callargs(pos, named)
    if d.chance(1, 4):
        return M.call(d.choice(["UNKNOWN", "BOOM", "ECHO"]), args)
    return M.termref(d.choice(["t0", "t0", "lost", "t1"]), d.choice(["a0", "gone"] if attrs else [None]), args)


def failing_pattern(d, depth=2):
    elems = []
    for _ in range(1 + d.draw(4)):
        k = d.weighted([(4, "fail"), (2, "good"), (2, "text"), (2, "sel" if depth else "fail"), (1, "nest")])
        if k == "text":
            elems.append(M.text("t"))
        elif k == "good":
            elems.append(M.placeable(d.choice(GOOD)(d)))
        elif k == "fail":
            elems.append(M.placeable(d.choice(FAILS)(d)))
        elif k == "nest":
            elems.append(M.placeable(M.placeable(d.choice(FAILS)(d))))
        else:
            sel = d.choice([M.var("n"), M.var("absent"), M.termref("lost", "a0"), M.call("BOOM", M.callargs()), M.call("UNKNOWN", M.callargs()), M.string("one"), M.var("bad"), M.termref("t0", "a0"), some_call(d)])
            n = 1 + d.draw(2)
            dflt = d.draw(n)
            if d.chance(1, 12):
                dflt = None  # a tree can be built so
                d.scratch["built"] = True
            elems.append(M.placeable(M.select(sel, [M.variant(d.choice([M.ident("one"), M.number("5"), M.ident("zz")]), failing_pattern(d, depth - 1), i == dflt) for i in range(n + 1)])))
    return merge(elems)


def failures_case(d):
    body = [M.message("m0", failing_pattern(d), [M.attribute("a0", failing_pattern(d, 1))] if d.chance(1, 2) else []), M.message("m1", failing_pattern(d, 1)), M.message("valueless", None, [M.attribute("a0", M.pattern([M.text("v")]))]), M.message("ok", M.pattern([M.text("fine")])), M.term("t0", M.pattern([M.text("term "), M.placeable(M.var("v"))]), [M.attribute("a0", M.pattern([M.text("one")]))]), M.term("t1", failing_pattern(d, 1))]
    model = M.resource(body)
    if d.chance(1, 12) and "built" not in d.scratch:
        gen.stretch(d, model, W.CFG, True)
    if d.chance(1, 5):
        W.rename(d, model)
    w = W.World(d, model, how=2 if "built" in d.scratch else None)
    bad = d.choice(W.UNSUPPORTED)
    sargs = {"n": 5, "bad": bad}
    rargs = {"n": RE.Num(5), "bad": bad}
    d.show(w.shown(sargs))

    def check(n, attr, pat, got, want):
        d.nontrivial(len(want[1]) > 1)
        d.label("number of errors:%d" % min(len(want[1]), 8))
        # a list of its own on every call
        got[1].append(ValueError("caller's"))
        again = w.sut.format_pattern(w.sut_pattern(n, attr), sargs)
        if again[1] is got[1] or len(again[1]) != len(want[1]):
            fail("the list of errors is shared between calls: {}", [W.show_error(e) for e in again[1]])
        W.check_result(again, want, n)
    run_world(d, w, sargs, rargs, check=check)


PROPS["R06"] = Property(
    "R06",
    "Messages full of failures of every kind (missing variable, message, term, attribute, value, function; unsupported argument; failing function or formatter; positional arguments to a term, select expressions without a default variant in built trees), nested in selectors, variants, arguments and references. Oracle: the reference resolver's list of errors, in order, and its fallbacks; then formatted again. Non-trivial: two or more errors.",
    [Segment("failures", failures_case, 8000)],
)


# --------------------------------------------------------------------------- R07
def cycles_case(d):
    """Random small reference graphs, most of them cyclic; and now and then a
    long one, nearly a ring, whose cycle takes many steps to come round."""
    long = d.chance(1, 12)
    n = 5 + d.draw(27) if long else 1 + d.draw(3)
    spare = [3]
    names = [("m" if d.chance(2, 3) else "t") + str(i) for i in range(n)]

    def ref(j, in_sel=False):
        nm = names[j]
        if nm[0] == "t":
            attr = "a0" if in_sel else None
            return M.termref(nm, attr, M.callargs([], [M.named("x", M.string("v"))]) if d.chance(1, 3) else None)
        return M.msgref(nm, "a0" if d.chance(1, 4) else None)

    def pat(depth=1):
        elems = []
        extra = d.draw(2)
        if long and extra:
            extra, spare[0] = (1 if spare[0] > 0 else 0), spare[0] - 1
        for _ in range(1 + extra):
            k = d.weighted([(4, "ref"), (1, "text"), (1, "variant"), (1, "selector"), (1, "fnarg"), (1, "nested")])
            j = d.draw(n - 1)
            if long:
                j = (at[0] + 1) % n if d.chance(9, 10) else j
            if k == "ref":
                elems.append(M.placeable(ref(j)))
            elif k == "text":
                elems.append(M.text("T"))
            elif k == "variant" and depth:
                elems.append(M.placeable(M.select(M.var("x"), [M.variant(M.ident("one"), pat(0)), M.variant(M.ident("other"), pat(0), True)])))
            elif k == "selector":
                ts = [i for i in range(n) if names[i][0] == "t"]
                if ts:
                    elems.append(M.placeable(M.select(ref(d.choice(ts), True), [M.variant(M.ident("T"), M.pattern([M.text("match")])), M.variant(M.ident("other"), pat(0) if depth else M.pattern([M.text("dflt")]), True)])))
                else:
                    elems.append(M.placeable(ref(j)))
            elif k == "fnarg":
                elems.append(M.placeable(M.call("ECHO", M.callargs([ref(j)]))))
            elif k == "nested":
                elems.append(M.placeable(M.placeable(ref(j))))
            else:
                elems.append(M.placeable(ref(j)))
        return merge(elems)
    body = []
    at = [0]
    for i, nm in enumerate(names):
        at[0] = i
        attrs = [M.attribute("a0", pat())] if d.chance(2, 3) else []
        body.append(M.term(nm, pat(), attrs) if nm[0] == "t" else M.message(nm, pat(), attrs))
    model = M.resource(body)
    if names[0][0] == "t":
        model["body"].append(M.message("start", M.pattern([M.placeable(ref(0)), M.text("!")])))
    if d.chance(1, 4):
        W.rename(d, model)
    w = W.World(d, model)
    sargs = {"x": d.choice(["one", "q"])}
    d.show(w.shown(sargs))

    def check(n_, attr, pat_, got, want):
        c = sum(isinstance(e, FluentCyclicReferenceError) for e in got[1])
        d.label("cycle" if c else "no cycle")
        d.nontrivial(c > 0)
    run_world(d, w, sargs, sargs, check=check)


def repeat_case(d):
    """The same message many times over, never inside itself: not a cycle."""
    k = 2 + d.draw(18)
    kind = d.draw(4)
    inner = ["leaf = leaf { $x }", "leaf = { $x }", "leaf = { $x ->\n   *[o] o { $x }\n }", "-leaf = t { $x }", "leaf = { -t(x: \"q\") } { -t(x: \"r\") }\n-t = <{ $x }>"][kind]
    one = ["leaf 7", "7", "o 7", "t 7", "<q> <r>"][kind]
    ref = "-leaf(x: 7)" if kind == 3 else "leaf"
    form = d.draw(3)
    if form == 0:
        top, want = "top = " + " ".join("{ %s }" % ref for _ in range(k)), " ".join([one] * k)
    elif form == 1:
        top = "mid = { %s }{ %s }\ntop = %s" % (ref, ref, "".join("{ mid }" for _ in range(k)))
        want = one * (2 * k)
    elif form == 2:
        top = "top = { ECHO(" + ", ".join([ref] * k) + ") }{ DESC(" + ref + ") }"
        want = one + "str:" + one
    else:
        top = "a = { %s }\nb = { a }{ a }\nc = { b }{ a }{ b }\ntop = { c } { %s } { c }" % (ref, ref)
        want = f"{one * 5} {one} {one * 5}"
    src = inner + "\n" + top + "\n"
    sf = W.functions(W.exceptions())[0]
    b = FluentBundle(["en-US"], functions=sf, use_isolating=False)
    b.add_resource(FluentResource(src))
    d.show(src)
    d.nontrivial()
    got = b.format_pattern(b.get_message("top").value, {"x": 7})
    if got != (want, []):
        fail("formatted {!r}, expected {!r} without errors", got, want)


def bomb_case(d):
    shape = d.choice(["messages", "terms", "sole", "variants", "selectors", "fnargs", "attrs", "strings", "argstring", "wide", "chain", "solechain", "termchain", "nesting", "mixed", "fnresult", "placeable-args", "digits", "sole terms", "fnargs terms"])
    levels = 5 + d.draw(60)
    fan = 2 + d.draw(8)
    deep = 400 + d.draw(3000)
    leaf = d.choice(["lol", "{ $x }", "{ COUNT() }", "x { COUNT() }"])
    src, top = "", None
    if shape in ("messages", "mixed"):
        src = f"m0 = {leaf}\n" + "".join(f"m{i} = " + " ".join(("{ m%d }" if shape == "messages" or d.chance(1, 2) else "{ ECHO(m%d) }") % (i - 1) for _ in range(fan)) + "\n" for i in range(1, levels))
        top = f"m{levels - 1}"
    elif shape == "terms":
        src = f"-m0 = {leaf}\n" + "".join(f"-m{i} = " + "".join("{ -m%d%s }" % (i - 1, "(x: 1)" if d.chance(1, 2) else "") for _ in range(fan)) + "\n" for i in range(1, levels)) + "top = { -m%d }\n" % (levels - 1)
        top = "top"
    elif shape == "sole":
        src = f"m0 = {leaf}\n" + "".join(f"m{i} = {{ ECHO({', '.join(['m%d' % (i - 1)] * fan)}) }}\n" for i in range(1, levels))
        top = f"m{levels - 1}"
    elif shape == "variants":
        src = f"m0 = {leaf}\n" + "".join("m%d = { $x ->\n   *[o] %s\n }\n" % (i, "".join("{ m%d }" % (i - 1) for _ in range(fan))) for i in range(1, levels))
        top = f"m{levels - 1}"
    elif shape == "selectors":
        src = "-m0 = t\n    .a = one\n" + "".join("-m%d = t\n    .a = %s\n" % (i, "".join("{ -m%d.a ->\n   *[o] x\n }" % (i - 1) for _ in range(fan))) for i in range(1, levels)) + "top = { -m%d.a ->\n   *[o] x\n }\n" % (levels - 1)
        top = "top"
    elif shape == "fnargs":
        src = f"m0 = {leaf}\n" + "".join("m%d = x { DROP(%s) }\n" % (i, ", ".join(["m%d" % (i - 1)] * fan)) for i in range(1, levels))
        top = f"m{levels - 1}"
    elif shape == "sole terms":
        src = f"-m0 = {leaf}\n" + "".join(f"-m{i} = {{ ECHO({', '.join(['-m%d' % (i - 1)] * fan)}) }}\n" for i in range(1, levels)) + "top = { -m%d }\n" % (levels - 1)
        top = "top"
    elif shape == "fnargs terms":
        src = f"-m0 = {leaf}\n" + "".join("-m%d = x { DROP(%s) }\n" % (i, ", ".join(["-m%d(x: 1)" % (i - 1)] * fan)) for i in range(1, levels)) + "top = { -m%d }\n" % (levels - 1)
        top = "top"
    elif shape == "placeable-args":
        src = f"m0 = {leaf}\n" + "".join("m%d = { DROP(%s) }\n" % (i, ", ".join(["{ m%d }" % (i - 1)] * fan)) for i in range(1, levels))
        top = f"m{levels - 1}"
    elif shape == "attrs":
        src = f"m0 =\n    .a = {leaf}\n" + "".join("m%d =\n    .a = %s\n" % (i, "".join("{ m%d.a }" % (i - 1) for _ in range(fan))) for i in range(1, levels)) + "top = { m%d.a }\n" % (levels - 1)
        top = "top"
    elif shape == "strings":
        src = "m0 = " + "y" * 50 + "\n" + "".join(f"m{i} = " + "".join("{ m%d }" % (i - 1) for _ in range(fan)) + "\n" for i in range(1, levels))
        top = f"m{levels - 1}"
    elif shape == "argstring":
        src = "m0 = { $big }\n" + "".join(f"m{i} = " + "".join("{ m%d }" % (i - 1) for _ in range(fan)) + "\n" for i in range(1, levels))
        top = f"m{levels - 1}"
    elif shape == "fnresult":
        src = "m0 = { BIG() }\n" + "".join(f"m{i} = " + "".join("{ m%d }" % (i - 1) for _ in range(fan)) + "\n" for i in range(1, levels))
        top = f"m{levels - 1}"
    elif shape == "digits":
        one = lambda: "NUMBER(" + d.choice(["$x", "0", "0.5", "$none"]) + ", " + d.choice(["minimumIntegerDigits", "minimumFractionDigits", "maximumFractionDigits", "minimumSignificantDigits", "maximumSignificantDigits"]) + ": " + "9" * (5 + d.draw(4)) + d.choice(["", ', style: "percent"', ', style: "currency", currency: "EUR"', ', useGrouping: 0']) + ")"
        src = "m0 = " + "".join("{ %s } " % one() for _ in range(fan)) + "\ntop = { m0 }{ $x ->\n   *[other] { m0 }\n }{ ECHO(m0) }{ %s }\n" % one()
        top = "top"
    elif shape == "wide":
        src = "m0 = v { $x }\ntop = " + "{ m0 }" * (1100 + d.draw(3000)) + "\n"
        top = "top"
    elif shape == "chain":
        src = "m0 = v\n" + "".join(f"m{i} = x {{ m{i - 1} }}\n" for i in range(1, deep))
        top = f"m{deep - 1}"
    elif shape == "solechain":
        src = "m0 = { $x }\n" + "".join(f"m{i} = {{ m{i - 1} }}\n" for i in range(1, deep))
        top = f"m{deep - 1}"
    elif shape == "termchain":
        src = "-m0 = v\n" + "".join(f"-m{i} = x {{ -m{i - 1} }}\n" for i in range(1, deep)) + f"top = {{ -m{deep - 1} }}\n"
        top = "top"
    else:
        inner = "{ $x }"
        for _ in range(30):
            inner = "{ " + inner + " }"
        src = "m0 = a " + inner + "\n" + "".join(f"m{i} = " + "".join("{ m%d }" % (i - 1) for _ in range(fan)) + "\n" for i in range(1, levels))
        top = f"m{levels - 1}"
    calls = [0]

    def count(*a, **k):
        calls[0] += 1
        return "c"

    def drop(*a, **k):
        calls[0] += 1
        return "d"
    # now and then far longer than a placeable may be
    big = d.choice(["B", "B", " ", "\n", "\u00e9", "a b"]) * (100 + d.draw(2300) if d.chance(2, 3) else 2501 + d.draw(100000))
    b = FluentBundle(["en-US"], functions={"COUNT": count, "DROP": drop, "ECHO": lambda *a: a[0], "BIG": lambda: big}, use_isolating=d.chance(1, 2))
    b.add_resource(FluentResource(src))
    d.show({"shape": shape, "levels": levels, "fan": fan, "deep": deep, "leaf": leaf, "isolating": b.use_isolating, "big": len(big)})
    d.label("shape " + shape)
    d.nontrivial()
    pat = b.get_message(top).value
    args = {"x": 1, "big": big}
    t0 = time.process_time()
    text, errors = b.format_pattern(pat, args)
    cpu = time.process_time() - t0
    if not isinstance(text, str):
        fail("{!r}", type(text))
    limit = 3_000_000
    if len(text) > limit:
        fail("{} characters of output", len(text))
    if calls[0] > 5000:
        fail("{} function calls were made", calls[0])
    if len(errors) > 3000:
        fail("{} errors were recorded", len(errors))
    if cpu > 8:
        fail("{:.1f} s of CPU time", cpu)
    # is it a bomb?
    expand = fan ** (levels - 2) if shape not in ("wide", "digits", "chain", "solechain", "termchain") else deep * 10 if "chain" in shape else 0 if shape == "digits" else 20000
    if expand > 6000 and not (errors and text):
        fail("{} expansions ended without an error: {!r}", expand, text[:100])
    d.label("cut off" if errors else "completed")
    # nothing lingers
    b.add_resource(FluentResource("fine = ok { $x }\n"))
    got = b.format_pattern(b.get_message("fine").value, {"x": 3})
    want = "ok \u20683\u2069" if b.use_isolating else "ok 3"
    if got != (want, []):
        fail("after the bomb {!r}", got)


PROPS["R07"] = Property(
    "R07",
    "cycles: random reference graphs over values, attributes, variants, selectors and function arguments, against the reference resolver. repeat: many acyclic repetitions, exact output. bomb: 20 shapes of expansion bombs and deep chains, with bounds on output, function calls, errors and CPU time. Non-trivial: a cycle was met; every repetition and bomb.",
    [Segment("cycles", cycles_case, 8000), Segment("repeat", repeat_case, 1500), Segment("bomb", bomb_case, 800)],
    ["bounds checked: 3 000 000 characters, 5000 calls, 3000 errors, 8 s CPU"],
    scale=1,
)


# --------------------------------------------------------------------------- R10
def calls_case(d):
    body = []
    cfg = gen.Cfg(msg_ids=["m0", "m1", "nope"], term_ids=["t0"], attr_ids=["a0"], var_ids=["x", "y", "n", "day", "absent"], fn_ids=["DESC", "ECHO", "BOOM", "INC", "NIL", "ODD", "BADFMT", "RAW", "N-1_A", "UNKNOWN"], odd=False, max_depth=3, max_elems=3)

    def pat():
        elems = [M.text("a ")] if d.chance(1, 2) else []
        for _ in range(1 + d.draw(2)):
            call = M.call(gen.fn_identifier(d, cfg), gen.call_arguments(d, cfg, 2))
            if d.chance(1, 4):
                call = M.select(call, [M.variant(d.choice([M.ident("one"), M.number("2"), M.ident("other")]), M.pattern([M.text("V1")])), M.variant(M.ident("zz"), M.pattern([M.placeable(M.call("DESC", M.callargs([M.string("default")])))]), True)])
            elems.append(M.placeable(call))
        return merge(elems)
    body = [M.message("m0", pat(), [M.attribute("a0", pat())]), M.message("m1", pat()), M.term("t0", pat(), [M.attribute("a0", pat())])]
    model = W.fix(d, M.resource(body))
    if d.chance(1, 12):
        gen.stretch(d, model, cfg, True)
    if d.chance(1, 5):
        W.rename(d, model)
    w = W.World(d, model)
    sargs, rargs = W.arguments(d, ["x", "y", "n", "day"])
    d.show(w.shown(sargs))

    def check(n, attr, pat_, got, want):
        if w.slog != w.rlog:
            for i, (a, b) in enumerate(zip(w.slog, w.rlog)):
                if a != b:
                    fail("call {} was {}, expected {}", i, a, b)
            fail("{} calls, expected {}: {} / {}", len(w.slog), len(w.rlog), [c[0] for c in w.slog], [c[0] for c in w.rlog])
        d.nontrivial(len(w.rlog) > 1)
        d.label("calls:%d" % min(len(w.rlog), 6))
    run_world(d, w, sargs, rargs, check=check)


def shadow_case(d):
    """Bundle functions extend or shadow the built-ins of that bundle only."""
    names = [n for n in ("NUMBER", "DATETIME", "EXTRA", "F-2") if d.chance(1, 2)]
    given = {n: (lambda n: lambda *a, **k: f"{n.lower()}{len(a)}{sorted(k)}")(n) for n in names}
    before = dict(given)
    order = d.draw(1)
    plain = FluentBundle(["en-US"], use_isolating=False) if order else None
    b = FluentBundle(["en-US"], functions=given, use_isolating=False)
    if plain is None:
        plain = FluentBundle(["en-US"], use_isolating=False)
    src = "n = { NUMBER(5, minimumFractionDigits: 1) }\nd = { DATETIME($d, dateStyle: \"short\") }\ne = { EXTRA() }\nf = { F-2(1, a: 2) }\nv = { $n }\n"
    d.show({"functions": names, "order": order})
    d.nontrivial(bool(names))
    builtin = {"n": "5.0", "d": "2/3/21", "e": "EXTRA()", "f": "F-2()", "v": "5"}
    own = {"n": "number1['minimumFractionDigits']", "d": "datetime1['dateStyle']", "e": "extra0[]", "f": "f-21['a']"}
    key = {"n": "NUMBER", "d": "DATETIME", "e": "EXTRA", "f": "F-2"}
    for bundle, mine in ((b, names), (plain, []), (FluentBundle(["en-US"], use_isolating=False, functions={}), [])):
        bundle.add_resource(FluentResource(src))
        for m, want in builtin.items():
            got, errs = bundle.format_pattern(bundle.get_message(m).value, {"d": dt.date(2021, 2, 3), "n": 5})
            shadowed = key.get(m) in mine
            if shadowed:
                want = own[m]
            unknown = m in "ef" and not shadowed
            if got != want or [str(e) for e in errs] != ([f"Unknown function: {key[m]}"] if unknown else []):
                fail("{} with functions {} gives {!r} {}, expected {!r}", m, mine, got, errs, want)
    if given != before:
        fail("the dict of functions was changed")


class Callable:
    """A callable object: no __name__, no signature of its own to rely on."""

    def __init__(self, tag):
        self.tag = tag

    def __call__(self, *args, **kwargs):
        return f"{self.tag}:{args}{sorted(kwargs.items())}"

    def method(self, *args, **kwargs):
        return f"m{self.tag}:{args}{sorted(kwargs.items())}"

    @classmethod
    def cls(cls, *args, **kwargs):
        return f"c:{args}{sorted(kwargs.items())}"

    @staticmethod
    def static(*args, **kwargs):
        return f"s:{args}{sorted(kwargs.items())}"

    def __bool__(self):
        return self.tag != "0"


class Made(str):
    """A class is a function too; what it makes is text."""

    def __new__(cls, *args, **kwargs):
        return super().__new__(cls, f"made:{args}{sorted(kwargs.items())}")


def _two(a, b="dflt", *, sep="-"):
    return f"{a}{sep}{b}"


@functools.wraps(_two)
def _wrapped(*args, **kwargs):
    return f"w:{args}{sorted(kwargs.items())}"


def _selfish(self, cls="c", **kwargs):
    return f"{self}/{cls}/{sorted(kwargs.items())}"


KINDS = [
    ("max", max), ("min", min), ("len", lambda *a: str(len(a))), ("format", "{}|{sep}".format), ("format0", "{0}|{0}".format), ("join", lambda *a, **k: k.get("sep", "").join(a)), ("upper", str.upper), ("str", str), ("replace", "axbxc".replace),
    ("callable", Callable("1")), ("callable0", Callable("0")), ("method", Callable("2").method), ("classmethod", Callable.cls), ("static", Callable.static), ("class", Made), ("partial", functools.partial(_two, "p")), ("partialkw", functools.partial(_two, sep="+")),
    ("two", _two), ("wrapped", _wrapped), ("selfish", _selfish), ("caller", operator.methodcaller("upper")),
]


def kinds_case(d):
    """Whatever Python can call is a function: builtins, partials, methods, classes, callable objects."""
    calls, src = [], ""
    given = {}
    for i in range(1 + d.draw(4)):
        kind, f = d.choice(KINDS)
        args = [d.choice(["a", "b", "zz", "x"]) for _ in range(d.draw(3))]
        kwargs = {k: d.choice(["q", "r"]) for k in ("sep", "self", "fn", "args", "a") if d.chance(1, 4)}
        name = "F%d" % i
        if d.chance(1, 3):
            name = d.choice([n for n in ("NUMBER", "DATETIME", "F-2", "A_B", "F") if n not in given] or [name])
        given[name] = f
        lit = [f'"{a}"' for a in args] + [f'{k}: "{v}"' for k, v in kwargs.items()]
        src += "m%d = <{ %s(%s) }>\n" % (i, name, ", ".join(lit))
        calls.append((name, kind, f, args, kwargs))
    b = FluentBundle(["en-US"], functions=given, use_isolating=False)
    b.add_resource(FluentResource(src))
    d.show({"source": src, "kinds": [c[1] for c in calls]})
    for again in range(2):
        for i, (name, kind, f, args, kwargs) in enumerate(calls):
            try:
                want, err = f"<{f(*args, **kwargs)}>", None
            except Exception as e:
                want, err = f"<{name}()>", e
            d.label("kind " + kind + (" raises" if err else ""))
            d.nontrivial(err is None)
            got, errors = b.format_pattern(b.get_message("m%d" % i).value, {})
            if got != want:
                fail("{}({}, {}) formatted {!r}, expected {!r} ({})", kind, args, kwargs, got, want, errors)
            if [type(e) for e in errors] != ([type(err)] if err is not None else []):
                fail("{}({}, {}): errors {!r}, expected {!r}", kind, args, kwargs, errors, err)


PROPS["R10"] = Property(
    "R10",
    "kinds: functions of every kind Python can call (builtins, partials, callable objects, methods, classes, wrapped functions), against the same call made directly. calls: every call's name, positional and named arguments (type and value) is logged and compared, in order, with the reference resolver's; raised exceptions must be the very objects. shadow: subsets of functions over two bundles. Non-trivial: two or more calls; a function given.",
    [Segment("calls", calls_case, 6000), Segment("shadow", shadow_case, 400), Segment("kinds", kinds_case, 1500)],
    [],
)
