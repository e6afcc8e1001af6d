"""Generated bundles: the same messages, functions and arguments for the code
under test and for the reference resolver."""
import datetime as dt
import enum
from decimal import Decimal

from . import env  # noqa: F401
from . import gen, mast as M, refeval as RE
from .engine import Violation

from fluent.runtime import FluentBundle, FluentResource
from fluent.runtime.errors import FluentFormatError, FluentReferenceError
from fluent.runtime.types import FluentNone, FluentNumber, FluentType, fluent_date, fluent_number
from fluent.syntax import ast

MSGS = ["m0", "m1", "m2", "m3", "nope"]
TERMS = ["t0", "t1", "t2", "lost"]
ATTRS = ["a0", "a1", "gone"]
VARS = ["x", "y", "z", "n", "day", "absent"]
UNNAMED = "UN-KNOWN_2-" * 5
FNS = ["ECHO", "DESC", "NUMBER", "BOOM", "INC", "NIL", "ODD", "BADFMT", "RAW", "RAW", "DATETIME", "UNKNOWN", "N-1_A", UNNAMED]
TAGS = ["en-US", "de", "pl", "ar", "fr"]

CFG = gen.Cfg(msg_ids=MSGS, term_ids=TERMS, attr_ids=ATTRS, var_ids=VARS, fn_ids=FNS, max_depth=2, max_elems=4, lone_cr=False)
PLAINCFG = gen.Cfg(msg_ids=MSGS, term_ids=TERMS, attr_ids=ATTRS, var_ids=VARS, fn_ids=FNS, odd=False, max_depth=2, max_elems=4)


class Boom(Exception):
    "Raised by BOOM."

    def __str__(self):
        return "boom"


class Silent(LookupError):
    pass


def exceptions():
    out = [Boom(), ValueError("v"), TypeError("t"), KeyError("k"), Silent("s"), ZeroDivisionError(), RuntimeError("r"), RecursionError("d"), FluentReferenceError("mine"), FluentFormatError("f"), StopIteration(), AttributeError("a"), UnicodeDecodeError("utf-8", b"x", 0, 1, "bad"), AssertionError(), OSError(2, "x"), NotImplementedError()]
    # raised from others, or while others were handled
    for e in out[::2]:
        e.__cause__ = KeyError("cause")
    for e in out[1::3]:
        e.__context__ = LookupError("context")
    return out


class OddType(FluentType):
    def __init__(self, text):
        self.text = text

    def format(self, locale):
        return f"<{self.text}@{locale.language}>"


class BadType(FluentType):
    def __init__(self, exc):
        self.exc = exc

    def format(self, locale):
        raise self.exc


class WrongType(FluentType):
    """Formatted to something that is not text."""

    def __init__(self, value):
        self.value = value

    def format(self, locale):
        return self.value


class RawNum(RE.Num):
    __slots__ = ()


class RawDt(RE.Dt):
    __slots__ = ()


def raw(v):
    """The reference value of a plain Python value that a function returned."""
    if isinstance(v, str):
        return v
    if isinstance(v, (int, float, Decimal)):
        return RawNum(v)
    if isinstance(v, dt.date):
        return RawDt(v)

    def fmt(tag):
        if tag == "desc":
            return "bad" if isinstance(v, WrongType) else "UNEXPECTED " + type(v).__name__
        raise RE.Fail(("TypeError", None))
    return RE.Odd(fmt)


def sut_desc(v):
    if isinstance(v, FluentNone):
        return f"none:{v.name}"
    if isinstance(v, FluentNumber):
        for ty, n in ((int, "int"), (float, "float"), (Decimal, "dec")):
            if isinstance(v, ty):
                return f"{n}:{ty.__repr__(v)}"
    if isinstance(v, dt.date) and not isinstance(v, FluentType):
        return f"UNEXPECTED {type(v).__name__}"
    if isinstance(v, dt.datetime):
        return "datetime:" + v.isoformat()
    if isinstance(v, dt.date):
        return "date:" + v.isoformat()
    if isinstance(v, OddType):
        return "odd:" + v.text
    if isinstance(v, (BadType, WrongType)):
        return "bad"
    if type(v) is str or isinstance(v, str):
        return "str:" + v
    return f"UNEXPECTED {type(v).__name__}"


def ref_desc(v):
    if isinstance(v, RE.Non):
        return f"none:{v.name}"
    if isinstance(v, (RawNum, RawDt)):
        return "UNEXPECTED " + type(v.value).__name__
    if isinstance(v, RE.Num):
        x = v.value
        if isinstance(x, bool):
            x = int(x)
        return f"{'int' if isinstance(x, int) else 'float' if isinstance(x, float) else 'dec'}:{x!r}"
    if isinstance(v, RE.Dt):
        return ("datetime:" if isinstance(v.value, dt.datetime) else "date:") + v.value.isoformat()
    if isinstance(v, RE.Odd):
        return v.fmt("desc")
    return "str:" + v


def functions(excs):
    """(functions for the code under test, reference functions, log, reference log)"""
    slog, rlog = [], []

    def logged(name, sfn, rfn):
        def s(*a, **k):
            slog.append((name, [sut_desc(x) for x in a], [(n, sut_desc(x)) for n, x in k.items()]))
            return sfn(*a, **k)

        def r(*a, **k):
            rlog.append((name, [ref_desc(x) for x in a], [(n, ref_desc(x)) for n, x in k.items()]))
            return rfn(*a, **k)
        return s, r

    def pick(a, desc, of=excs):
        return of[sum(ord(c) for x in a for c in desc(x) if c not in "\u2068\u2069") % len(of)]
    raws = [5, 1, 1.5, Decimal("2.5"), True, dt.date(2021, 3, 4), dt.datetime(2021, 3, 4, 5, 6), None, [1], b"x", {"a": 1}, (), WrongType(None), WrongType(5), WrongType(b"w"), "plain"]

    def s_boom(*a, **k):
        raise pick(a, sut_desc)

    def r_boom(*a, **k):
        raise RE.Fail(pick(a, ref_desc))

    def s_inc(*a, **k):
        if not a or not isinstance(a[0], int):
            raise excs[0]
        return fluent_number(int(a[0]) + 1, **({"type": "ordinal"} if k else {}))

    def r_inc(*a, **k):
        if not a or not isinstance(a[0], RE.Num) or not isinstance(a[0].value, int):
            raise RE.Fail(excs[0])
        return RE.Num(int(a[0].value) + 1, {"type": "ordinal"} if k else {})

    def s_bad(*a, **k):
        return BadType(pick(a, sut_desc))

    def r_bad(*a, **k):
        e = pick(a, ref_desc)

        def fmt(tag):
            if tag == "desc":
                return "bad"
            raise RE.Fail(e)
        return RE.Odd(fmt)

    def s_raw(*a, **k):
        return pick(a, sut_desc, raws)

    def r_raw(*a, **k):
        return raw(pick(a, ref_desc, raws))

    def s_odd(*a, **k):
        return OddType(str(len(a)) + "/" + str(len(k)))

    def r_odd(*a, **k):
        t = f"{len(a)}/{len(k)}"
        return RE.Odd(lambda tag: "odd:" + t if tag == "desc" else f"<{t}@{tag.split('-')[0]}>")
    table = {
        "ECHO": (lambda *a, **k: a[0] if a else list(k.values())[0] if k else "echo", lambda *a, **k: a[0] if a else list(k.values())[0] if k else "echo"),
        "DESC": (lambda *a, **k: "|".join([sut_desc(x) for x in a] + [f"{n}={sut_desc(x)}" for n, x in k.items()]), lambda *a, **k: "|".join([ref_desc(x) for x in a] + [f"{n}={ref_desc(x)}" for n, x in k.items()])),
        "BOOM": (s_boom, r_boom), "INC": (s_inc, r_inc), "ODD": (s_odd, r_odd), "BADFMT": (s_bad, r_bad), "RAW": (s_raw, r_raw),
        "NIL": (lambda *a, **k: FluentNone("nil" if a else None), lambda *a, **k: RE.Non("nil" if a else None)),
        "N-1_A": (lambda *a, **k: "one", lambda *a, **k: "one"),
    }
    sf, rf = {}, {}
    for n, (s, r) in table.items():
        sf[n], rf[n] = logged(n, s, r)
    return sf, rf, slog, rlog


# ------------------------------------------------------------------ arguments
class Shade(str, enum.Enum):
    """Text whose str() and format() are something else."""
    ONE = "one"
    DARK = "dark grey"


STRINGS = ["one", Shade.ONE, Shade.DARK, "", "a", "other", "X-1_b", "masc", "hello world", "\u05d0", "5", "{ $x }", "a\nb", "  ", "\U0001f600", "x" * 40, "y z" * 100, "One", "one ", "\r\n", "a\x00b", "\ud800", "other.a", "-t0", "\"q\\u0041"]
INTS = [0, 1, 2, 5, 11, 21, 3, -1, 100, 1000, 1234567, True, 10**18 + 1, -45, 111]
FLOATS = [1.0, 0.5, 1.5, 3.14, -0.0, -2.5, 0.1, 1e6, 1234.5678, 1e22, 1e-7]
DECS = [Decimal("1"), Decimal("0.5"), Decimal("0.1"), Decimal("-2.5"), Decimal("3.14"), Decimal("100"), Decimal("12345.678"), Decimal("12345678901234567890.5")]
DATES = [dt.date(2020, 2, 29), dt.date(1999, 12, 31), dt.datetime(2018, 2, 1, 14, 15, 16, 567000), dt.datetime(2021, 7, 4, 23, 59, 59, tzinfo=dt.timezone.utc), dt.datetime(2021, 7, 4, 1, 2, 3, tzinfo=dt.timezone(dt.timedelta(hours=5, minutes=30)))]


class Plain:
    def __repr__(self):
        return "Plain"


UNSUPPORTED = [None, [1], {"a": 1}, b"bytes", object(), 1j, (1, 2), Plain(), dt.timedelta(1), dt.time(1, 2), range(3), int]
NUMOPTS = [{"minimumFractionDigits": 2}, {"type": "ordinal"}, {"useGrouping": False}, {"style": "percent"}, {"style": "currency", "currency": "EUR"}, {"maximumFractionDigits": 2}, {"minimumIntegerDigits": 3}]
DTOPTS = [{"dateStyle": "short"}, {"dateStyle": "full"}]


def argument(d, unsupported=True):
    """(native, reference value)"""
    k = d.weighted([(6, "str"), (5, "int"), (3, "float"), (2, "dec"), (2, "date"), (2, "fnum"), (1, "fdate"), (1 if unsupported else 0, "bad"), (1, "none")])
    if k == "str":
        s = d.choice(STRINGS)
        return s, s
    if k == "int":
        v = d.choice(INTS)
        return v, RE.Num(v)
    if k == "float":
        v = d.choice(FLOATS)
        return v, RE.Num(v)
    if k == "dec":
        v = d.choice(DECS)
        return v, RE.Num(v)
    if k == "date":
        v = d.choice(DATES)
        return v, RE.Dt(v)
    if k == "fnum":
        v, o = d.choice(INTS + FLOATS), d.choice(NUMOPTS)
        return fluent_number(v, **o), RE.Num(v, o)
    if k == "fdate":
        v, o = d.choice(DATES), d.choice(DTOPTS)
        return fluent_date(v, **o), RE.Dt(v, o)
    if k == "none":
        return FluentNone("given"), RE.Non("given")
    v = d.choice(UNSUPPORTED)
    return v, v


def arguments(d, names=VARS[:-1], unsupported=True):
    s, r = {}, {}
    for n in list(names) + [d.choice(gen.PYNAMES) for _ in range(3 if d.chance(1, 3) else 0)]:
        if d.chance(5, 6):
            s[n], r[n] = argument(d, unsupported)
    return s, r


# ------------------------------------------------------------------ messages
def fix(d, model):
    """Gives NUMBER and DATETIME calls sensible arguments most of the time, and
    keeps attribute names of most entries unique."""
    for n in M.walk(model):
        if n["type"] in ("Message", "Term"):
            seen, keep = set(), []
            twice = d.chance(1, 12)
            for a in n["attributes"]:
                if a["id"]["name"] not in seen or twice:
                    seen.add(a["id"]["name"])
                    keep.append(a)
            n["attributes"][:] = keep
        elif n["type"] == "FunctionReference" and n["id"]["name"] in ("NUMBER", "DATETIME"):
            a = n["arguments"]
            if d.chance(4, 5):
                num = n["id"]["name"] == "NUMBER"
                a["positional"][:] = [M.var(d.choice(["n", "x", "y"] if num else ["day", "y"]))] if d.chance(3, 4) or not num else [M.number(gen.number_literal(d))]
                a["named"][:] = []
                for k, v in (d.choice(NUMOPTS + [{}, {"style": "nope"}, {"nosuch": 1}, {"style": "currency"}]) if num else d.choice(DTOPTS + [{}, {"timeStyle": "short"}, {"dateStyle": "nope"}, {"nosuch": 1}])).items():
                    a["named"].append(M.named(k, M.string(v) if isinstance(v, str) else M.number(str(int(v)))))
    return model


def messages(d, cfg=CFG, extra=True):
    body = [gen.message(d, cfg, m) for m in MSGS[: 1 + d.draw(3)]]
    body += [gen.term(d, cfg, t) for t in TERMS[: d.draw(3)]]
    if extra and d.chance(1, 6):
        body.append(gen.entry(d, cfg))  # maybe a second definition: ignored
    m = fix(d, M.resource(d.shuffled(body) if d.chance(1, 3) else body))
    if d.chance(1, 16):
        gen.stretch(d, m, cfg, True)
    if d.chance(1, 5):
        rename(d, m)
    return m


def rename(d, model):
    """Other names for the messages, terms and attributes, the same name for the same thing."""
    table = {}

    def other(kind, n):
        if (kind, n["name"]) not in table:
            taken = {v for (k, _), v in table.items() if k == kind}
            # often a name that another kind of thing has too
            name = d.choice(sorted({v for (k, _), v in table.items() if k != kind} | {"x"})) if d.chance(1, 3) else gen.identifier(d)
            while name in taken:
                name += d.choice(["-", "_", "A", "a", "0"])
            table[kind, n["name"]] = name
        n["name"] = table[kind, n["name"]]

    for n in M.walk(model):
        t = n["type"]
        if t in ("Message", "MessageReference"):
            other("message", n["id"])
        elif t in ("Term", "TermReference"):
            other("term", n["id"])
        elif t == "Attribute":
            other("attribute", n["id"])
        if t in ("MessageReference", "TermReference") and n["attribute"]:
            other("attribute", n["attribute"])


class World:
    def __init__(self, d, model, tag=None, isolating=None, how=None, with_functions=True, sut_functions=None, ref_functions=None):
        self.model = model
        self.tag = tag or d.choice(TAGS)
        self.isolating = (not d.chance(1, 3)) if isolating is None else isolating
        self.excs = exceptions()
        sf, rf, self.slog, self.rlog = functions(self.excs)
        if sut_functions is not None:
            sf, rf = sut_functions, ref_functions
        self.sut = FluentBundle([self.tag], functions=sf if with_functions else None, use_isolating=self.isolating)
        if how is None:
            how = d.draw(2)
        if how == 2:
            self.source = None
            self.sut.add_resource(M.build(ast, model))
        else:
            self.source = gen.render(d, model, fancy=how == 1)
            self.sut.add_resource(FluentResource(self.source))
        ms, ts = RE.entries([model])
        self.ref = RE.RefBundle(self.tag, ms, ts, rf if with_functions else None, self.isolating)

    def targets(self):
        """(id, attribute or None, model pattern) of everything that can be formatted."""
        out = []
        for n, e in self.ref.messages.items():
            if e["value"] is not None:
                out.append((n, None, e["value"]))
            # of attributes with the same name the last one counts
            out += [(n, a, p) for a, p in {a["id"]["name"]: a["value"] for a in e["attributes"]}.items()]
        return out

    def sut_pattern(self, n, attr):
        m = self.sut.get_message(n)
        return m.value if attr is None else m.attributes[attr]

    def shown(self, args):
        return {"source": self.source if self.source is not None else self.model, "locale": self.tag, "isolating": self.isolating, "args": {k: repr(v) for k, v in args.items()}}


def show_error(e):
    return f"{type(e).__name__}({e})" if isinstance(e, BaseException) else f"{e[0]}({e[1]})"


def same_error(got, want):
    if isinstance(want, BaseException):
        return got is want
    return type(got).__name__ == want[0] and (want[1] is None or str(got) == want[1])


def check_result(got, want, where):
    """got: format_pattern's result; want: (text, errors) of the reference."""
    if not isinstance(got, tuple) or len(got) != 2 or not isinstance(got[1], list):
        raise Violation(f"{where}: format_pattern returned {got!r}")
    text, errors = got
    if type(text) is not str and not isinstance(text, str):
        raise Violation(f"{where}: result {text!r} is not a string")
    if text != want[0]:
        raise Violation(f"{where}: formatted {text!r}, expected {want[0]!r} (errors {[show_error(e) for e in errors]}, expected {[show_error(e) for e in want[1]]})")
    if len(errors) != len(want[1]) or not all(map(same_error, errors, want[1])):
        raise Violation(f"{where}: errors {[show_error(e) for e in errors]}, expected {[show_error(e) for e in want[1]]} for {text!r}")
