"""Reference resolver: Fluent's resolution rules over model ASTs.

A value is a str, Num, Dt, Non (failure with a fallback name) or Odd (a custom
Fluent type).  Evaluation appends to ``errors``: (class name, message), or the
exception object a function raised, or (class name, None) where the wording is
Python's business.
"""
import datetime as _dt
import math
import re
from decimal import Decimal

from . import refdate, refnum, refplural

FSI, PDI = "\u2068", "\u2069"


class TooBig(Exception):
    """The case needs more steps than this model wants to take."""


class Num:
    __slots__ = ("value", "opts")

    def __init__(self, value, opts=None):
        self.value, self.opts = value, dict(opts or {})


class Dt:
    __slots__ = ("value", "opts")

    def __init__(self, value, opts=None):
        self.value, self.opts = value, dict(opts or {})


class Non:
    __slots__ = ("name",)

    def __init__(self, name=None):
        self.name = name


class Odd:
    """A custom Fluent type: fmt(locale tag) -> str or raises."""
    __slots__ = ("fmt",)

    def __init__(self, fmt):
        self.fmt = fmt


class Fail(Exception):
    def __init__(self, error):
        self.error = error


_ESC = re.compile(r'\\([\\"])|\\u([0-9a-fA-F]{4})|\\U([0-9a-fA-F]{6})')


def decode(raw):
    def sub(m):
        if m.group(1):
            return m.group(1)
        n = int(m.group(2) or m.group(3), 16)
        return "\ufffd" if 0xD800 <= n <= 0xDFFF or n > 0x10FFFF else chr(n)
    return _ESC.sub(sub, raw)


def is_literal(e):
    """A string literal, however deeply in placeables."""
    while e["type"] == "Placeable":
        e = e["expression"]
    return e["type"] in ("StringLiteral", "TextElement")


def literal(e):
    while e["type"] == "Placeable":
        e = e["expression"]
    return decode(e["value"]) if e["type"] == "StringLiteral" else e["value"]


NUM_OPTS = {"style", "type", "currency", "currencyDisplay", "useGrouping", "minimumIntegerDigits", "minimumFractionDigits", "maximumFractionDigits", "minimumSignificantDigits", "maximumSignificantDigits"}
NUM_ENUM = {"style": ("decimal", "currency", "percent"), "type": ("ordinal", "cardinal"), "currencyDisplay": ("symbol", "code", "name")}
DT_OPTS = {"timeZone", "hour12", "weekday", "era", "year", "month", "day", "hour", "minute", "second", "timeZoneName", "dateStyle", "timeStyle"}
STYLES = ("full", "long", "medium", "short")


def NUMBER(*args, **kw):
    if len(args) != 1:
        raise Fail(("TypeError", None))
    v = args[0]
    if isinstance(v, Non):
        return v
    if not isinstance(v, Num):
        raise Fail(("TypeError", None))
    kw = {k: (x.value if isinstance(x, Num) else x) for k, x in kw.items()}
    if not set(kw) <= NUM_OPTS:
        raise Fail(("TypeError", None))
    for k, x in kw.items():
        if k in NUM_ENUM and x not in NUM_ENUM[k]:
            raise Fail(("ValueError", None))
    opts = {**v.opts, **kw}
    if opts.get("style") == "currency" and opts.get("currency") is None:
        raise Fail(("ValueError", None))
    return Num(v.value, opts)


def DATETIME(*args, **kw):
    if len(args) != 1:
        raise Fail(("TypeError", None))
    v = args[0]
    if isinstance(v, Non):
        return v
    if not isinstance(v, Dt):
        raise Fail(("TypeError", None))
    if "timeStyle" in kw and not isinstance(v.value, _dt.datetime):
        raise Fail(("TypeError", None))
    if not set(kw) <= DT_OPTS:
        raise Fail(("TypeError", None))
    for k in ("dateStyle", "timeStyle"):
        if k in kw and kw[k] not in STYLES:
            raise Fail(("ValueError", None))
    return Dt(v.value, {**v.opts, **kw})


def native(v):
    """The Fluent value of a formatting argument, or None if its type is refused."""
    if isinstance(v, (int, float, Decimal)):
        return Num(v)
    if isinstance(v, (_dt.date, _dt.datetime)):
        return Dt(v)
    if isinstance(v, (str, Num, Dt, Non, Odd)):
        return v
    return None


class RefBundle:
    def __init__(self, tag, messages, terms, functions=None, use_isolating=True):
        self.tag, self.messages, self.terms = tag, messages, terms
        self.lang = tag.split("-")[0]
        self.functions = {"NUMBER": NUMBER, "DATETIME": DATETIME, **(functions or {})}
        self.use_isolating = use_isolating

    def format(self, pattern, args, types=None, max_steps=1500):
        """(text, errors).  args: name -> native or reference value."""
        e = _Eval(self, args or {}, types or {}, max_steps)
        r = e.pattern(pattern)
        return e.show(r), e.errors

    def marked_selector(self, pattern, args):
        """Whether a selector's own text contained isolation marks."""
        e = _Eval(self, args or {}, {}, 1500)
        e.show(e.pattern(pattern))
        return e.marked


def entries(models, override=()):
    """(messages, terms) of a list of resource models, first definition first."""
    ms, ts = {}, {}
    for i, r in enumerate(models):
        for e in r["body"]:
            if e["type"] in ("Message", "Term"):
                m = ms if e["type"] == "Message" else ts
                if e["id"]["name"] not in m or i in override:
                    m[e["id"]["name"]] = e
    return ms, ts


class _Eval:
    def __init__(self, bundle, args, types, max_steps):
        self.b, self.args, self.types = bundle, args, types
        self.strict = True
        self.errors = []
        self.active = set()
        self.marked = False
        self.steps = max_steps
        self.parts = 0
        self.stats = {"cycle": 0, "refs": 0, "calls": 0, "selects": 0, "isolated": 0}

    def step(self):
        self.steps -= 1
        if self.steps < 0:
            raise TooBig

    def iso(self, s):
        if len(s) > 2000:
            raise TooBig
        if not self.b.use_isolating:
            return s
        self.stats["isolated"] += 1
        return FSI + s + PDI

    def show(self, v):
        """The text of a value (errors while formatting are recorded)."""
        if isinstance(v, str):
            if len(v) > 2000:
                raise TooBig
            return v
        if isinstance(v, Non):
            return v.name or "???"
        try:
            if isinstance(v, Num):
                x = v.value
                if isinstance(x, bool):
                    x = int(x)
                if isinstance(x, float) and not math.isfinite(x):
                    raise TooBig
                return refnum.format_number(x, v.opts, self.b.tag)
            if isinstance(v, Dt):
                return refdate.format(v.value, v.opts, self.b.tag)
            return v.fmt(self.b.tag)
        except Fail as f:
            self.errors.append(f.error)
            return "???"

    # ---- patterns
    def pattern(self, p):
        self.step()
        elems = p["elements"]
        if all(is_literal(e) for e in elems):
            return "".join(literal(e) for e in elems)
        if id(p) in self.active:
            self.stats["cycle"] += 1
            self.errors.append(("FluentCyclicReferenceError", "Cyclic reference"))
            return Non()
        self.active.add(id(p))
        if len(elems) == 1:
            out = self.show(self.expr(elems[0]["expression"]))
        else:
            out = ""
            for e in elems:
                if is_literal(e):
                    out += literal(e)
                else:
                    out += self.iso(self.show(self.expr(e["expression"])))
        self.parts += len(elems)
        if self.parts > 700 or len(out) > 2000:
            raise TooBig
        self.active.discard(id(p))
        return out

    # ---- expressions
    def expr(self, e):
        self.step()
        t = e["type"]
        if t == "StringLiteral":
            return decode(e["value"])
        if t == "NumberLiteral":
            return number_literal(e)
        if t == "VariableReference":
            return self.variable(e["id"]["name"])
        if t == "MessageReference":
            return self.reference(e, self.b.messages, "", "message")
        if t == "TermReference":
            return self.term(e)
        if t == "FunctionReference":
            return self.call(e)
        if t == "SelectExpression":
            return self.select(e)
        assert t == "Placeable", t
        if is_literal(e):
            return literal(e)
        return self.iso(self.show(self.expr(e["expression"])))

    def variable(self, name):
        if name not in self.args:
            if self.strict:
                self.errors.append(("FluentReferenceError", f"Unknown external: {name}"))
            return Non(name)
        v = native(self.args[name])
        if v is None:
            self.errors.append(("TypeError", f"Unsupported external type: {name}, {type(self.args[name])}"))
            return Non(name)
        return v

    def reference(self, e, table, sigil, kind):
        self.stats["refs"] += 1
        rid = sigil + e["id"]["name"]
        attr = e["attribute"]["name"] if e["attribute"] else None
        if attr:
            rid += "." + attr
            kind = "attribute"
        entry = table.get(e["id"]["name"])
        if entry is None:
            return self.missing(kind, rid)
        if attr:
            p = None
            for a in entry["attributes"]:
                if a["id"]["name"] == attr:
                    p = a["value"]
            if p is None:
                return self.missing(kind, rid)
        else:
            p = entry["value"]
            if p is None:
                self.errors.append(("FluentReferenceError", f"No pattern: {rid}"))
                return Non(rid)
        return self.pattern(p)

    def missing(self, kind, rid):
        self.errors.append(("FluentReferenceError", f"Unknown {kind}: {rid}"))
        return Non("{" + rid + "}")

    def term(self, e):
        kw = {}
        if e["arguments"] is not None:
            if e["arguments"]["positional"]:
                rid = "-" + e["id"]["name"] + ("." + e["attribute"]["name"] if e["attribute"] else "")
                self.errors.append(("FluentFormatError", f"Ignored positional arguments passed to term '{rid}'"))
            kw = {n["name"]["name"]: self.expr(n["value"]) for n in e["arguments"]["named"]}
        saved = self.args, self.strict
        self.args, self.strict = kw, False
        try:
            return self.reference(e, self.b.terms, "-", "term")
        finally:
            self.args, self.strict = saved

    def call(self, e):
        self.stats["calls"] += 1
        name = e["id"]["name"]
        pos = [self.expr(a) for a in e["arguments"]["positional"]]
        kw = {n["name"]["name"]: self.expr(n["value"]) for n in e["arguments"]["named"]}
        fn = self.b.functions.get(name)
        if fn is None:
            self.errors.append(("FluentReferenceError", f"Unknown function: {name}"))
            return Non(name + "()")
        try:
            return fn(*pos, **kw)
        except Fail as f:
            self.errors.append(f.error)
            return Non(name + "()")

    def select(self, e):
        self.stats["selects"] += 1
        v = self.expr(e["selector"])
        if isinstance(v, str) and FSI in v:
            self.marked = True
        default = None
        for var in e["variants"]:
            if var["default"]:
                default = var
            if self.matches(v, var["key"]):
                return self.pattern(var["value"])
        if default is None:  # only in trees that were built
            self.errors.append(("FluentFormatError", "No default"))
            return Non(None)
        return self.pattern(default["value"])

    def matches(self, v, key):
        if key["type"] == "Identifier":
            k = key["name"]
            if isinstance(v, str):
                return v == k
            if isinstance(v, Num):
                return self.category(v) == k
            return False
        if not isinstance(v, Num):
            return False
        k = number_literal(key).value
        x = v.value
        if isinstance(x, Decimal):
            if x.is_nan():
                return False
            return float(x) == k if isinstance(k, float) else x == k
        return x == k

    def category(self, v):
        x = v.value
        if not (x.is_finite() if isinstance(x, Decimal) else math.isfinite(x) if isinstance(x, float) else True):
            return "other"
        if isinstance(x, bool):
            x = int(x)
        return refplural.category(self.b.tag, "ordinal" if v.opts.get("type") == "ordinal" else "cardinal", x)


def number_literal(e):
    raw = e["value"]
    if "." in raw:
        return Num(float(raw))
    # int() takes 4300 digits
    return Num(int(raw) if len(raw) < 4000 else Decimal(raw))
