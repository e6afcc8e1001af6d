"""R11-R14: numbers, options, dates, native values."""
import datetime as dt
import enum
import math
import warnings
from decimal import Decimal
from zoneinfo import ZoneInfo

import pytz

from .. import env  # noqa: F401
from .. import refdate, refnum, refplural
from ..engine import Property, Segment, Violation

from fluent.runtime import FluentBundle, FluentResource
from fluent.runtime.types import FluentNone, FluentType, fluent_date, fluent_number
try:
    from fluent.runtime.utils import native_to_fluent
except ImportError:  # not part of the documented interface
    native_to_fluent = None

PROPS = {}
TAGS = ["en-US", "de", "fr", "pl", "ar", "en-IN", "hi", "ru", "sv", "de-CH", "es", "ja", "cs", "pt-PT", "nl", "de-AT", "tr", "he", "fa", "en"]
CURRENCIES = ["EUR", "USD", "JPY", "KWD", "CHF", "GBP", "INR", "CLF", "XXX", "BTC"]
_BUNDLES = {}


def fail(msg, *a):
    raise Violation(msg.format(*a) if a else msg)


def bundle(tag):
    """A bundle with no messages of interest, kept per locale."""
    if tag not in _BUNDLES:
        b = FluentBundle([tag], use_isolating=False)
        b.add_resource(FluentResource("x = { $x }\n"))
        _BUNDLES[tag] = b
    return _BUNDLES[tag]


def locale_of(tag):
    return refnum.locale(tag)


# --------------------------------------------------------------------------- R11
def number_value(d):
    k = d.draw(9)
    if k == 9:
        n = 10 ** d.draw(23) * (1 + d.draw(8)) + d.draw(10 ** d.draw(12))
        v = d.choice([n, n, n - 1, Decimal(n), Decimal(n).scaleb(-d.draw(12)), float(n), n / 1024])
    elif k == 0:
        v = d.draw(12)
    elif k == 1:
        v = d.choice([100, 999, 1000, 9999, 10000, 12345, 99999, 100000, 1234567, 10 ** 9, 999999999999, 10 ** 14])
    elif k == 2:
        v = d.draw(10 ** d.draw(14))
    elif k == 3:
        v = d.draw(10 ** (1 + d.draw(8))) / 10 ** d.draw(6)
    elif k == 4:
        v = d.choice([0.5, 1.5, 2.5, 0.05, 0.15, 0.25, 0.125, 1e-7, 0.001, 0.1 + 0.2, 2.675, 1.005, 999.995, 0.9999, 9.5, 99.95, 1234.5, 0.0, 1e14, 5e-5])
    elif k == 5:
        v = Decimal(d.draw(10 ** (1 + d.draw(8)))).scaleb(-d.draw(8))
    elif k == 6:
        v = d.choice([Decimal("0.5"), Decimal("1.5"), Decimal("2.5"), Decimal("0.125"), Decimal("1.10"), Decimal("1E+3"), Decimal("1E-3"), Decimal("0"), Decimal("0.00"), Decimal("999.5"), Decimal("1234567.891"), Decimal("1e14")])
    elif k == 7:
        v = float(d.draw(10 ** 6))
    else:
        v = d.choice([True, False, 0.1, 7, Decimal("3.14159"), 3.14159])
    if d.chance(1, 4):
        v = -v
    return v


def number_options(d):
    o = {}
    style = d.weighted([(3, None), (1, "decimal"), (2, "percent"), (3, "currency")])
    if style:
        o["style"] = style
    if style == "currency" or d.chance(1, 8):
        o["currency"] = d.choice(CURRENCIES)
    if d.chance(1, 5):
        o["currencyDisplay"] = d.choice(["code", "symbol"])
    if d.chance(1, 4):
        o["useGrouping"] = d.chance(1, 2)
    digits = d.weighted([(3, ""), (5, "frac"), (3, "sig")])
    if digits == "frac":
        lo, hi = d.draw(6), d.draw(6)
        if d.chance(1, 8):
            hi += d.choice([6, 14])
        lo, hi = min(lo, hi), max(lo, hi)
        which = d.draw(2)
        if which != 1:
            o["minimumFractionDigits"] = lo
        if which != 2:
            o["maximumFractionDigits"] = hi
    elif digits == "sig":
        lo, hi = 1 + d.draw(7), 1 + d.draw(7)
        if d.chance(1, 8):
            hi += d.draw(13)
        lo, hi = min(lo, hi), max(lo, hi)
        which = d.draw(2)
        if which != 1:
            o["minimumSignificantDigits"] = lo
        if which != 2:
            o["maximumSignificantDigits"] = hi
    if digits != "sig" and d.chance(1, 4):
        o["minimumIntegerDigits"] = 1 + d.draw(8 if d.chance(7, 8) else 20)
    if d.chance(1, 12):
        o["type"] = d.choice(["ordinal", "cardinal"])
    return dict(d.shuffled(list(o.items()))) if len(o) > 1 and d.chance(1, 3) else o


def in_domain(v, o):
    """False where a listed known finding (or an undefined combination) applies."""
    x = refnum.to_decimal(v)
    sig = o.get("minimumSignificantDigits") is not None or o.get("maximumSignificantDigits") is not None
    if sig:
        y = abs(x) * (100 if o.get("style") == "percent" else 1)
        if y == 0 or o.get("minimumIntegerDigits") is not None:
            return False
        if y < 1:
            hi = o.get("maximumSignificantDigits") or max(o.get("minimumSignificantDigits") or 1, 21)
            # does rounding carry into another digit?
            if refnum.significant(y, 1, hi) != significant_nocarry(y, hi):
                return False
    if max(0, x.adjusted()) + 3 + max(o.get("maximumFractionDigits") or 0, o.get("minimumFractionDigits") or 0, 3) > 27:
        return False
    return abs(x) < 10 ** 25 and (x == 0 or x.as_tuple().exponent > -20)


def significant_nocarry(y, hi):
    q = refnum.CTX.to_integral_value(y.scaleb(hi - 1 - y.adjusted(), refnum.CTX))
    z = q.scaleb(y.adjusted() - hi + 1, refnum.CTX)
    return refnum.significant(z, 1, hi) if z.adjusted() == y.adjusted() else None


def ftl_options(o):
    parts = []
    for k, v in o.items():
        if isinstance(v, bool):
            v = int(v)
        parts.append(f"{k}: " + (f'"{v}"' if isinstance(v, str) else str(v)))
    return ", ".join(parts)


def split_options(d, o):
    """o split in two parts (the second applied later)."""
    a, b = {}, {}
    for k, v in o.items():
        (a if d.chance(1, 2) else b)[k] = v
    return a, b


def number_case(d):
    v, o, tag = number_value(d), number_options(d), d.choice(TAGS) if d.chance(3, 4) else d.choice(refnum.ALL)
    d.show({"value": repr(v), "options": o, "locale": tag})
    if not in_domain(v, o):
        d.label("skipped: known finding's domain")
        return
    d.nontrivial(bool(o))
    d.label("style " + o.get("style", "none"), type(v).__name__)
    d.label(*("has " + k for k in o))
    want = refnum.format_number(v, o, tag)
    how = d.draw(4)
    loc = locale_of(tag)
    b = bundle(tag)
    if how == 0 or (how == 1 and not o):
        got = fluent_number(v, **o).format(loc)
    elif how == 1:
        r = FluentResource("n = { NUMBER($v" + "".join(", " + x for x in [ftl_options(o)] if x) + ") }\n")
        got = format_source(b, r, {"v": v})
    elif how == 2:
        got = format_source(b, FluentResource("n = { $v }\n"), {"v": fluent_number(v, **o)})
    elif how == 3:
        early, late = split_options(d, o)
        if early.get("style") == "currency" and "currency" not in early:
            early["currency"] = late.pop("currency")
        r = FluentResource("n = { NUMBER(NUMBER($v), " + (ftl_options(late) or "useGrouping: 1") + ") }\n")
        if not late:
            want = refnum.format_number(v, {**o, "useGrouping": True}, tag)
        if late.get("style") == "currency" and "currency" not in late:
            late["currency"] = early["currency"]
            r = FluentResource("n = { NUMBER(NUMBER($v), " + ftl_options(late) + ") }\n")
        got = format_source(b, r, {"v": fluent_number(v, **early)})
    else:
        early, late = split_options(d, o)
        if early.get("style") == "currency" and "currency" not in early:
            early["currency"] = o["currency"]
        if late.get("style") == "currency" and "currency" not in late:
            late["currency"] = o["currency"]
        got = fluent_number(fluent_number(v, **early), **late).format(loc)
    d.label("way %d" % how)
    if got != want:
        fail("{!r} with {} in {} is formatted {!r}, expected {!r}", v, o, tag, got, want)
    if d.chance(1, 3):
        # one object, formatted in several locales, and the same number with other options
        fv = fluent_number(v, **o)
        tags = [tag, d.choice(TAGS), tag]
        for t in tags:
            want = refnum.format_number(v, o, t)
            got = fv.format(locale_of(t)) if d.chance(1, 2) else format_source(bundle(t), FluentResource("n = { $v }\n"), {"v": fv})
            if got != want:
                fail("{!r} with {}, in {} one after the other, is formatted {!r}, expected {!r}", v, o, tags, got, want)
        o2 = number_options(d)
        if in_domain(v, o2):
            want = refnum.format_number(v, o2, tag)
            got = fluent_number(v, **o2).format(loc)
            if got != want:
                fail("{!r} with {} in {}, after {}, is formatted {!r}, expected {!r}", v, o2, tag, o, got, want)


def format_source(b, res, args):
    b.add_resource(res, allow_overrides=True)
    text, errors = b.format_pattern(b.get_message(next(e.id.name for e in res.body)).value, args)
    if errors:
        fail("errors {} (text {!r})", [f"{type(e).__name__}: {e}" for e in errors], text)
    return text


def literal_case(d):
    """Number literals in messages are formatted like numbers."""
    ip = str(d.draw(10 ** d.draw(9 if d.chance(5, 6) else 22)))
    if d.chance(1, 12):
        ip = "0" * (1 + d.draw(3)) + ip
    fp = "".join(str(d.draw(9)) for _ in range(d.draw(5 if d.chance(5, 6) else 18)))
    s = ("-" if d.chance(1, 4) else "") + ip + ("." + fp if fp else "")
    tag = d.choice(TAGS)
    o = number_options(d) if d.chance(1, 2) else {}
    v = float(s) if "." in s else int(s)
    if not in_domain(v, o):
        return
    d.show({"literal": s, "options": o, "locale": tag})
    d.nontrivial(len(s) > 3)
    src = "n = { " + (s if not o else f"NUMBER({s}, {ftl_options(o)})") + " }\n"
    got = format_source(bundle(tag), FluentResource(src), {})
    want = refnum.format_number(v, o, tag)
    if got != want:
        fail("{} in {} is formatted {!r}, expected {!r}", src.strip(), tag, got, want)


def _fmt(v, **o):
    return fluent_number(v, **o).format(locale_of("en-US"))


def many_digits_probe():
    b = bundle("en-US")
    return b.format_pattern(b.get_message("x").value, {"x": 10 ** 30})[0] != "1,000,000,000,000,000,000,000,000,000,000"


PROPS["R11"] = Property(
    "R11",
    "Values (ints to 10^24, floats, Decimals, halves and carries) x consistent option combinations x 20 locales (a quarter of the cases: any of the 1082 of the locale data), formatted directly, as argument, through NUMBER and through nested calls with the options split; the same number object in several locales and the same number with other options afterwards; number literals. Oracle: own CLDR pattern interpreter with exact decimal arithmetic (locale data from Babel). Non-trivial: at least one option; a literal of four or more characters.",
    [Segment("number", number_case, 60000), Segment("literal", literal_case, 3000)],
    ["|value| < 10^16; options are consistent (minimum <= maximum)", "signs and percent characters are those of Babel's patterns, and a locale's minimum grouping digits are ignored, as Babel does", "left out: zero, values below 1 that carry, and minimumIntegerDigits, with significant digits (known findings)"],
    probes=[
        ("many-digits", many_digits_probe),
        ("zero-significant", lambda: _fmt(0, minimumSignificantDigits=1) != "0"),
        ("significant-carry", lambda: _fmt(0.00983, maximumSignificantDigits=1) != "0.01"),
        ("integer-with-significant", lambda: _fmt(5, maximumSignificantDigits=2, minimumIntegerDigits=3) != "005"),
    ],
)


# --------------------------------------------------------------------------- R12
NUMCHOICES = {
    "style": ["decimal", "percent", "currency"], "type": ["ordinal", "cardinal"], "currency": ["EUR", "JPY", "USD", None], "currencyDisplay": ["symbol", "code"], "useGrouping": [True, False],
    "minimumIntegerDigits": [None, 1, 3, 5], "minimumFractionDigits": [None, 0, 1, 2, 4], "maximumFractionDigits": [None, 0, 1, 2, 5], "minimumSignificantDigits": [None, 1, 3], "maximumSignificantDigits": [None, 2, 4],
}
DTCHOICES = {"dateStyle": ["full", "long", "medium", "short", None], "timeStyle": ["full", "long", "medium", "short", None], "timeZone": [None, "UTC", "Europe/Moscow", "America/Toronto", "Asia/Kolkata"], "hour12": [None, True, False], "weekday": [None, "long", "short"], "month": ["numeric", None], "timeZoneName": ["short"]}
NUMDEFAULT = {"style": "decimal", "type": "cardinal", "currency": None, "currencyDisplay": "symbol", "useGrouping": True, "minimumIntegerDigits": None, "minimumFractionDigits": None, "maximumFractionDigits": None, "minimumSignificantDigits": None, "maximumSignificantDigits": None}
DTDEFAULT = {"dateStyle": None, "timeStyle": None, "timeZone": None, "hour12": None, "weekday": None, "month": None, "timeZoneName": None}
BAD_NUM = [("style", "wat"), ("style", None), ("type", "nominal"), ("type", ""), ("currencyDisplay", "sign"), ("currencyDisplay", None), ("nosuch", 1), ("Style", "percent"), ("style", "Percent")]
BAD_DT = [("dateStyle", "tiny"), ("timeStyle", "tiny"), ("dateStyle", ""), ("nosuch", 1), ("datestyle", "full"), ("dateStyle", "Full")]


def some_options(d, choices, mx=4):
    o = {}
    for _ in range(d.size(mx, 2, 3)):
        k = d.choice(list(choices))
        o[k] = d.choice(choices[k])
    return o


def merged_ok(o, v):
    a, b = o.get("minimumFractionDigits"), o.get("maximumFractionDigits")
    c, e = o.get("minimumSignificantDigits"), o.get("maximumSignificantDigits")
    if (a is not None and b is not None and a > b) or (c is not None and e is not None and c > e):
        return False
    return in_domain(v, o)


def options_case(d):
    loc_tag = d.choice(["en-US", "de", "fr"])
    loc = locale_of(loc_tag)
    dates = d.chance(1, 3)
    if dates:
        v = d.choice([dt.datetime(2020, 2, 3, 4, 5, 6), dt.datetime(2021, 7, 4, 23, 59, 59, tzinfo=dt.timezone.utc), dt.date(2020, 2, 3)])
        wrap, choices, default, bad, fn = fluent_date, dict(DTCHOICES), DTDEFAULT, BAD_DT, "DATETIME"
        if not isinstance(v, dt.datetime):
            del choices["timeStyle"]
    else:
        v = d.choice([5, 1234.5678, Decimal("-0.125"), 1, 1000000, 2.5, 123456789012, Decimal("-98765432109.5"), 0.004, 0, -7, 12.5, d.draw(10 ** 6), d.draw(10 ** 6) / 64])
        wrap, choices, default, bad, fn = fluent_number, NUMCHOICES, NUMDEFAULT, BAD_NUM, "NUMBER"
    made = [(wrap(v), {})]
    log = [repr(v)]
    rejected = 0
    if not dates and d.chance(1, 4):
        # a subclass with defaults of its own
        own = some_options(d, choices)
        if own.get("style") == "currency":
            own.setdefault("currency", "EUR")
        if not (own.get("currency") is None and own.get("style") == "currency"):
            plain = wrap(v)
            mine = type("Mine", (type(plain),), {"default_number_format_options": type(plain.options)(**own)})
            o = some_options(d, {k: x for k, x in choices.items() if k not in ("style", "currency")})
            log.append(["subclass with defaults", own, o])
            made.append((mine(v, **o), {**own, **o}))
    for _ in range(2 + d.draw(6)):
        base, bo = d.choice(made[-3:])
        o = some_options(d, choices)
        k = d.weighted([(5, "direct"), (3, "message"), (1, "native"), (2, "bad")])
        if k == "bad":
            key, val = d.choice(bad)
            o = dict(d.shuffled(list({**o, key: val}.items())))
            log.append(["bad", o])
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    r = wrap(base, **o)
            except (ValueError, TypeError):
                rejected += 1
            else:
                d.show(log)
                fail("options {} were accepted: {!r}", o, r)
        else:
            want = {**({} if k == "native" else bo), **o}
            cur = {**default, **want}
            src = v if k == "native" else base
            log.append([k, o])
            if not dates and cur["style"] == "currency" and cur["currency"] is None:
                try:
                    wrap(src, **o)
                except ValueError:
                    rejected += 1
                else:
                    if o or k != "direct":
                        d.show(log)
                        fail("style currency without a currency was accepted")
                continue
            if k == "message" and all(x is not None for x in o.values()):
                got = []
                b = FluentBundle([loc_tag], functions={"GRAB": lambda x: got.append(x) or "grabbed"}, use_isolating=False)
                call, parts = "$v", [o]
                if d.chance(1, 2):
                    inner = {q: x for q, x in o.items() if d.chance(1, 2)}
                    if "style" in inner and "currency" in o:
                        inner["currency"] = o["currency"]
                    parts = [inner, {q: x for q, x in o.items() if q not in inner}]
                for part in parts:
                    call = fn + "(" + call + (", " + ftl_options(part) if part else "") + ")"
                b.add_resource(FluentResource("m = { GRAB(" + call + ") }\n"))
                t, errs = b.format_pattern(b.get_message("m").value, {"v": src})
                if errs or t != "grabbed":
                    d.show(log)
                    fail("options {} give errors {}", o, errs)
                new = got[0]
                want = {q: (int(x) if isinstance(x, bool) else x) for q, x in want.items()}
            else:
                new = wrap(src, **o)
            made.append((new, want))
        # every object made so far still is what it was
        for obj, oo in made:
            check_options(d, log, obj, v, oo, default, loc, loc_tag, wrap, dates)
    d.show(log)
    d.nontrivial(len(made) > 2 and len(set(map(str, (o for _, o in made)))) > 2)
    d.label("rejected:%d" % rejected, "dates" if dates else "numbers")
    fresh = wrap(v)
    check_options(d, log, fresh, v, {}, default, loc, loc_tag, wrap, dates)


def check_options(d, log, obj, v, o, default, loc, tag, wrap, dates):
    full = {**default, **o}
    for k, x in full.items():
        got = getattr(obj.options, k)
        if got != x:
            d.show(log)
            fail("option {} of an object with {} is {!r}", k, o, got)
    if dates:
        want = refdate.format(v, full, tag)
    elif merged_ok(full, v):
        want = refnum.format_number(v, full, tag)
    else:
        want = wrap(v, **o).format(loc)
    got = obj.format(loc)
    if got != want:
        d.show(log)
        fail("an object with {} is formatted {!r}, expected {!r}", o, got, want)


PROPS["R12"] = Property(
    "R12",
    "Chains of up to seven wrappings of one native value by fluent_number/fluent_date and NUMBER/DATETIME in messages, each from one of the last objects, with random option subsets (None included) and invalid ones. After every step all objects made so far are compared with the merged options (each option, and the formatted text from the own formatter). Non-trivial: three or more objects with different options.",
    [Segment("options", options_case, 12000)],
    ["options named explicitly as None are set to None", "useGrouping given as a number in a message stands for its truth value"],
)


# --------------------------------------------------------------------------- R13
ZONES = ["UTC", "Europe/London", "America/New_York", "America/Toronto", "Europe/Moscow", "Asia/Kolkata", "Australia/Lord_Howe", "America/St_Johns", "Asia/Tokyo", "Pacific/Auckland", "Pacific/Apia", "Europe/Berlin", "America/Sao_Paulo", "Asia/Kathmandu", "Africa/Casablanca", "Pacific/Kiritimati", "Etc/GMT+5"]
STYLES = [None, "full", "long", "medium", "short"]
EDGES = [dt.datetime(2021, 10, 31, 0, 30), dt.datetime(2021, 10, 31, 1, 30), dt.datetime(2021, 3, 28, 0, 59, 59), dt.datetime(2021, 3, 28, 1, 0), dt.datetime(2021, 11, 7, 5, 30), dt.datetime(2021, 11, 7, 6, 30), dt.datetime(2021, 3, 14, 6, 59), dt.datetime(2021, 3, 14, 7, 0), dt.datetime(2011, 12, 30, 9, 59), dt.datetime(2011, 12, 30, 10, 1), dt.datetime(2020, 12, 31, 23, 59, 59, 999999), dt.datetime(2021, 1, 1), dt.datetime(2020, 2, 29, 12, 0), dt.datetime(1999, 12, 31, 23, 0), dt.datetime(2021, 4, 3, 15, 0), dt.datetime(2021, 4, 3, 15, 30)]


def instant(d):
    if d.chance(1, 2):
        return d.choice(EDGES) + dt.timedelta(minutes=d.draw(5) * 15)
    return dt.datetime(1971 + d.draw(64), 1 + d.draw(11), 1 + d.draw(27), d.draw(23), d.draw(59), d.draw(59), d.choice([0, 1, 567000]))


def date_case(d):
    kind = d.weighted([(3, "naive"), (3, "zoneinfo"), (3, "pytz"), (2, "offset"), (2, "date"), (1, "utc")])
    utc = instant(d)
    if kind == "date":
        v = utc.date()
    elif kind == "naive":
        v = utc.replace(fold=d.draw(1))
    elif kind == "utc":
        v = utc.replace(tzinfo=d.choice([dt.timezone.utc, pytz.UTC, ZoneInfo("UTC")]))
    elif kind == "offset":
        v = utc.replace(tzinfo=dt.timezone.utc).astimezone(dt.timezone(dt.timedelta(minutes=d.choice([0, 60, -300, 330, 345, 840, -720, 1]))))
    elif kind == "zoneinfo":
        z = ZoneInfo(d.choice(ZONES))
        v = utc.replace(tzinfo=dt.timezone.utc).astimezone(z) if d.chance(3, 4) else utc.replace(tzinfo=z, fold=d.draw(1))
    else:
        z = d.choice(ZONES)
        how = d.weighted([(3, "right"), (1, "raw"), (1, "moved")])
        if how == "raw":
            # the zone of pytz itself as tzinfo: its first offset, often local mean time
            v = utc.replace(tzinfo=pytz.timezone(z))
        else:
            v = pytz.UTC.localize(utc).astimezone(pytz.timezone(z))
        if how == "moved":
            # with the offset of another season
            v += dt.timedelta(days=d.choice([1, -1, 91, 182]))
        kind += "" if how == "right" else " " + how
    o = {}
    far = kind in ("date", "naive", "offset", "utc") and d.chance(1, 8)
    if far:
        v = v.replace(year=d.choice([1, 2, 99, 1000, 1582, 1899, 1900, 1969, 1970, 2038, 2100, 2999, 9999]), day=min(v.day, 28))
    s = d.choice(STYLES)
    if s:
        o["dateStyle"] = s
    if kind != "date":
        s = d.choice(STYLES)
        if s:
            o["timeStyle"] = s
    if d.chance(1, 2) and not far:
        o["timeZone"] = d.choice(ZONES)
        if kind == "pytz moved" and d.chance(1, 2):
            o["timeZone"] = v.tzinfo.zone
        elif kind == "pytz raw" and v.tzinfo is pytz.timezone(o["timeZone"]):
            # a time that claims to be in that very zone already: "converting" it may or may not move it
            o["timeZone"] = "Asia/Tokyo" if o["timeZone"] != "Asia/Tokyo" else "UTC"
        if kind == "zoneinfo" and v.tzinfo.key == o["timeZone"]:
            # no wall-clock time that its own zone skips: "converting" it may or may not move it
            v = v.astimezone(dt.timezone.utc).astimezone(v.tzinfo)
    tag = d.choice(["en-US", "de", "fr", "pl", "en-GB", "ja", "ru", "ar", "zh-Hant-TW", "cs", "fa", "bn"]) if d.chance(3, 4) else d.choice(refnum.ALL)
    d.show({"value": repr(v), "fold": getattr(v, "fold", None), "options": o, "locale": tag})
    d.nontrivial(bool(o))
    d.label(kind, "date " + str(o.get("dateStyle")), "time " + str(o.get("timeStyle")), "with zone" if "timeZone" in o else "no zone")
    want = refdate.format(v, o, tag)
    loc, b = locale_of(tag), bundle(tag)
    early, late = split_options(d, o)
    opts = ftl_options(o)
    ways = {
        "fluent_date": lambda: fluent_date(v, **o).format(loc),
        "argument": lambda: format_source(b, FluentResource("d = { $v }\n"), {"v": fluent_date(v, **o)}),
        "DATETIME": lambda: format_source(b, FluentResource("d = { DATETIME($v" + (", " + opts if opts else "") + ") }\n"), {"v": v}),
        "split": lambda: format_source(b, FluentResource("d = { DATETIME($v" + (", " + ftl_options(late) if late else "") + ") }\n"), {"v": fluent_date(v, **early)}),
        "twice": lambda: fluent_date(fluent_date(v, **early), **late).format(loc),
    }
    if not o:
        ways["direct"] = lambda: format_source(b, FluentResource("d = { $v }\n"), {"v": v})
    if d.chance(1, 3):
        # next to others, within text, in parameters of terms and in isolation marks
        other, oo = d.choice(OTHER_DATES)
        src = "d = a { DATETIME($v" + (", " + opts if opts else "") + ") } b { DATETIME($w" + (", " + ftl_options(oo) if oo else "") + ") } { $v2 }{ m.a }\nm =\n    .a = <{ $v2 }>\n"
        iso = d.chance(1, 2)
        ll, rr = ("\u2068", "\u2069") if iso else ("", "")
        fresh = FluentBundle([tag], use_isolating=iso)
        first = d.chance(1, 2)

        def among():
            args = {"v": v, "w": other, "v2": fluent_date(v, **o)}
            if first:
                args["w"] = fluent_date(other)
            got = format_source(fresh, FluentResource(src), args)
            exp = "a {2}{0}{3} b {2}{1}{3} {2}{0}{3}{2}<{2}{0}{3}>{3}".format(want, refdate.format(other, oo, tag), ll, rr)
            if got != exp:
                fail("{!r} with {} and {!r} with {} in {}: {!r} is formatted {!r}, expected {!r}", v, o, other, oo, tag, src, got, exp)
            return want
        ways["among others"] = among
    for w, f in ways.items():
        got = f()
        if got != want:
            fail("{}: {!r} with {} in {} is formatted {!r}, expected {!r}", w, v, o, tag, got, want)
    # the same instant or day, otherwise: in another zone, in another locale, with other options
    fv = fluent_date(v, **o)
    for _ in range(d.draw(3)):
        v2, o2, tag2 = v, dict(o), tag
        how = d.choice(["zone", "locale", "options", "fold"])
        if how == "zone" and kind not in ("date", "naive") and not far:
            v2 = v.astimezone(d.choice([dt.timezone.utc, ZoneInfo(d.choice(ZONES)), pytz.timezone(d.choice(ZONES)), dt.timezone(dt.timedelta(hours=d.draw(18) - 9))]))
        elif how == "fold" and (kind == "naive" or kind == "zoneinfo"):
            v2 = v.replace(fold=1 - v.fold)
        elif how == "locale":
            tag2 = d.choice(["en-US", "de", "ja", "ar"])
        else:
            if kind != "date":
                o2["timeStyle"] = d.choice(STYLES[1:])
            o2["dateStyle"] = d.choice(STYLES[1:])
        if isinstance(v2, dt.datetime) and isinstance(v2.tzinfo, ZoneInfo) and o2.get("timeZone") == v2.tzinfo.key:
            v2 = v2.astimezone(dt.timezone.utc).astimezone(v2.tzinfo)
        want2 = refdate.format(v2, o2, tag2)
        got = (fv if how == "locale" else fluent_date(v2, **o2)).format(locale_of(tag2))
        got2 = format_source(bundle(tag2), FluentResource("d = { DATETIME($v" + (", " + ftl_options(o2) if o2 else "") + ") }\n"), {"v": v2})
        if got != want2 or got2 != want2:
            fail("after {!r} with {} in {}: {!r} with {} in {} is formatted {!r} and {!r}, expected {!r}", v, o, tag, v2, o2, tag2, got, got2, want2)
    if fv.format(loc) != want or fv.format(loc) != want:
        fail("{!r} with {} in {} is formatted {!r} the second time, expected {!r}", v, o, tag, fv.format(loc), want)


OTHER_DATES = [(dt.datetime(2021, 6, 1, 12, 30), {"timeStyle": "short"}), (dt.date(2021, 6, 1), {}), (dt.date(2020, 2, 29), {"dateStyle": "full"}), (dt.datetime(1999, 12, 31, 23, 59, 59, tzinfo=dt.timezone.utc), {"timeZone": "Asia/Tokyo", "timeStyle": "long"}), (dt.datetime(2021, 1, 1, tzinfo=ZoneInfo("America/New_York")), {"dateStyle": "short"})]


PROPS["R13"] = Property(
    "R13",
    "Instants between 1971 and 2035, half of them at zone transitions, as naive, UTC, fixed-offset, zoneinfo and pytz datetimes (both folds; pytz also with the offset of another season or local mean time) and dates, x styles x 17 zones x 12 locales (a quarter: any locale), each passed in five to seven ways, alone and among other dates, and then the same instant in other zones, locales and options, and the other fold of the same wall-clock time. Years 1-9999 where no zone table is involved. Oracle: conversion by zoneinfo, then Babel's rendering of that wall-clock time. Non-trivial: at least one option.",
    [Segment("dates", date_case, 20000)],
    ["years 1971-2035 (pytz tables) where a zone is asked for", "the rendering of a wall-clock date or time by a CLDR pattern is trusted to Babel"],
)


# --------------------------------------------------------------------------- R14
class Colour(enum.IntEnum):
    RED = 3


class MyStr(str):
    """Text whose str() and format() are something else, as with enumerations."""

    def __str__(self):
        return "sneaky"
    __repr__ = __str__

    def __format__(self, spec):
        return "sneaky"


class MyFloat(float):
    pass


class MyDate(dt.datetime):
    pass


def native_value(d):
    k = d.draw(9)
    if k == 0:
        return d.choice([0, 1, -1, 5, True, False, 10 ** 30, -10 ** 25, 2 ** 64, Colour.RED, 12345])
    if k == 1:
        return d.draw(10 ** 9) - 5 * 10 ** 8
    if k == 2:
        return d.choice([0.0, -0.0, 1.5, float("inf"), float("-inf"), float("nan"), 1e300, 5e-324, 0.1, MyFloat(2.5), 3.0])
    if k == 3:
        return (d.draw(10 ** 9) - 10 ** 8) / 10 ** d.draw(9)
    if k == 4:
        return d.choice([Decimal("0"), Decimal("-0"), Decimal("1.10"), Decimal("1E+5"), Decimal("NaN"), Decimal("Infinity"), Decimal("sNaN"), Decimal("3." + "1" * 50), Decimal("1E-40"), Decimal(10) ** 40 + 1])
    if k == 5:
        return Decimal(d.draw(10 ** 9)).scaleb(-d.draw(12))
    if k == 6:
        return d.choice([dt.date(2020, 2, 29), dt.date.min, dt.date.max, dt.date(1900, 1, 1)])
    base = instant(d)
    if k == 7:
        return base.replace(fold=d.draw(1))
    if k == 8:
        z = d.choice(ZONES)
        return base.replace(tzinfo=ZoneInfo(z), fold=d.draw(1)) if d.chance(1, 2) else pytz.timezone(z).localize(base)
    return d.choice([dt.datetime.min, dt.datetime.max, MyDate(2020, 1, 2, 3), base.replace(tzinfo=dt.timezone(dt.timedelta(seconds=d.draw(86399) - 43000)))])


def same_native(got, v, where):
    ty = int if isinstance(v, int) else float if isinstance(v, float) else Decimal if isinstance(v, Decimal) else dt.datetime if isinstance(v, dt.datetime) else dt.date
    if not isinstance(got, ty) or (ty is dt.date and isinstance(got, dt.datetime)):
        fail("{}: {!r} became a {}", where, v, type(got).__name__)
    if not isinstance(got, FluentType):
        fail("{}: {!r} is no Fluent value: {}", where, v, type(got).__name__)
    if ty is Decimal:
        ok = got.as_tuple() == v.as_tuple()
    elif ty is float:
        ok = float.__repr__(got) == float.__repr__(v) and math.copysign(1, got) == math.copysign(1, v)
    elif ty is int:
        ok = got == v and int(got) == int(v) and hash(got) == hash(int(v))
    elif ty is dt.datetime:
        ok = (got.year, got.month, got.day, got.hour, got.minute, got.second, got.microsecond, got.fold) == (v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond, v.fold) and got.tzinfo is v.tzinfo and got.utcoffset() == v.utcoffset()
    else:
        ok = (got.year, got.month, got.day) == (v.year, v.month, v.day) and got == dt.date(v.year, v.month, v.day)
    if not ok:
        fail("{}: {!r} became {!r}", where, v, got)


def native_case(d):
    v = native_value(d)
    isnum = isinstance(v, (int, float, Decimal))
    wrap = fluent_number if isnum else fluent_date
    fn = "NUMBER" if isnum else "DATETIME"
    o1 = d.choice([{}, {"useGrouping": False}, {"minimumFractionDigits": 2}, {"type": "ordinal"}]) if isnum else d.choice([{}, {"dateStyle": "short"}, {"timeZone": "Asia/Tokyo"}])
    d.show({"value": repr(v), "type": type(v).__name__, "options": o1})
    d.nontrivial()
    d.label(type(v).__name__)
    grabbed = []

    def grab(*a, **k):
        grabbed.extend(a)
        return "ok"

    def back(x):
        return x
    b = FluentBundle(["en-US"], functions={"GRAB": grab, "BACK": back}, use_isolating=False)
    opt = ", " + ftl_options(o1) if o1 else ""
    b.add_resource(FluentResource("m = { GRAB($v, " + fn + "($v" + opt + "), BACK($v), " + fn + "(" + fn + "(BACK($v)" + opt + "))) }\ns = { $v ->\n   *[o] x\n }\n"))
    args = {"v": v}
    for given, name in ((v, "native"), (wrap(v, **o1), "wrapped"), (wrap(wrap(wrap(v), **o1)), "nested")):
        if name != "native":
            same_native(given, v, name)
        args = {"v": given}
        del grabbed[:]
        t, errs = b.format_pattern(b.get_message("m").value, args)
        if errs or t != "ok":
            fail("{}: {!r} {}", name, t, [repr(e) for e in errs])
        if len(grabbed) != 4:
            fail("{} arguments arrived", len(grabbed))
        for i, g in enumerate(grabbed):
            same_native(g, v, f"{name}, argument {i} of a function")
        if args["v"] is not given:
            fail("the argument was replaced in the caller's dict")
    if native_to_fluent is not None:
        same_native(native_to_fluent(v), v, "native_to_fluent")


TEXTS = ["", "x", "{ $x }", "a\nb", "  lead", "trail  ", "\\u0041", "\u2068in\u2069", "\u0000", "<b>", "%s {0}", "e\u0301", "\U0001f600", "\r\n", "5", "one", "\ud800", "#", "x" * 2000, "\t", "\u2028", "-t", "{", "}"]


def string_case(d):
    s = "".join(d.choice(TEXTS) for _ in range(d.draw(3)))[:2400]
    if d.chance(1, 6):
        s = MyStr(s)
    iso = d.chance(1, 2)
    b = FluentBundle(["en-US"], functions={"ID": lambda x: x, "TYPE": lambda x: type(x).__name__}, use_isolating=iso)
    b.add_resource(FluentResource("a = { $s }\nb = x{ $s }y\nc = { ID($s) }\nd = { a }{ \"\" }\ne = { $k ->\n   *[o] { $s }\n }\nf = { -t(s: \"q\") }\n-t = { $s }\n"))
    d.show({"string": str.__str__(s), "isolating": iso})
    d.nontrivial(len(s) > 1)
    a, z = ("\u2068", "\u2069") if iso else ("", "")
    for m, want in (("a", s), ("b", "x" + a + s + z + "y"), ("c", s), ("d", a + s + z), ("e", s), ("f", "q")):
        t, errs = b.format_pattern(b.get_message(m).value, {"s": s, "k": "o"})
        if t != want or errs:
            fail("{}: {!r} {}, expected {!r}", m, t, errs, want)


class Str:
    def __str__(self):
        return "sneaky"
    __repr__ = __str__

    def __format__(self, spec):
        return "sneaky"


OTHERS = [None, [1], (1,), {"a": 1}, {1}, b"bytes", bytearray(b"x"), object(), Str(), 1j, dt.time(1, 2), dt.timedelta(1), range(2), int, len, frozenset(), memoryview(b"a"), iter([]), Ellipsis, NotImplemented, float, enum.Enum]


def others_case(d):
    v = d.choice(OTHERS)
    name = d.choice(["v", "some-name", "x_1"])
    iso = d.chance(1, 2)
    calls = []
    b = FluentBundle(["en-US"], functions={"SEE": lambda x: calls.append(x) or "seen"}, use_isolating=iso)
    b.add_resource(FluentResource("a = { $%s }\nb = x { $%s } y\nc = { SEE($%s) }\nd = { $%s ->\n    [sneaky] no\n   *[o] dflt\n }\ne = { NUMBER($%s) }{ DATETIME($%s) }\n" % ((name,) * 6)))
    d.show({"value": repr(v), "name": name, "isolating": iso})
    d.nontrivial()
    a, z = ("\u2068", "\u2069") if iso else ("", "")
    for m, want, n in (("a", name, 1), ("b", f"x {a}{name}{z} y", 1), ("c", "seen", 1), ("d", "dflt", 1), ("e", f"{a}{name}{z}{a}{name}{z}", 2)):
        t, errs = b.format_pattern(b.get_message(m).value, {name: v})
        if t != want or len(errs) != n or not all(type(e) is TypeError and name in str(e) for e in errs):
            fail("{}: {!r} with errors {}, expected {!r} and {} TypeErrors", m, t, [repr(e) for e in errs], want, n)
    if len(calls) != 1 or not isinstance(calls[0], FluentNone) or calls[0].name != name:
        fail("the function was given {!r}", calls)
    for f in (fluent_number, fluent_date):
        if f is fluent_number and isinstance(v, FluentNone):
            continue
        try:
            r = f(v)
        except TypeError:
            pass
        else:
            fail("{} accepts {!r}: {!r}", f.__name__, v, r)
    # neither strings nor the other native kind are taken
    for f, x in ((fluent_number, "5"), (fluent_date, "2020-01-01"), (fluent_date, 5), (fluent_number, dt.date(2020, 1, 1)), (fluent_date, 1.5), (fluent_date, Decimal(1))):
        try:
            r = f(x)
        except TypeError:
            pass
        else:
            fail("{} accepts {!r}: {!r}", f.__name__, x, r)


PROPS["R14"] = Property(
    "R14",
    "natives: ints (huge, bool, IntEnum), floats (signed zero, inf, NaN), Decimals (exponents, 50 digits, NaNs), dates and datetimes (fold, microseconds, zones, extremes) passed natively, wrapped and nested, and observed by functions, field by field. strings: verbatim insertion. others: 22 unsupported kinds. Non-trivial: every native and other; strings of two or more characters.",
    [Segment("natives", native_case, 12000), Segment("strings", string_case, 2000), Segment("others", others_case, 600)],
)
