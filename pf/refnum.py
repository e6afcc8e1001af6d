"""Independent decimal formatting by CLDR patterns.

Only locale *data* (patterns, symbols) comes from Babel; patterns are parsed
and digits produced here, with exact integer arithmetic on strings.
"""
from decimal import ROUND_HALF_EVEN, Context, Decimal
from functools import lru_cache

import babel
import babel.localedata
from babel.numbers import get_currency_precision, get_currency_symbol

CTX = Context(prec=400, rounding=ROUND_HALF_EVEN, Emax=99999, Emin=-99999)


ALL = sorted(t.replace("_", "-") for t in babel.localedata.locale_identifiers())


@lru_cache(None)
def locale(tag):
    return babel.Locale.parse(tag.replace("-", "_"))


@lru_cache(None)
def symbols(tag):
    return dict(locale(tag).number_symbols["latn"])


@lru_cache(None)
def split_pattern(p):
    """(prefix, integer+fraction part, suffix) of one (sub)pattern."""
    pos, neg = (p.split(";") + [None])[:2] if ";" in p else (p, None)

    def cut(s):
        i = 0
        quoted = False
        core = "#0,.@"
        while i < len(s) and (quoted or s[i] not in core):
            if s[i] == "'":
                quoted = not quoted
            i += 1
        j = i
        while j < len(s) and s[j] in core:
            j += 1
        return s[:i].replace("'", ""), s[i:j], s[j:].replace("'", "")
    pre, core, suf = cut(pos)
    if neg is not None:
        npre, _, nsuf = cut(neg)
    else:
        npre, nsuf = "-" + pre, suf
    ip, _, fp = core.partition(".")
    groups = ip.split(",")
    primary = len(groups[-1]) if len(groups) > 1 else 0
    secondary = len(groups[-2]) if len(groups) > 2 else primary
    digits = ip.replace(",", "")
    return pre, suf, npre, nsuf, primary, secondary, digits.count("0"), fp.count("0"), len(fp)


def group(digits, primary, secondary, sep):
    if not primary or len(digits) <= primary:
        return digits
    head, out = digits[:-primary], [digits[-primary:]]
    while len(head) > secondary:
        out.insert(0, head[-secondary:])
        head = head[:-secondary]
    out.insert(0, head)
    return sep.join(out)


def to_decimal(v):
    return Decimal(repr(float(v))) if isinstance(v, float) else Decimal(int(v)) if isinstance(v, int) else Decimal(v)


def format_number(value, opts, tag):
    """opts: Intl names; value: int, float or Decimal (finite)."""
    style = opts.get("style", "decimal")
    loc, sym = locale(tag), symbols(tag)
    if style == "decimal":
        pat = loc.decimal_formats[None].pattern
    elif style == "percent":
        pat = loc.percent_formats[None].pattern
    else:
        pat = loc.currency_formats["standard"].pattern
    pre, suf, npre, nsuf, primary, secondary, mini, minf, maxf = split_pattern(pat)
    x = to_decimal(value)
    negative = x.is_signed()
    x = CTX.abs(x)
    if style == "percent":
        x = CTX.multiply(x, Decimal(100))
    g = opts.get("minimumFractionDigits"), opts.get("maximumFractionDigits")
    s = opts.get("minimumSignificantDigits"), opts.get("maximumSignificantDigits")
    if s != (None, None):
        smin = s[0] if s[0] is not None else 1
        smax = s[1] if s[1] is not None else max(smin, 21)
        ip, fp = significant(x, smin, smax)
    else:
        if style == "currency":
            minf = maxf = get_currency_precision(opts["currency"])
        if g[0] is not None:
            minf = g[0]
            maxf = max(maxf, minf) if g[1] is None else g[1]
        elif g[1] is not None:
            maxf = g[1]
            minf = min(minf, maxf)
        if opts.get("minimumIntegerDigits") is not None:
            mini = opts["minimumIntegerDigits"]
        ip, fp = fixed(x, minf, maxf)
        ip = ip.rjust(mini, "0") if mini else (ip if ip != "0" else "")
    if opts.get("useGrouping", True):
        ip = group(ip, primary, secondary, sym["group"])
    num = ip + (sym["decimal"] + fp if fp else "")
    a, b = (npre, nsuf) if negative else (pre, suf)

    def affix(t):
        out = ""
        i = 0
        while i < len(t):
            c = t[i]
            if c == "\u00a4":
                n = 1
                while t[i + n:i + n + 1] == "\u00a4":
                    n += 1
                code = opts.get("currencyDisplay", "symbol") == "code"
                out += opts["currency"] if code else get_currency_symbol(opts["currency"], loc)
                i += n
                continue
            out += c  # sign and percent characters as the pattern has them
            i += 1
        return out
    return affix(a) + num + affix(b)


def fixed(x, minf, maxf):
    """Integer and fraction digits of x >= 0 rounded half-even to maxf digits."""
    q = int(CTX.to_integral_value(x.scaleb(maxf, CTX)))
    s = str(q).rjust(maxf + 1, "0")
    ip, fp = (s[:-maxf], s[-maxf:]) if maxf else (s, "")
    while len(fp) > minf and fp.endswith("0"):
        fp = fp[:-1]
    return ip, fp


def significant(x, smin, smax):
    if x == 0:
        return "0", "0" * (smin - 1)
    e = x.adjusted()  # position of the first digit
    places = smax - 1 - e
    q = CTX.to_integral_value(x.scaleb(places, CTX))
    x = q.scaleb(-places, CTX)
    e = x.adjusted()
    if places > 0:
        ip, fp = fixed(x, 0, places)
        if ip == "0":
            lead = len(fp) - len(fp.lstrip("0"))
            have = len(fp) - lead
        else:
            have = len(ip) + len(fp)
        fp += "0" * max(0, smin - have)
    else:
        ip, fp = str(int(x)), ""
        fp += "0" * max(0, smin - len(ip))
    return ip, fp
