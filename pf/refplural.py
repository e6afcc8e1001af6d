"""Plural rules, written by hand from CLDR for some locales, interpreted from its text for the rest."""
from decimal import Decimal
from functools import lru_cache

import babel


def operands(x):
    """n, i, v, f of a number without superfluous fraction zeros."""
    d = abs(Decimal(repr(x)) if isinstance(x, float) else Decimal(x))
    s = format(d, "f")
    ip, _, fp = s.partition(".")
    fp = fp.rstrip("0")
    return Decimal(ip + ("." + fp if fp else "")), int(ip), len(fp), int(fp or "0")


def rng(x, a, b):
    return x == int(x) and a <= x <= b


def cardinal(lang, x):
    n, i, v, f = operands(x)
    if lang in ("en", "de", "sv", "nl", "et"):
        return "one" if i == 1 and v == 0 else "other"
    if lang == "fr":
        if i in (0, 1):
            return "one"
        return "many" if v == 0 and i % 1000000 == 0 else "other"
    if lang == "it":
        if i == 1 and v == 0:
            return "one"
        return "many" if v == 0 and i != 0 and i % 1000000 == 0 else "other"
    if lang == "pl":
        if i == 1 and v == 0:
            return "one"
        if v:
            return "other"
        return "few" if 2 <= i % 10 <= 4 and not 12 <= i % 100 <= 14 else "many"
    if lang in ("ru", "uk"):
        if v:
            return "other"
        if i % 10 == 1 and i % 100 != 11:
            return "one"
        return "few" if 2 <= i % 10 <= 4 and not 12 <= i % 100 <= 14 else "many"
    if lang == "ar":
        if n in (0, 1, 2):
            return ["zero", "one", "two"][int(n)]
        r = n % 100
        return "few" if rng(r, 3, 10) else "many" if rng(r, 11, 99) else "other"
    if lang == "cs":
        if v:
            return "many"
        return "one" if i == 1 else "few" if 2 <= i <= 4 else "other"
    if lang == "lt":
        if f:
            return "many"
        if n % 10 == 1 and not rng(n % 100, 11, 19):
            return "one"
        return "few" if rng(n % 10, 2, 9) and not rng(n % 100, 11, 19) else "other"
    if lang == "cy":
        return {0: "zero", 1: "one", 2: "two", 3: "few", 6: "many"}.get(n, "other")
    if lang == "lv":
        if v == 0:
            if n % 10 == 0 or rng(n % 100, 11, 19):
                return "zero"
            return "one" if n % 10 == 1 else "other"
        if v == 2 and rng(Decimal(f % 100), 11, 19):
            return "zero"
        return "one" if f % 10 == 1 and not (v == 2 and f % 100 == 11) else "other"
    if lang == "sl":
        if v:
            return "few"
        return {1: "one", 2: "two", 3: "few", 4: "few"}.get(i % 100, "other")
    if lang in ("ja", "zh", "ko"):
        return "other"
    raise KeyError(lang)


def ordinal(lang, x):
    n, i, v, f = operands(x)
    if lang == "en":
        if n % 10 == 1 and n % 100 != 11:
            return "one"
        if n % 10 == 2 and n % 100 != 12:
            return "two"
        return "few" if n % 10 == 3 and n % 100 != 13 else "other"
    if lang == "fr":
        return "one" if n == 1 else "other"
    if lang == "it":
        return "many" if n in (8, 11, 80, 800) else "other"
    if lang == "sv":
        return "one" if n % 10 in (1, 2) and n % 100 not in (11, 12) else "other"
    if lang == "cy":
        return {0: "zero", 7: "zero", 8: "zero", 9: "zero", 1: "one", 2: "two", 3: "few", 4: "few", 5: "many", 6: "many"}.get(n, "other")
    if lang == "uk":
        return "few" if n % 10 == 3 and n % 100 != 13 else "other"
    if lang in ("de", "pl", "ru", "ar", "cs", "lt", "lv", "sl", "ja", "zh", "ko", "nl", "et"):
        return "other"
    raise KeyError(lang)


LANGS = ["en", "de", "sv", "nl", "et", "fr", "it", "pl", "ru", "uk", "ar", "cs", "lt", "cy", "sl", "ja", "zh", "ko"]


# ------------------------------------------------------------ any other locale
def evaluate(rules, x):
    """The category by CLDR's rules, as text ({"one": "i in 1 and v in 0", ...})."""
    n, i, v, f = operands(x)
    ops = {"n": n, "i": Decimal(i), "v": Decimal(v), "w": Decimal(v), "f": Decimal(f), "t": Decimal(f), "e": Decimal(0), "c": Decimal(0)}

    def relation(text):
        w = text.split(" ")
        val = ops[w[0]]
        if w[1] == "mod":
            val %= int(w[2])
            del w[1:3]
        negated = w[1] == "not"
        if w[1 + negated] != "in" or len(w) != 3 + negated:
            raise ValueError(text)
        hit = False
        for r in w[-1].split(","):
            a, _, b = r.partition("..")
            hit = hit or (val == int(a) if not b else rng(val, int(a), int(b)))
        return hit is not negated
    for cat in ("zero", "one", "two", "few", "many"):
        if cat in rules and any(all(map(relation, c.split(" and "))) for c in rules[cat].split(" or ")):
            return cat
    return "other"


@lru_cache(None)
def _rules(tag, kind):
    loc = babel.Locale.parse(tag.replace("-", "_"))
    return dict((loc.ordinal_form if kind == "ordinal" else loc.plural_form).rules)


def category(tag, kind, x):
    """cardinal or ordinal category: by the functions above, or else by the rules of the locale data."""
    lang = tag.replace("_", "-").split("-")[0].lower()
    if lang in LANGS:
        return (ordinal if kind == "ordinal" else cardinal)(lang, x)
    return evaluate(_rules(tag, kind), x)
