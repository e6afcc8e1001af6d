"""Generators: model ASTs, their rendering as Fluent source in a random legal
layout, and malformed sources.

A pattern's elements are generated line by line so that the value is always one
that some source denotes; rendering re-derives the lines from the value.
"""
import re

from . import mast as M

ID_RE = re.compile(r"[a-zA-Z][a-zA-Z0-9_-]*")
LETTERS = "abcxyzABCXYZ"
IDCHARS = "abcdxyzABCXYZ0129_-"
# Characters that may stand anywhere in text (never a CR: see lone_cr below).
PLAIN = ["a", "b", "Hello", "foo bar", "x", "0", "1.5", "Z", "world", "word "]
ODD = ["\u2028", "\u2029", "\x85", "\x0b", "\x0c", "\x1c", "\x1e", "\t", "\x00", "\u00a0", "\u3000", "\ufeff", "\U0001f600", "\u05d0\u05d1", "\u2068", "\u2069", "e\u0301", "\x7f", "\ud7ff", "\ufffd", "\U0010ffff", "\u2003"]
PUNCT = ["=", ".", "[", "]", "*", "-", "#", "\"", "\\", "$", "(", ")", ",", ":", "->", "'", "&", "<", ">", "//", "[[", "## ", "\\u0041", "a = b", "-a = b", "--", "*[a]", "[one]", ".a = b"]


def spanned(fn):
    """Marks the choices a generator consumes as one unit for the shrinker."""
    def wrapper(d, *a, **k):
        start = len(d.out)
        r = fn(d, *a, **k)
        if len(d.out) > start:
            d.spans.append((start, len(d.out)))
        return r
    return wrapper


class Cfg:
    """What a generated resource may contain."""

    def __init__(self, msg_ids=None, term_ids=None, attr_ids=None, var_ids=None, fn_ids=None, odd=True, lone_cr=True, max_depth=3, max_elems=5, simple=False):
        self.msg_ids, self.term_ids, self.attr_ids, self.var_ids, self.fn_ids = msg_ids, term_ids, attr_ids, var_ids, fn_ids
        self.odd, self.lone_cr, self.max_depth, self.max_elems, self.simple = odd, lone_cr, max_depth, max_elems, simple


@spanned
def identifier(d):
    n = d.weighted([(6, 0), (3, 1), (2, 2), (1, 5)])
    s = d.choice(LETTERS)
    if n == 5 and d.chance(1, 2):
        return d.choice(PYNAMES)
    if n == 5 and d.chance(1, 6):
        n = d.choice([12, 33, 70, 260])
        return s + (d.choice(IDCHARS) + d.choice(IDCHARS) + d.choice(IDCHARS)) * (n // 3)
    for _ in range(n):
        s += d.choice(IDCHARS)
    return s


# Names that mean something to the Python code that handles them, as parameter names do.
# (not "number" and "dt": NUMBER(number: 1) is a call without positional argument that works)
PYNAMES = ["self", "name", "env", "args", "kwargs", "function", "fn", "func", "value", "key", "cls", "type", "id", "pattern", "errors", "locale", "context", "class", "None", "True", "lambda", "items", "get", "keys", "update", "attributes", "comment", "span", "body", "elements", "options", "default", "term", "message", "val", "arg", "current", "error_for_missing_arg", "a0", "code", "a-b", "user-name", "user_name", "X", "Y", "x-", "x_", "a--b", "User-Name_2", "args-", "x0", "long-" * 8 + "name", "LongerName_" * 9]


def fn_identifier(d, c=None):
    if c is not None and c.fn_ids:
        return d.choice(c.fn_ids)
    s = d.choice("ABFNX")
    for _ in range(d.weighted([(4, 0), (3, 2), (1, 5)])):
        s += d.choice("ABCXYZ012_-")
    return s


def _pick(d, ids):
    return d.choice(ids) if ids else identifier(d)


@spanned
def number_literal(d):
    k = d.weighted([(5, 0), (4, 1), (2, 2), (1, 3)])
    if k == 0:
        return d.choice(["0", "1", "2", "5", "11", "-1", "100"])
    if k == 1:
        return d.choice(["1.0", "0.5", "3.14", "-0.0", "-2.50", "1.5", "0.1", "00.10"])
    s = "-" if d.chance(1, 4) else ""
    s += "".join(d.choice("0123456789") for _ in range(1 + d.size(4)))
    if k == 3 or d.chance(1, 2):
        s += "." + "".join(d.choice("0123456789") for _ in range(1 + d.size(5)))
    return s


@spanned
def string_body(d, odd=True):
    """Raw text between the quotes of a string literal."""
    out = []
    for _ in range(d.size(5, 2, 3)):
        k = d.weighted([(5, 0), (2, 1), (2, 2), (1, 3), (1, 4), (2, 5)])
        if k == 0:
            out.append(d.choice(PLAIN))
        elif k == 1:
            out.append(d.choice(["\\\\", "\\\""]))
        elif k == 2:
            out.append("\\u" + d.choice(["0041", "00e9", "2068", "0000", "FFFF", "D7FF", "e000", "000A", "005C", "0022", "007B"]))
        elif k == 3:
            out.append("\\U" + d.choice(["01F602", "000041", "10FFFF", "00005c", "00000d", "01f602"]))
        elif k == 4:
            out.append(d.choice(["{", "}", "{ $x }", " ", "   ", "#", "[", "*", ".", "u0041", "'"]))
        else:
            out.append(d.choice(ODD) if odd else d.choice(PUNCT[:5]))
    return "".join(out)


# ------------------------------------------------------------------ expressions
@spanned
def inline_expression(d, c, depth):
    w = [(6, "var"), (4, "str"), (4, "num"), (4, "msg"), (3, "term")]
    if depth > 0:
        w += [(3, "fn"), (1, "nest")]
    k = d.weighted(w)
    if k == "var":
        return M.var(d.choice(PYNAMES) if d.chance(1, 12) else _pick(d, c.var_ids))
    if k == "str":
        return M.string(string_body(d, c.odd))
    if k == "num":
        return M.number(number_literal(d))
    if k == "msg":
        return M.msgref(_pick(d, c.msg_ids), _pick(d, c.attr_ids) if d.chance(1, 3) else None)
    if k == "term":
        args = call_arguments(d, c, depth - 1) if depth > 0 and d.chance(1, 3) else None
        return M.termref(_pick(d, c.term_ids), None, args)
    if k == "fn":
        return M.call(fn_identifier(d, c), call_arguments(d, c, depth - 1))
    return M.placeable(placeable_expression(d, c, depth - 1))


@spanned
def call_arguments(d, c, depth):
    pos, nm, seen = [], [], set()
    for _ in range(d.size(3, 1, 2)):
        if depth > 0 and d.chance(1, 8):
            a = M.termref(_pick(d, c.term_ids), _pick(d, c.attr_ids), call_arguments(d, c, depth - 1) if d.chance(1, 2) else None)
        else:
            a = inline_expression(d, c, depth)
        pos.append(a)
    for _ in range(d.size(3, 2, 5)):
        n = d.choice(PYNAMES) if d.chance(1, 8) else _pick(d, c.var_ids)
        if n in seen:
            continue
        seen.add(n)
        nm.append(M.named(n, M.number(number_literal(d)) if d.chance(1, 2) else M.string(string_body(d, c.odd))))
    return M.callargs(pos, nm)


@spanned
def selector(d, c, depth):
    w = [(5, "var"), (2, "num"), (2, "str"), (3, "tattr")]
    if depth > 0:
        w.append((3, "fn"))
    k = d.weighted(w)
    if k == "var":
        return M.var(d.choice(PYNAMES) if d.chance(1, 12) else _pick(d, c.var_ids))
    if k == "num":
        return M.number(number_literal(d))
    if k == "str":
        return M.string(string_body(d, c.odd))
    if k == "tattr":
        return M.termref(_pick(d, c.term_ids), _pick(d, c.attr_ids), call_arguments(d, c, depth - 1) if depth > 0 and d.chance(1, 3) else None)
    return M.call(fn_identifier(d, c), call_arguments(d, c, depth - 1))


VARIANT_NAMES = ["one", "other", "zero", "two", "few", "many", "a", "masc", "X-1_b"]


@spanned
def variant_key(d):
    k = d.weighted([(5, 0), (3, 1), (1, 2)])
    if k == 0:
        return M.ident(d.choice(VARIANT_NAMES))
    if k == 1:
        return M.number(number_literal(d))
    return M.ident(identifier(d))


@spanned
def select_expression(d, c, depth):
    sel = selector(d, c, depth)
    n = 1 + d.size(3, 1, 2)
    dflt = d.draw(n - 1)
    return M.select(sel, [M.variant(variant_key(d), pattern(d, c, depth - 1), i == dflt) for i in range(n)])


@spanned
def placeable_expression(d, c, depth):
    if depth > 0 and d.chance(1, 4):
        return select_expression(d, c, depth)
    return inline_expression(d, c, depth)


# ------------------------------------------------------------------ patterns
@spanned
def _text_chunk(d, c):
    k = d.weighted([(8, 0), (3, 1), (3 if c.odd else 0, 2), (2, 3), (1 if (c.odd and c.lone_cr) else 0, 4)])
    if k == 0:
        return d.choice(PLAIN)
    if k == 1:
        return d.choice(PUNCT)
    if k == 2:
        return d.choice(ODD)
    if k == 3:
        return d.choice([" ", "  ", " a", "a  "])
    return "\r" + d.choice(["a", "=", "x"])


@spanned
def _line(d, c, depth, first, indented):
    """One line's parts; text parts never empty, never adjacent."""
    parts = []
    n = 1 + d.size(c.max_elems - 1, 1, 3)
    for i in range(n):
        if d.chance(2, 5):
            parts.append(M.placeable(placeable_expression(d, c, depth)))
            continue
        s = _text_chunk(d, c)
        while d.chance(1, 3):
            s += _text_chunk(d, c)
        if parts and isinstance(parts[-1], str):
            parts[-1] += s
        else:
            parts.append(s)
    if isinstance(parts[0], str):
        s = parts[0].lstrip(" ")
        if not s or (not first and s[0] in "[*.") or (first and indented and s[0] in "[*."):
            s = d.choice("abc") + s
        parts[0] = s
    return parts


@spanned
def pattern(d, c, depth=None):
    """A pattern value; never empty."""
    depth = c.max_depth if depth is None else depth
    nlines = 1 if c.simple else 1 + d.weighted([(7, 0), (3, 1), (2, 2), (1, 4)])
    lines = []  # (extra indent, parts) or None for a blank line
    for i in range(nlines):
        if i and i < nlines - 1 and d.chance(1, 4):
            lines.append(None)
            continue
        k = d.weighted([(6, 0), (2, 1), (1, 4)]) if nlines > 1 else 0
        lines.append([k, _line(d, c, depth, i == 0, k > 0)])
    if nlines > 1:
        solid = [l for l in lines if l is not None]
        first = solid[0]
        if isinstance(first[1][0], str) and first[1][0][0] in "[*.":
            first[0] = 0
            mn = min(l[0] for l in solid[1:])
            for l in solid[1:]:
                l[0] -= mn
        else:
            mn = min(l[0] for l in solid)
            for l in solid:
                l[0] -= mn
    elems = []

    def add_text(s):
        if not s:
            return
        if elems and elems[-1]["type"] == "TextElement":
            elems[-1]["value"] += s
        else:
            elems.append(M.text(s))

    for i, l in enumerate(lines):
        if i:
            add_text("\n")
        if l is None:
            continue
        add_text(" " * l[0])
        for p in l[1]:
            if isinstance(p, str):
                add_text(p)
            else:
                elems.append(p)
    if elems[-1]["type"] == "TextElement":
        v = elems[-1]["value"].rstrip(" \n\r")
        if v:
            elems[-1]["value"] = v
        else:
            elems.pop()
            if not elems:
                elems.append(M.text("a"))
    return M.pattern(elems)


@spanned
def comment_content(d, allow_empty=True):
    lines = []
    for _ in range(1 + d.weighted([(6, 0), (2, 1), (1, 2)])):
        s = ""
        for _ in range(d.size(3, 3, 4)):
            s += d.weighted([(5, 0), (2, 1), (1, 2), (1, 3)]) == 2 and d.choice(ODD) or d.choice(PLAIN + PUNCT + [" ", "  "])
        lines.append(s)
    return "\n".join(lines)


@spanned
def attributes(d, c):
    return [M.attribute(_pick(d, c.attr_ids), pattern(d, c)) for _ in range(d.weighted([(6, 0), (3, 1), (1, 2)]))]


@spanned
def message(d, c, mid=None):
    mid = mid or _pick(d, c.msg_ids)
    attrs = attributes(d, c)
    value = pattern(d, c) if not attrs or d.chance(3, 4) else None
    cm = M.comment("Comment", comment_content(d)) if d.chance(1, 5) else None
    return M.message(mid, value, attrs, cm)


@spanned
def term(d, c, tid=None):
    tid = tid or _pick(d, c.term_ids)
    value = pattern(d, c)
    attrs = attributes(d, c)
    cm = M.comment("Comment", comment_content(d)) if d.chance(1, 5) else None
    return M.term(tid, value, attrs, cm)


@spanned
def entry(d, c):
    k = d.weighted([(6, "m"), (3, "t"), (1, "Comment"), (1, "GroupComment"), (1, "ResourceComment")])
    if k == "m":
        return message(d, c)
    if k == "t":
        return term(d, c)
    return M.comment(k, comment_content(d))


def resource(d, c, mx=5):
    m = M.resource([entry(d, c) for _ in range(d.size(mx, 3, 4))])
    if d.chance(1, 16):
        stretch(d, m, c)
    return m


def a_number(d, lo, hi):
    """lo..hi, as likely small as large."""
    return lo + min(hi - lo, d.draw(2 ** (1 + d.draw((hi - lo).bit_length() - 1)) - 1)) if hi > lo else lo


@spanned
def stretch(d, model, c, runtime=False):
    """Makes one thing in the model much bigger than the other generators do."""
    nodes = list(M.walk(model))

    def of(*types):
        return [n for n in nodes if n["type"] in types]

    def word(i):
        return "abcdefgh"[i % 8] + str(i)
    kinds = ["body"]
    pats, ids, texts = of("Pattern"), of("Identifier"), of("TextElement")
    calls, sels, strs, nums = of("CallArguments"), of("SelectExpression"), of("StringLiteral"), of("NumberLiteral")
    ents, comms = of("Message", "Term"), of("Comment", "GroupComment", "ResourceComment")
    holes = [n for n in of("Placeable") if n["expression"]["type"] != "SelectExpression" or n["expression"]["selector"]]
    if pats:
        kinds += ["lines", "elements", "blank", "indent", "deep"]
    if texts:
        kinds += ["text"] * 3
    if calls:
        kinds += ["positional", "named"]
    if sels:
        kinds += ["variants", "variants"]
    if strs:
        kinds += ["string"] * 2
    if ents:
        kinds.append("attributes")
    if comms:
        kinds += ["comment", "comment line"]
    if holes:
        kinds.append("nest")
    if not runtime:
        kinds += ["id"] * bool(ids) + ["number"] * bool(nums)
    k = d.choice(kinds)
    d.label("stretched: " + k)

    def grow(p, s):
        e = p["elements"]
        if e and e[-1]["type"] == "TextElement":
            e[-1]["value"] += s
        else:
            e.append(M.text(s))
    n = a_number(d, 3, 64)
    huge = 1 if runtime or d.chance(2, 3) else 6
    if k == "body":
        for i in range(n * huge):
            j = d.draw(7)
            model["body"].append(M.comment("Comment", word(i)) if j == 7 else M.term(word(i), M.pattern([M.text(word(i))])) if j == 6 else M.message(word(i), M.pattern([M.text(word(i))])))
    elif k == "lines":
        p = d.choice(pats)
        for i in range(n):
            grow(p, "\n" + word(i))
    elif k == "blank":
        grow(d.choice(pats), "\n" * n + "end")
    elif k == "indent":
        grow(d.choice(pats), "\n" + " " * n + "in\nout")
    elif k == "elements":
        p = d.choice(pats)
        for i in range(min(n, 20) if runtime else n):
            if d.chance(1, 3) or i == 0:
                grow(p, " " + word(i))
            p["elements"].append(M.placeable(M.number(str(i)) if i % 2 else M.var(_pick(d, c.var_ids))))
        j = d.draw(5)
        if j >= 3:
            grow(p, " end")
        if j == 4:
            grow(p, "\nof it")
        elif j == 5:
            p["elements"].append(M.placeable(M.select(M.var(_pick(d, c.var_ids)), [M.variant(M.ident("other"), M.pattern([M.text("o")]), True)])))
    elif k == "deep":
        p = d.choice(pats)
        for i in range(min(n, 8)):
            p["elements"][:] = [M.placeable(M.select(M.var(_pick(d, c.var_ids)), [M.variant(M.ident("other"), M.pattern(list(p["elements"])), True)]))]
    elif k == "text":
        d.choice(texts)["value"] += "y" * min(n * n, 600) * huge
    elif k == "positional":
        d.choice(calls)["positional"] += [M.number(str(i)) if i % 2 else M.string(word(i)) for i in range(n)]
    elif k == "named":
        a = d.choice(calls)["named"]
        have = {x["name"]["name"] for x in a}
        a += [M.named(word(i), M.number(str(i))) for i in range(n) if word(i) not in have]
    elif k == "variants":
        v = d.choice(sels)["variants"]
        v[:0] = [M.variant(M.number(str(i)) if i % 2 else M.ident(word(i)), M.pattern([M.text(word(i))])) for i in range(n)]
    elif k == "string":
        d.choice(strs)["value"] += "".join(d.choice(["x", "\\u0041", "\\\\", " ", "}"]) for _ in range(n * huge * huge))
    elif k == "attributes":
        a = d.choice(ents)["attributes"]
        have = {x["id"]["name"] for x in a}
        a += [M.attribute(word(i), M.pattern([M.text(word(i))])) for i in range(n) if word(i) not in have]
    elif k == "comment":
        d.choice(comms)["content"] += "".join("\n" + (word(i) if i % 3 else "") for i in range(n)) + "x"
    elif k == "comment line":
        d.choice(comms)["content"] += "z " * n * huge * huge + "x"
    elif k == "nest":
        h = d.choice(holes)
        for _ in range(min(n, 12)):
            h["expression"] = M.placeable(h["expression"])
    elif k == "id":
        # in capitals: it may be a function's
        d.choice(ids)["name"] += "".join(d.choice("Z0_-") for _ in range(n * huge))
    elif k == "number":
        x = d.choice(nums)
        x["value"] += "" if "." in x["value"] or d.chance(1, 2) else "."
        x["value"] += "".join(d.choice("0123456789") for _ in range(n))


def large(d, s, one_in):
    """One time in so many, s over and over until it is larger than usual buffers."""
    if not s or not d.chance(1, one_in):
        return s
    size = d.choice([9000, 17000, 66000])
    d.label("large")
    return (s + "\n") * (size // (len(s) + 1) + 1)


# ------------------------------------------------------------------ rendering
class Layout:
    """Random legal layout choices.  fancy=0 renders plainly."""

    def __init__(self, d, fancy=True, nl=None):
        self.d = d
        self.fancy = fancy and d.chance(3, 4)
        if nl is not None:
            self.nlmode = nl
        else:
            self.nlmode = d.weighted([(6, 0), (2, 1), (1, 2)])  # LF, CRLF, mixed

    def nl(self):
        if self.nlmode == 0:
            return "\n"
        if self.nlmode == 1:
            return "\r\n"
        return "\r\n" if self.d.chance(1, 2) else "\n"

    def inline(self, default=""):
        """blank_inline?"""
        if not self.fancy:
            return default
        k = self.d.draw(40)
        if k == 40:
            return " " * a_number(self.d, 4, 300)
        return [default, default, "", " ", "   "][k % 5]

    def blank(self, default=""):
        """blank? (may span lines)"""
        if not self.fancy:
            return default
        k = self.d.weighted([(10, 0), (3, 1), (1, 2), (1, 3)])
        if k == 0:
            return default
        if k == 1:
            return self.d.choice(["", " ", "  "])
        if k == 2:
            return self.nl() + self.inline()
        return self.inline() + self.nl() + self.inline() + self.nl() + "   "

    def blank_lines(self):
        """(blank_inline? line_end)*"""
        if not self.fancy or not self.d.chance(1, 6):
            return ""
        n = self.d.draw(15)
        n = a_number(self.d, 3, 150) if n == 15 else 1 + n % 2
        return "".join(self.d.choice(["", " ", "      "]) + self.nl() for _ in range(n))


def r_inline(L, e):
    t = e["type"]
    if t == "StringLiteral":
        return '"' + e["value"] + '"'
    if t == "NumberLiteral":
        return e["value"]
    if t == "VariableReference":
        return "$" + e["id"]["name"]
    if t == "MessageReference":
        return e["id"]["name"] + ("." + e["attribute"]["name"] if e["attribute"] else "")
    if t == "TermReference":
        s = "-" + e["id"]["name"] + ("." + e["attribute"]["name"] if e["attribute"] else "")
        return s + (r_callargs(L, e["arguments"]) if e["arguments"] is not None else "")
    if t == "FunctionReference":
        return e["id"]["name"] + r_callargs(L, e["arguments"])
    if t == "Placeable":
        return r_placeable(L, e)
    raise AssertionError(t)


def r_callargs(L, a):
    items = [r_inline(L, x) for x in a["positional"]]
    items += [x["name"]["name"] + L.blank() + ":" + L.blank(" ") + r_inline(L, x["value"]) for x in a["named"]]
    s = L.blank() + "(" + L.blank()
    for i, it in enumerate(items):
        if i:
            s += L.blank() + "," + L.blank(" ")
        s += it
    if items and L.fancy and L.d.chance(1, 8):
        s += L.blank() + ","
    return s + L.blank() + ")"


def r_key(L, k):
    return "[" + L.blank() + (k["name"] if k["type"] == "Identifier" else k["value"]) + L.blank() + "]"


def r_select(L, e):
    s = r_inline(L, e["selector"])
    s += (L.blank(" ") if s[-1] in ')"' else L.blank(" ") or " ") + "->" + L.inline()
    for v in e["variants"]:
        s += L.nl() + L.blank_lines() + (L.inline("    ") if L.fancy else "    ")
        s += ("*" if v["default"] else "") + r_key(L, v["key"])
        s += r_pattern(L, v["value"], in_variant=True)
    return s + L.nl()


def r_placeable(L, p):
    e = p["expression"]
    if e["type"] == "SelectExpression":
        return "{" + L.blank(" ") + r_select(L, e) + L.blank() + "}"
    return "{" + L.blank(" ") + r_inline(L, e) + L.blank(" ") + "}"


def lines_of(p):
    """(extra indent, parts) per line, None for blank lines."""
    lines = [[]]
    for e in p["elements"]:
        if e["type"] == "TextElement":
            bits = e["value"].split("\n")
            for i, b in enumerate(bits):
                if i:
                    lines.append([])
                if b:
                    lines[-1].append(b)
        else:
            lines[-1].append(e)
    out = []
    for parts in lines:
        if not parts:
            out.append(None)
            continue
        k = 0
        if isinstance(parts[0], str):
            s = parts[0]
            k = len(s) - len(s.lstrip(" "))
            parts = ([s[k:]] if s[k:] else []) + parts[1:]
        out.append((k, parts))
    return out


def r_pattern(L, p, in_variant=False):
    """Everything between '=' (or ']') and the end of the pattern's last line, without the final line end."""
    d = L.d
    lines = lines_of(p)
    first = lines[0]
    cont = [l for l in lines[1:] if l is not None]
    special = isinstance(first[1][0], str) and first[1][0][0] in "[*."
    can_inline = first[0] == 0 and (not cont or min(l[0] for l in cont) == 0)
    can_block = not special
    if can_inline and can_block:
        # plain layout: multiline starts on a new line
        inline = d.chance(1, 2) if L.fancy else not cont
    else:
        inline = can_inline
    assert inline or can_block, p
    zero_ok = all(l[0] > 0 or not isinstance(l[1][0], str) for l in (cont if inline else cont + [first]))
    if L.fancy:
        base = d.draw(40)
        base = a_number(d, 9, 70) if base == 40 else ([4, 1, 2, 8] + ([0] if zero_ok else [4]))[base % 5]
    else:
        base = 4
    s = ""

    def parts_of(parts):
        return "".join(x if isinstance(x, str) else r_placeable(L, x) for x in parts)

    def trail(parts):
        # spaces at the end of an inner line are kept as text, except after nothing
        return ""

    if inline:
        s += L.inline(" ") + parts_of(first[1])
    else:
        s += L.inline() + L.nl() + L.blank_lines() + " " * (base + first[0]) + parts_of(first[1])
    for l in lines[1:]:
        s += L.nl()
        if l is None:
            s += L.inline()
            continue
        s += " " * (base + l[0]) + parts_of(l[1])
    if L.fancy and d.chance(1, 6):
        s += "  "
    return s


def r_attributes(L, attrs):
    s = ""
    for a in attrs:
        s += L.nl() + L.blank_lines() + L.inline("    ") + "." + a["id"]["name"] + L.inline(" ") + "=" + r_pattern(L, a["value"])
    return s


def r_comment(L, c, sigil):
    out = ""
    for line in c["content"].split("\n"):
        out += sigil + (" " + line if line or (L.fancy and L.d.chance(1, 5)) else "") + L.nl()
    return out


SIGIL = {"Comment": "#", "GroupComment": "##", "ResourceComment": "###"}


def r_entry(L, e):
    """The entry with its final line end."""
    t = e["type"]
    if t in SIGIL:
        return r_comment(L, e, SIGIL[t])
    s = r_comment(L, e["comment"], "#") if e["comment"] else ""
    s += ("-" if t == "Term" else "") + e["id"]["name"] + L.inline(" ") + "="
    if e["value"] is not None:
        s += r_pattern(L, e["value"])
    elif L.fancy:
        s += L.inline()
    return s + r_attributes(L, e["attributes"]) + L.nl()


def needs_blank(prev, nxt):
    """Must a blank line stand between the two entries to keep them apart?"""
    if prev["type"] == "Comment" and nxt["type"] in ("Message", "Term") and nxt["comment"] is None:
        return True
    pt = prev["type"]
    if pt in SIGIL:
        nt = nxt["type"]
        if nt in ("Message", "Term") and nxt["comment"] is not None:
            nt = "Comment"
        return pt == nt
    return False


def render(d, res, fancy=True, nl=None, layout=None):
    L = layout or Layout(d, fancy, nl)
    s = L.blank_lines()
    prev = None
    for e in res["body"]:
        if prev is not None:
            if needs_blank(prev, e):
                s += L.inline() + L.nl()
            s += L.blank_lines()
        s += r_entry(L, e)
        prev = e
    s += L.blank_lines()
    if L.fancy and s.endswith("\n") and d.chance(1, 5):
        s = s[:-1]  # no line end at the end of the file
        if s.endswith("\r"):
            s = s[:-1]
    elif L.fancy and d.chance(1, 10):
        s += "   "
    return s


# ------------------------------------------------------------------ arbitrary sources
TOKENS = ["foo", "bar", "-term", "key", " = ", "=", "value", "\n", "\n", "\n    ", "    ", " ", "\r\n", "\r", ".attr", ".", "{", "}", "{ ", " }", "{ $x }", "$", "$x", "\"", "\"str\"", "\\", "\\u0041", "\\U01F602", "\\uD8", "NUMBER(", "FUN", "fun", "(", ")", ",", ":", " -> ", "->", "*[", "[", "]", "[one]", "*[other]", "1", "-1", "1.5", "-", "#", "# c", "## g", "### r", "#x", "####", "//", "[[", "x: 1", "y: \"s\"", "foo = bar\n", "-t = x\n", "\n\n", "é", "\U0001f600", "\u2028", "\t", "\x00", "{ $x ->\n    [a] b\n   *[o] c\n}", "*", "A", "Z-_9", "_", "foo.attr", "-term.attr", "\ufeff", "{\"\"}", "{{", "}}", "\u0663", "\u00b2", "\uff21", "\u0131", "\u212a", "\u00aa", "\u00a0", "\x0c", "\x0b", "\u3000", "\uff11"]


def soup(d, mx=40):
    return "".join(d.choice(TOKENS) for _ in range(d.size(mx, 12, 13)))


ALPHABET = ["a", "\n", " ", "=", "{", "}", "#", "-", ".", "[", "*", "\"", "\\", "$", "(", ")", ",", ":", ">", "1", "\r", "u", "A", "\r\n", "\u0663", "\uff21"]


def tiny(d, mx=12):
    return "".join(d.choice(ALPHABET) for _ in range(d.size(mx, 9, 10)))


LONG = ["a", " ", "1", "-", "\n", "x ", "\n ", "#", "# a\n", "é", "\"", "\\", "\r", "\r\n", ".", "[", "*", "_"]


def mutate(d, s):
    for _ in range(1 + d.size(3, 1, 2)):
        k = d.weighted([(16, 0), (16, 1), (8, 2), (8, 3), (8, 4), (4, 5), (8, 6), (1, 7)])
        n = len(s)
        i = d.draw(n)
        if k == 7:
            s = s[:i] + d.choice(LONG) * d.choice([40, 260, 520, 1100]) + s[i:]
        elif k == 0:
            j = min(n, i + 1 + d.weighted([(6, 0), (2, 3), (1, 12)]))
            s = s[:i] + s[j:]
        elif k == 1:
            s = s[:i] + d.choice(TOKENS) + s[i:]
        elif k == 2:
            s = s[:i] + d.choice(ALPHABET) + s[i + 1:]
        elif k == 3:
            j = min(n, i + 1 + d.draw(15))
            k2 = d.draw(n)
            s = s[:k2] + s[i:j] + s[k2:]
        elif k == 4:
            s = s[:i]
        elif k == 5:
            ls = s.split("\n")
            a, b = d.draw(len(ls) - 1), d.draw(len(ls) - 1)
            ls[a], ls[b] = ls[b], ls[a]
            s = "\n".join(ls)
        else:
            ls = s.split("\n")
            a = d.draw(len(ls) - 1)
            ls[a] = d.choice(["", " ", "    ", "#", "{", "}"]) + ls[a].lstrip(" ") if d.chance(1, 2) else ls[a] + d.choice([" ", "{", "}", "\"", "\\", "\r"])
            s = "\n".join(ls)
    return s


_CORPUS = None


def corpus():
    global _CORPUS
    if _CORPUS is None:
        import os
        from . import env
        root = os.path.join(env.VERIF, "corpus")
        _CORPUS = []
        for f in sorted(os.listdir(root)):
            with open(os.path.join(root, f), "rb") as fh:
                _CORPUS.append(fh.read().decode("utf-8"))
    return _CORPUS


def corpus_piece(d):
    """A few whole lines out of a corpus file."""
    src = d.choice(corpus())
    ls = src.split("\n")
    i = d.draw(len(ls) - 1)
    n = 1 + d.draw(14)
    return "\n".join(ls[i:i + n]) + "\n"


DEFAULT = Cfg()
SMALL = Cfg(max_depth=2, max_elems=3)
IDS = Cfg(msg_ids=["foo", "bar", "baz"], term_ids=["brand", "term"], attr_ids=["attr", "title"], var_ids=["x", "y", "count"])


def any_source(d, mx=4):
    """A source of any kind; labels say which."""
    k = d.weighted([(4, "valid"), (5, "mutated"), (2, "soup"), (2, "tiny"), (1, "corpus"), (2, "corpus-mutated")])
    d.label("src:" + k)
    if k == "valid":
        return render(d, resource(d, DEFAULT, mx))
    if k == "mutated":
        return mutate(d, render(d, resource(d, SMALL, mx)))
    if k == "soup":
        return soup(d)
    if k == "tiny":
        return tiny(d)
    if k == "corpus":
        return corpus_piece(d)
    return mutate(d, corpus_piece(d))
