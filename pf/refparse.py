"""Reference parser: a direct, memo-free PEG reading of the Fluent 1.0 EBNF
plus its abstract-syntax rules (comment joining and attachment, dedentation,
selector and call restrictions).  Nodes carry spans (source offsets).

Everything is a method ``x(self, i)`` returning (node, end) or None.  As in the
tooling parsers (and unlike the pure PEG) there is no partial entry: an entry
one of whose placeables or attributes is malformed is Junk as a whole.
Independent of the code under test: works on the whole string by position.
"""
import re

from . import mast as M

ID = re.compile(r"[a-zA-Z][a-zA-Z0-9_-]*")
NUM = re.compile(r"-?[0-9]+(?:\.[0-9]+)?")
BLANK_INLINE = re.compile(r" +")
BLANK_INLINE_OPT = re.compile(r" *")
BLANK = re.compile(r"(?:\r\n|[ \n])*")
# blank_block: whole blank lines; ends at the start of a line
BLANK_BLOCK = re.compile(r"(?: *(?:\r\n|\n))+")
TEXT = re.compile(r"(?:[^{}\r\n]|\r(?!\n))+")
QUOTED = re.compile(r'(?:[^"\\\r\n]|\r(?!\n)|\\["\\]|\\u[0-9a-fA-F]{4}|\\U[0-9a-fA-F]{6})*')
LINE_END = re.compile(r"\r\n|\n|\Z")
COMMENT_LINE = re.compile(r"(###|##|#)(?: ((?:[^\r\n]|\r(?!\n))*))?(\r\n|\n|\Z)")
JUNK_LINE = re.compile(r"[^\n]*(?:\n|\Z)")
FN = re.compile(r"[A-Z][A-Z0-9_-]*\Z")


def _n(type_, start, end, **kw):
    d = {"type": type_, "span": (start, end)}
    d.update(kw)
    return d


class Broken(Exception):
    pass


class RefParser:
    def __init__(self, src):
        self.s = src
        self.n = len(src)

    # ------------------------------------------------------------- lexical
    def at(self, i, t):
        return self.s.startswith(t, i)

    def blank(self, i):
        return BLANK.match(self.s, i).end()

    def blank_inline(self, i):
        return BLANK_INLINE_OPT.match(self.s, i).end()

    def line_end(self, i):
        m = LINE_END.match(self.s, i)
        return m.end() if m else None

    def identifier(self, i):
        m = ID.match(self.s, i)
        return (_n("Identifier", i, m.end(), name=m.group()), m.end()) if m else None

    def number(self, i):
        m = NUM.match(self.s, i)
        return (_n("NumberLiteral", i, m.end(), value=m.group()), m.end()) if m else None

    def string(self, i):
        if not self.at(i, '"'):
            return None
        m = QUOTED.match(self.s, i + 1)
        if not self.at(m.end(), '"'):
            return None
        return _n("StringLiteral", i, m.end() + 1, value=m.group()), m.end() + 1

    # ------------------------------------------------------------- expressions
    def inline(self, i):
        r = self.string(i) or self.number(i) or self.function(i) or self.msgref(i) or self.termref(i) or self.varref(i)
        return r or self.placeable(i)

    def function(self, i):
        r = self.identifier(i)
        if not r or not FN.match(r[0]["name"]):
            return None
        a = self.callargs(self.blank(r[1]))
        if not a:
            return None
        return _n("FunctionReference", i, a[1], id=r[0], arguments=a[0]), a[1]

    def accessor(self, i):
        if not self.at(i, "."):
            return None
        return self.identifier(i + 1)

    def msgref(self, i):
        r = self.identifier(i)
        if not r:
            return None
        a = self.accessor(r[1])
        e = a[1] if a else r[1]
        return _n("MessageReference", i, e, id=r[0], attribute=a[0] if a else None), e

    def termref(self, i):
        if not self.at(i, "-"):
            return None
        r = self.identifier(i + 1)
        if not r:
            return None
        a = self.accessor(r[1])
        e = a[1] if a else r[1]
        c = self.callargs(self.blank(e))
        e2 = c[1] if c else e
        return _n("TermReference", i, e2, id=r[0], attribute=a[0] if a else None, arguments=c[0] if c else None), e2

    def varref(self, i):
        if not self.at(i, "$"):
            return None
        r = self.identifier(i + 1)
        return (_n("VariableReference", i, r[1], id=r[0]), r[1]) if r else None

    def callargs(self, i):
        if not self.at(i, "("):
            return None
        j = self.blank(i + 1)
        pos, named, names = [], [], set()
        while True:
            a = self.argument(j)
            if a is None:
                break
            node, j = a
            if node["type"] == "NamedArgument":
                if node["name"]["name"] in names:
                    return None  # named arguments must be unique
                names.add(node["name"]["name"])
                named.append(node)
            elif named:
                return None  # positional arguments must not follow named ones
            else:
                pos.append(node)
            k = self.blank(j)
            if not self.at(k, ","):
                j = k
                break
            j = self.blank(k + 1)
        j = self.blank(j)
        if not self.at(j, ")"):
            return None
        return _n("CallArguments", i, j + 1, positional=pos, named=named), j + 1

    def argument(self, i):
        r = self.identifier(i)
        if r:
            j = self.blank(r[1])
            if self.at(j, ":"):
                v = self.blank(j + 1)
                lit = self.string(v) or self.number(v)
                if lit:
                    return _n("NamedArgument", i, lit[1], name=r[0], value=lit[0]), lit[1]
        return self.inline(i)

    # ------------------------------------------------------------- placeables
    def placeable(self, i):
        if not self.at(i, "{"):
            return None
        j = self.blank(i + 1)
        e = self.inline(j)
        if not e:
            return None
        expr, k = e
        b = self.blank(k)
        if self.at(b, "->"):
            t = expr["type"]
            if t in ("MessageReference", "Placeable") or (t == "TermReference" and expr["attribute"] is None):
                return None  # not a selector
            vs = self.variants(self.blank_inline(b + 2))
            if vs is None:
                return None
            variants, k = vs
            end = self.blank(k)
            expr = _n("SelectExpression", j, end, selector=expr, variants=variants)
        else:
            end = b
            if expr["type"] == "TermReference" and expr["attribute"] is not None:
                return None  # term attributes are not placeable
        if not self.at(end, "}"):
            return None
        return _n("Placeable", i, end + 1, expression=expr), end + 1

    def variants(self, i):
        out = []
        defaults = 0
        while True:
            e = self.line_end(i)
            if e is None or e == i:
                break
            j = self.blank(e)
            v = self.variant(j)
            if v is None:
                break
            out.append(v[0])
            defaults += v[0]["default"]
            i = v[1]
        if defaults != 1:
            return None
        e = self.line_end(i)
        return (out, e) if e is not None else None

    def variant(self, i):
        j = i
        default = False
        if self.at(j, "*"):
            default = True
            j += 1
        if not self.at(j, "["):
            return None
        k = self.blank(j + 1)
        key = self.number(k) or self.identifier(k)
        if not key:
            return None
        k = self.blank(key[1])
        if not self.at(k, "]"):
            return None
        p = self.pattern(k + 1)
        if p is None:
            return None
        return _n("Variant", i, p[1], key=key[0], value=p[0], default=default), p[1]

    # ------------------------------------------------------------- patterns
    def pattern(self, i):
        """blank_inline? Pattern, from just after '=' or ']'."""
        items = []  # ("text", value, start, end) | ("indent", newlines, width, start, end) | ("node", node)
        p = self.blank_inline(i)
        pos = p
        if LINE_END.match(self.s, p):
            # must start on a later line
            bb = BLANK_BLOCK.match(self.s, p)
            if not bb:
                return None
            pos = bb.end()
            w = self.blank_inline(pos) - pos
            if not self._continues(pos, w):
                return None
            items.append(("indent", "", w, pos, pos + w))
            start = pos
            pos += w
        else:
            start = p
        while True:
            m = TEXT.match(self.s, pos)
            if m:
                items.append(("text", m.group(), pos, m.end()))
                pos = m.end()
                continue
            if self.at(pos, "{"):
                r = self.placeable(pos)
                if r is None:
                    raise Broken  # a malformed placeable breaks the whole entry
                items.append(("node", r[0]))
                pos = r[1]
                continue
            bb = BLANK_BLOCK.match(self.s, pos)
            if bb and self.s[pos:pos + 1] in ("\r", "\n"):
                ls = bb.end()
                w = self.blank_inline(ls) - ls
                if self._continues(ls, w):
                    items.append(("indent", "\n" * bb.group().count("\n"), w, pos, ls + w))
                    pos = ls + w
                    continue
            break
        if not any(it[0] != "indent" for it in items):
            return None
        return self._dedent(items, start, pos)

    def _continues(self, ls, w):
        """Does the line whose indent is s[ls:ls+w] continue a pattern?"""
        c = self.s[ls + w:ls + w + 1]
        if c == "{":
            return True
        if w == 0 or c == "" or c in "}[*.\n":
            return False
        return not self.at(ls + w, "\r\n")

    def _dedent(self, items, start, end):
        indents = [it[2] for it in items if it[0] == "indent"]
        common = min(indents) if indents else 0
        elems = []

        def add(v, a, b):
            if not v:
                return
            if elems and elems[-1]["type"] == "TextElement":
                elems[-1]["value"] += v
                elems[-1]["span"] = (elems[-1]["span"][0], b)
            else:
                elems.append(_n("TextElement", a, b, value=v))

        for it in items:
            if it[0] == "text":
                add(it[1], it[2], it[3])
            elif it[0] == "indent":
                add(it[1] + " " * (it[2] - common), it[3], it[4])
            else:
                elems.append(it[1])
        if elems and elems[-1]["type"] == "TextElement":
            v = elems[-1]["value"].rstrip(" \n\r")
            if v:
                elems[-1]["value"] = v
            else:
                elems.pop()
        return _n("Pattern", start, end, elements=elems), end

    # ------------------------------------------------------------- entries
    def attributes(self, i):
        out = []
        while True:
            e = self.line_end(i)
            if e is None or e == i:
                break
            j = self.blank(e)
            if not self.at(j, "."):
                break
            r = self.identifier(j + 1)
            if not r:
                raise Broken  # a malformed attribute breaks the whole entry
            k = self.blank_inline(r[1])
            if not self.at(k, "="):
                raise Broken
            p = self.pattern(k + 1)
            if p is None:
                raise Broken
            out.append(_n("Attribute", j, p[1], id=r[0], value=p[0]))
            i = p[1]
        return out, i

    def entry(self, i):
        try:
            return self._entry(i)
        except Broken:
            return None

    def _entry(self, i):
        s0 = i
        is_term = self.at(i, "-")
        r = self.identifier(i + 1 if is_term else i)
        if not r:
            return None
        j = self.blank_inline(r[1])
        if not self.at(j, "="):
            return None
        p = self.pattern(j + 1)
        after = p[1] if p else self.blank_inline(j + 1)
        attrs, k = self.attributes(after)
        if p is None and (is_term or not attrs):
            return None
        e = self.line_end(k)
        if e is None:
            return None
        return _n("Term" if is_term else "Message", s0, k, id=r[0], value=p[0] if p else None, attributes=attrs, comment=None), e

    KIND = {"#": "Comment", "##": "GroupComment", "###": "ResourceComment"}

    def parse(self):
        body = []
        i = 0
        gap = True  # a blank line (or the start) since the last entry
        while i < self.n:
            bb = BLANK_BLOCK.match(self.s, i)
            if bb:
                i = bb.end()
                gap = True
                continue
            if self.blank_inline(i) == self.n:
                break
            m = COMMENT_LINE.match(self.s, i)
            if m:
                kind = self.KIND[m.group(1)]
                text = m.group(2) or ""
                end = m.start(3)
                prev = body[-1] if body else None
                if prev and not gap and prev["type"] == kind and prev["_end"] == i:
                    prev["content"] += "\n" + text
                    prev["span"] = (prev["span"][0], end)
                    prev["_end"] = m.end()
                else:
                    body.append(_n(kind, i, end, content=text, _end=m.end()))
                i = m.end()
                gap = False
                continue
            r = self.entry(i)
            if r:
                node, i2 = r
                prev = body[-1] if body else None
                if prev and not gap and prev["type"] == "Comment" and prev["_end"] == i:
                    body.pop()
                    node["comment"] = prev
                    node["span"] = (prev["span"][0], node["span"][1])
                body.append(node)
                i = i2
                gap = False
                continue
            start = i
            i = JUNK_LINE.match(self.s, i).end()
            while i < self.n and not (self.s[i] in "#-" or (self.s[i].isascii() and self.s[i].isalpha())):
                i = JUNK_LINE.match(self.s, i).end()
            body.append(_n("Junk", start, i, content=self.s[start:i]))
            gap = False
        for e in body:
            e.pop("_end", None)
            if e.get("comment"):
                e["comment"].pop("_end", None)
        return body


def parse(src):
    """List of entry nodes with spans; adjacent Junk is merged by merge_junk."""
    return RefParser(src).parse()


def merge_junk(body, keep=("content", "span")):
    out = []
    for e in body:
        if e["type"] == "Junk":
            if out and out[-1]["type"] == "Junk" and out[-1]["span"][1] == e["span"][0]:
                out[-1] = {"type": "Junk", "content": out[-1]["content"] + e["content"], "span": (out[-1]["span"][0], e["span"][1])}
            else:
                out.append({"type": "Junk", "content": e["content"], "span": tuple(e["span"])})
        else:
            out.append(e)
    return out


def tuple_spans(j):
    """to_json output with Span objects turned into (start, end)."""
    if isinstance(j, dict):
        if j.get("type") == "Span":
            return (j["start"], j["end"])
        return {k: tuple_spans(v) for k, v in j.items()}
    if isinstance(j, list):
        return [tuple_spans(x) for x in j]
    return j
