"""S01-S08, S10, S11: the parser."""
from .. import env  # noqa: F401
from .. import gen, mast as M, refparse as R
from ..engine import Discard, Property, Segment, Violation, alone

from fluent.syntax import FluentParser, ast, parse

ENTRY_TYPES = ("Message", "Term", "Comment", "GroupComment", "ResourceComment", "Junk")
PROPS = {}


def js(res):
    return res.to_json()


def fail(msg, *a):
    raise Violation(msg.format(*a) if a else msg)


def check_eq(got, want, what):
    df = M.diff(got, want)
    if df:
        fail("{}: {}", what, df)


# --------------------------------------------------------------------------- S01
SURR = ["\ud800", "\udfff", "\ufffe", "\uffff", "\U0010ffff"]


def wild_source(d):
    src = gen.any_source(d)
    if d.chance(1, 12):
        i = d.draw(len(src))
        src = src[:i] + d.choice(SURR) + src[i:]
        d.label("odd code point")
    if d.chance(1, 15):
        n = 1 + d.draw(40)
        i = d.draw(len(src))
        src = src[:i] + d.choice(["{", "{{", "{ $x ->\n [a] ", "F(", "{ F(", "\n", " ", "#", "x: 1,", "\\", "\"", "{ \"", "[", "*["]) * n + src[i:]
        d.label("long repetition")
    return src


def total_case(d):
    src = wild_source(d)
    d.show(src)
    spans = not d.chance(1, 4)
    p = FluentParser(with_spans=spans) if not spans or d.chance(1, 2) else FluentParser()
    res = p.parse(src)
    if not isinstance(res, ast.Resource):
        fail("parse returned {}", type(res).__name__)
    j = js(res)
    for e in j["body"]:
        if e["type"] not in ENTRY_TYPES:
            fail("body holds a {}", e["type"])
        if e["type"] == "Junk":
            if not e["annotations"]:
                fail("Junk without an annotation: {}", e["content"])
            for a in e["annotations"]:
                if a["type"] != "Annotation" or not isinstance(a["code"], str) or not a["code"] or not isinstance(a["message"], str) or not a["message"]:
                    fail("Junk annotation without code or message: {}", a)
    d.nontrivial(any(e["type"] == "Junk" for e in j["body"]) or len(j["body"]) > 1)
    d.label("has junk" if any(e["type"] == "Junk" for e in j["body"]) else "no junk")
    # the parser keeps nothing between calls, and the source is all that matters
    other = gen.tiny(d) if d.chance(1, 2) else gen.soup(d, 12)
    p.parse(other)
    if d.chance(1, 2):
        p.parse_entry(other) if other.strip() else None
    check_eq(js(p.parse(src)), j, "second parse by the same parser differs")
    check_eq(js(FluentParser(with_spans=spans).parse(src)), j, "parse by a fresh parser differs")
    check_eq(js(parse(src, with_spans=spans)), j, "fluent.syntax.parse differs from FluentParser.parse")
    check_eq(js(res), j, "a later parse changed an earlier result")
    # no shared nodes between results
    ids = set(map(id, all_nodes(res)))
    if any(id(n) in ids for n in all_nodes(p.parse(src))):
        fail("two results share nodes")


def all_nodes(n):
    out = []
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, ast.BaseNode):
            out.append(x)
            stack.extend(vars(x).values())
        elif isinstance(x, list):
            stack.extend(x)
    return out


def deep_case(d):
    """Nesting well inside the recursion limit must parse."""
    n = 1 + d.draw(50)
    k = d.draw(4)
    if k == 0:
        src = "a = " + "{" * n + " $x " + "}" * n + "\n"
    elif k == 1:
        src = "a = " + "{ F(" * (n // 2 + 1) + "1" + ") }" * (n // 2 + 1) + "\n"
        src = "a = { " + "F(" * n + "1" + ")" * n + " }\n"
    elif k == 2:
        n = 1 + n // 3
        src = "a = " + "{ $x ->\n *[a] " * n + "b" + "\n}" * n + "\n"
    elif k == 3:
        src = "a = " + "{" * n + "\nb = c\n"
    else:
        src = "a = { " + "-t(" * 1 + "{" * n + "1" + "}" * n + ") }\n"
    d.show(src)
    d.label("deep:%d" % k)
    d.nontrivial()
    j = js(parse(src))
    junk = [e for e in j["body"] if e["type"] == "Junk"]
    if (k == 3) != bool(junk):
        fail("nesting of depth {} gives {}", n, [e["type"] for e in j["body"]])
    if k == 3 and [e["type"] for e in j["body"]] != ["Junk", "Message"]:
        fail("unclosed nesting of depth {} gives {}", n, [e["type"] for e in j["body"]])


def vandalize(n, k):
    """Changes a tree that was handed out: it belongs to the caller."""
    for i, x in enumerate(all_nodes(n)):
        if (i + k) % 3:
            continue
        for f, v in list(vars(x).items()):
            if isinstance(v, list):
                v.append("vandal") if k % 2 else v.clear()
            elif isinstance(v, str):
                setattr(x, f, v + "vandal")
            elif isinstance(v, bool):
                setattr(x, f, not v)
            elif isinstance(v, int):
                setattr(x, f, v + 1)


def alone_case(d):
    """Every call of a history gives what it gives as the first call of a process."""
    srcs = []
    for _ in range(1 + d.draw(2)):
        s = d.choice([gen.any_source, gen.tiny, gen.tiny])(d)
        srcs.append(s)
        k = d.draw(6)
        if k == 1:
            srcs.append(s + d.choice(["\n", " ", "x", "}", "\n    .a = b\n"]))
        elif k == 2:
            srcs.append(d.choice(["\n", "# c\n", "z = z\n", " "]) + s)
        elif k == 3:
            srcs.append(s.replace("\n", "\r\n"))
        elif k == 4:
            srcs.append(s.rstrip())
        elif k == 5 and s:
            i = d.draw(len(s) - 1)
            srcs.append(s[:i] + d.choice("ab}{ .=\n\"1") + s[i + 1:])
        elif k == 6:
            srcs.append(s.swapcase())
    calls = [(d.draw(3), d.chance(1, 4), d.draw(len(srcs) - 1), d.draw(6)) for _ in range(2 + d.draw(6))]
    d.show({"sources": srcs, "calls": calls})
    d.nontrivial(len(set(c[:3] for c in calls)) > 1)

    def one(parsers, call):
        how, nospans, i, v = call
        if how == 0:
            r = parse(srcs[i], with_spans=not nospans)
        else:
            if (how, nospans) not in parsers or how == 1:
                parsers[how, nospans] = FluentParser(with_spans=not nospans)
            p = parsers[how, nospans]
            r = p.parse_entry(srcs[i]) if how == 3 else p.parse(srcs[i])
        j = js(r)
        vandalize(r, v)
        return j
    got = alone(lambda: [one(ps, c) for ps in [{}] for c in calls])
    for k in sorted({len(calls) - 1, d.draw(len(calls) - 1), d.draw(len(calls) - 1)}):
        want = alone(lambda: one({}, calls[k]))
        check_eq(got[k], want, f"call {k} after others, against the same call made first in a process")


PROPS["S01"] = Property(
    "S01",
    "Sources are grammar-generated resources in random layouts, mutations of them, token soup, strings over the grammar's own alphabet, corpus lines and mutations (plus odd code points and long repetitions). Histories of two to eight calls on related sources, the results changed by the caller in between, are compared call by call with the same call made first in a fresh process. Non-trivial: at least two entries or some Junk.",
    [Segment("alone", alone_case, 1500), Segment("total", total_case, 14000), Segment("deep", deep_case, 600)],
    ["nesting deeper than about 50 levels is out of this check's domain (recorded finding: recursion limit)"],
    probes=[("deep-nesting", lambda: _raises(RecursionError, lambda: parse("a = " + "{" * 2000)))],
)


def _raises(exc, fn):
    try:
        fn()
    except exc:
        return True
    return False


# --------------------------------------------------------------------------- S02
def is_blank(s):
    return all(c in " \n\r" for c in s) and "\r" not in s.replace("\r\n", "\n")


def span(n):
    return n.span.start, n.span.end


def tile_case(d):
    src = gen.large(d, wild_source(d), 400)
    d.show(src)
    res = parse(src)
    d.nontrivial(len(res.body) > 1)
    d.label("entries:%d" % min(len(res.body), 6))
    if span(res) != (0, len(src)):
        fail("resource span {} does not cover the source of length {}", span(res), len(src))
    pos = 0
    for i, e in enumerate(res.body):
        a, b = span(e)
        if not (pos <= a < b <= len(src)):
            fail("entry {} ({}) has span {} after position {} in a source of length {}", i, type(e).__name__, (a, b), pos, len(src))
        if not is_blank(src[pos:a]):
            fail("source {!r} before entry {} belongs to no entry", src[pos:a], i)
        if isinstance(e, ast.Junk):
            d.label("junk")
            if e.content != src[a:b]:
                fail("Junk content {!r} is not its slice {!r}", e.content, src[a:b])
            for an in e.annotations:
                x, y = span(an)
                if not (a <= x <= y <= b):
                    fail("annotation at {} outside its Junk at {}", (x, y), (a, b))
        elif isinstance(e, (ast.Message, ast.Term)):
            if e.comment is not None:
                d.label("attached comment")
                ca, cb = span(e.comment)
                if not (a == ca < cb < e.id.span.start):
                    fail("comment at {} of an entry at {} with its id at {}", (ca, cb), (a, b), e.id.span.start)
                if not is_blank(src[cb:e.id.span.start].replace("-", "", 1)):
                    fail("source {!r} between comment and entry", src[cb:e.id.span.start])
            last = e.attributes[-1] if e.attributes else e.value
            if last.span.end != b:
                fail("entry ends at {} but its last part ends at {}", b, last.span.end)
            # no part of the entry's own line structure is skipped: everything but
            # blanks, '=', '.', '-' lies in one of its parts
            parts = ([e.comment] if e.comment else []) + [e.id] + ([e.value] if e.value else []) + list(e.attributes)
            p = a
            for part in parts:
                x, y = span(part)
                if x < p:
                    fail("parts of entry overlap at {}", x)
                if src[p:x].replace("=", "", 1).replace("-", "", 1).strip(" \r\n"):
                    fail("source {!r} inside an entry belongs to no part", src[p:x])
                p = y
        pos = b
    if not is_blank(src[pos:]):
        fail("source {!r} after the last entry belongs to no entry", src[pos:])


PROPS["S02"] = Property(
    "S02", "Sources of all kinds (see S01); non-trivial: at least two entries.", [Segment("tile", tile_case, 22000)],
)


# --------------------------------------------------------------------------- S03
def construct_case(d):
    res = gen.resource(d, gen.DEFAULT, 4)
    src = gen.render(d, res)
    d.show(src)
    types = {n.get("type") for n in M.walk(res)}
    d.label(*sorted("has " + t for t in types))
    d.nontrivial(len(types) > 6)
    check_eq(M.strip(js(parse(src))), res, "parse differs from the resource that was written")


def conform_case(d):
    src = gen.any_source(d)
    d.show(src)
    got = parse(src)
    want = R.merge_junk(R.parse(src))
    gotj = R.merge_junk(R.tuple_spans(js(got))["body"])
    kinds = [e["type"] for e in want]
    d.label("junk" if "Junk" in kinds else "clean")
    d.nontrivial(len(kinds) > 1)
    strip = lambda b: [M.strip(e) for e in b]
    check_eq(strip(gotj), strip(want), "parse differs from the reference grammar")


# one expression or entry fragment at a time, enumerated densely
FRAG_HEAD = ["{ ", "{", "{  \n "]
FRAG_EXPR = ["$x", "$", "x", "x.y", "x.", "-x", "-x.y", "- x", "-x.y.z", "X", "X()", "x()", "X ()", "-x()", "-x.y()", "X.y()", "\"\"", "\"a\"", "\"\\\"\"", "\"\\\\\"", "\"\\a\"", "\"\\u00g0\"", "\"\\u0041\"", "\"\\U01F60\"", "\"\\U01F602\"", "\"a", "1", "-1", "1.", ".1", "1.0", "--1", "-", "{1}", "{{1}}", "{}", "{ }", "{x}", "{-x.y}", "X(1)", "X(1, 2)", "X(1 2)", "X(1,)", "X(,)", "X(,1)", "X(a: 1)", "X(a: \"b\")", "X(a: $b)", "X(a: b)", "X(a: 1, 2)", "X(a: 1, a: 2)", "X(a : 1)", "X(a.b: 1)", "X(1: 1)", "X(-x.y)", "X(-x)", "X({1})", "X(X(1))", "X(\n1\n,\n2\n)", "X(a: -1.5)", "X(", "X(1", "XY_-0()", "X0y()", "x-Y()", "é", "", "$x.y", "$-x", "$1", "X(a)", "X(x())", "X(a:1b)", "1a", "\"a\"b", "X()()", "-x(a: 1)", "-x(1)", "-x.y(a: 1)"]
FRAG_MID = ["", "", "", " ->\n*[a] b\n", " -> \n [a] b\n *[c] d\n", "->*[a] b\n", " -> [a] b\n", " ->\n[a] b\n", " ->\n*[a] b\n*[c] d\n", " ->\n*[a]\n", " ->\n*[ 1 ] b\n", " ->\n*[1.0] b\n [-0] c\n", " ->\n*[a b] c\n", " ->\n*[] c\n", " ->\n* [a] c\n", " ->\n*[\na\n] c\n", " ->\n*[a] b", " - >\n*[a] b\n", " ->\n\n  *[a]\n  b\n\n", " ->\n*[a] { $y ->\n*[b] c\n}\n", " ->\n*[a] b }", " ->\n", " ->", " - ", " ->\n*[a] b\n.c = d\n", " ->\n*[a] b\n  {1}\n", " ->\n *[a] b\n c\n", " ->\n *[a] [b] c\n", " ->\n [[a]] b\n *[c] d\n", " ->\n *[\"a\"] b\n", " ->\n *[$a] b\n", " ->\n *[-a] b\n", " ->\n *[a]b\n"]
FRAG_TAIL = [" }", "}", "", " } ", "}}", "\n}", "  \n  }", " }\n}", "} b", " x }"]
FRAG_PRE = ["a = ", "-a = ", "a =\n ", "a =\n", "a = b\n ", "a = b\n", "a =\n .b = ", "a =\n .b =\n", "a = b\n .c = ", "a=", "A_0-=  ", "a = b {1}", "a =\n  b\n ", "a = {1}\n", "# c\na = "]
FRAG_POST = ["\n", "", "\n .z = y\n", "\nq = r\n", "\n q\n", "\n\n q\n", "\r\n", "\n# c\n", "\n{ 1 }\n", "\n [a] b\n", "\n }\n", "\n.z = y", "\n .z\n", "\n .z =\n"]


def fragment_case(d):
    src = d.choice(FRAG_PRE) + d.choice(FRAG_HEAD) + d.choice(FRAG_EXPR) + d.choice(FRAG_MID) + d.choice(FRAG_TAIL) + d.choice(FRAG_POST)
    d.show(src)
    want = R.merge_junk(R.parse(src))
    d.label("junk" if any(e["type"] == "Junk" for e in want) else "clean")
    d.nontrivial()
    got = R.merge_junk(R.tuple_spans(js(parse(src)))["body"])
    check_eq([M.strip(e) for e in got], [M.strip(e) for e in want], "parse differs from the reference grammar")


def made_expr(d, depth=0):
    """An expression put together from parts, nearly always well-formed in each of them."""
    sp = lambda: d.choice(["", "", " ", " ", "\n  "])
    k = d.draw(9 if depth < 3 else 5)
    if k <= 3:
        return d.choice(["$x", "1", "-0.5", "\"s\"", "m", "m.a", "-t", "F()", "-t.a", "{ $y }", "{\"\"}"])
    if k <= 7:
        args = []
        named = False
        for _ in range(d.size(5, 2, 3)):
            if d.chance(1, 2) if not named else d.chance(9, 10):
                named = True
                args.append(d.choice(["a", "b", "c", "A", "ab"]) + str(d.choice(["", "", 1, 2, "-", "_"])) + sp() + ":" + sp() + (d.choice(["1", "\"v\"", "-2.50", "\"\""]) if d.chance(24, 25) else made_expr(d, depth + 1)))
            else:
                args.append(made_expr(d, depth + 1))
        return d.choice(["F", "G-1", "NUMBER", "-t", "-t.a", "-tt"]) + sp() + "(" + sp() + (sp() + "," + sp()).join(args) + (d.choice(["", ","]) if args else "") + sp() + ")"
    n = 1 + d.size(4, 1, 2)
    default = d.draw(n - 1)
    src = d.choice(["$x", "1", "\"s\"", "F()", "-t.a", "-t.a(b: 1)", "m", "-t", "{ $y }"][:6 if d.chance(7, 8) else 9]) + sp() + "->" + d.choice(["", " "]) + "\n"
    for i in range(n):
        src += " " * d.draw(4) + ("*" if (i == default) != d.chance(1, 30) else "") + "[" + sp() + d.choice(["a", "one", "1", "-1.5", "b-c", "0"]) + sp() + "]" + d.choice([" ", "", "\n  "])
        src += (d.choice(["v", "w w", "v\n   w"]) if d.chance(1, 2) else d.choice(["", "t "]) + "{ " + made_expr(d, depth + 1) + " }") + "\n" * d.choice([1, 1, 2])
    return src + " " * d.draw(2)


def made_case(d):
    src = d.choice(FRAG_PRE) + d.choice(FRAG_HEAD) + made_expr(d) + d.choice([" }", "}", "\n}"]) + d.choice(["\n", "", "\nq = r\n", " t\n", " { $y }\n .z = y\n"])
    d.show(src)
    want = R.merge_junk(R.parse(src))
    d.label("junk" if any(e["type"] == "Junk" for e in want) else "clean")
    d.nontrivial(len(src) > 20)
    got = R.merge_junk(R.tuple_spans(js(parse(src)))["body"])
    check_eq([M.strip(e) for e in got], [M.strip(e) for e in want], "parse differs from the reference grammar")


HEADS = ["a", "-a", "A-b_9", "a.b", "1a", "é", "_a", "-", "--a", "a b", ".a", "$a", "-A", "[a]", "*", "a-", "-a-", "a_", "-1", " a", "\ta", "\ufeffa"]
EQS = [" = ", "=", " =", "= ", "  =  ", "", " ", " == ", "\t= ", "\n= ", " =\t", " =\r\n", " =\n"]
VALS = ["b", "", " ", "\n b", "\nb", "\n  b\n c", "\n\n\n b", "[b]", ".b", "*b", "\n [b]", "\n .b", "\n *b", "}b", "\n }b", "\n .b = c", "\n.b = c", "\n .b = c\n .d = e", "\n .b =", "\n .b", "\n . b = c", "\n .b= \n  c", "b\n .c = d", "b\n.c = d", "b\n\n .c = d", "b\n  c\n\n\n d", "b \n  \n c ", "\"b\"", "#b", "-b", "\n #b", "\n -b", "\n\tb", "\tb", "b\tc", "b\r", "\r b", "b\rc", "\u2028b", "b\n \n", "b\n .1 = c", "b\n .c-_d = e", "{\"\"}", "{\"\"}\n {\"\"}", " b\n   c\n  d", "\n   b\n  c\n d", "\n b\n{1}", "\n{1}\n b", "\n  {1}\n b\n   c"]


def line_case(d):
    src = d.choice(["", "# c\n", "## c\n", "\n", "x = y\n", "#\n", "# c\n\n", "### c\n# d\n", "#c\n", "x\n"]) + d.choice(HEADS) + d.choice(EQS) + d.choice(VALS) + d.choice(["\n", "", "\nx = y\n", "\n# c", "\n\n", "\n  "])
    d.show(src)
    want = R.merge_junk(R.parse(src))
    d.label("junk" if any(e["type"] == "Junk" for e in want) else "clean")
    d.nontrivial()
    got = R.merge_junk(R.tuple_spans(js(parse(src)))["body"])
    check_eq([M.strip(e) for e in got], [M.strip(e) for e in want], "parse differs from the reference grammar")


# Every place where a class of characters decides, filled with the characters at
# (and around) the edges of all the classes.
EDGES = list("/0189:;@AFGZ[`afgz{|}_-. \t\r\n\"\\#$(),*=>^~!%&'+<?]uU") + ["\r\n", "\x00", "\x1f", "\x7f", "\u00aa", "\u00b2", "\u00df", "\u0130", "\u0131", "\u017f", "\u0660", "\u0663", "\u212a", "\u2028", "\uff11", "\uff21", "\uff41", "\ud800", "\U0001d7d8", "\U00010400"]
HOLES = [
    "%s = b\n", "a%s = b\n", "a%sb = c\n", "-%s = b\n", "-a%s = b\n", "-a%sb = c\n", "a%s= b\n", "a =%sb\n", "a = %s\n", "a = b%s\n", "a = b%sc\n", "a = b\n%s\n", "a = b\n %s\n", "a = b\n %sc\n", "a = b\n%s c\n", "a =\n %s\n", "a =\n%sb\n", "a =\n %sb\n",
    "a =\n .%s = b\n", "a =\n .b%s = c\n", "a =\n .b%sc = d\n", "a = b\n%s.c = d\n", "a = b\n %s.c = d\n", "a = b\n .c = d%s\n", "a = b\n .c =%s\n", "a = b%s\n .c = d\n",
    "a = { $%s }\n", "a = { $x%s }\n", "a = { $x%sy }\n", "a = {%s$x}\n", "a = {$x%s}\n", "a = { x%s }\n", "a = { x%sy }\n", "a = { %s }\n", "a = { %sx }\n", "a = { x.%s }\n", "a = { x.y%s }\n", "a = { -%s }\n", "a = { -x%s }\n", "a = { -x%sy }\n", "a = { -x.y%s ->\n *[a] b\n }\n", "a = { -x.%s ->\n *[a] b\n }\n",
    "a = { A%s() }\n", "a = { A%sB() }\n", "a = { %sA() }\n", "a = { A%s(1) }\n", "a = { A(%s) }\n", "a = { A(1%s) }\n", "a = { A(1%s2) }\n", "a = { A(%s1) }\n", "a = { A(x%s1) }\n", "a = { A(x%s:1) }\n", "a = { A(x:%s1) }\n", "a = { A(x: 1%s) }\n", "a = { A(x: %s) }\n", "a = { A(x: \"%s\") }\n", "a = { -t%s(x: 1) }\n", "a = { -t(%s) }\n", "a = { A(1,%s) }\n", "a = { A(1)%s }\n",
    "a = { 1%s }\n", "a = { 1.%s }\n", "a = { 1.5%s }\n", "a = { 1%s5 }\n", "a = { -%s }\n", "a = { -1%s }\n", "a = { %s1 }\n", "a = { -%s1 }\n", "a = { 1.%s5 }\n",
    "a = { \"%s\" }\n", "a = { \"b%sc\" }\n", "a = { \"\\%s\" }\n", "a = { \"\\u%s\" }\n", "a = { \"\\u00%s0\" }\n", "a = { \"\\u%s000\" }\n", "a = { \"\\u000%s\" }\n", "a = { \"\\U%s00000\" }\n", "a = { \"\\U00000%s\" }\n", "a = { \"\\U00%s000\" }\n", "a = { \"b\"%s }\n", "a = { %s\"b\" }\n", "a = { \"b%s }\n",
    "a = { $x%s->\n *[a] b\n }\n", "a = { $x -%s>\n *[a] b\n }\n", "a = { $x ->%s\n *[a] b\n }\n", "a = { $x ->%s*[a] b\n }\n", "a = { $x ->\n%s*[a] b\n }\n", "a = { $x ->\n *%s[a] b\n }\n", "a = { $x ->\n *[%sa] b\n }\n", "a = { $x ->\n *[a%s] b\n }\n", "a = { $x ->\n *[%s] b\n }\n", "a = { $x ->\n *[a%sb] c\n }\n", "a = { $x ->\n *[1%s] b\n }\n", "a = { $x ->\n *[1.%s] b\n }\n", "a = { $x ->\n *[-%s] b\n }\n", "a = { $x ->\n *[a]%sb\n }\n", "a = { $x ->\n *[a] b%s}\n", "a = { $x ->\n *[a] b\n%s}\n", "a = { $x ->\n *[a] b\n%s[c] d\n }\n", "a = { $x ->\n *[a] b\n }%s\n", "a = { $x ->\n *[a]\n%s b\n }\n",
    "#%s\n", "#%sa\n", "# a%sb\n", "##%s\n", "###%s\n", "# a%s\nb = c\n", "# a\n%sb = c\n", "%s# a\nb = c\n", "# a\n%s# b\n", "%s", "%sa = b\n", "a = b\n%sc = d\n", "a = b\n\n%s\nc = d\n",
]


def hole_case(d):
    s = "".join(d.choice(EDGES) for _ in range(d.weighted([(8, 1), (1, 0), (4, 2), (2, 3)])))
    h = d.choice(HOLES)
    src = h.replace("%s", s) + d.choice(["", "z = y\n"])
    if d.chance(1, 6):
        src = src[:-1]
    d.show(src)
    want = R.merge_junk(R.parse(src))
    d.label("junk" if any(e["type"] == "Junk" for e in want) else "clean")
    d.nontrivial()
    got = R.merge_junk(R.tuple_spans(js(parse(src)))["body"])
    check_eq([M.strip(e) for e in got], [M.strip(e) for e in want], "parse differs from the reference grammar")


PROPS["S03"] = Property(
    "S03",
    "hole: every place of the grammar where a character class decides, filled with the characters at the edges of all classes; construct: a random abstract resource is written in a random legal layout and must parse to itself; conform: any source must parse as the independent reference PEG parser says (adjacent Junk merged); fragment/line: dense combinations of near-legal expression and entry fragments, same oracle; made: calls with up to five arguments (repeated names, misplaced positionals, trailing commas) and select expressions (wrong selectors, missing or second defaults) nested in each other, same oracle. Non-trivial: more than 6 node types, or more than one entry, or any fragment.",
    [Segment("construct", construct_case, 8000), Segment("conform", conform_case, 12000), Segment("fragment", fragment_case, 26000), Segment("made", made_case, 12000), Segment("line", line_case, 12000), Segment("hole", hole_case, 25000)],
    ["an entry with a malformed attribute or placeable is Junk as a whole (the tooling parsers' documented difference from the pure PEG)"],
)


# --------------------------------------------------------------------------- S04
MALFORMED = ["foo", "foo =", "foo = ", "-foo =", "-foo", "foo = {", "foo = { $x", "foo = { $x ->", "foo = { $x ->\n    [one] a", "foo = { $x ->\n    [one] a\n   *[two", "foo = { \"abc", "foo = { NUMBER(", "foo = { NUMBER($x,", "foo = { NUMBER($x, a:", "foo = }", "foo = a\n    }", "foo = a {", "foo = a\n    b { -t.a }", "foo =\n    .attr", "foo = a\n    .attr =", "foo = a\n    .attr = {", "-t =\n    .a = b", "#bad", "####", "##bad\n", "1foo = bar", "[section]", "[[ section ]]", "// comment", "*[a] b", "}", "$x", "\"str\"", "foo bar = baz", "é = x", "foo = { fn() }", "foo = { \"\\x\" }", "foo = {\n\n\n", "foo = { $x ->\n\n\n", "foo = {\n    \"a\"\n    ", "foo = { {", "foo = { A(b:", "foo = { A(b:\n", "foo = { A(\n", "foo = { A(1,\n\n", "foo = { -t(\n", "foo = { -", "foo = { $", "foo = { x.", "foo = { -t.", "-", "- foo = x", "foo = { $x ->\n   *", "foo = { $x ->\n   *[", "foo = { $x ->\n   *[a]", "foo = { $x ->\n   *[a] b\n    .attr = x", "foo = { 1.", "foo = { \"\\u00", "foo = {-\n", "foo = { $x -", "foo = { x", "foo = { A", "=", "= x", "$", "\t", "\tfoo = bar", "foo\t= bar", "foo\n= bar"]


def malformed(d):
    k = d.draw(3)
    if k <= 1:
        m = d.choice(MALFORMED)
        if d.chance(1, 3):
            m = m + d.choice(["", " ", "\n    ", "\n  }", "\n\n\n", "\n    [a] b", "\n   *[a] b", "\n    .x = y", "\n]", "\n)", " {", "\n     text", "\n1 = a", "\n\""])
    else:
        full = gen.render(d, M.resource([gen.message(d, gen.SMALL) if d.chance(2, 3) else gen.term(d, gen.SMALL)]), nl=0)
        if d.chance(1, 3):
            full = d.choice(["foo = ", "-foo =\n  ", "foo = v\n  .a = "]) + "{ " + made_expr(d) + " }"
        m = full[:d.draw(len(full))] if k == 2 else gen.mutate(d, full)
    if d.chance(1, 30):
        i = d.draw(len(m))
        m = m[:i] + d.choice(["a", " ", "1", "-", "é", "x ", "\n", "\n "]) * d.choice([50, 300, 600, 1500]) + m[i:]
    if not m.endswith("\n"):
        m += "\n"
    m = m.replace("\r", "")
    if m[0] in " {.\n":
        m = "}" + m
    return m


def recovery_case(d):
    m = malformed(d)
    ref = R.parse(m)
    if not ref or any(e["type"] != "Junk" for e in ref) or ref[0]["span"][0] != 0:
        m = "foo = {\n"
    body = [gen.entry(d, gen.SMALL) for _ in range(2 + d.size(3, 1, 2))]
    at = d.draw(len(body))
    for e in body:
        # long lines, so that errors and line starts are far apart
        if d.chance(1, 30):
            if "id" in e:
                e["id"]["name"] += d.choice(["x", "_-", "a1"]) * d.choice([50, 300, 600, 1500, 5000])
                d.label("long id")
    nl = d.weighted([(4, 0), (1, 1)])
    L = gen.Layout(d, True, nl)
    before = gen.render(d, M.resource(body[:at]), layout=L) if at else ""
    after = gen.render(d, M.resource(body[at:]), layout=L) if at < len(body) else ""
    if before and not before.endswith("\n"):
        before += "\n"
    if nl == 1:
        m = m.replace("\n", "\r\n")
    src = before + m + after
    d.show(src)
    d.label("at start" if not at else "at end" if at == len(body) else "between")
    d.nontrivial(0 < at < len(body))
    got = js(parse(src))["body"]
    plain = [M.strip(e) for e in got if e["type"] != "Junk"]
    check_eq(plain, body, "entries around malformed text {!r} changed".format(m))
    idx = [i for i, e in enumerate(got) if e["type"] == "Junk"]
    if not idx:
        fail("malformed text {!r} left no Junk", m)
    if idx != list(range(at, at + len(idx))):
        fail("Junk at positions {} of the body, the malformed text is at {}", idx, at)
    content = "".join(got[i]["content"] for i in idx)
    want = src[len(before):got[idx[-1]]["span"]["end"]]
    if content != want or not content.startswith(m.rstrip(" \r\n")):
        fail("Junk {!r} does not hold the malformed text {!r}", content, m)
    if content[len(m):].strip(" \r\n"):
        fail("Junk {!r} reaches beyond the malformed text {!r}", content, m)


PROPS["S04"] = Property(
    "S04", "One malformed text (fixed kinds of breakage, truncations and mutations of entries, chosen so that alone it is all Junk) is put before, between or after generated well-formed entries. Non-trivial: well-formed entries on both sides.",
    [Segment("recovery", recovery_case, 22000)],
    ["the malformed text does not begin with a blank, '{' or '.', which would legally continue the entry before it"],
)


# --------------------------------------------------------------------------- S05
EXACT = {"Identifier", "StringLiteral", "NumberLiteral", "MessageReference", "TermReference", "VariableReference", "FunctionReference", "CallArguments", "NamedArgument", "Placeable", "SelectExpression", "Variant", "Attribute", "Pattern", "TextElement", "Message", "Term", "Comment", "GroupComment", "ResourceComment"}


def span_case(d):
    k = d.draw(3)
    if k == 0:
        src = gen.any_source(d)
    else:
        src = gen.render(d, gen.resource(d, gen.DEFAULT, 4))
    d.show(src)
    d.label("CRLF" if "\r\n" in src else "LF")
    res = parse(src)
    j = R.tuple_spans(js(res))
    want = R.merge_junk(R.parse(src))
    got = R.merge_junk(j["body"])
    d.nontrivial(any(e["type"] in ("Message", "Term") for e in got) and len(src) > 20)
    check_eq(got, want, "spans differ from the reference parser")
    check_nesting(j, 0, len(src), src)
    none = js(FluentParser(with_spans=False).parse(src))
    for n in M.walk(none):
        if n.get("span") is not None:
            fail("with_spans=False left a span on a {}", n["type"])
    check_eq(M.strip(none), M.strip(j), "with_spans=False changes the tree")


def check_nesting(n, lo, hi, src):
    """Spans lie within the parent's and siblings are ordered and disjoint."""
    t = n["type"]
    if n["span"] is None:
        fail("{} has no span", t)
    a, b = n["span"]
    if not (lo <= a <= b <= hi):
        fail("{} at {} is not within its parent at {}", t, (a, b), (lo, hi))
    if t == "Identifier" and src[a:b] != n["name"]:
        fail("Identifier {!r} at {!r}", n["name"], src[a:b])
    if t == "NumberLiteral" and src[a:b] != n["value"]:
        fail("NumberLiteral {!r} at {!r}", n["value"], src[a:b])
    if t == "StringLiteral" and src[a:b] != '"' + n["value"] + '"':
        fail("StringLiteral {!r} at {!r}", n["value"], src[a:b])
    if t == "Placeable" and not (src[a] == "{" and src[b - 1] == "}"):
        fail("Placeable at {!r}", src[a:b])
    if t == "CallArguments" and not (src[a] == "(" and src[b - 1] == ")"):
        fail("CallArguments at {!r}", src[a:b])
    kids = []
    for k, v in n.items():
        if isinstance(v, dict):
            kids.append(v)
        elif isinstance(v, list):
            kids += [x for x in v if isinstance(x, dict)]
    if t in ("Junk", "Annotation"):
        return
    if t in ("Message", "Term", "NamedArgument", "Variant"):
        pass
    kids.sort(key=lambda x: x["span"] or (-1, -1))
    pos = a
    for x in kids:
        check_nesting(x, pos, b, src)
        pos = x["span"][1]


PROPS["S05"] = Property(
    "S05", "Generated resources in random layouts (LF, CRLF, mixed) and sources of all kinds; every node's span is compared with the reference parser's, and literal/identifier slices, nesting and order are checked directly. Non-trivial: a message or term in a source of more than 20 characters.",
    [Segment("spans", span_case, 12000)],
    ["spans of adjacent Junk entries are compared merged"],
)


# --------------------------------------------------------------------------- S06
def crlf_case(d):
    src = gen.any_source(d) if d.chance(1, 2) else gen.render(d, gen.resource(d, gen.DEFAULT, 4), nl=0)
    src = src.replace("\r", "")
    mode = d.draw(1)
    bits = src.split("\n")
    out, marks = bits[0], []
    for b in bits[1:]:
        conv = mode == 0 or d.chance(1, 2)
        if conv:
            marks.append(len(out) - len(marks))  # source offset of this LF
        out += ("\r\n" if conv else "\n") + b
    d.show({"source": src, "converted": out})
    d.label("all" if mode == 0 else "subset")
    d.nontrivial(len(marks) > 1)
    crlf_check(src, out, marks)


ERRORS = ["m = { \"\\u12\" }", "m = { \"\\U0012\\\\\" }", "m = { \"ab", "m = { F($a, b: 1) }", "m = { -t.a(b: \"c\") -> *[x] y }", "### c", "-t = v"]


def crlf_break_case(d):
    """A line end put at every place of a short source, the rest kept or dropped."""
    src = d.choice(ERRORS) if d.chance(1, 3) else gen.render(d, gen.resource(d, gen.SMALL, 1), nl=0)
    src = src.replace("\r", "")[:160]
    keep = d.chance(1, 2)
    d.show({"source": src, "rest": "kept" if keep else "dropped"})
    d.label("kept" if keep else "dropped")
    d.nontrivial(len(src) > 4)
    for i in range(len(src) + 1):
        s = src[:i] + "\n" + (src[i:] if keep else "")
        marks, out = [], s.replace("\n", "\r\n")
        for j, ch in enumerate(s):
            if ch == "\n":
                marks.append(j)
        crlf_check(s, out, marks)


def crlf_check(src, out, marks):
    a, b = js(parse(src)), js(parse(out))
    import bisect

    def fix(n, path="$"):
        if isinstance(n, dict):
            if n.get("type") == "Span":
                # a position p in the source is p + (converted LFs before p) in the conversion
                return {"type": "Span", **{k: n[k] + bisect.bisect_left(marks, n[k]) for k in ("start", "end")}}
            return {k: fix(v) for k, v in n.items()}
        if isinstance(n, list):
            return [fix(x) for x in n]
        return n

    for e in M.walk(b):
        t = e.get("type")
        if t == "Junk":
            e["content"] = e["content"].replace("\r\n", "\n")
        elif t in ("TextElement", "StringLiteral") and "\r" in e["value"]:
            fail("{} {!r} holds a carriage return", t, e["value"])
        elif t in gen.SIGIL and e["content"] and "\r" in e["content"]:
            fail("{} {!r} holds a carriage return", t, e["content"])
    check_eq(M.strip(b), M.strip(a), "CRLF changes the resource")
    check_eq(b, fix(a), "CRLF moves a span to the wrong place")


PROPS["S06"] = Property(
    "S06", "CR-free sources of all kinds; all line ends or a random subset become CRLF; a line end put at every place of a short source. Non-trivial: at least two line ends converted (a source of more than four characters).", [
        Segment("crlf", crlf_case, 14000),
        Segment("breaks", crlf_break_case, 400),
    ],
)


# --------------------------------------------------------------------------- S07
PIECES = ["a", "b c", "Hello, world", "x ", "{ $v }", "{ \"s\" }", "{\"\"}", "{ 1 }", "é", "\u2028z", "-", "# no comment", "= x", "a.b", "\"q\"", "t\ty", "n\u00a0", "i\u3000", "v\x0b", "t\t", "p\u2029"]


def dedent_model(first_inline, lines):
    """lines: list of (indent, content) or None; the text with '{...}' kept as is."""
    solid = [(i, l) for i, l in enumerate(lines) if l is not None]
    counted = [l[0] for i, l in solid if not (i == 0 and first_inline)]
    common = min(counted) if counted else 0
    out = []
    for i, l in enumerate(lines):
        if l is None:
            out.append("")
        elif i == 0 and first_inline:
            out.append(l[1])
        else:
            out.append(" " * (l[0] - common) + l[1])
    return "\n".join(out)


def flatten(p):
    """Pattern as text with placeables written canonically."""
    s = ""
    for e in p["elements"]:
        if e["type"] == "TextElement":
            s += e["value"]
        else:
            x = e["expression"]
            s += {"VariableReference": "{ $v }", "NumberLiteral": "{ 1 }"}.get(x["type"]) or ('{ "s" }' if x["value"] else '{""}')
    return s


def dedent_case(d):
    n = 1 + d.weighted([(2, 1), (3, 2), (2, 0), (2, 3), (1, 6)])
    lines = []
    for i in range(n):
        if i and i < n - 1 and d.chance(1, 4):
            lines.append(None)
            continue
        c = "".join(d.choice(PIECES) for _ in range(1 + d.size(2, 1, 2)))
        lines.append([d.draw(6), c])
    if d.chance(1, 25):
        far = d.choice([50, 99, 255, 256, 300, 1024])
        for l in lines:
            if l and d.chance(3, 4):
                l[0] += far
        d.label("far right")
    first_inline = d.chance(1, 2)
    for i, l in enumerate(lines):
        if l is None:
            continue
        if i == 0 and first_inline:
            continue
        if l[0] == 0 and not l[1].startswith("{"):
            l[0] = 1 + d.draw(3)
    # trailing spaces of the last line are trimmed when they are text
    want = dedent_model(first_inline, lines)
    lastplain = want.rstrip(" \n")
    pos = d.choice(["message", "term", "attribute", "term attribute", "variant", "nested variant", "inner"])
    body = ""
    for i, l in enumerate(lines):
        if i == 0:
            if first_inline:
                body += d.choice([" ", "", "     "]) + l[1]
                continue
            body += d.choice(["", "  "])
            for _ in range(d.draw(2)):
                body += "\n" + d.choice(["", "   "])
        body += "\n"
        if l is None:
            body += d.choice(["", " ", "         "])
        else:
            body += " " * l[0] + l[1]
    body += d.choice(["", "", "   ", " \n  \n"])
    if d.chance(1, 4):
        body = body.replace("\n", "\r\n")
        d.label("CRLF")
    get = {
        "message": ("k =%s\n", lambda b: b[0]["value"]),
        "term": ("-k =%s\n", lambda b: b[0]["value"]),
        "attribute": ("k = v\n    .a =%s\n    .b = c\n", lambda b: b[0]["attributes"][0]["value"]),
        "term attribute": ("-k = v\n  .a = x\n  .a =%s\n", lambda b: b[0]["attributes"][1]["value"]),
        "variant": ("k = { $s ->\n  [a]%s\n *[b] c\n}\n", lambda b: b[0]["value"]["elements"][0]["expression"]["variants"][0]["value"]),
        "nested variant": ("k = z { $s ->\n  [a] { $t ->\n  *[q]%s\n}\n *[b] c\n}\n", lambda b: b[0]["value"]["elements"][1]["expression"]["variants"][0]["value"]["elements"][0]["expression"]["variants"][0]["value"]),
        "inner": ("k =\n        deep\n      { $s ->\n*[a]%s\n}\n     less\n", lambda b: b[0]["value"]["elements"][1]["expression"]["variants"][0]["value"]),
    }[pos]
    src = get[0] % body
    d.show(src)
    d.label("position " + pos, "inline first" if first_inline else "block first", "lines:%d" % n)
    d.nontrivial(n > 1)
    b = M.strip(js(parse(src)))["body"]
    if b[0]["type"] == "Junk":
        fail("legal pattern is Junk: {}", b[0])
    p = get[1](b)
    got = flatten(p)
    if got != lastplain:
        fail("pattern text {!r}, expected {!r}", got, lastplain)
    for x, y in zip(p["elements"], p["elements"][1:]):
        if x["type"] == y["type"] == "TextElement":
            fail("adjacent text elements {!r} {!r}", x["value"], y["value"])
    if any(e["type"] == "TextElement" and not e["value"] for e in p["elements"]):
        fail("empty text element")
    if pos == "inner":
        outer = [e.get("value") for e in b[0]["value"]["elements"] if e["type"] == "TextElement"]
        if outer != ["   deep\n ", "\nless"]:
            fail("outer pattern text {!r}", outer)


def relayout_case(d):
    """Two layouts of one pattern."""
    c = gen.SMALL
    res = M.resource([gen.message(d, c), gen.term(d, c)])
    a, b = gen.render(d, res), gen.render(d, res)
    d.show({"a": a, "b": b})
    d.nontrivial(a != b)
    check_eq(M.strip(js(parse(a))), M.strip(js(parse(b))), "two layouts of one resource parse differently")


PROPS["S07"] = Property(
    "S07", "dedent: random lines (indent 0-6 or blank, texts and placeables), inline or block start, in seven positions, against a line-arithmetic model; relayout: two random layouts of one resource parse alike. Non-trivial: more than one line / the layouts differ.",
    [Segment("dedent", dedent_case, 24000), Segment("relayout", relayout_case, 5000)],
)


# --------------------------------------------------------------------------- S08
COMMENT_CHARS = list("  ##aZ09.,=-_{}[]*\"\\/$@~") + ["\t", "\r ", "\x0b", "\x0c", "\x1c", "\x85", "\u00a0", "\u2028", "\u2029", "\u3000", "\ufeff", "\x00", "\u00e9", "\U0001f600", "\ud800"]


def comments_case(d):
    """A file written line by line; the oracle is a small state machine."""
    nl = "\r\n" if d.chance(1, 4) else "\n"
    items = []
    for _ in range(1 + d.size(9, 6, 7)):
        items.append(d.weighted([(6, "#"), (3, "##"), (3, "###"), (4, "blank"), (5, "message"), (3, "term"), (2, "junk")]))
    src, want, pending = "", [], None
    last = None  # kind of the previous line
    for k in items:
        if k in ("#", "##", "###"):
            t = d.weighted([(4, "text"), (2, ""), (1, None), (2, "odd"), (1, "pad"), (2, "random")])
            if t == "odd":
                t = d.choice(["# x", " lead", "trail  ", "a = b", "\u2028", "{ $x }", "é\tx", "-t = y", "#", "a\rb", "."])
            elif t == "pad":
                t = "   "
            elif t == "random":
                t = "".join(d.choice(COMMENT_CHARS) for _ in range(d.size(12, 2, 3)))
            src += k + ("" if t is None else " " + t) + nl
            t = t or ""
            name = {"#": "Comment", "##": "GroupComment", "###": "ResourceComment"}[k]
            if last == k:
                want[-1]["content"] += "\n" + t
            else:
                want.append({"type": name, "content": t})
        elif k == "blank":
            src += d.choice(["", "", "  "]) + nl
        elif k == "junk":
            src += d.choice(["junk", "}", "#bad", "####", "bad = { $", "bad = { \"", "-t", "1 = 2"]) + nl
        else:
            sig = "-" if k == "term" else ""
            text = d.choice(["v", "v\n    w", "{ $x }", "v\n    .a = b"]).replace("\n", nl)
            src += f"{sig}id = {text}" + nl
            e = {"type": "Message" if k == "message" else "Term", "comment": None}
            if last == "#":
                e["comment"] = want.pop()
            want.append(e)
        last = k
    if d.chance(1, 3):
        src = src[: -len(nl)]
    d.show(src)
    d.label(*{"line " + k for k in items})
    d.nontrivial(any(w["type"] == "Message" and w["comment"] for w in want) or len(want) > 2)
    got = []
    for e in M.strip(js(parse(src)))["body"]:
        if e["type"] in ("Message", "Term"):
            got.append({"type": e["type"], "comment": e["comment"]})
        elif e["type"] != "Junk":
            got.append({"type": e["type"], "content": e["content"]})
    check_eq(got, want, "comments")


def comments_ref_case(d):
    """Comments inside generated resources, against the reference parser."""
    src = gen.any_source(d)
    if d.chance(1, 2):
        ls = src.split("\n")
        for _ in range(1 + d.draw(3)):
            ls.insert(d.draw(len(ls)), d.choice(["# c", "#", "## g", "##", "### r", "# ", "#x", " # indented", "#  two", "# c\r", "# c\r\r"[:3]]))
        src = "\n".join(ls)
    d.show(src)
    want = R.merge_junk(R.parse(src))
    pick = lambda b: [(e["type"], M.strip(e.get("comment")) if e["type"] in ("Message", "Term") else e["content"]) for e in b]
    d.nontrivial(any(e["type"] in gen.SIGIL or e.get("comment") for e in want))
    got = R.merge_junk(R.tuple_spans(js(parse(src)))["body"])
    if pick(got) != pick(want):
        fail("comments differ: {} expected {}", pick(got), pick(want))


PROPS["S08"] = Property(
    "S08", "lines: files written line by line (three comment levels, blank lines, messages, terms, junk; LF/CRLF; with or without final line end) against a state machine; mixed: comments in sources of all kinds against the reference parser. Non-trivial: an attached comment or more than two entries / any comment.",
    [Segment("lines", comments_case, 26000), Segment("mixed", comments_ref_case, 8000)],
)


# --------------------------------------------------------------------------- S10
def parse_entry_case(d):
    k = d.draw(2)
    if k == 0:
        src = gen.any_source(d)
    elif k == 1:
        src = "".join(d.choice(["# c\n", "#\n", "## g\n", "### r\n", "\n", "   \n", "\r\n", "#bad\n", "# c\r\n", "####\n"]) for _ in range(d.size(5)))
        # in some sources nothing but comments and blanks
        src = src + gen.render(d, gen.resource(d, gen.SMALL, 2)) if d.chance(5, 6) else src + d.choice(["", "#", "##", "###", "# c", "   ", "\n"])
    else:
        src = gen.mutate(d, gen.render(d, gen.resource(d, gen.SMALL, 3)))
    spans = not d.chance(1, 4)
    d.show(src)
    p = FluentParser(with_spans=spans)
    body = js(FluentParser(with_spans=spans).parse(src))["body"]
    target = next((e for e in body if e["type"] not in gen.SIGIL), None)
    if target is None:
        # no message, no term and no error: parsing an entry is not successful
        d.label("no target")
        d.nontrivial(bool(body))
        got = js(p.parse_entry(src))
        if got["type"] != "Junk" or got["content"] or [a["code"] for a in got["annotations"]] != ["E0002"]:
            fail("parse_entry of a source without entries gives {}", got)
        return
    d.label("target " + target["type"])
    d.nontrivial(target is not body[0] or target.get("comment") is not None)
    had = target.get("comment") is not None
    got = js(p.parse_entry(src))
    if had:
        target = dict(target, comment=None)
        if spans:
            # without its comment the entry starts at its own id
            start = target["id"]["span"]["start"] - (1 if target["type"] == "Term" else 0)
            target["span"] = {"type": "Span", "start": start, "end": target["span"]["end"]}
    check_eq(got, target, "parse_entry differs from parse")


PROPS["S10"] = Property(
    "S10", "Sources of all kinds, with and without leading comments (well-formed or not); expected value computed from parse; empty junk where there is nothing but comments. Non-trivial: something was skipped.", [Segment("entry", parse_entry_case, 18000)],
)


# --------------------------------------------------------------------------- S11
HEX = "0123456789abcdefABCDEF"


def string_case(d):
    raw, want = "", ""
    n = d.size(6, 5, 6)
    for _ in range(n):
        k = d.weighted([(3, "char"), (2, "u"), (2, "U"), (2, "esc"), (1, "rand")])
        if k == "char":
            c = d.choice(gen.PLAIN + gen.ODD + ["u0041", "U000041", "{", "}", "'", " ", "\r", "\ufffd", "x41", "N{DASH}"])
            raw += c
            want += c
        elif k == "rand":
            c = chr(d.draw(0x10FFFF))
            if c in '"\\\n':
                c = "a"
            if c == "\r":
                c = "b"
            raw += c
            want += c
        elif k == "esc":
            c = d.choice(["\\", '"'])
            raw += "\\" + c
            want += c
        else:
            top = 0xFFFF if k == "u" else 0xFFFFFF
            cp = d.weighted([(2, 0), (2, 1), (3, 2)])
            if cp == 0:
                cp = d.choice([0x41, 0, 0xA, 0xD, 0x22, 0x5C, 0x7B, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF])
            elif cp == 1:
                cp = d.choice([0x10000, 0x10FFFF, 0x110000, 0xFFFFFF, 0x1F602, 0x10FFFE, 0x110001, 0x200000, 0xD800, 0xDFFF]) & top
            else:
                cp = d.draw(top if d.chance(1, 2) else min(top, 0x10FFFF))
            h = f"{cp:0{4 if k == 'u' else 6}x}"
            h = "".join(c.upper() if d.chance(1, 2) else c for c in h)
            raw += "\\" + k + h
            want += "\ufffd" if 0xD800 <= cp <= 0xDFFF or cp > 0x10FFFF else chr(cp)
            if cp > 0xFFFF:
                d.label("supplementary" if cp <= 0x10FFFF else "out of range")
            elif 0xD800 <= cp <= 0xDFFF:
                d.label("surrogate")
    if raw.endswith("\r"):
        raw += "z"
        want += "z"
    d.show(raw)
    d.nontrivial("\\" in raw)
    v = ast.StringLiteral(raw).parse()
    if v != {"value": want}:
        fail("StringLiteral({!r}).parse() = {!r}, expected {!r}", raw, v, want)
    v["value"] = "the caller's own"
    if ast.StringLiteral(raw).parse() != {"value": want}:
        fail("StringLiteral({!r}).parse() = {!r} after the caller changed an earlier result", raw, ast.StringLiteral(raw).parse())
    # and through the parser, in every place a string can stand
    tmpl, get = d.choice([
        ("k = { \"%s\" }", lambda e: e.value.elements[0].expression),
        ("k = { A(\"%s\") }", lambda e: e.value.elements[0].expression.arguments.positional[0]),
        ("k = { A(x: \"%s\") }", lambda e: e.value.elements[0].expression.arguments.named[0].value),
        ("k = { \"%s\" ->\n*[a] b\n}", lambda e: e.value.elements[0].expression.selector),
        ("-k = v\n .a = {\"%s\"}", lambda e: e.attributes[0].value.elements[0].expression),
    ])
    e = parse(tmpl % raw).body[0]
    if isinstance(e, ast.Junk):
        fail("legal string literal {!r} is Junk", raw)
    lit = get(e)
    if lit.value != raw or lit.parse()["value"] != want:
        fail("string literal {!r} parsed to {!r} / {!r}", raw, lit.value, lit.parse())


def number_case(d):
    s = "-" if d.chance(1, 3) else ""
    s += "".join(d.choice("0123456789") for _ in range(1 + (d.size(12, 4, 5) if d.chance(4, 5) else 10 + d.draw(30))))
    frac = 0
    if d.chance(1, 2):
        frac = 1 + (d.size(12, 4, 5) if d.chance(4, 5) else 10 + d.draw(30))
        s += "." + "".join(d.choice("0123456789") for _ in range(frac))
    d.show(s)
    d.nontrivial(len(s) > 1)
    from fractions import Fraction
    v = ast.NumberLiteral(s).parse()
    want = float(Fraction(s))
    if v["value"] != want or v["precision"] != frac or set(v) != {"value", "precision"} or not isinstance(v["value"], float):
        fail("NumberLiteral({!r}).parse() = {!r}, expected value {!r} precision {}", s, v, want, frac)
    kept = dict(v)
    v["value"] = v["precision"] = None
    if ast.NumberLiteral(s).parse() != kept:
        fail("NumberLiteral({!r}).parse() = {!r} after the caller changed an earlier result", s, ast.NumberLiteral(s).parse())
    v = kept
    tmpl, get = d.choice([
        ("k = { %s }", lambda e: e.value.elements[0].expression),
        ("k = { A(x: %s) }", lambda e: e.value.elements[0].expression.arguments.named[0].value),
        ("k = { $x ->\n*[%s] b\n}", lambda e: e.value.elements[0].expression.variants[0].key),
        ("k = { %s ->\n*[a] b\n}", lambda e: e.value.elements[0].expression.selector),
    ])
    e = parse(tmpl % s).body[0]
    if isinstance(e, ast.Junk):
        fail("legal number {!r} is Junk", s)
    if get(e).value != s or get(e).parse() != v:
        fail("number literal {!r} parsed to {!r}", s, get(e).value)


PROPS["S11"] = Property(
    "S11", "string: literal bodies built piece by piece together with their decoded value (all escapes over the whole 24-bit range, both letter cases, odd characters), parsed again after the caller changed the first result; number: random decimal literals against exact fractions. Non-trivial: an escape / more than one digit.",
    [Segment("string", string_case, 30000), Segment("number", number_case, 10000)],
)
