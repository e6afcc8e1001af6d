"""S09: diagnostics.  Each template is a malformed fragment in which @ marks the
offending position; the fragment is put into every kind of surrounding."""
import re

from .. import env  # noqa: F401
from .. import gen, mast as M
from ..engine import Property, Segment, Violation

from fluent.syntax import parse

MARK = "\ue000"
AT = "\ue001"  # a real @
LE = "\u2424"
MSG = {
    "E0002": "Expected an entry start",
    "E0003": 'Expected token: "{}"',
    "E0004": 'Expected a character from range: "{}"',
    "E0005": 'Expected message "{}" to have a value or attributes',
    "E0006": 'Expected term "-{}" to have a value',
    "E0008": "The callee has to be an upper-case identifier or a term",
    "E0009": "The argument name has to be a simple identifier",
    "E0010": "Expected one of the variants to be marked as default (*)",
    "E0011": 'Expected at least one variant after "->"',
    "E0012": "Expected value",
    "E0013": "Expected variant key",
    "E0014": "Expected literal",
    "E0015": "Only one variant can be marked as default (*)",
    "E0016": "Message references cannot be used as selectors",
    "E0017": "Terms cannot be used as selectors",
    "E0018": "Attributes of messages cannot be used as selectors",
    "E0019": "Attributes of terms cannot be used as placeables",
    "E0020": "Unterminated string expression",
    "E0021": "Positional arguments must not follow named arguments",
    "E0022": "Named arguments must be unique",
    "E0025": "Unknown escape sequence: \\{}.",
    "E0026": "Invalid Unicode escape sequence: {}.",
    "E0027": "Unbalanced closing brace in TextElement.",
    "E0028": "Expected an inline expression",
    "E0029": "Expected simple expression as selector",
}

# Text of a placeable's inside (what stands after "{"), up to and including enough
# of its end; @ is where the error is.
EXPR = [
    ("E0028", [], ["{ @}", "{@}", "{\n  @}", "{ @* }", "{ @é }", "{ @[a] }", "{ @(1) }", "{ @.5 }", "{ @= }", "{ F(@*) }", "{ F(1, @.a) }", "{ F(@,) }", "{ -t(@=) }", "{ {@} }"]),
    ("E0003", ["}"], ["{ $x @y }", "{ 1 @2 }", "{ \"a\" @\"b\" }", "{ x @y }", "{ F() @x }", "{ -t @x }", "{ $x@.a }", "{ 1@a }", "{ x.y@.z }", "{ {1} @2 }", "{ $x @- }", "{ $x @-x }", "{ x @/ }", "{ $x\n   @# }", "{ X @$y }", "{ 1.5@.5 }", "{ 1@é }", "{ $x@é }", "{ m@é }", "{ m.a@é }", "{ -t@é }", "{ 1.5@é }", "{ F()@é }", "{ \"\"@é }", "{ {1}@é }"]),
    ("E0004", ["a-zA-Z"], ["{ $@1 }", "{ $@ }", "{ -@_ }", "{ -@ }", "{ x.@1 }", "{ -t.@é }", "{ x.@}", "{ F($@-x) }", "{ $@é }"]),
    ("E0004", ["0-9"], ["{ 1.@ }", "{ 1.@x }", "{ -5.@}", "{ 1.@é }", "{ F(a: 1.@é1) }", "{ F(1.@) }", "{ F(a: -3.@) }"]),
    ("E0008", [], ["{ fun@() }", "{ fun@ () }", "{ Fun@(1) }", "{ fUN@(a: 1) }", "{ F(fun@()) }", "{ F(FuN@\n ()) }"]),
    ("E0009", [], ["{ F(a.b@: 1) }", "{ F(1@: 2) }", "{ F($x @: 1) }", "{ F(\"a\"@: 1) }", "{ F(-t@: 1) }", "{ F(-t.a@: 1) }", "{ -t({1}@: 1) }", "{ F(1, G()  @: 1) }"]),
    ("E0014", [], ["{ F(a: @$x) }", "{ F(a:@) }", "{ F(a: @b) }", "{ F(a: @-t) }", "{ F(a: @{1}) }", "{ -t(a: 1, b: @G()) }", "{ F(a: @, b: 1) }"]),
    ("E0003", [")"], ["{ F(1 @2) }", "{ F(1@; 2) }", "{ F($x @$y) }", "{ F(a: 1 @b: 2) }", "{ -t(1@} }", "{ F(@} }", "{ F(G() @. }"][0:5] + ["{ F(G() @. }"]),
    ("E0021", [], ["{ F(a: 1, 2@) }", "{ F(a: 1, $x @) }", "{ F(1, a: 1, \"s\" @, 3) }", "{ -t(a: 1, b@) }", "{ F(a: 1,b: 2,{1}@) }"]),
    ("E0022", [], ["{ F(a: 1, a: 2@) }", "{ F(a: 1, b: 2, a: \"x\"@ , c: 3) }", "{ -t(a: 1, a: 1@) }"]),
    ("E0025", None, ["{ \"\\@a\" }", "{ \"x\\@{\" }", "{ \"\\\\\\@n\" }", "{ F(\"\\@x\") }", "{ F(a: \"\\@é\") }", "{ \"\\@ \" }", "{ \"\\@$\" }"]),
    ("E0026", None, ["{ \"\\u@\" }", "{ \"\\u00@g0\" }", "{ \"\\u00@é0\" }", "{ \"\\U0001F@é\" }", "{ \"\\u004@\" }", "{ \"\\U01F60@\" }", "{ \"\\U@x\" }", "{ F(a: \"\\u12@ 3\") }", "{ \"ok\\u0041\\uFFF@z\" }", "{ \"\\U12345@}\" }"]),
    ("E0020", [], ["{ \"abc@\n", "{ \"@\n", "{ F(\"x } @\n", "{ F(a: \"b)}@\n", "{ \"a\\\"@\n"]),
    ("E0019", [], ["{ -t.a @}", "{ -t.a@}", "{ -t.a() @}", "{ {-t.a @} }", "{ -t.a\n   @}", "{ -t.b(a: 1)@}", "{ -t.a @x }"]),
    ("E0016", [], ["{ m @->\n   *[a] b\n  }", "{ m@ ->\n   *[a] b\n  }".replace("@ ->", " @->"), "{ M\n  @->\n   *[a] b\n  }", "{ m @->"]),
    ("E0017", [], ["{ -t @->\n   *[a] b\n  }", "{ -t() @->\n   *[a] b\n  }", "{ -t(a: 1)@->\n   *[a] b\n  }", "{ -t @->"]),
    ("E0018", [], ["{ m.a @->\n   *[a] b\n  }", "{ M.A@ -> }".replace("@ ->", " @->")]),
    ("E0029", [], ["{ {1} @->\n   *[a] b\n  }", "{ {$x} @->\n   *[a] b\n  }", "{ {{m}}@->\n   *[a] b\n  }"]),
    ("E0003", [LE], ["{ $x ->@*[a] b\n  }", "{ $x -> @*[a] b\n  }", "{ 1 ->  @}", "{ F() -> @x\n  }", "{ \"s\" ->@[a] b\n  }"]),
    ("E0011", [], ["{ $x ->\n  @}", "{ $x ->\n@}", "{ $x ->\n\n   @x\n  }", "{ -t.a ->\n   @[[a] b\n  }", "{ F() ->\n  @*x\n  }", "{ 1 ->\n  @$x }"]),
    ("E0010", [], ["{ $x ->\n    [a] b\n  @}", "{ $x ->\n    [a] b\n    [c] d\n\n  @}", "{ \"s\" ->\n  [1] b\n    @x }".replace("    @x }", "@}")]),
    ("E0015", [], ["{ $x ->\n   *[a] b\n   @*[c] d\n  }", "{ $x ->\n   *[a] b\n    [b] c\n   @*[c] d\n  }"]),
    ("E0012", [], ["{ $x ->\n   *[a]@\n  }", "{ $x ->\n   *[a]@  \n  }", "{ $x ->\n    [b]@\n   *[a] c\n  }", "{ 1 ->\n   *[a] b\n    [1]@\n\n  }"]),
    ("E0003", ["]"], ["{ $x ->\n   *[a @b] c\n  }", "{ $x ->\n   *[a@é] c\n  }", "{ $x ->\n   *[1@é] c\n  }", "{ $x ->\n   *[1.5@é] c\n  }", "{ $x ->\n   *[a@.b] c\n  }", "{ $x ->\n   *[1@a] c\n  }", "{ $x ->\n    [b@\"] c\n   *[a] c\n  }", "{ $x ->\n   *[-1 @.] c\n  }"]),
    ("E0004", ["a-zA-Z"], ["{ $x ->\n   *[@] b\n  }", "{ $x ->\n   *[@\"a\"] b\n  }", "{ $x ->\n    [ @$y] b\n   *[a] c\n  }", "{ $x ->\n   *[@é] b\n  }"]),
    ("E0004", ["0-9"], ["{ $x ->\n   *[-@a] b\n  }", "{ $x ->\n   *[1.@] b\n  }", "{ $x ->\n   *[-@é] b\n  }", "{ $x ->\n   *[1.@é] b\n  }", "{ $x ->\n   *[-@] b\n  }", "{ $x ->\n   *[-@-1] b\n  }"]),
    ("E0027", [], ["a @}", "a@} b", "{ 1 }@}", "{ 1 } x @} { 2 }", "é@}"]),
    ("E0027", [], ["{ $x ->\n   *[a] b @}", "{ $x ->\n   *[a] b@}\n  }", "{ $x ->\n    [a] { 1 } @}\n   *[c] d\n  }"]),
]
# Only meaningful at the end of the file
EXPR_EOF = [
    ("E0003", ["\""], ["{ \"abc@", "{ \"@", "{ F(a: \"b)}@"]),
    ("E0003", ["}"], ["{ $x@", "{ 1 @", "{ x.y @", "{ F() @", "{ \"\" @", "{ $x @-"]),
    ("E0003", [")"], ["{ F(1@", "{ F(a: 1 @", "{ -t(1@", "{ F($x @"]),
    ("E0028", [], ["{@", "{ @", "{ {@", "{ F(@", "{ F(1, @", "{ -t(1,@"]),
    ("E0004", ["a-zA-Z"], ["{ $@", "{ -@", "{ x.@"]),
    ("E0004", ["0-9"], ["{ 1.@", "{ -1.@"]),
    ("E0011", [], ["{ $x ->\n@", "{ $x ->\n  @", "{ $x -> @"]),
    ("E0010", [], ["{ $x ->\n    [a] b@", "{ $x ->\n    [a] b\n  @"]),
    ("E0013", [], ["{ $x ->\n   *[@", "{ $x ->\n    [ @"]),
    ("E0012", [], ["{ $x ->\n   *[a]@", "{ $x ->\n   *[a]@  "]),
    ("E0003", ["]"], ["{ $x ->\n   *[a@", "{ $x ->\n   *[1 @"]),
    ("E0014", [], ["{ F(a:@", "{ F(a: @"]),
    ("E0016", [], ["{ m @->"]),
    ("E0026", ["\\u00None"], ["{ \"\\u00@"]),
    ("E0026", ["\\U01F60None"], ["{ F(a: \"b\\U01F60@"]),
    ("E0025", [None], ["{ \"\\@", "{ F(a: \"x\\@", "{ \"\\\\ \\@"]),
]
CONTEXTS = ["k = %s", "k =\n    a %s", "k =\n    %s", "-k = %s", "k = v\n    .a = %s", "k =\n    .b = v\n    .a = x\n        %s", "-k = v\n    .a = %s", "k = { $ok ->\n    [x] %s", "k = { $ok ->\n    [x] y\n   *[z] w %s", "k = t { $ok } { \"\" } %s", "k = t\n\n    { $ok }\n    %s", "k = { $o ->\n   *[p] { $q ->\n       *[r] %s", "# comment\nk = %s", "k = { \"\\u0041\" } %s", "A-k_0 = %s"]
NESTED = ["k = { %s", "k = { { %s", "k = { A(%s", "k = { A(1, $x, %s", "-k = v\n    .a = { -t(%s", "k = { A(B({ %s", "k = { A(%s"]

ENTRY = [
    ("E0002", [], ["@1foo = bar", "@}", "@[a] b", "@é = x", "@$x", "@\"a\"", "@_a = b", "@= b", "@*[a] b", "@\tfoo = a", "@ foo = a"[0:1] + "!"]),
    ("E0003", ["="], ["foo @bar", "foo@", "foo@.a = b", "foo  @: b", "-foo @x", "foo@\t= b", "k = v\n    .a @b", "k = v\n    .a@", "foo @é = x", "foo@é = x", "-foo@é = x", "k = v\n    .a@é = x", "-k = v\n .a@.b = c"]),
    ("E0004", ["a-zA-Z"], ["-@1 = x", "-@ x = y", "--"[0:1] + "@-x = y", "k = v\n    .@1 = x", "k =\n    .@ a = x", "-@", "k = v\n .@", "-@é"]),
    ("E0005", ["foo"], ["foo =@", "foo =@  ", "foo=@", "foo   =@\n\n", "foo =@\n]", "# c\nfoo =@"]),
    ("E0006", ["foo"], ["-foo =@", "-foo=@  ", "-foo =@\n    .a = b", "-foo =@\n\n    .a = b", "-foo =@\n    [a]"]),
    ("E0012", [], ["foo =\n    .a =@", "foo = v\n    .a =@  ", "foo = v\n    .a = b\n    .c =@\n    .d = e", "-foo = v\n    .a=@"]),
    ("E0003", [" "], ["#@bad", "##@bad", "###@bad", "###@#", "#@-", "#@\t", "###@#\n"]),
]
# Stand-ins for "é": what Unicode, but not Fluent, takes for a letter, digit or blank.
FOREIGN = ["\u00e9", "\u0663", "\u00b2", "\uff21", "\u0131", "\u212a", "\u00aa", "\uff11", "\u00a0", "\x0c", "\u3000", "\u2028", "\ufeff", "\U0001d7d8", "\u00df", "\t", "\x00"] + list("/:`;!~'|&?") + [AT]


NAMES = ["a", "b", "c", "d", "ab", "abc", "A", "B", "x-1", "x_1", "minimumFractionDigits", "zz"]
POSITIONAL = ["1", "$x", "\"s\"", "m", "m.a", "-t", "-t.a", "G()", "G(1, b: 2)", "{ $y }", "-1.5", "-t(c: 1)", "{ -t }", "X.y"]
LITERALS = ["1", "\"\"", "-0.5", "\"a b\"", "\"}\"", "00"]
KEYS = ["a", "b", "one", "other", "1", "-1.5", "a-b", "few"]
VALUES = ["v", "{ $v }", "v { m } w", "{ $q ->\n       *[k] l\n    }", "v\n        w"]


def generated(d):
    """A malformed placeable (with its @) made to measure, as the table's entries are."""
    sp = lambda: d.choice(["", "", " ", "\n  ", "  "])
    k = d.draw(6)
    if k <= 1:
        n = 1 + d.size(5)
        names = []
        while len(names) < n:
            x = d.choice(NAMES)
            names.append(x + str(len(names)) if x in names else x)
        pos = [d.choice(POSITIONAL) for _ in range(d.size(3))]
        named = [f"{x}{sp()}:{sp()}{d.choice(LITERALS)}" for x in names]
        bad = f"{d.choice(names)}{sp()}:{sp()}{d.choice(LITERALS)}" if k == 0 else d.choice(POSITIONAL)
        items = pos + named
        args = (sp() + "," + sp()).join(items)
        rest = d.choice(["", ", 1", ", q: 1"]) if k else d.choice(["", ", q: 1"])
        return ("E0022" if k == 0 else "E0021"), [], d.choice(["{ F(", "{ -t(", "{ F-1(", "{ F ("]) + args + sp() + "," + sp() + bad + "@" + rest + ") }"
    if k == 2:
        c = d.choice(list("abcdefghijklmnopqrstvwxyzABCDEFTVXYZ0123456789'/{}[]$#*.-_ \t\r") + ["\u00e9", "\u2028", "\U0001f600", "\uff55"])
        pre = "".join(d.choice(["a", "\\\\", "\\\"", "\\u0041", " ", "{"]) for _ in range(d.size(4)))
        return "E0025", [c], '{ "' + pre + "\\@" + c + d.choice(["", "x", "000041"]) + '" }'
    if k == 3:
        u, n = d.choice([("u", 4), ("U", 6)])
        digits = "".join(d.choice("0123456789abcdefABCDEF") for _ in range(d.draw(n - 1)))
        c = d.choice(list("GgZz`:/ '{}\t\\-+x\r") + ['"', "\u0663", "\uff11", "\uff21"])
        pre = "".join(d.choice(["a", "\\\\", "\\\"", "\\u0041"]) for _ in range(d.size(3)))
        return "E0026", ["\\" + u + digits + c], '{ "' + pre + "\\" + u + digits + "@" + c + d.choice(["", "0000"]) + '" }'
    n = 1 + d.size(4)
    sel = d.choice(["$x", "1", "\"s\"", "F()", "-t.a", "-t.a(b: 1)", "F($x, y: 1)"])
    lines = [f"[{sp()}{d.choice(KEYS)}{sp()}]" + " " + d.choice(VALUES) for _ in range(n)]
    if k == 4:
        return "E0010", [], "{ " + sel + " ->\n" + "".join("    " + l + "\n" for l in lines) + d.choice(["", "  ", "\n  "]) + "@}"
    at = d.draw(n)
    lines.insert(at, "@*[" + d.choice(KEYS) + "] v")
    first = d.draw(at - 1) if at else 0
    if at == 0:
        lines[0] = lines[0][1:]
        lines.insert(1 + d.draw(n - 1), "@*[z] v")
    else:
        lines[first] = "*" + lines[first]
    return "E0015", [], "{ " + sel + " ->\n" + "".join("   " + d.choice(["", " "]) + l + "\n" for l in lines) + "  }"


def expected_args(code, args, frag):
    if args is not None:
        return args
    i = frag.index("@")
    if code == "E0025":
        return [frag[i + 1]]
    # E0026: the escape as far as it was read, with the offending character
    j = frag.rindex("\\", 0, i)
    return [frag[j:i] + frag[i + 1]]


FLUSH = re.compile(r"\n +(?=@?(?:\[(?!\[)|\*|\.|\}))")


def diag_case(d):
    where = d.weighted([(7, "expr"), (3, "nested"), (3, "entry"), (2, "eof"), (6, "made")])
    nl = "\r\n" if d.chance(1, 4) else "\n"
    if where == "entry":
        code, args, frags = d.choice(ENTRY)
        frag = d.choice(frags)
        text = frag
    elif where == "made":
        code, args, frag = generated(d)
        text = (d.choice(CONTEXTS) if d.chance(2, 3) else d.choice(NESTED[:2])) % frag
    elif where == "eof":
        code, args, frags = d.choice(EXPR_EOF)
        frag = d.choice(frags)
        text = d.choice(CONTEXTS) % frag
    elif where == "nested":
        code, args, frags = d.choice([t for t in EXPR if t[2][0].startswith("{") and t[0] not in ("E0027",)])
        frag = d.choice([f for f in frags if f.startswith("{")])
        text = d.choice(NESTED) % frag
    else:
        code, args, frags = d.choice(EXPR)
        frag = d.choice(frags)
        text = d.choice(CONTEXTS) % frag
    if d.chance(1, 5):
        # variants, attributes and closing braces may stand in the first column
        text = FLUSH.sub("\n", text)
    if "\u00e9" in frag and where != "made":
        odd = d.choice(FOREIGN)
        text = text.replace("\u00e9", odd)
        frag = frag.replace("\u00e9", odd)
    args = [x.replace(AT, "@") if isinstance(x, str) else x for x in expected_args(code, args, frag)]
    before = [gen.entry(d, gen.SMALL) for _ in range(d.size(2, 1, 2))]
    after = [gen.entry(d, gen.SMALL) for _ in range(d.size(2, 1, 2))] if where != "eof" else []
    pre = gen.render(d, M.resource(before), nl=0) if before else ""
    if pre and not pre.endswith("\n"):
        pre += "\n"
    tail = ""
    if where in ("expr", "nested", "made") and not text.endswith("\n"):
        tail = d.choice(["", " tail", " { $z }", "\n    more text", "\n/ more", "\n[more", "\n1 more\n\n= more"])
    post = gen.render(d, M.resource(after), nl=0) if after else ""
    if text.startswith("# c") and before and before[-1]["type"] == "Comment":
        pre += "\n"
    if where == "entry" and text.startswith("#") and before and before[-1]["type"] in gen.SIGIL:
        pre += "\n"
    src = pre + text.replace("@", MARK) + ("" if where == "eof" else tail + "\n") + post
    if where == "entry" and code in ("E0002",) and pre and text[1] in "{. ":
        pre += "}"
    src = src.replace("\n", nl)
    pos = src.index(MARK)
    src = src.replace(MARK, "").replace(AT, "@")
    lead = 1 if text.startswith("# c") else 0
    d.show({"source": src, "expected": [code, args, pos]})
    d.label("code " + code, "where " + where)
    d.nontrivial(bool(before or after) or where != "entry")
    body = parse(src).to_json()["body"]
    junk = [(i, e) for i, e in enumerate(body) if e["type"] == "Junk"]
    if len(junk) != 1 or junk[0][0] != len(before) + lead:
        raise Violation(f"expected exactly one Junk at index {len(before) + lead}, got {[e['type'] for e in body]}")
    if len(body) != len(before) + lead + 1 + len(after):
        raise Violation(f"entries: {[e['type'] for e in body]}")
    anns = junk[0][1]["annotations"]
    if len(anns) != 1:
        raise Violation(f"{len(anns)} annotations")
    a = anns[0]
    got = (a["code"], a["arguments"], a["message"], a["span"]["start"], a["span"]["end"])
    want = (code, args, MSG[code].format(*args), pos, pos)
    if got != want:
        raise Violation(f"annotation {got}, expected {want}")


def boundary_case(d):
    """Errors noticed only on the next entry's line are reported at the Junk's end."""
    frag = d.choice(["k = { $x", "k = {", "k = { F(1,", "k = { F(", "k = { $x ->\n   [a] b", "k = { -t", "k = v\n .a = { 1", "-k = { F(a:"])
    nxt = d.choice(["next = value", "-next = value", "# comment\nnext = value"])
    gap = d.choice(["\n", "\n\n", "\n   \n"])
    src = frag + gap + nxt + "\n"
    d.show(src)
    d.nontrivial()
    body = parse(src).to_json()["body"]
    if [e["type"] for e in body][0] != "Junk" or len(body) != 2 or body[1]["type"] not in ("Message", "Term"):
        raise Violation(f"entries {[e['type'] for e in body]}")
    j = body[0]
    end = src.index(nxt)
    if (j["span"]["start"], j["span"]["end"]) != (0, end) or j["content"] != src[:end]:
        raise Violation(f"Junk {j['content']!r} at {j['span']}")
    a = j["annotations"]
    if len(a) != 1 or not (len(frag) <= a[0]["span"]["start"] <= end) or a[0]["span"]["start"] != a[0]["span"]["end"]:
        raise Violation(f"annotations {a}")


PROPS = {"S09": Property(
    "S09",
    "A table of about 200 malformed fragments and others made to measure (repeated or misplaced arguments, bad escapes, select expressions without or with two defaults) (every error the parser documents, with the offending position marked) is put into every kind of surrounding (message, term, attribute, variant, nested placeable, call argument, end of file; LF/CRLF; generated entries before and after). Non-trivial: other entries around it, or inside a pattern.",
    [Segment("table", diag_case, 30000), Segment("boundary", boundary_case, 500)],
    ["codes E0007 and E0024 are documented for older syntax and cannot occur"],
)}
