"""P01, P02: the pygments lexer."""
import html
import re

from .. import env  # noqa: F401
from .. import gen, mast as M, refparse as R
from ..engine import Property, Segment, Violation

import pygments
from pygments.formatters import HtmlFormatter, LatexFormatter, NullFormatter, Terminal256Formatter, TerminalFormatter
from pygments.token import Token, is_token_subtype
from fluent.pygments.lexer import FluentLexer

PROPS = {}


def fail(msg, *a):
    raise Violation(msg.format(*a) if a else msg)


def raw(text, lexer=None):
    return list((lexer or FluentLexer()).get_tokens_unprocessed(text))


def tiling(text, toks):
    pos = 0
    for t in toks:
        if len(t) != 3:
            fail("token {!r}", t)
        start, ty, value = t
        if start != pos:
            fail("token {!r} starts at {} where {} was expected", value, start, pos)
        if ty not in Token:
            fail("{!r} is not a token type", ty)
        if value == "":
            fail("empty token at {}", start)
        if text[start:start + len(value)] != value:
            fail("token at {} has text {!r}, the source {!r}", start, value, text[start:start + len(value)])
        pos += len(value)
    if pos != len(text):
        fail("the tokens end at {} of {}", pos, len(text))


def source(d):
    k = d.weighted([(4, 0), (3, 1), (1, 2)])
    if k == 0:
        return gen.any_source(d)
    if k == 1:
        s = gen.render(d, gen.resource(d, gen.DEFAULT, 4))
    else:
        s = gen.soup(d, 60)
    if d.chance(1, 8):
        s = d.choice(["\n\n", "  ", "\ufeff", "\r\n", "\t", "\n \n"]) + s
    if d.chance(1, 8):
        s += d.choice(["\n\n", "   ", "\n  ", "\r", "\ud800", "\x00"])
    return s


ANSI = re.compile("\x1b\\[[0-9;]*m")


def lossless_case(d):
    text = gen.large(d, source(d), 200)
    d.show(text)
    d.nontrivial(len(text) > 10)
    lexer = FluentLexer()
    if d.chance(1, 3):
        raw("other = { $x }\n", lexer)
    toks = raw(text, lexer)
    tiling(text, toks)
    d.label("tokens:%d" % min(len(toks) // 5 * 5, 30))
    if raw(text) != toks:
        fail("lexing again gives other tokens")
    # through pygments: its own normalisation of line ends is all that may change
    norm = text.replace("\r\n", "\n").replace("\r", "\n")
    opts = dict(stripnl=False, ensurenl=False)
    if norm.startswith("\ufeff"):
        norm = norm[1:]
    got = "".join(v for _, v in FluentLexer(**opts).get_tokens(text))
    if got != norm:
        fail("get_tokens yields {!r} for {!r}", got, norm)
    k = d.draw(4)
    if "\x1b" in text:
        return
    if k == 0:
        out = pygments.highlight(text, FluentLexer(**opts), NullFormatter())
    elif k == 1:
        out = ANSI.sub("", pygments.highlight(text, FluentLexer(**opts), Terminal256Formatter()))
    elif k == 2:
        out = ANSI.sub("", pygments.highlight(text, FluentLexer(**opts), TerminalFormatter()))
    elif k == 3:
        out = html.unescape(re.sub(r"<[^>]*>", "", pygments.highlight(text, FluentLexer(**opts), HtmlFormatter(nowrap=True))))
        norm_h = html.unescape(norm.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;"))
        if out.rstrip("\n") != norm_h.rstrip("\n"):
            fail("the HTML says {!r} for {!r}", out, norm_h)
        return
    else:
        # default options: pygments strips outer newlines and ends with one
        out = pygments.highlight(text, FluentLexer(), NullFormatter())
        norm = norm.strip("\n") + "\n"
    if out != norm:
        fail("highlighted, mode {}: {!r} for {!r}", k, out, norm)


def shared_case(d):
    """One lexer, several texts being lexed at the same time."""
    texts = [source(d) for _ in range(2 + d.draw(1))]
    d.show(texts)
    lexer = FluentLexer()
    its = [lexer.get_tokens_unprocessed(t) for t in texts]
    got = [[] for _ in its]
    open_ = list(range(len(its)))
    turns = 0
    while open_:
        i = d.choice(open_) if turns < 200 else open_[0]
        turns += 1
        for tok in its[i]:
            got[i].append(tok)
            break
        else:
            open_.remove(i)
    d.nontrivial(sum(len(g) > 1 for g in got) > 1)
    for t, g in zip(texts, got):
        tiling(t, g)
        if g != raw(t):
            fail("other tokens than alone for {!r}", t)


PROPS["P01"] = Property(
    "P01",
    "Any kind of source, also with odd beginnings and ends. Raw tokens must tile it; get_tokens and four formatters must reproduce it. One lexer lexing two or three texts in turns must give the tokens of each alone. Non-trivial: more than ten characters; two texts of several tokens.",
    [Segment("lossless", lossless_case, 12000), Segment("shared", shared_case, 1500)],
    ["pygments itself turns CRLF and CR into LF and drops a BOM before a lexer sees the text"],
)

# The roles of the README/CHANGELOG and the test expectations.
ROLE = {
    "Comment": Token.Comment.Multiline, "GroupComment": Token.Comment.Multiline, "ResourceComment": Token.Comment.Multiline,
    "Identifier": Token.Name.Constant, "TextElement": Token.Literal, "NumberLiteral": Token.Literal.Number,
    "StringLiteral": Token.Literal.String, "VariableReference": Token.Name.Variable, "Junk": Token.Generic.Error,
}


def roles(node, out, key=False):
    """(start, end, type) of every classified construct of a reference tree."""
    if isinstance(node, list):
        for x in node:
            roles(x, out)
    elif isinstance(node, dict):
        t = node["type"]
        a, b = node["span"][0], node["span"][1]
        if key:
            out.append((a, b, Token.Name.Attribute))
        elif t in ROLE:
            out.append((a, b, ROLE[t]))
        else:
            for k, v in node.items():
                if k not in ("type", "span"):
                    roles(v, out, t == "Variant" and k == "key")


def classify_case(d):
    text = source(d)
    d.show(text)
    body = R.parse(text)
    exp = []
    for e in R.merge_junk(body):
        roles(e, exp)
    exp.sort(key=lambda x: x[:2])
    d.nontrivial(len(exp) > 3)
    d.label(*sorted({"role " + str(t) for _, _, t in exp}))
    toks = raw(text)
    # adjacent Junk (a matter of where recovery starts again) counts as one
    got = []
    for s, t, v in toks:
        if got and t is Token.Generic.Error and got[-1][2] is t and got[-1][1] == s:
            got[-1] = (got[-1][0], s + len(v), t)
        else:
            got.append((s, s + len(v), t))
    want, pos = [], 0
    for a, b, t in exp:
        if a > pos:
            want.append((pos, a, Token.Punctuation))
        if b > a:
            want.append((a, b, t))
        pos = max(pos, b)
    if pos < len(text):
        want.append((pos, len(text), Token.Punctuation))
    # where the text around a Junk is blank, whether it belongs to the Junk is not at issue here
    if got != want:
        for g, w in zip(got, want):
            if g != w:
                fail("token {} {!r}, expected {} {!r}", g, text[g[0]:g[1]], w, text[w[0]:w[1]])
        fail("{} tokens, expected {}", len(got), len(want))


PROPS["P02"] = Property(
    "P02",
    "Any kind of source; the expected tokens are computed from the reference parser's tree and compared one by one. Non-trivial: more than three classified constructs.",
    [Segment("classify", classify_case, 12000)],
)
