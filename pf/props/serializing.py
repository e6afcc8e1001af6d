"""S20-S22: the serializer."""
import re

from .. import env  # noqa: F401
from .. import gen, mast as M, refparse as R, refserial
from ..engine import Property, Segment, Violation

from fluent.syntax import FluentParser, FluentSerializer, ast, parse, serialize

PROPS = {}
CR_BEFORE_END = re.compile(r"\r(?:\n|\Z)")


def fail(msg, *a):
    raise Violation(msg.format(*a) if a else msg)


def check_eq(got, want, what):
    df = M.diff(got, want)
    if df:
        fail("{}: {}", what, df)


def cr_finding(body):
    """The recorded finding: text whose CR comes to stand before a line end."""
    for n in M.walk(body):
        t = n.get("type")
        if t == "TextElement" and CR_BEFORE_END.search(n["value"]):
            return True
        if t in gen.SIGIL and CR_BEFORE_END.search(n["content"] or ""):
            return True
        if t == "Pattern" and not n["elements"]:
            return True
    return False


CR_LINE_END = re.compile(r"\r[ \r]*(?:\n|\Z)")


def cr_source(src):
    """The same, seen in the source: a CR of its own at the end of a line."""
    return bool(CR_LINE_END.search(src.replace("\r\n", "\n")))


def ref_body(src):
    return M.strip(R.parse(src))


def no_junk(body):
    return [e for e in body if e["type"] != "Junk"]


def render_any(d, mx=5):
    """Sources weighted towards well-formed ones."""
    k = d.weighted([(5, 0), (3, 1), (2, 2)])
    if k == 0:
        return gen.render(d, gen.resource(d, gen.DEFAULT, mx))
    if k == 1:
        return gen.mutate(d, gen.render(d, gen.resource(d, gen.SMALL, mx)))
    return gen.any_source(d)


# --------------------------------------------------------------------------- S20
def roundtrip_case(d):
    src = gen.large(d, render_any(d), 400)
    d.show(src)
    spans = not d.chance(1, 4)
    res = parse(src, with_spans=spans)
    before = res.to_json()
    want = no_junk(M.strip(before)["body"])
    if cr_source(src):
        d.label("excluded: CR before a line end")
        serialize(res)
        return
    kinds = {n["type"] for n in M.walk(want)}
    d.label(*("has " + k for k in sorted(kinds)))
    if len(want) < len(before["body"]):
        d.label("junk dropped")
    d.nontrivial(len(want) > 1 or "Placeable" in kinds or "Attribute" in kinds)
    out = serialize(res)
    if not isinstance(out, str):
        fail("serialize returned {}", type(out).__name__)
    check_eq(res.to_json(), before, "serialize changed the tree")
    back = M.strip(parse(out).to_json())["body"]
    for e in back:
        if e["type"] == "Junk":
            fail("the output has Junk {!r} in {!r}", e["content"], out)
    check_eq(back, want, f"parsing the output {out!r} gives another resource")
    # the output also means the same to a parser written independently
    check_eq(ref_body(out), want, f"by the reference grammar the output {out!r} denotes another resource")
    if FluentSerializer().serialize(res) != out or serialize(parse(src)) != out:
        fail("serializing again gives different output")


PROPS["S20"] = Property(
    "S20",
    "Sources: generated resources in random layouts, mutations of them, soup and corpus lines. Each is parsed, serialized, and read back both by the parser and by the reference parser. Non-trivial: at least two entries, an attribute or a placeable.",
    [Segment("roundtrip", roundtrip_case, 16000)],
    ["trees in which a literal CR stands right before a line break or the end of a comment or pattern are excluded (recorded finding)"],
    probes=[("cr-before-line-end", lambda: not parse("foo = a\r\r\n b\n").equals(parse(serialize(parse("foo = a\r\r\n b\n")))))],
)


# --------------------------------------------------------------------------- S21
def fixpoint_case(d):
    src = render_any(d)
    d.show(src)
    res = parse(src)
    if cr_source(src):
        d.label("excluded: CR before a line end")
        return
    once = serialize(res)
    want = refserial.resource(no_junk(M.strip(res.to_json())["body"]))
    if once != want:
        fail("serialized as {!r}, the canonical layout is {!r}", once, want)
    r2 = parse(once)
    d.nontrivial(len(res.body) > 1 or len(once) > 40)
    d.label("has junk" if any(isinstance(e, ast.Junk) for e in res.body) else "no junk")
    twice = serialize(r2)
    if twice != once:
        fail("formatting {!r} gives {!r}", once, twice)
    if serialize(r2, with_junk=True) != once:
        fail("with_junk matters although there is no Junk: {!r}", once)


def layouts_case(d):
    model = gen.resource(d, gen.DEFAULT, 4)
    for n in M.walk(model):
        if n["type"] == "TextElement" and CR_BEFORE_END.search(n["value"]):
            return
    a = gen.render(d, model)
    b = gen.render(d, model) if d.chance(3, 4) else gen.render(d, model, fancy=False, nl=d.draw(1))
    d.show({"a": a, "b": b})
    ra, rb = parse(a), parse(b)
    d.nontrivial(a != b)
    sa, sb = serialize(ra), serialize(rb)
    want = refserial.resource(model["body"])
    if sa != want:
        fail("{!r} is serialized as {!r}, the canonical layout is {!r}", a, sa, want)
    if sa != sb:
        fail("equal resources in different layouts serialize to {!r} and {!r}", sa, sb)
    # nor does it matter how the tree came to be
    sc = serialize(M.build(ast, model))
    if sc != sa:
        fail("the tree built by hand serializes to {!r}, the parsed one to {!r}", sc, sa)
    if serialize(parse(a, with_spans=False)) != sa:
        fail("with_spans changes the output")
    if serialize(ra.clone()) != sa or serialize(ast.from_json(ra.to_json())) != sa:
        fail("a copy serializes differently")


PROPS["S21"] = Property(
    "S21",
    "fixpoint: any source, serialized twice; the output must be what an independent line-based reference serializer makes of the tree. layouts: one generated resource rendered in two random layouts (line endings, indentation, block/inline, blank lines), and built by hand. Non-trivial: more than one entry or 40 characters; the two sources differ.",
    [Segment("fixpoint", fixpoint_case, 12000), Segment("layouts", layouts_case, 9000)],
    ["idempotence is claimed for output without Junk; the CR finding of S20 is excluded"],
)


# --------------------------------------------------------------------------- S22
def built_case(d):
    model = gen.resource(d, gen.DEFAULT, 5)
    d.show(model)
    if cr_finding(model):
        return
    res = M.build(ast, model)
    d.nontrivial(len(model["body"]) > 1)
    if d.chance(1, 2):
        # by position, defaults left out; what one node's lists get is no other's
        res = M.build_terse(d, ast, model)
        check_eq(M.strip(res.to_json()), model, "built by position and with defaults left out")
        for n in subs(M.build_terse(d, ast, model), ast.BaseNode):
            for v in vars(n).values():
                if isinstance(v, list):
                    v.append(None)
        check_eq(M.strip(res.to_json()), model, "another tree's lists were changed")
        check_eq(M.strip(M.build_terse(d, ast, model).to_json()), model, "built anew")
    out = serialize(res)
    check_eq(M.strip(res.to_json()), M.strip(M.build(ast, model).to_json()), "serialize changed the tree")
    check_eq(M.strip(parse(out).to_json())["body"], model["body"], f"parsing the output {out!r} gives another resource")
    check_eq(ref_body(out), model["body"], f"by the reference grammar the output {out!r} denotes another resource")
    s = FluentSerializer(with_junk=d.chance(1, 2))
    parts = [s.serialize_entry(e, 1 if i else 0) for i, e in enumerate(res.body)]
    if "".join(parts) != out or s.serialize(res) != out:
        fail("serialize {!r} is not the concatenation of serialize_entry {!r}", out, parts)
    for i, e in enumerate(res.body):
        # an entry by itself
        one = s.serialize_entry(e)
        check_eq(ref_body(one), [model["body"][i]], f"serialize_entry alone gives {one!r}")
        if isinstance(e, (ast.Message, ast.Term)):
            if s.serialize_entry(e, 1) != one:
                fail("the state changes a message: {!r}", one)
        elif s.serialize_entry(e, FluentSerializer.HAS_ENTRIES) != "\n" + one:
            fail("a later comment is not set off by one blank line: {!r}", s.serialize_entry(e, 1))


def subs(tree, cls):
    out = []

    def rec(x):
        if isinstance(x, ast.BaseNode):
            if isinstance(x, cls):
                out.append(x)
            for v in vars(x).values():
                rec(v)
        elif isinstance(x, list):
            for v in x:
                rec(v)
    rec(tree)
    return out


def edited_case(d):
    """A parsed tree, edited the way a tool would, then serialized."""
    model = gen.resource(d, gen.SMALL, 4)
    model["body"].append(gen.message(d, gen.SMALL))
    src = gen.render(d, model)
    res = parse(src)
    log = []
    used = FluentSerializer()
    for _ in range(1 + d.size(3)):
        if d.chance(1, 2):
            used.serialize(res)
            serialize(res)
        k = d.draw(9)
        pats = subs(res, ast.Pattern)
        if k == 0:
            p = d.choice(pats)
            new = gen.pattern(d, gen.SMALL, 1)
            p.elements = M.build(ast, new).elements
            log.append("replace elements")
        elif k == 1:
            ids = subs(res, (ast.Message, ast.Term))
            d.choice(ids).id.name = gen.identifier(d)
            log.append("rename")
        elif k == 2:
            e = d.choice(subs(res, (ast.Message, ast.Term)))
            e.attributes.insert(d.draw(len(e.attributes)), M.build(ast, M.attribute(gen.identifier(d), gen.pattern(d, gen.SMALL, 1))))
            log.append("add attribute")
        elif k == 3:
            es = [e for e in res.body if isinstance(e, (ast.Message, ast.Term)) and e.attributes and (e.value is not None or len(e.attributes) > 1)]
            if es:
                e = d.choice(es)
                e.attributes.pop(d.draw(len(e.attributes) - 1))
                log.append("remove attribute")
        elif k == 4:
            es = [e for e in res.body if isinstance(e, ast.Message) and e.attributes and e.value is not None]
            if es:
                d.choice(es).value = None
                log.append("remove value")
        elif k == 5:
            e = d.choice(subs(res, (ast.Message, ast.Term)))
            e.comment = ast.Comment(gen.comment_content(d)) if d.chance(2, 3) else None
            log.append("comment")
        elif k == 6:
            res.body.insert(d.draw(len(res.body)), M.build(ast, gen.entry(d, gen.SMALL)))
            log.append("insert entry")
        elif k == 7 and len(res.body) > 1:
            i, j = d.draw(len(res.body) - 1), d.draw(len(res.body) - 1)
            res.body[i], res.body[j] = res.body[j], res.body[i]
            log.append("swap entries")
        elif k == 8:
            sel = subs(res, ast.SelectExpression)
            if sel:
                s = d.choice(sel)
                s.variants.insert(0, M.build(ast, M.variant(gen.variant_key(d), gen.pattern(d, gen.SMALL, 0))))
                log.append("add variant")
        else:
            ph = subs(res, ast.Placeable)
            if ph:
                d.choice(ph).expression = M.build(ast, gen.inline_expression(d, gen.SMALL, 1))
                log.append("replace expression")
    d.show({"source": src, "edits": log})
    d.label(*log)
    d.nontrivial(bool(log))
    want = M.strip(res.to_json())["body"]
    if cr_finding(want):
        return
    out = serialize(res)
    if used.serialize(res) != out:
        fail("a serializer used before the edits gives {!r}, a new one {!r}", used.serialize(res), out)
    check_eq(M.strip(parse(out).to_json())["body"], want, f"parsing the output {out!r} gives another resource than was edited")
    check_eq(ref_body(out), want, f"by the reference grammar the output {out!r} denotes another resource")


def junk_case(d):
    src = gen.mutate(d, gen.render(d, gen.resource(d, gen.SMALL, 4)))
    res = parse(src)
    if d.chance(1, 2):
        # Junk made by hand, anywhere
        for _ in range(1 + d.draw(1)):
            content = d.choice([None, "", "junk\n", "}\n\n", "bad = {\n", "x", "\u2028\r\n", "# not\n"])
            res.body.insert(d.draw(len(res.body)), ast.Junk(content) if content is not None else ast.Junk())
    if d.chance(1, 4):
        while len(res.body) > 1 and d.chance(1, 2):
            res.body.pop(d.draw(len(res.body) - 1))
    d.show({"source": src, "body": [type(e).__name__ + (":" + repr(e.content) if isinstance(e, ast.Junk) else "") for e in res.body]})
    junk = [e for e in res.body if isinstance(e, ast.Junk)]
    d.nontrivial(bool(junk) and len(res.body) > 1)
    d.label("junk:%d" % min(len(junk), 3))
    with_, without = serialize(res, with_junk=True), serialize(res)
    if FluentSerializer(with_junk=True).serialize(res) != with_ or FluentSerializer(with_junk=False).serialize(res) != without or FluentSerializer().serialize(res) != without:
        fail("FluentSerializer and serialize disagree")
    s = FluentSerializer()
    want_with = want_without = ""
    seen = seen_all = 0
    for e in res.body:
        if isinstance(e, ast.Junk):
            want_with += e.content or ""
            seen_all = 1
            continue
        want_with += s.serialize_entry(e, seen_all)
        want_without += s.serialize_entry(e, seen)
        seen = seen_all = 1
    if with_ != want_with:
        fail("with_junk=True gives {!r}, expected {!r}", with_, want_with)
    if without != want_without:
        fail("with_junk=False gives {!r}, expected {!r}", without, want_without)
    for e in junk:
        if (e.content or "") not in with_:
            fail("Junk {!r} not in {!r}", e.content, with_)
        if s.serialize_entry(e) != (e.content or "") or s.serialize_entry(e, 1) != (e.content or ""):
            fail("serialize_entry(Junk) is not its content")
    kept = [e for e in res.body if not isinstance(e, ast.Junk)]
    if serialize(ast.Resource(kept)) != without:
        fail("leaving Junk out differs from a resource without it")


def junk_back_case(d):
    """with_junk=True: what was parsed as Junk is Junk again, entries too."""
    src = gen.mutate(d, gen.render(d, gen.resource(d, gen.SMALL, 4), nl=0))
    res = parse(src)
    body = M.strip(res.to_json(), ("span", "annotations"))["body"]
    d.show(src)
    if cr_source(src) or cr_finding(body) or any("\r" in (e["content"] or "") for e in body if e["type"] == "Junk"):
        return
    # Junk swallows the blank lines after it, and an entry follows it directly.
    d.nontrivial(any(e["type"] == "Junk" for e in body) and len(body) > 1)
    out = serialize(res, with_junk=True)
    back = M.strip(parse(out).to_json(), ("span", "annotations"))["body"]

    def norm(b):
        return [{**e, "content": e["content"].rstrip(" \n\r")} if e["type"] == "Junk" else e for e in b]
    check_eq(norm(back), norm(body), f"with_junk=True output {out!r} parses to something else")


PROPS["S22"] = Property(
    "S22",
    "built: resources built with the constructors from generated models. edited: parsed, then edited at random (patterns, ids, attributes, variants, comments, entries), then serialized, by a new serializer and by one that serialized the tree before the edits. junk/junk-back: resources with parsed and hand-made Junk, with and without with_junk. Non-trivial: more than one entry, at least one edit, Junk among other entries.",
    [Segment("built", built_case, 6000), Segment("edited", edited_case, 6000), Segment("junk", junk_case, 6000), Segment("junk-back", junk_back_case, 6000)],
    ["normalised: no adjacent or empty text elements, text that some source denotes"],
)
