"""S30-S34: the AST, Visitor and Transformer."""
import json

from .. import env  # noqa: F401
from .. import gen, mast as M
from ..engine import Property, Segment, Violation

from fluent.syntax import Transformer, Visitor, ast, parse

PROPS = {}


def fail(msg, *a):
    raise Violation(msg.format(*a) if a else msg)


# What the tree is, read off its attributes without any method under test.
def children(n):
    """(field, value) pairs in the order of the node's fields."""
    return list(vars(n).items())


def is_node(x):
    return isinstance(x, ast.BaseNode)


def nodes(x):
    """All nodes, pre-order."""
    out = []

    def rec(x):
        if is_node(x):
            out.append(x)
            for _, v in children(x):
                rec(v)
        elif isinstance(x, (list, tuple)):
            for v in x:
                rec(v)
    rec(x)
    return out


def json_lists(j):
    out, stack = [], [j]
    while stack:
        x = stack.pop()
        if isinstance(x, list):
            out.append(x)
            stack.extend(x)
        elif isinstance(x, dict):
            stack.extend(x.values())
    return out


def lists(x):
    out = []

    def rec(x):
        if is_node(x):
            for _, v in children(x):
                rec(v)
        elif isinstance(x, list):
            out.append(x)
            for v in x:
                rec(v)
    rec(x)
    return out


def snap(x):
    """A structural copy with types, as nested tuples."""
    if is_node(x):
        return (type(x).__name__, type(x), tuple(sorted(((k, snap(v)) for k, v in children(x)), key=lambda c: c[0])))
    if isinstance(x, list):
        return ("[]", tuple(snap(v) for v in x))
    return ("=", type(x).__name__, x)


def ident_snap(x):
    """The same by identity: which objects stand where."""
    if is_node(x):
        return (id(x), tuple((k, ident_snap(v)) for k, v in children(x)))
    if isinstance(x, list):
        return (id(x), tuple(ident_snap(v) for v in x))
    return x


class MyMessage(ast.Message):
    "A user's own node type."


class MyIdentifier(ast.Identifier):
    pass


class Comment(ast.Comment):
    "A user's own type under the name of its base, as the resolver's nodes are."


class TextElement(ast.TextElement):
    pass


def subclassed(d, t):
    for n in nodes(t):
        if isinstance(n, ast.Message) and d.chance(1, 2):
            n.__class__ = MyMessage
        elif isinstance(n, ast.Identifier) and d.chance(1, 6):
            n.__class__ = MyIdentifier
        elif type(n) is ast.Comment and d.chance(1, 2):
            n.__class__ = Comment
        elif isinstance(n, ast.TextElement) and d.chance(1, 3):
            n.__class__ = TextElement


def tree(d, subclasses=False):
    """(description, tree): parsed or built, with Junk, spans, annotations."""
    k = d.weighted([(4, 0), (3, 1), (3, 2)])
    if k == 0:
        src = gen.render(d, gen.resource(d, gen.DEFAULT, 4))
    elif k == 1:
        src = gen.any_source(d)
    else:
        m = gen.resource(d, gen.SMALL, 4)
        t = M.build(ast, m)
        if d.chance(1, 3):
            j = ast.Junk("x = {\n", [ast.Annotation("E0028", [d.choice(["a", 1, "", None, 0, False, True, ["b", None], {"type": "Identifier", "name": "n"}][:8]) for _ in range(d.size(4))], d.choice(["msg", "", None])) for _ in range(d.draw(2))])
            t.body.insert(d.draw(len(t.body)), j)
        for n in nodes(t):
            if isinstance(n, ast.SyntaxNode) and d.chance(1, 6):
                a = d.draw(50)
                n.add_span(a, a + d.draw(9))
        desc = m
        src = None
    if src is not None:
        if d.chance(1, 8):
            # cut off: annotations can have None among their arguments
            src += d.choice(["a = { \"\\", "a = { \"\\u1", "-a", "a = { $", "a = { A(", "a = { $x ->\n ["])
        t = parse(src, with_spans=not d.chance(1, 4))
        desc = src
    if subclasses and d.chance(1, 4):
        subclassed(d, t)
    return desc, t


def some_node(d, t):
    """Usually the root, sometimes any node inside."""
    ns = nodes(t)
    return ns[0] if d.chance(2, 3) else d.choice(ns)


# --------------------------------------------------------------------------- S30
def want_json(x):
    if is_node(x):
        o = {k: want_json(v) for k, v in children(x)}
        o["type"] = type(x).__name__
        return o
    if isinstance(x, list):
        return [want_json(v) for v in x]
    return x


FALSY = [None, "", 0, [], False]


def json_case(d):
    desc, t = tree(d)
    if d.chance(1, 10):
        # emptied fields, as a Transformer leaves them
        for n in nodes(t)[1:]:
            if d.chance(1, 6):
                for k, v in children(n):
                    if is_node(v) or isinstance(v, str):
                        setattr(n, k, None)
        d.label("emptied fields")
    t = some_node(d, t)
    d.show({"tree": desc, "node": type(t).__name__})
    before = snap(t)
    ns = nodes(t)
    d.nontrivial(len(ns) > 6)
    d.label(*sorted({"has " + type(n).__name__ for n in ns}))
    for n in ns:
        want = set(M.FIELDS[type(n).__name__]) | (set() if isinstance(n, ast.Span) else {"span"})
        if set(vars(n)) != want:
            fail("{} has fields {}, expected {}", type(n).__name__, sorted(vars(n)), sorted(want))
    j = t.to_json()
    df = M.diff(j, want_json(t))
    if df:
        fail("to_json: {}", df)
    if snap(t) != before:
        fail("to_json changed the tree")
    for l in [j, json.loads(json.dumps(j)), json.loads(str(t)), ast.to_json(t)]:
        frozen = json.dumps(l)
        back = ast.from_json(l)
        if snap(back) != before:
            fail("from_json(to_json) differs: {}", M.diff(want_json(back), want_json(t)))
        if json.dumps(l) != frozen:
            fail("from_json changed its input")
        if set(map(id, nodes(back))) & set(map(id, ns)):
            fail("from_json returned nodes of the original")
        again = ast.from_json(l)
        if set(map(id, nodes(back))) & set(map(id, nodes(again))):
            fail("from_json returned the same nodes twice")
        given = set(map(id, json_lists(l)))
        if any(id(x) in given for x in lists(back)) or set(map(id, lists(back))) & set(map(id, lists(again))):
            fail("from_json: the tree shares a list with the JSON or with another tree made from it")
        if not back.equals(t, ignored_fields=[]) or not t.equals(back):
            fail("equals says from_json(to_json) differs")
    # nothing of the tree leaks into its JSON
    if isinstance(j, dict):
        mine = set(map(id, lists(t)))
        stack = [j]
        while stack:
            x = stack.pop()
            if isinstance(x, (list, dict)):
                if id(x) in mine:
                    fail("the JSON holds a list of the tree")
                stack.extend(x.values() if isinstance(x, dict) else x)
    # lists and scalars
    sub = [n for n in ns[:5]]
    if ast.to_json(sub) != [want_json(n) for n in sub] or ast.to_json("x") != "x" or ast.to_json(None) is not None or ast.to_json(7) != 7:
        fail("to_json of a list or scalar")
    if [snap(n) for n in ast.from_json(ast.to_json(sub))] != [snap(n) for n in sub]:
        fail("from_json of a list")
    # transformation function
    calls = []
    mode = d.draw(4)

    def fn(o):
        calls.append(dict(o))
        if mode == 4:
            return FALSY[len(calls) % 7] if len(calls) % 7 < 5 else o
        if mode == 0:
            return o
        if mode == 1:
            return {**o, "n": len(calls)}
        if mode == 2:
            return [o["type"], len(calls)]
        o.pop("span", None)
        return o
    got = t.to_json(fn)
    if len(calls) != len(ns):
        fail("the function was called {} times for {} nodes", len(calls), len(ns))
    count = [0]

    def want_fn(x):
        if is_node(x):
            # children in any order, but before their parent
            o = {k: want_fn(v) for k, v in children(x)}
            o["type"] = type(x).__name__
            count[0] += 1
            if mode == 1:
                o["n"] = count[0]
            elif mode == 2:
                return [o["type"], count[0]]
            elif mode == 3:
                o.pop("span", None)
            elif mode == 4:
                return FALSY[count[0] % 7] if count[0] % 7 < 5 else o
            return o
        if isinstance(x, list):
            return [want_fn(v) for v in x]
        return x
    df = M.diff(got, want_fn(t))
    if df:
        fail("to_json(fn), mode {}: {}", mode, df)
    if snap(t) != before:
        fail("to_json(fn) changed the tree")
    # the JSON of an edited tree
    edited = 0
    for n in ns:
        for k, v in children(n):
            if isinstance(v, str) and d.chance(1, 3):
                setattr(n, k, v + "x")
                edited += 1
    if edited:
        d.label("edited afterwards")
        df = M.diff(t.to_json(), want_json(t))
        if df:
            fail("to_json of a tree edited after an earlier to_json: {}", df)
        if snap(ast.from_json(t.to_json())) != snap(t):
            fail("from_json(to_json) differs for a tree edited after an earlier to_json")


def tuples_case(d):
    """Sequences held as tuples are written like lists, and the function reaches into them."""
    desc, t = tree(d)
    listed = want_json(t)
    n = 0
    for x in nodes(t):
        for k, v in children(x):
            if isinstance(v, list) and d.chance(1, 3):
                setattr(x, k, tuple(v))
                n += len(v) > 0
    d.show(desc)
    d.nontrivial(n > 0)
    df = M.diff(t.to_json(), listed)
    if df:
        fail("to_json with tuples: {}", df)
    seen = []
    df = M.diff(t.to_json(lambda o: seen.append(o) or o), listed)
    if df:
        fail("to_json(fn) with tuples: {}", df)
    if len(seen) != len(nodes(t)):
        fail("the function was called {} times for {} nodes, some in tuples", len(seen), len(nodes(t)))
    c = t.clone()
    df = M.diff(c.to_json(), listed)
    if df:
        fail("clone with tuples: {}", df)
    if set(map(id, nodes(c))) & set(map(id, nodes(t))):
        fail("a node in a tuple is shared with the clone")


def foreign_case(d):
    """JSON that was not written by to_json: every value in it comes back."""
    m = gen.resource(d, gen.SMALL, 3)

    def spans(x):
        if isinstance(x, dict):
            o = {k: spans(v) for k, v in x.items()}
            o["span"] = None if d.chance(1, 2) else {"type": "Span", "start": d.draw(9), "end": d.draw(30)}
            return o
        if isinstance(x, list):
            return [spans(v) for v in x]
        return x
    m = spans(m)
    for _ in range(d.size(2)):
        args = [d.choice(["a", "", None, 0, 1, False, True]) for _ in range(d.size(4))]
        ann = {"type": "Annotation", "code": d.choice(["E0003", "", "X"]), "arguments": args, "message": d.choice(["m", "", None]), "span": None}
        m["body"].insert(d.draw(len(m["body"])), {"type": "Junk", "content": d.choice(["j", "", None]), "annotations": [ann] * d.draw(2), "span": None})
    d.show(m)
    d.nontrivial(len(json.dumps(m)) > 300)
    t = ast.from_json(json.loads(json.dumps(m)))
    df = M.diff(want_json(t), m)
    if df:
        fail("from_json: {}", df)
    df = M.diff(t.to_json(), m)
    if df:
        fail("to_json(from_json(x)): {}", df)


PROPS["S30"] = Property(
    "S30",
    "Trees: parsed from any kind of source (with and without spans) or built by hand with spans and Junk, and sub-trees of them, written again after an edit; trees made from one JSON value share nothing with it or each other; foreign: JSON written by the generator (spans, annotations, falsy values) must come back value for value; tuples: lists held as tuples are written and cloned alike. Non-trivial: more than six nodes; more than 300 characters of JSON.",
    [Segment("json", json_case, 8000), Segment("foreign", foreign_case, 3000), Segment("tuples", tuples_case, 2000)],
)


# --------------------------------------------------------------------------- mutations
STR = ["", "a", "zz", "A", "new\nline", "0"]


def mutate(d, t, spans=True):
    """Changes one field or list of one node for real; returns (node, field) or None."""
    for _ in range(20):
        n = d.choice(nodes(t))
        if isinstance(n, ast.Span) and not spans:
            continue
        fields = [k for k, _ in children(n) if spans or k != "span"]
        if not fields:
            continue
        f = d.choice(fields)
        v = getattr(n, f)
        was = snap(n)
        if isinstance(v, list):
            k = d.draw(4)
            if k == 0 and v:
                v.pop(d.draw(len(v) - 1))
            elif k == 1 and v:
                x = d.choice(v)
                v.append(x.clone() if is_node(x) else "x")
            elif k == 2 and len(v) > 1:
                i = d.draw(len(v) - 2)
                v[i], v[i + 1] = v[i + 1], v[i]
            elif k == 3:
                setattr(n, f, list(v)[:-1] if v else [ast.Identifier("i")])
            else:
                v.insert(0, ast.TextElement("added"))
        elif isinstance(v, bool):
            setattr(n, f, not v)
        elif isinstance(v, int):
            setattr(n, f, v + 1 + d.draw(3))
        elif isinstance(v, str):
            s = d.choice(STR)
            setattr(n, f, s if s != v else v + "!")
        elif v is None:
            setattr(n, f, ast.Span(1, 2) if f == "span" else ast.Identifier("i") if f in ("attribute", "id") else ast.Comment("c") if f == "comment" else ast.Pattern([ast.TextElement("t")]))
        else:
            k = d.draw(2)
            if k == 0:
                setattr(n, f, None)
            elif k == 1:
                setattr(n, f, ast.Identifier("swapped") if not isinstance(v, ast.Identifier) else ast.NumberLiteral("1"))
            elif not isinstance(v, ast.Span):
                for kk, vv in children(v):
                    if isinstance(vv, str):
                        setattr(v, kk, vv + "x")
                        break
                else:
                    setattr(n, f, None)
            else:
                v.end += 1
        if snap(n) != was:
            return type(n).__name__, f
    return None


# --------------------------------------------------------------------------- S31
def clone_case(d):
    desc, t = tree(d, subclasses=True)
    t = some_node(d, t)
    d.show({"tree": desc, "node": type(t).__name__})
    before, where = snap(t), ident_snap(t)
    c = t.clone()
    d.nontrivial(len(nodes(t)) > 6)
    if ident_snap(t) != where or snap(t) != before:
        fail("clone changed the original")
    if snap(c) != before:
        fail("the clone differs: {} / same types: {}", M.diff(want_json(c), want_json(t)), [type(n) for n in nodes(c)] == [type(n) for n in nodes(t)])
    if set(map(id, nodes(c))) & set(map(id, nodes(t))):
        fail("a node is shared: {}", [type(n).__name__ for n in nodes(c) if id(n) in set(map(id, nodes(t)))][:3])
    if set(map(id, lists(c))) & set(map(id, lists(t))):
        fail("a list is shared")
    if not c.equals(t, ignored_fields=[]) or not t.equals(c, ignored_fields=[]):
        fail("equals says the clone differs")
    # histories of edits of either side stay invisible to the other
    log = []
    for _ in range(1 + d.draw(3)):
        if d.chance(1, 2):
            other, mine = snap(t), c
        else:
            other, mine = snap(c), t
        done = mutate(d, mine)
        log.append(done)
        if snap(t if mine is c else c) != other:
            fail("an edit of {} in one tree shows in the other", done)
    d.label("edits:%d" % len([x for x in log if x]))
    # cloning a clone or an edited tree
    e = c.clone()
    if snap(e) != snap(c) or set(map(id, nodes(e))) & set(map(id, nodes(c))):
        fail("the clone of an edited tree differs or shares")


def clone_tuples_case(d):
    """Nodes held in tuples are copied too."""
    desc, t = tree(d)
    listed = want_json(t)
    n = 0
    for x in nodes(t):
        for k, v in children(x):
            if isinstance(v, list) and d.chance(1, 3):
                setattr(x, k, tuple(v))
                n += len(v) > 0
    d.show(desc)
    d.nontrivial(n > 0)
    c = t.clone()
    df = M.diff(c.to_json(), listed)
    if df:
        fail("the clone differs: {}", df)
    if set(map(id, nodes(c))) & set(map(id, nodes(t))):
        fail("a node is shared")
    was = snap(t)
    for x in nodes(c):
        for k, v in children(x):
            if isinstance(v, (str, list)):
                setattr(x, k, v + "x") if isinstance(v, str) else v.append("x")
    if snap(t) != was:
        fail("edits of the clone show in the original")


PROPS["S31"] = Property(
    "S31",
    "tuples: some lists are tuples. clone: Trees as in S30, some with user-defined node subclasses; then one to four random edits on either side. Non-trivial: more than six nodes.",
    [Segment("clone", clone_case, 9000), Segment("tuples", clone_tuples_case, 1500)],
    ["user subclasses keep their base's constructor"],
)


# --------------------------------------------------------------------------- S32
def ref_equals(a, b, ignored):
    if type(a) is not type(b):
        return False
    if is_node(a):
        fa = {k: v for k, v in children(a) if k not in ignored}
        fb = {k: v for k, v in children(b) if k not in ignored}
        return set(fa) == set(fb) and all(ref_equals(v, fb[k], ignored) for k, v in fa.items())
    if isinstance(a, list):
        return len(a) == len(b) and all(ref_equals(x, y, ignored) for x, y in zip(a, b))
    return a == b


IGNORED = [None, [], ["span"], ["span", "comment"], ["span", "value"], ["comment"], ["span", "attributes"], ["span", "id"], ["span", "default"], ["span", "name"], ["span", "annotations"], ["span", "content", "body"], ["elements", "span"], ["span", "variants", "arguments"], ["span", "key"], ["span", "nosuch"]]


def both(a, b, ign, what):
    want = ref_equals(a, b, ["span"] if ign is None else ign)
    for n, (x, y) in enumerate(((a, b), (b, a))):
        # no ignored fields may also be written as None
        got = x.equals(y) if ign is None else x.equals(y, ignored_fields=list(ign) if ign or n % 2 else None)
        if got is not want:
            fail("{}: equals({}, ignoring {}) is {!r}, structurally {}", what, type(y).__name__, ign, got, want)
    return want


def equals_case(d):
    desc, t = tree(d, subclasses=True)
    mode = d.weighted([(5, "edit"), (2, "same"), (2, "layout"), (3, "any two")])
    d.label(mode)
    ign = d.choice(IGNORED)
    d.nontrivial(len(nodes(t)) > 6)
    if mode == "edit":
        u = t.clone()
        log = [mutate(d, u) for _ in range(1 + d.draw(1))]
        if d.chance(1, 6):
            # a field of the caller's own, on one side or on both
            i = d.draw(len(nodes(t)) - 1)
            for side in (t, u):
                if d.chance(2, 3) and i < len(nodes(side)):
                    setattr(nodes(side)[i], d.choice(["note", "note", "mark"]), d.choice(["n", "n", "m", None]))
        if d.chance(1, 3):
            t, u = u, t
        d.show({"tree": desc, "edits": log, "ignored": ign})
        was = snap(t), snap(u)
        r = both(t, u, ign, "edited")
        d.label("equal" if r else "unequal")
        if (snap(t), snap(u)) != was:
            fail("equals changed a tree")
        # the same at every level on the way
        for a, b in list(zip(nodes(t), nodes(u)))[:40]:
            both(a, b, ign, "inner nodes")
        return
    if mode == "same":
        d.show({"tree": desc, "ignored": ign})
        for n in nodes(t)[:60]:
            if both(n, n, ign, "itself") is not True:
                fail("reference equality is broken")
        both(t, t.clone(), ign, "clone")
        return
    if mode == "layout":
        m = gen.resource(d, gen.SMALL, 3)
        a, b = gen.render(d, m), gen.render(d, m)
        d.show({"a": a, "b": b, "ignored": ign})
        x, y = parse(a), parse(b)
        if not x.equals(y):
            fail("the same entries in another layout are unequal")
        both(x, y, ign, "layouts")
        both(x, y, [], "layouts")
        return
    _, u = tree(d)
    x, y = d.choice(nodes(t)), d.choice(nodes(u))
    if d.chance(1, 2):
        same = [n for n in nodes(u) + nodes(t) if type(n) is type(x)]
        y = d.choice(same)
    d.show({"tree": desc, "x": want_json(x), "y": want_json(y), "ignored": ign})
    r = both(x, y, ign, "two nodes")
    d.label("equal" if r else "unequal")


PROPS["S32"] = Property(
    "S32",
    "Pairs: a tree and its randomly edited clone (compared at the root and at every node on the way), a tree with itself, two layouts of one resource, two arbitrary nodes; under 16 choices of ignored fields; against an independent structural comparison, both ways round. Non-trivial: more than six nodes.",
    [Segment("equals", equals_case, 14000)],
)


# --------------------------------------------------------------------------- S33
def visitor_case(d):
    desc, t = tree(d, subclasses=d.chance(1, 4))
    types = sorted({type(n).__name__ for n in nodes(t)})
    chosen = {}
    for ty in types:
        k = d.weighted([(5, None), (3, "descend"), (2, "stop"), (1, "descend-late")])
        if k:
            chosen[ty] = k
    if d.chance(1, 4):
        chosen[d.choice(["Expression", "Entry", "SyntaxNode", "BaseNode", "Literal", "Nothing"])] = "stop"
    override = d.draw(2)  # 0 none, 1 generic_visit records and descends, 2 it stops at some types
    stop_types = set(d.choice(types) for _ in range(d.draw(2))) if override == 2 else set()
    d.show({"tree": desc, "methods": chosen, "generic": override, "stop": sorted(stop_types)})
    d.label("override:%d" % override)
    d.nontrivial(len(nodes(t)) > 6 and bool(chosen))
    log = []

    def make(ty, kind):
        def method(self, node):
            log.append((ty, id(node)))
            if kind == "descend":
                self.generic_visit(node)
            elif kind == "descend-late":
                # by hand: the lists and fields directly
                for v in vars(node).values():
                    self.visit(v)
        return method
    body = {"visit_" + ty: make(ty, kind) for ty, kind in chosen.items()}
    if override:
        def generic_visit(self, node):
            log.append(("generic", id(node)))
            if type(node).__name__ not in stop_types:
                Visitor.generic_visit(self, node)
        body["generic_visit"] = generic_visit
    V = type("V", (Visitor,), body)
    want = []

    def ref(x):
        if isinstance(x, list):
            for v in x:
                ref(v)
        elif is_node(x):
            ty = type(x).__name__
            if ty in chosen:
                want.append((ty, id(x)))
                if chosen[ty] == "stop":
                    return
                if chosen[ty] == "descend" and override:
                    # the overridden generic_visit is what the method calls
                    want.append(("generic", id(x)))
                    if ty in stop_types:
                        return
            elif override:
                want.append(("generic", id(x)))
                if ty in stop_types:
                    return
            for _, v in children(x):
                ref(v)
    start = t if d.chance(3, 4) else some_node(d, t)
    if d.chance(1, 8) and isinstance(t, ast.Resource):
        start = t.body  # a list of nodes
    ref(start)
    before = ident_snap(start), snap(start)
    v = V()
    r = v.visit(start)
    if log != want:
        i = next((i for i, (a, b) in enumerate(zip(log, want)) if a != b), min(len(log), len(want)))
        fail("visit {} of {}: {}, expected {} (of {})", i, len(log), log[i:i + 1], want[i:i + 1], len(want))
    if (ident_snap(start), snap(start)) != before:
        fail("visiting changed the tree")
    # the visitor keeps nothing
    del log[:]
    v.visit(start)
    if log != want:
        fail("the second visit differs")
    return r


PROPS["S33"] = Property(
    "S33",
    "Trees as in S30 and a random Visitor subclass: visit_X methods for a random set of types that descend, stop or descend by hand, with generic_visit plain or overridden. Oracle: a walk over the nodes' fields. Non-trivial: more than six nodes and at least one method.",
    [Segment("visitor", visitor_case, 10000)],
)


# --------------------------------------------------------------------------- S34
ACTIONS = [(6, "keep"), (2, "stop"), (2, "replace"), (3, "remove"), (1, "replace-after"), (1, "hoist"), (1, "edit")]


def new_node(d, ty):
    return d.choice([lambda: ast.Identifier("new"), lambda: ast.TextElement("new"), lambda: ast.Placeable(ast.StringLiteral("n")), lambda: ast.Message(ast.Identifier("n"), ast.Pattern([ast.TextElement("v")])), lambda: ast.Junk("j")])()


def transformer_case(d):
    desc, t = tree(d, subclasses=d.chance(1, 5))
    types = sorted({type(n).__name__ for n in nodes(t)})
    handled = {ty for ty in types if d.chance(2, 5)}
    identity = d.chance(1, 8)
    plan = {}
    keep_alive = nodes(t)
    fields = {}
    for n in keep_alive:
        fields[id(n)] = [(k, list(v) if isinstance(v, list) else v) for k, v in children(n)]
        if type(n).__name__ in handled:
            act = "keep" if identity else d.weighted(ACTIONS)
            if act in ("replace", "replace-after"):
                plan[id(n)] = (act, new_node(d, type(n).__name__))
            elif act == "hoist":
                kids = [v for _, v in children(n) if is_node(v)]
                plan[id(n)] = ("hoist", d.choice(kids)) if kids else ("stop", None)
            elif act == "edit":
                strs = [k for k, v in children(n) if isinstance(v, str)]
                plan[id(n)] = ("edit", strs[0]) if strs else ("keep", None)
            else:
                plan[id(n)] = (act, None)
    list_ids = {id(n): {k: id(v) for k, v in children(n) if isinstance(v, list)} for n in keep_alive}
    kinds = sorted({a for a, _ in plan.values()})
    d.show({"tree": desc, "handled": sorted(handled), "actions": [(type(n).__name__, plan[id(n)][0]) for n in keep_alive if id(n) in plan and plan[id(n)][0] != "keep"]})
    d.label(*("action " + k for k in kinds))
    d.nontrivial(len(keep_alive) > 6 and any(k != "keep" for k in kinds))
    visits = []
    hand = d.chance(1, 2)
    rehearsal = [d.chance(1, 3)]

    def method(self, node):
        if rehearsal[0]:
            return self.generic_visit(node)
        visits.append(id(node))
        act, arg = plan[id(node)]
        if act == "keep":
            return self.generic_visit(node) if hand else Transformer.generic_visit(self, node)
        if act == "stop":
            return node
        if act == "replace":
            return arg
        if act == "remove":
            return None
        if act == "replace-after":
            self.generic_visit(node)
            return arg
        if act == "hoist":
            return arg
        setattr(node, arg, getattr(node, arg) + "~")
        return node
    T = type("T", (Transformer,), {"visit_" + ty: method for ty in handled})
    want_visits = []
    edits = []

    def untouched(n):
        return (n, [(k, [untouched(x) if is_node(x) else x for x in v] if isinstance(v, list) else untouched(v) if is_node(v) else v) for k, v in fields[id(n)]], True)

    def descend(n):
        out = []
        for k, v in fields[id(n)]:
            if isinstance(v, list):
                items = []
                for x in v:
                    if is_node(x):
                        y = expect(x)
                        if y is not None:
                            items.append(y)
                    else:
                        items.append(x)
                out.append((k, items))
            elif is_node(v):
                out.append((k, expect(v)))
            else:
                out.append((k, v))
        return (n, out, True)

    def expect(n):
        if id(n) not in plan:
            return descend(n)
        want_visits.append(id(n))
        act, arg = plan[id(n)]
        if act == "keep":
            return descend(n)
        if act == "stop":
            return untouched(n)
        if act == "replace":
            return (arg, None, False)
        if act == "remove":
            return None
        if act == "replace-after":
            descend(n)
            return (arg, None, False)
        if act == "hoist":
            return untouched(arg)
        edits.append((n, arg))
        f = untouched(n)
        return (f[0], [(k, v + "~" if k == arg else v) for k, v in f[1]], True)

    want = expect(t)
    want_types = [type(n).__name__ for n in keep_alive]
    new_snaps = {id(a): snap(a) for act, a in plan.values() if act.startswith("replace")}
    before = snap(t)
    transformer = T()
    if rehearsal[0]:
        # the same transformer has been used on the tree before, and left everything
        if transformer.visit(t) is not t or snap(t) != before:
            fail("a transformer that keeps every node changed the tree")
        rehearsal[0] = False
    got = transformer.visit(t)
    if visits != want_visits:
        fail("methods were called for {} nodes, expected {} (or in another order)", len(visits), len(want_visits))

    def compare(got, want, path):
        if want is None:
            if got is not None:
                fail("{}: {} instead of None", path, type(got).__name__)
            return
        if not isinstance(want, tuple):
            if got != want or type(got) is not type(want):
                fail("{}: {!r} instead of {!r}", path, got, want)
            return
        n, flds, old = want
        if got is not n:
            fail("{}: {} is not the {} expected there", path, type(got).__name__, type(n).__name__)
        if not old:
            if snap(n) != new_snaps[id(n)]:
                fail("{}: the replacement was altered", path)
            return
        if [k for k, _ in children(n)] != [k for k, _ in flds]:
            fail("{}: fields {}", path, [k for k, _ in children(n)])
        for k, w in flds:
            g = getattr(n, k)
            if isinstance(w, list):
                if not isinstance(g, list) or len(g) != len(w):
                    fail("{}.{}: {} items instead of {}", path, k, len(g) if isinstance(g, list) else g, len(w))
                if id(g) != list_ids[id(n)][k]:
                    fail("{}.{}: the list was replaced, not changed in place", path, k)
                for i, (a, b) in enumerate(zip(g, w)):
                    compare(a, b, f"{path}.{k}[{i}]")
            else:
                compare(g, w, f"{path}.{k}")
    compare(got, want, "$")
    if identity and snap(t) != before:
        fail("an identity transformer changed the tree")
    del want_types


def plain_case(d):
    """A Transformer that defines nothing leaves everything where it is."""
    desc, t = tree(d, subclasses=True)
    d.show(desc)
    d.nontrivial(len(nodes(t)) > 6)
    before = ident_snap(t), snap(t)
    if Transformer().visit(t) is not t:
        fail("the identity transformer returned another node")
    if (ident_snap(t), snap(t)) != before:
        fail("the identity transformer changed the tree")
    for x in (None, "s", 3, True):
        if Transformer().visit(x) is not x:
            fail("visit({!r}) is not itself", x)


PROPS["S34"] = Property(
    "S34",
    "Trees as in S30 and a random plan assigning every node of some types an action (descend, leave, replace, remove, descend then replace, hoist a child, edit); sometimes the same transformer ran over another tree first. Oracle: the resulting tree by object identity, computed from the plan and a snapshot. Non-trivial: more than six nodes and some action other than descend.",
    [Segment("transformer", transformer_case, 10000), Segment("plain", plain_case, 2000)],
    ["a method returns a node or None"],
)
