"""Model ASTs: plain dicts shaped like to_json() output, without spans.

Written from the Fluent 1.0 abstract syntax; nothing here calls the code under
test.
"""


def ident(name):
    return {"type": "Identifier", "name": name}


def text(v):
    return {"type": "TextElement", "value": v}


def placeable(e):
    return {"type": "Placeable", "expression": e}


def pattern(elements):
    return {"type": "Pattern", "elements": elements}


def string(raw):
    return {"type": "StringLiteral", "value": raw}


def number(raw):
    return {"type": "NumberLiteral", "value": raw}


def var(n):
    return {"type": "VariableReference", "id": ident(n)}


def msgref(n, attr=None):
    return {"type": "MessageReference", "id": ident(n), "attribute": ident(attr) if attr else None}


def termref(n, attr=None, args=None):
    return {"type": "TermReference", "id": ident(n), "attribute": ident(attr) if attr else None, "arguments": args}


def call(n, args):
    return {"type": "FunctionReference", "id": ident(n), "arguments": args}


def callargs(pos=(), named=()):
    return {"type": "CallArguments", "positional": list(pos), "named": list(named)}


def named(n, v):
    return {"type": "NamedArgument", "name": ident(n), "value": v}


def select(sel, variants):
    return {"type": "SelectExpression", "selector": sel, "variants": variants}


def variant(key, value, default=False):
    return {"type": "Variant", "key": key, "value": value, "default": default}


def attribute(n, v):
    return {"type": "Attribute", "id": ident(n), "value": v}


def message(n, value, attributes=(), comment=None):
    return {"type": "Message", "id": ident(n), "value": value, "attributes": list(attributes), "comment": comment}


def term(n, value, attributes=(), comment=None):
    return {"type": "Term", "id": ident(n), "value": value, "attributes": list(attributes), "comment": comment}


def comment(kind, content):
    return {"type": kind, "content": content}


def resource(body):
    return {"type": "Resource", "body": body}


FIELDS = {
    "Resource": ["body"], "Message": ["id", "value", "attributes", "comment"], "Term": ["id", "value", "attributes", "comment"],
    "Pattern": ["elements"], "TextElement": ["value"], "Placeable": ["expression"], "StringLiteral": ["value"], "NumberLiteral": ["value"],
    "MessageReference": ["id", "attribute"], "TermReference": ["id", "attribute", "arguments"], "VariableReference": ["id"],
    "FunctionReference": ["id", "arguments"], "SelectExpression": ["selector", "variants"], "CallArguments": ["positional", "named"],
    "Attribute": ["id", "value"], "Variant": ["key", "value", "default"], "NamedArgument": ["name", "value"], "Identifier": ["name"],
    "Comment": ["content"], "GroupComment": ["content"], "ResourceComment": ["content"], "Junk": ["content", "annotations"],
    "Annotation": ["code", "arguments", "message"], "Span": ["start", "end"],
}
NODE_TYPES = sorted(FIELDS)


def strip(j, drop=("span",)):
    """to_json output without the named fields."""
    if isinstance(j, dict):
        return {k: strip(v, drop) for k, v in j.items() if k not in drop}
    if isinstance(j, list):
        return [strip(x, drop) for x in j]
    return j


def walk(m):
    """All node dicts, pre-order."""
    stack = [m]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            yield x
            stack.extend(reversed(list(x.values())))
        elif isinstance(x, list):
            stack.extend(reversed(x))


def diff(a, b, path="$"):
    """First difference between two JSON-ish values, as text, or None."""
    if type(a) is not type(b):
        return f"{path}: {_s(a)} != {_s(b)}"
    if isinstance(a, dict):
        if set(a) != set(b):
            return f"{path}: fields {sorted(a)} != {sorted(b)}"
        for k in a:
            r = diff(a[k], b[k], f"{path}.{k}")
            if r:
                return r
        return None
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, f"{path}[{i}]")
            if r:
                return r
        if len(a) != len(b):
            return f"{path}: length {len(a)} != {len(b)}; extra {_s((a + b)[min(len(a), len(b))] if len(a) < len(b) else a[len(b)])}"
        return None
    if a != b:
        return f"{path}: {a!r} != {b!r}"
    return None


def _s(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


ORDER = {
    "Resource": ["body"], "Message": ["id", "value", "attributes", "comment"], "Term": ["id", "value", "attributes", "comment"], "Pattern": ["elements"], "TextElement": ["value"], "Placeable": ["expression"],
    "StringLiteral": ["value"], "NumberLiteral": ["value"], "MessageReference": ["id", "attribute"], "TermReference": ["id", "attribute", "arguments"], "VariableReference": ["id"], "FunctionReference": ["id", "arguments"],
    "SelectExpression": ["selector", "variants"], "CallArguments": ["positional", "named"], "Attribute": ["id", "value"], "Variant": ["key", "value", "default"], "NamedArgument": ["name", "value"], "Identifier": ["name"],
    "Comment": ["content"], "GroupComment": ["content"], "ResourceComment": ["content"], "Junk": ["content", "annotations"], "Annotation": ["code", "arguments", "message"], "Span": ["start", "end"],
}
DEFAULTS = {
    "Resource": {"body": []}, "Message": {"value": None, "attributes": [], "comment": None}, "Term": {"attributes": [], "comment": None}, "MessageReference": {"attribute": None}, "TermReference": {"attribute": None, "arguments": None},
    "CallArguments": {"positional": [], "named": []}, "Variant": {"default": False}, "Junk": {"annotations": []},
}


def build_terse(d, ast, m):
    """The same, the way people write it: by position, defaults left out."""
    if isinstance(m, list):
        return [build_terse(d, ast, x) for x in m]
    if not isinstance(m, dict):
        return m
    t = m["type"]
    names = [k for k in ORDER[t] if k in m]
    given = {k: build_terse(d, ast, m[k]) for k in names}
    for k, v in DEFAULTS.get(t, {}).items():
        if k in m and m[k] == v and d.chance(2, 3):
            del given[k]
    args = []
    for k in names:
        if k not in given or d.chance(1, 4):
            break
        args.append(given.pop(k))
    return getattr(ast, t)(*args, **given)


def build(ast, m):
    """Builds real AST nodes with the public constructors."""
    if isinstance(m, dict):
        cls = getattr(ast, m["type"])
        return cls(**{k: build(ast, v) for k, v in m.items() if k != "type"})
    if isinstance(m, list):
        return [build(ast, x) for x in m]
    return m
