"""Reference serializer: the canonical layout, computed line by line from a plain
JSON tree.  Each construct yields a list of lines; nesting is a matter of
indenting whole lists, never of rewriting text."""

SIGIL = {"Comment": "#", "GroupComment": "##", "ResourceComment": "###"}


def join(parts):
    """Concatenates line lists: the last line of one runs on into the next."""
    out = [""]
    for p in parts:
        out[-1] += p[0]
        out += p[1:]
    return out


def deeper(lines):
    """All lines but the first move in by four columns (blank ones as well)."""
    return lines[:1] + ["    " + x for x in lines[1:]]


def expression(e):
    t = e["type"]
    if t == "StringLiteral":
        return ['"' + e["value"] + '"']
    if t == "NumberLiteral":
        return [e["value"]]
    if t == "VariableReference":
        return ["$" + e["id"]["name"]]
    if t == "Placeable":
        return placeable(e)
    if t in ("MessageReference", "TermReference"):
        name = ("-" if t == "TermReference" else "") + e["id"]["name"]
        if e["attribute"]:
            name += "." + e["attribute"]["name"]
        return join([[name], arguments(e["arguments"])]) if e.get("arguments") else [name]
    assert t == "FunctionReference", t
    return join([[e["id"]["name"]], arguments(e["arguments"])])


def arguments(a):
    items = [expression(x) for x in a["positional"]]
    items += [join([[n["name"]["name"] + ": "], expression(n["value"])]) for n in a["named"]]
    parts = [["("]]
    for i, x in enumerate(items):
        parts += [[", "], x] if i else [x]
    return join(parts + [[")"]])


def placeable(p):
    e = p["expression"]
    if e["type"] == "Placeable":
        return join([["{"], placeable(e), ["}"]])
    if e["type"] != "SelectExpression":
        return join([["{ "], expression(e), [" }"]])
    out = join([["{ "], expression(e["selector"]), [" ->"]])
    for v in e["variants"]:
        k = v["key"]
        k = k["name"] if k["type"] == "Identifier" else k["value"]
        head = ("   *" if v["default"] else "    ") + "[" + k + "]"
        out += join([[head], deeper(pattern(v["value"]))])
    return out + ["}"]


def pattern(p):
    """From just after the '=' or ']'."""
    els = p["elements"]
    body = deeper(join([e["value"].split("\n") if e["type"] == "TextElement" else placeable(e) for e in els]))
    block = any(e["type"] == "TextElement" and "\n" in e["value"] or e["type"] == "Placeable" and e["expression"]["type"] == "SelectExpression" for e in els)
    if block and not (els[0]["type"] == "TextElement" and els[0]["value"][0] in "[.*"):
        return ["", "    " + body[0]] + body[1:]
    return [" " + body[0]] + body[1:]


def comment(c, sigil):
    return [sigil + " " + l if l else sigil for l in (c["content"] or "").split("\n")]


def entry(e):
    t = e["type"]
    if t in SIGIL:
        return comment(e, SIGIL[t]) + [""]
    out = comment(e["comment"], "#") if e["comment"] else []
    head = ("-" if t == "Term" else "") + e["id"]["name"] + " ="
    out += join([[head], pattern(e["value"])]) if e["value"] else [head]
    for a in e["attributes"]:
        out += join([["    ." + a["id"]["name"] + " ="], deeper(pattern(a["value"]))])
    return out


def resource(body):
    lines = []
    for i, e in enumerate(body):
        if e["type"] in SIGIL and i:
            lines.append("")
        lines += entry(e)
    return "".join(l + "\n" for l in lines)
