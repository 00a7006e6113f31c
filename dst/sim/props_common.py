import os

from . import boot as _boot

PRODUCT = os.path.join(os.path.realpath(_boot.REPO_SRC), "dynamicprompts") + os.sep


def own(v):
    """What a request returned.  The list is the caller's own: it is spoiled, so a later answer that shares it shows."""
    if not isinstance(v, list):
        return v
    out = list(v)
    v.reverse()
    v.append("spoiled")
    return out


def no_zero(node):
    """Forbid zero-choice bounds (they leave whitespace-sensitive gaps)."""
    if node[0] == "V":
        v = node[1]
        if v.get("f"):
            v["lo"], v["hi"] = max(1, v["lo"]), max(1, v["hi"])
        for _, o in v["o"]:
            no_zero(o)
    elif node[0] == "S":
        for c in node[1]:
            no_zero(c)
    elif node[0] == "X":
        no_zero(node[1])
        no_zero(node[2])
    elif node[0] == "=":
        no_zero(node[2])
    elif node[0] == "A" and node[2]:
        no_zero(node[2])


def warm():
    """Build the default parser before forking, so that runs do not each pay for it."""
    from dynamicprompts.parser.parse import parse
    parse("a {b|2::c} __d__ ${e:f} %{g...$$h} {2$$x|y}")


def setup():
    warm()


def has_kind(node, kinds):
    k = node[0]
    if k in kinds:
        return True
    if k == "S":
        return any(has_kind(c, kinds) for c in node[1])
    if k == "V":
        return any(has_kind(o, kinds) for _, o in node[1]["o"])
    if k == "X":
        return has_kind(node[1], kinds) or has_kind(node[2], kinds)
    if k == "A":
        return node[2] is not None and has_kind(node[2], kinds)
    if k == "=":
        return has_kind(node[2], kinds)
    return False


def markable(node):
    """May become cyclical: no wrap inside (unsupported there), no duplicated options to choose several from."""
    if node[0] == "W":
        return isinstance(node[1], str)
    if node[0] != "V" or has_kind(node, ("X",)):
        return False
    return not has_dup_multi(node)


def has_dup_multi(node):
    from . import tmpl
    k = node[0]
    if k == "V":
        v = node[1]
        ts = [tmpl.render(o) for _, o in v["o"]]
        if v.get("f") and len(set(ts)) < len(ts):
            return True
        return any(has_dup_multi(o) for _, o in v["o"])
    if k == "S":
        return any(has_dup_multi(c) for c in node[1])
    if k == "A":
        return node[2] is not None and has_dup_multi(node[2])
    return False


def set_method(node, m):
    if node[0] == "V":
        return ["V", {**node[1], "m": m}]
    return ["W", node[1], m, node[3]]


def mark_methods(node, r, top, p, rnd=True):
    """Mark some parts '@' (or '~' at the top level) where the documented meaning is clear: direct
    tokens of a sequence and options of a multi-option variant."""
    k = node[0]
    if k == "S":
        out = []
        for c in node[1]:
            if c[0] in ("V", "W") and r.random() < p:
                if top and rnd and r.random() < 0.3 and c[0] == "V" and not has_kind(c, ("X",)):
                    out.append(set_method(c, "~"))
                    continue
                if markable(c):
                    out.append(set_method(c, "@"))
                    continue
            out.append(mark_methods(c, r, False, p, rnd) if c[0] == "V" else c)
        return ["S", out]
    if k == "V":
        v = node[1]
        if len(v["o"]) == 1:
            return node
        o = []
        for w, c in v["o"]:
            if r.random() < p * 0.5 and markable(c):
                o.append([w, set_method(c, "@")])
            else:
                o.append([w, mark_methods(c, r, False, p, rnd) if c[0] in ("S", "V") else c])
        return ["V", {**v, "o": o}]
    return node


def strip_methods(node):
    k = node[0]
    if k == "S":
        return ["S", [strip_methods(c) for c in node[1]]]
    if k == "V":
        return ["V", {**node[1], "m": None, "o": [[w, strip_methods(o)] for w, o in node[1]["o"]]}]
    if k == "W":
        return ["W", node[1], None, node[3]]
    return node
