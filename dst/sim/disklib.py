"""A wildcard library on the simulated disk, with the reference reading of every file.

A file is {"p": relative path, "k": "txt"|"json"|"yaml"|"flat-json"|"flat-yaml"|"raw", "d": payload}:
  txt: d = list of lines; json/yaml: d = {"key": [[text, weight], ...]} (keys may contain "/" for nesting);
  a value may have a third element: how it's spelled ("prefix", "content", "single" string), or, when its text is None,
  something that isn't a value at all; "odd" in f: top-level entries that define nothing;
  flat-*: d = list of texts; raw: d = text stored verbatim (not a wildcard file).
"""
import itertools
import json
import os
from fnmatch import fnmatchcase

WORDS = ["ash", "birch", "cedar", "dogwood", "elm", "fir", "ginkgo", "hazel", "ivy", "juniper", "kapok", "larch", "maple", "nutmeg", "oak"]
DIRS = ["", "", "trees", "trees/tall", "v1.0", "Übung", "a b"]
BASES = ["one", "two", "three", "x.y", "Mixed"]


def gen_file(r, used=()):
    """A new file whose collection names collide with nothing in used."""
    for _ in range(50):
        d, b = r.choice(DIRS), r.choice(BASES)
        k = r.choice(["txt", "txt", "txt", "json", "yaml", "flat-json", "flat-yaml"])
        f = {"p": (d + "/" if d else "") + b + "." + k.rpartition("-")[2], "k": k, "d": gen_data(r, k, b)}
        if k in ("json", "yaml") and r.random() < 0.15:
            f["odd"] = r.sample([x for x in ODD if k == "yaml" or isinstance(x, str)], r.randint(1, 3))
        if k.startswith("flat") and r.random() < 0.2:  # among the texts, things that aren't texts
            f["mix"] = [[r.randint(0, 4), r.choice([x for x in JUNK if not isinstance(x, str)])] for _ in range(r.randint(1, 2))]
        names = set(collections(f))
        if f["p"] not in used and not names & set().union(*[set(collections(u)) for u in used.values()] or [set()]):
            return f
    return None


def gen_data(r, k, b):
    def words(lo=0):
        return [r.choice(WORDS) + (" " + r.choice(WORDS) if r.random() < 0.2 else "") for _ in range(r.randint(lo, 4))]
    if k == "txt":
        if r.random() < 0.1:  # characters that only some functions take for line ends
            return ["red" + r.choice("\x0b\x0c\x1c\x1d\x85\u2028\u2029\u00a0") + r.choice(WORDS) for _ in range(r.randint(1, 2))] + words()
        return [x for w in words() for x in ([w] if r.random() < 0.8 else [w, ""] if r.random() < 0.5 else ["# " + w, "  " + w + "  ", "  # " + w, "\t#" + w, " "][:r.choice([2, 5])])]
    if k.startswith("flat"):
        return words(1)
    out = {}
    rich = r.random() < 0.3
    for key in r.sample([b, b + "k", "k1", "deep/k2", "deep/er/k3"], r.randint(1, 3)):
        vals = [[w, r.choice([1, 1, 1, 2, 3.5])] for w in words(1)]
        if rich:
            vals = [[t, w] + ([r.choice(["prefix", "content"])] if w != 1 else ["content"] if r.random() < 0.2 else []) for t, w in vals]
            for _ in range(r.randint(0, 2)):
                vals.insert(r.randrange(len(vals) + 1), [None, 1, r.choice(JUNK)])
            if r.random() < 0.3:
                vals.append([r.choice(["2x::b", "a::b", "::c", "3d", "-1::b", ".5::c", "+2::d", "inf::e"]), 1])
            if r.random() < 0.2:
                vals = [[r.choice(WORDS), 1, "single"]]
        out[key] = vals
    return out


JUNK = [None, "", 0, 7, True, ["x"], {}, {"weight": 2}, {"text": "", "weight": 3}]
ODD = {"none": None, "num": 5, "nolist": [], "notext": "", "nodict": {}, "yes": True, "f": 1.5, 7: ["no name"], 2.5: "x"}


def spell(t, w, how=None):
    if t is None:
        return how
    if how == "prefix":
        return f"{w}::{t}"
    return t if w == 1 and how is None else {"content" if how == "content" else "text": t, "weight": w}


def nested(d):
    out = {}
    for key, vals in d.items():
        cur = out
        *dirs, last = key.split("/")
        for x in dirs:
            cur = cur.setdefault(x, {})
        cur[last] = vals[0][0] if vals and vals[0][2:] == ["single"] else [spell(*v) for v in vals]
    return out


def with_odd(odd, d):
    """The odd entries first, or one of them after each entry."""
    if len(odd) == 1:
        return {odd[0]: ODD[odd[0]], **d}
    out, odd = {}, list(odd)
    for k, v in d.items():
        out[k] = v
        if odd:
            x = odd.pop()
            out[x] = ODD[x]
    return {**out, **{x: ODD[x] for x in odd}}


def mixed(f):
    out = list(f["d"])
    for pos, x in f.get("mix", []):
        out.insert(pos, x)
    return out


def encode(f):
    k = f["k"]
    if k == "txt":
        return "".join(x + "\n" for x in f["d"]).encode()
    if k == "raw":
        return f["d"].encode()
    data = mixed(f) if k.startswith("flat") else with_odd(f.get("odd", []), nested(f["d"]))
    if k.endswith("json"):
        return json.dumps(data, ensure_ascii=False).encode()
    import yaml
    return yaml.safe_dump(data, allow_unicode=True, sort_keys=False).encode()


def collections(f):
    """{collection name: [(text, weight), ...]} the file defines."""
    p, k = f["p"], f["k"]
    d, _, base = p.rpartition("/")
    if any(x.startswith(".") for x in d.split("/")):
        return {}
    pre = d + "/" if d else ""
    if k == "txt":
        return {p[:-4]: [(x.strip(), 1) for x in f["d"] if x.strip() and not x.strip().startswith("#")]}
    if k == "raw":
        return {}
    if k.startswith("flat"):
        return {pre + base.rpartition(".")[0]: [(x, 1) for x in f["d"]]} if f["d"] else {}
    return {pre + key: [(v[0], v[1]) for v in vals if v[0] is not None] for key, vals in f["d"].items() if vals}


def put(root, f, data=None):
    p = os.path.join(root, f["p"])
    os.makedirs(os.path.dirname(p), exist_ok=True)
    t = root + ".new"  # other programs replace files atomically
    with open(t, "wb") as h:
        h.write(encode(f) if data is None else data)
    os.replace(t, p)


def clean(pattern):
    if pattern.startswith("__"):
        pattern = pattern[2:]
    if pattern.endswith("__"):
        pattern = pattern[:-2]
    import re
    pattern = re.sub(r"[\\/]+", "/", pattern).strip("/")
    return None if ".." in pattern else pattern


def matching(names, pattern):
    """(names matching directly, names matching the recursive form)."""
    c = clean(pattern)
    if c is None:
        return [[], []]
    return [[n for n in names if fnmatchcase(n, p)] for p in (c, ("**/" + c).strip("/") if not c.startswith("**") else "")]


class Multi(list):
    """Order not checked (too many block orders)."""


def expected(blocks, sort, dedup):
    """All value lists the blocks can give: [[(text, weight)...]...] over block orders."""
    blocks = [b for b in blocks if b]
    if sort or len(blocks) <= 1:
        orders = [blocks]
    elif len(blocks) <= 5:
        orders = itertools.permutations(blocks)
    else:
        v = [x for b in blocks for x in b]
        yield Multi(dict.fromkeys(v) if dedup else v)
        return
    seen = set()
    for o in orders:
        v = [x for b in o for x in b]
        if dedup:
            v = list(dict.fromkeys(v))
        if sort:
            v.sort()
        t = tuple(v)
        if t not in seen:
            seen.add(t)
            yield v


def normal(values, sort):
    """Product values as (text, weight), ties among equal texts ordered when sorting hides their order."""
    out = [(str(v), getattr(v, "weight", 1)) for v in values]
    if sort and [t for t, _ in out] == sorted(t for t, _ in out):
        out.sort()
    return out
