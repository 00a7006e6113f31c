"""Wildcard library workloads: generation, materialisation on disk or in memory, and the
reference lookup."""
import json
import os
from fnmatch import fnmatchcase
from pathlib import Path

from . import tmpl

NAMES = ["animals", "colors", "beasts/big", "beasts/small", "moods", "art/styles/old"]


def gen_lib(r, n=None, weights=0.3, nested=0.3, vars_=(), maxvals=4, names=None, deep_weights=True, empties=False, wraps=0.0):
    """{name: {"fmt", "vals": [[node, weight], ...]}}; references only go to earlier names."""
    n = r.randint(1, 4) if n is None else n
    names = r.sample(NAMES, n) if names is None else names[:n]
    lib = {}
    tw = {}
    pool = r.choice(tmpl.NEAR) if r.random() < 0.12 else tmpl.WORDS
    for i, name in enumerate(names):
        fmt = r.choice(["txt", "json", "yaml", "list"])
        vals = []
        have = set()
        weighted = fmt in ("json", "yaml") and r.random() < weights
        low = weighted and deep_weights and r.random() < 0.12  # all below one: counted as none where values are listed
        for _ in range(r.randint(1, maxvals) if r.random() < 0.96 else 14):
            prev = names[:i]
            x = r.random()
            if x < nested and prev:
                node = ["W", r.choice(prev), None, {}]
                if r.random() < 0.4:
                    node = ["S", [["L", r.choice(tmpl.WORDS) + " "], node]]
            elif x < nested + 0.15:
                ws = r.sample(tmpl.WORDS, 2)
                node = ["V", {"o": [[None, ["L", ws[0]]], [None, ["L", ws[1]]]], "lo": 1, "hi": 1, "sep": None, "m": None, "f": None}]
                if r.random() < 0.4:
                    node = ["S", [node, ["L", " " + r.choice(tmpl.WORDS)]]]
            elif x < nested + 0.3 and vars_:
                node = ["S", [["L", r.choice(tmpl.WORDS) + " "], ["A", r.choice(list(vars_)), ["L", r.choice(tmpl.WORDS)]]]]
            elif r.random() < wraps:
                node = ["X", ["L", "<...>"], ["L", r.choice(tmpl.WORDS)]]
            else:
                node = ["L", r.choice(pool) + (" " + r.choice(tmpl.WORDS) if r.random() < 0.3 else "")]
            t = tmpl.render(node)
            if t in have:
                continue
            have.add(t)
            w = 1
            if low:
                w = r.choice([0.5, 0.04, 0.99])
            elif weighted and r.random() < 0.7:
                w = r.choice([2, 3, 2.5] if not deep_weights else [2, 3, 0.5, 2.5, 1.5, 0.25, 0.04, 1.25, 2.999])
            w = tw.setdefault(t, w) if fmt in ("json", "yaml") else tw.setdefault(t, 1)
            if fmt in ("txt", "list") and w != 1:
                continue
            vals.append([node, w])
        if not vals:
            t = f"only{i}"
            vals.append([["L", t], 1])
        lib[name] = {"fmt": fmt, "vals": vals}
    return lib


def item_json(node, w, style):
    t = tmpl.render(node)
    if w == 1:
        return t if style != 2 else {"text": t}
    return f"{w}::{t}" if style == 0 else {"text": t, "weight": w} if style == 1 else {"content": t, "weight": w}


def write(lib, root, style=0):
    """Write the disk part of lib under root; returns the in-memory part {name: [texts]}."""
    mem = {}
    for name, e in lib.items():
        texts = [tmpl.render(n) for n, _ in e["vals"]]
        d, _, base = name.rpartition("/")
        p = os.path.join(root, d)
        os.makedirs(p, exist_ok=True)
        if e["fmt"] == "txt":
            with open(os.path.join(p, base + ".txt"), "w", encoding="utf-8") as f:
                f.write("# values\n\n" + "\n".join(texts) + "\n")
        elif e["fmt"] in ("json", "yaml"):
            data = {base: [item_json(n, w, (style + i) % 3) for i, (n, w) in enumerate(e["vals"])]}
            with open(os.path.join(p, f"pantry-{base}." + e["fmt"]), "w", encoding="utf-8") as f:
                if e["fmt"] == "json":
                    json.dump(data, f, ensure_ascii=False)
                else:
                    import yaml
                    yaml.safe_dump(data, f, allow_unicode=True)
        else:
            mem[name] = texts
    return mem


def manager(lib, root, style=0):
    """A WildcardManager over lib (disk part and in-memory part)."""
    from dynamicprompts.wildcards import WildcardManager
    os.makedirs(root, exist_ok=True)
    mem = write(lib, root, style)
    if not mem:
        return WildcardManager(Path(root), tmpl.D[2])
    return WildcardManager(wildcard_wrap=tmpl.D[2], root_map={"": [Path(root), mem]})


def lookup(lib, sort=True):
    """Reference lookup: pattern -> [[node, weight], ...] in the order the library gives them."""
    def f(pattern):
        if ".." in pattern:
            return []
        vals = []
        for pat in (pattern, "**/" + pattern):
            for name in lib:
                if fnmatchcase(name, pat):
                    vals.extend(lib[name]["vals"])
            if vals or pattern.startswith("**"):
                break
        out, seen = [], set()
        for n, w in vals:
            t = tmpl.render(n)
            if (t, w) not in seen:
                seen.add((t, w))
                out.append([n, w])
        if sort:
            out.sort(key=lambda x: tmpl.render(x[0]))
        return out
    return f
