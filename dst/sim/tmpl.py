"""Template workloads: AST generation, rendering to template text, and the executable
reference models (random language, combinatorial enumeration, cyclical index function).

AST nodes are JSON lists:
  ["L", text]                      literal
  ["S", [node, ...]]               sequence (may hold "=" nodes at the top level only)
  ["V", {o: [[weight, node]...], lo, hi, sep, m, f}]   variant
  ["W", path, m, {param: node}]    wildcard; path is text or a list of L/V/A nodes
  ["A", name, default|None]        variable access
  ["X", wrapper, inner]            wrap
  ["=", name, value, immediate, keep_existing]          assignment
The models are written from the documentation, not from the implementation: index
arithmetic and explicit enumeration over plain Python lists.
"""
import itertools
import re

WORDS = ("ant bee cat dog elk fox gnu hen ibis jay kiwi lark mole newt owl pig quail rat seal toad "
         "urchin vole wolf yak zebu").split()
FANCY = ["red fox", "x-ray", "st. nick", "naïve", "猫", "Ünal", "e4", "(soft:light)", "<lora:k>", "a b  c", "[m]", "q'n"]
# words that are easily taken for one another
NEAR = [["fox", "Fox", "FOX", "foxes", "fo"], ["1", "01", "10", "0", "1st"], ["\u00e9", "e\u0301", "e", "\u00c9"], ["a", "aa", "aaa", "a a", "A"],
        ["ss", "\u00df", "SS", "s"], ["cat", "cat,", "a cat", "cat.", "Cat"], ["x", "x-", "-x", "x/x", "X"], ["I", "\u0130", "i", "\u0131"]]
MARK = "..."


# the delimiters templates are written with: variants, wildcards, variables, wraps
SPELLS = [("{", "}", "__", "${", "}", "%{", "}"), ("<<", ">>", "%%", "${", "}", "%{", "}"), ("[", "]", "§", "${", "}", "%{", "}"),
          ("«", "»", "°°", "$<", ">", "¿[", "]"), ("{", "}", "**", "$[", "]", "%{", "}"), ("<", ">", "**", "${", "}", "%{", "}"),
          # only one kind of delimiters differs from the default
          ("{", "}", "__", "$<", ">", "%{", "}"), ("{", "}", "**", "${", "}", "%{", "}"), ("{", "}", "__", "${", "}", "¿[", "]")]
D = list(SPELLS[0])
# blanks written where they don't matter: inside the delimiters of variants, variables and wraps
BLANKS = ["", " ", "   "]
B = [""]


def spell(i):
    """Write templates with other delimiters from now on; returns the parser settings for them."""
    D[:] = SPELLS[i % 10]
    B[0] = BLANKS[i // 10]
    from dynamicprompts.parser.config import ParserConfig
    return ParserConfig(**dict(zip(("variant_start", "variant_end", "wildcard_wrap", "variable_start", "variable_end", "wrap_start", "wrap_end"), D)))


def spelling(r, *things):
    """The number of a random way to write templates whose delimiters don't occur in the given things' texts."""
    leaves, todo = set(), list(things)
    while todo:
        x = todo.pop()
        if isinstance(x, str):
            leaves |= set(x)
        elif isinstance(x, dict):
            todo += [*x, *x.values()]
        elif isinstance(x, (list, tuple)):
            todo += x
    i = r.randrange(len(SPELLS))
    i = i if not leaves & set("".join(SPELLS[i])) - set("_") else 0
    return i + 10 * r.choice([0, 0, 0, 0, 0, 1, 2])


class TooBig(Exception):
    pass


# ------------------------------------------------------------------------------ render
def render(node):
    k = node[0]
    if k == "L":
        return node[1]
    if k == "S":
        return "".join(render(c) for c in node[1])
    if k == "V":
        v = node[1]
        s = D[0] + B[0] + (v.get("m") or "")
        f = v.get("f")
        if f:
            lo, hi = v["lo"], v["hi"]
            s += {"exact": f"{lo}", "range": f"{lo}-{hi}", "rev": f"{hi}-{lo}", "lower": f"{lo}-", "upper": f"-{hi}"}[f] + "$$"
            if v.get("sep") is not None:
                s += v["sep"] + "$$"
        opts = []
        for w, o in v["o"]:
            opts.append((B[0] if opts else "") + ("" if w is None else f"{w}::") + render(o))
        return s + "|".join(opts) + D[1]
    if k == "W":
        p = node[1] if isinstance(node[1], str) else "".join(render(c) for c in node[1])
        par = ""
        if node[3]:
            par = "(" + ", ".join(f"{n}={render(v)}" for n, v in node[3].items()) + ")"
        return D[2] + (node[2] or "") + p + par + D[2]
    if k == "A":
        return D[3] + B[0] + node[1] + B[0] + ("" if node[2] is None else ":" + B[0] + render(node[2])) + D[4]
    if k == "X":
        return D[5] + B[0] + render(node[1]) + "$$" + B[0] + render(node[2]) + D[6]
    if k == "=":
        return D[3] + B[0] + node[1] + B[0] + ("?" if node[4] else "") + "=" + ("!" if node[3] else "") + B[0] + render(node[2]) + D[4]
    raise ValueError(k)


# ------------------------------------------------------------------------------ shared semantics
def join(parts, sep):
    """Documented joining: parts separated by sep; when several parts are joined, one
    leading/trailing separator left by an empty part is dropped."""
    if len(parts) == 1:
        return parts[0]
    s = sep.join(parts)
    if sep:
        if s.startswith(sep):
            s = s[len(sep):]
        if s.endswith(sep):
            s = s[:-len(sep)]
    return s


_mark = re.compile(r"[\u1801\u2026\u22ee\u22ef\u22f0\u22f1\ufe19]+|\.{3,}")


def wrap(w, i):
    m = _mark.search(w)
    if not m:
        return w + i
    return w[:m.start()] + i + w[m.end():]


def squash(s):
    return " ".join(s.split())


def bounds(v, n):
    if not v.get("f"):
        lo = hi = 1
    else:
        f = v["f"]
        lo, hi = v["lo"], v["hi"]
        if f == "exact":
            hi = lo
        elif f == "lower":
            hi = len(v["o"])
        elif f == "upper":
            lo = 1
        lo, hi = min(lo, hi), max(lo, hi)
    return min(lo, n), min(hi, n), (v["sep"] if v.get("f") and v.get("sep") is not None else ",")


class Env:
    """Library (name -> [[node, weight], ...], already in lookup order) plus variables."""

    def __init__(self, lib, variables=None, unknown=None):
        self.lib = lib
        self.vars = variables or {}
        self.unknown = unknown  # what stands for variables without a value

    def with_vars(self, d):
        return Env(self.lib, {**self.vars, **d}, self.unknown) if d else self

    def values(self, name):
        return self.lib(name)


def is_wild_variant(v):
    return len(v["o"]) == 1 and v["o"][0][1][0] == "W"


# ------------------------------------------------------------------------------ random language
def lang(node, env, cap=4000):
    """Set of strings (as an insertion-ordered dict) random generation may produce."""
    k = node[0]
    if k == "L":
        return {node[1]: 1}
    if k == "S":
        out = {"": 1}
        for c in node[1]:
            assert c[0] != "="
            lc = lang(c, env, cap)
            if len(out) * len(lc) > cap:
                raise TooBig
            out = {a + b: 1 for a in out for b in lc}
        return out
    if k == "V":
        v = node[1]
        opts = [o for _, o in v["o"]]
        n_clamp = None
        if is_wild_variant(v):
            w = opts[0]
            paths = path_lang(w, env)
            env2 = env.with_vars(w[3])
            out = {}
            for p in paths:
                vals = env.values(p)
                if not vals:
                    _choices(v, [["L", D[2] + p + D[2]]], env2, cap, out, 1)
                    continue
                _choices(v, [n for n, _ in vals], env2, cap, out, len(vals))
            return out
        out = {}
        _choices(v, opts, env, cap, out, len(opts))
        return out
    if k == "W":
        out = {}
        env2 = env.with_vars(node[3])
        for p in path_lang(node, env):
            vals = env.values(p)
            if not vals:
                out[D[2] + p + D[2]] = 1
            for n, _ in vals:
                out.update(lang(n, env2, cap))
                if len(out) > cap:
                    raise TooBig
        return out
    if k == "A":
        return lang(resolve(node, env), env, cap)
    if k == "X":
        a, b = lang(node[1], env, cap), lang(node[2], env, cap)
        if len(a) * len(b) > cap:
            raise TooBig
        return {wrap(x, y): 1 for x in a for y in b}
    raise ValueError(k)


def _choices(v, opts, env, cap, out, n):
    lo, hi, sep = bounds(v, n)
    langs = [lang(o, env, cap) for o in opts]
    for k in range(lo, hi + 1):
        cnt = 0
        for idx in itertools.permutations(range(len(opts)), k):
            size = 1
            for i in idx:
                size *= len(langs[i])
            cnt += size
            if cnt > cap:
                raise TooBig
            for combo in itertools.product(*(langs[i] for i in idx)):
                out[join(list(combo), sep) if combo else ""] = 1
        if len(out) > cap:
            raise TooBig


def path_lang(w, env):
    if isinstance(w[1], str):
        return [w[1]]
    return list(lang(["S", [path_node(c) for c in w[1]]], env))


def path_node(c):
    """In a wildcard path an unset variable without a default stands for its own name."""
    return ["A", c[1], c[2] if c[2] is not None else ["L", c[1]]] if c[0] == "A" else c


def resolve(node, env):
    if node[1] in env.vars:
        return env.vars[node[1]]
    if node[2] is None:
        if env.unknown is not None:
            return env.unknown
        raise KeyError(node[1])
    return node[2]


def split_assignments(node):
    """(assignments in order, node without them)."""
    if node[0] == "S":
        asg = [c for c in node[1] if c[0] == "="]
        rest = [c for c in node[1] if c[0] != "="]
        return asg, (rest[0] if len(rest) == 1 else ["S", rest])
    return [], node


def call_langs(node, env, cap=4000):
    """Languages of one call: one per valuation of the immediate variables."""
    asg, body = split_assignments(node)
    envs = [env]
    for a in asg:
        _, name, val, imm, keep = a
        nxt = []
        for e in envs:
            if keep and name in e.vars:
                nxt.append(e)
            elif imm:
                for t in lang(val, e, cap):
                    nxt.append(e.with_vars({name: ["L", t]}))
            else:
                nxt.append(e.with_vars({name: val}))
        envs = nxt
        if len(envs) > 60:
            raise TooBig
    return [lang(body, e, cap) for e in envs]


# ------------------------------------------------------------------------------ combinatorial
RND = "\0rnd"  # placeholder prefix: value comes from a random part


def nonfinite(node):
    return node[0] in ("V", "W") and method(node) in ("@", "~")


def method(node):
    return node[1].get("m") if node[0] == "V" else node[2] if node[0] == "W" else None


def selections(n, k):
    return itertools.permutations(range(n), k)


def repeated(vals):
    return [n for n, w in vals for _ in range(int(w))]


class Work:
    n = 0
    limit = None


def comb(node, env, rnd=None):
    """Lazily enumerate combinatorial generation. Random-marked direct parts of the top-level
    sequence come out as the placeholder returned by rnd(node) (see match_rnd)."""
    k = node[0]
    Work.n += 1
    if Work.limit is not None and Work.n > Work.limit:
        raise TooBig
    if k == "L":
        yield node[1]
    elif k == "S":
        asg, _ = split_assignments(node)
        toks = [c for c in node[1] if c[0] != "="]
        for a in asg:
            _, name, val, imm, keep = a
            if keep and name in env.vars:
                continue
            env = env.with_vars({name: ["L", next(iter(comb(val, env)))] if imm else val})
        t = 0
        fin = [c for c in toks if not nonfinite(c)]
        for combo in _product(fin, env):
            it = iter(combo)
            parts = []
            for c in toks:
                if not nonfinite(c):
                    parts.append(next(it))
                elif method(c) == "@":
                    parts.append(cyc(c, t, env))
                else:
                    parts.append(rnd(c, env))
            t += 1
            yield "".join(parts)
    elif k == "V":
        if method(node) == "@":
            for i in itertools.count():
                yield cyc(node, i, env)
        v = node[1]
        opts = [o for _, o in v["o"]]
        n = len(opts)
        if is_wild_variant(v):
            w = opts[0]
            p = path_first(w, env)
            vals = env.values(p) or [[["L", D[2] + p + D[2]], 1]]
            env = env.with_vars(w[3])
            opts = repeated(vals)
            n = min(len(vals), len(opts))
            if len(opts) == 1 < len(vals) and opts[0][0] in "WV":
                raise TooBig("how often a value that is a choice itself counts, next to values that don't count")
            if not opts:  # documented: weights below one count as zero here
                return
        lo, hi, sep = bounds(v, n)
        seen = set()
        for kk in range(lo, hi + 1):
            for idx in selections(len(opts), kk):
                for parts in _combo([opts[i] for i in idx], env):
                    if len(set(parts)) == kk and tuple(parts) not in seen:
                        seen.add(tuple(parts))
                        yield join(parts, sep) if parts else ""
    elif k == "W":
        if method(node) == "@":
            for i in itertools.count():
                yield cyc(node, i, env)
        p = path_first(node, env)
        vals = env.values(p)
        if not vals:
            yield D[2] + p + D[2]
            return
        env2 = env.with_vars(node[3])
        for n in repeated(vals):
            yield from comb(n, env2)
    elif k == "A":
        yield from comb(resolve(node, env), env)
    elif k == "X":
        for w in comb(node[1], env):
            for i in comb(node[2], env):
                yield wrap(w, i)
    else:
        raise ValueError(k)


def _product(toks, env):
    if not toks:
        yield []
        return
    for v in comb(toks[0], env):
        for r in _product(toks[1:], env):
            yield [v] + r


def _combo(nodes, env):
    if not nodes:
        yield []
        return
    c, rest = nodes[0], nodes[1:]
    if nonfinite(c):
        for t, r in enumerate(_combo(rest, env)):
            yield [cyc(c, t, env)] + r
    else:
        for v in comb(c, env):
            for r in _combo(rest, env):
                yield [v] + r


def path_first(w, env):
    if isinstance(w[1], str):
        return w[1]
    return next(iter(comb(["S", [path_node(c) for c in w[1]]], env)))


# ------------------------------------------------------------------------------ cyclical
RNDCB = None  # placeholder maker for random ('~') parts inside cyclical ones


def cyc_defined(node, env):
    """Raise TooBig when a cyclical part has no defined value sequence: it can reach a wrap (not implemented by the
    product) or a wildcard all of whose weights are below one (documented to count as zero)."""
    k = node[0]
    if RNDCB is not None and method(node) == "~":
        return
    if k == "X":
        raise TooBig("wrap in a cyclical part")
    if k == "S":
        for c in node[1]:
            cyc_defined(c[2] if c[0] == "=" else c, env)
    elif k == "V":
        for _, o in node[1]["o"]:
            cyc_defined(o, env)
    elif k == "W":
        p = node[1] if isinstance(node[1], str) else cyc(["S", [path_node(c) for c in node[1]]], 0, env)
        vals = env.values(p)
        if vals and not repeated(vals):
            raise TooBig("only weights below one")
        for n, _ in vals:
            cyc_defined(n, env.with_vars(node[3]))
    elif k == "A":
        cyc_defined(resolve(node, env), env)


def cyc(node, i, env):
    """Value of a cyclical part at step i: a pure function of i."""
    k = node[0]
    if RNDCB is not None and method(node) == "~":
        return RNDCB(node, env)
    if i == 0:
        cyc_defined(node, env)
    if k == "L":
        return node[1]
    if k == "S":
        asg, _ = split_assignments(node)
        for a in asg:
            _, name, val, imm, keep = a
            if keep and name in env.vars:
                continue
            env = env.with_vars({name: ["L", cyc(val, 0, env)] if imm else val})
        return "".join(cyc(c, i, env) for c in node[1] if c[0] != "=")
    if k == "V":
        v = node[1]
        opts = [o for _, o in v["o"]]
        n = len(opts)
        if is_wild_variant(v):
            w = opts[0]
            p = w[1] if isinstance(w[1], str) else cyc(["S", [path_node(c) for c in w[1]]], 0, env)
            vals = env.values(p) or [[["L", D[2] + p + D[2]], 1]]
            env = env.with_vars(w[3])
            opts = repeated(vals)
            n = min(len(vals), len(opts))
            if len(opts) == 1 < len(vals) and opts[0][0] in "WV":
                raise TooBig("how often a value that is a choice itself counts, next to values that don't count")
        lo, hi, sep = bounds(v, n)
        if is_wild_variant(v) and len(opts) == 1 and opts[0][0] == "W":  # a choice among that wildcard's values
            return cyc(["V", {"o": [[None, opts[0]]], "lo": lo, "hi": hi, "sep": sep, "m": None, "f": "range"}], i, env)
        if hi > 1 and len(opts) != len({render(o) for o in opts}):
            raise TooBig("several picks from repeated values in a cyclical part: order not documented")
        combos = [c for kk in range(lo, hi + 1) for c in selections(len(opts), kk)]
        r, j = divmod(i, len(combos))
        parts = [cyc(opts[x], r, env) for x in combos[j]]
        if len(parts) > 1 and any("\0" in p for p in parts):
            raise TooBig("random part among several picks: end separators cannot be predicted")
        return join(parts, sep) if parts else ""
    if k == "W":
        p = node[1] if isinstance(node[1], str) else cyc(["S", [path_node(c) for c in node[1]]], 0, env)
        vals = env.values(p)
        if not vals:
            return D[2] + p + D[2]
        vals = repeated(vals)
        r, j = divmod(i, len(vals))
        return cyc(vals[j], r, env.with_vars(node[3]))
    if k == "A":
        return cyc(resolve(node, env), i, env)
    raise TooBig("no cyclical meaning: " + k)  # wraps inside cyclical parts are not implemented by the product


# ------------------------------------------------------------------------------ generation
class Gen:
    """Seeded template generator.  cfg switches constructs on and off (swarm style)."""

    def __init__(self, rng, names, missing=("nosuch",), **cfg):
        self.r = rng
        self.names = list(names)
        self.missing = list(missing)
        c = dict(depth=3, wild=0.3, var=0.45, acc=0.0, wrap=0.1, empty=0.1, bounds=0.4, weights=0.3, miss=0.06, fancy=0.3,
                 path=0.1, params=0.1, maxopts=4, method=None, pmethod=0.0, vars=(), globs=(), overb=0.15, dup=0.0, sole=0.25, blank=0.0,
                 wrapped=True)
        c.update(cfg)
        self.c = c
        self.pool = rng.choice(NEAR) if rng.random() < 0.15 else None

    def word(self):
        r = self.r
        if self.pool and r.random() < 0.8:
            return r.choice(self.pool)
        if r.random() < self.c["fancy"] * 0.4:
            return r.choice(FANCY)
        return r.choice(WORDS)

    def lit(self, empty=False):
        if empty and self.r.random() < self.c["empty"]:
            return ["L", ""]
        return ["L", self.word()]

    def wname(self):
        r = self.r
        if r.random() < self.c["miss"]:
            return r.choice(self.missing)
        if self.c["globs"] and r.random() < 0.2:
            return r.choice(self.c["globs"])
        return r.choice(self.names) if self.names else self.missing[0]

    def wild(self, d, m=None):
        r = self.r
        path = self.wname()
        if r.random() < self.c["path"] and "*" not in path:
            # split the name and make one piece a variable or variant
            cut = r.randrange(1, len(path)) if len(path) > 1 else 1
            a, b = path[:cut], path[cut:]
            piece = r.random()
            if piece < 0.5:
                node = ["V", {"o": [[None, ["L", a]]] + ([[None, ["L", a + "zz"]]] if r.random() < 0.3 else []), "lo": 1, "hi": 1, "sep": None, "m": None, "f": None}]
            else:
                node = ["A", "undefd", ["L", a]]
            path = [node] + ([["L", b]] if b else [])
        params = {}
        if r.random() < self.c["params"]:
            params[r.choice(["p", "q"])] = ["L", r.choice(WORDS)] if r.random() < 0.7 else ["L", r.choice(WORDS) + " " + r.choice(WORDS)]
        return ["W", path, m, params]

    def node(self, d, inopt=True):
        r = self.r
        c = self.c
        x = r.random()
        if d <= 0 or x < 0.3:
            return self.lit(empty=False)
        x = r.random()
        if x < c["wild"] and (self.names or r.random() < 0.3):
            return self.wild(d)
        x -= c["wild"]
        if x < c["var"]:
            return self.variant(d - 1)
        x -= c["var"]
        if x < c["acc"] and c["vars"]:
            n = r.choice(list(c["vars"]))
            return ["A", n, (["L", r.choice(WORDS)] if r.random() < 0.85 or not c["empty"] else ["L", ""]) if r.random() < 0.5 else None]
        x -= c["acc"]
        if x < c["wrap"]:
            return self.wrapnode(d - 1)
        return self.lit()

    def wrapnode(self, d):
        r = self.r
        mk = r.choice([MARK, "…", "....", "⋯", "......", "……", "…⋯", "\u1801", "\u22f0", "\ufe19", "\u22ee"])
        if r.random() < 0.15:  # more than one, or none: the first one counts
            w = ["L", r.choice([f"pre {mk} mid {r.choice([MARK, '…'])} post", f"{mk} and {mk}", "none ..", "none", "a. b.. c", f"(x:1.5) {mk}.", f"..{'⋯'} q"])]
            return ["X", w, self.option(d) if r.random() < 0.5 else self.lit()]
        w = ["L", r.choice([f"({mk}:1.2)", f"pre {mk} post", f"{mk} tail", f"head {mk}", f"[{mk}]"])]
        if r.random() < 0.4:
            w = ["V", {"o": [[None, w], [None, ["L", f"<{mk}>"]]], "lo": 1, "hi": 1, "sep": None, "m": None, "f": None}]
        return ["X", w, self.option(d) if r.random() < 0.7 else self.lit()]

    def option(self, d):
        r = self.r
        if r.random() < 0.75:
            n = self.node(d)
            return n
        k = r.randint(2, 3)
        out = []
        for j in range(k):
            if j and out[-1][0] != "L" and r.random() < 0.6:
                out.append(["L", r.choice([" ", " of ", ", ", "-"])])
            out.append(self.node(d - 1))
        if out[-1] == ["L", " "]:
            out.append(self.lit())
        return ["S", out]

    def variant(self, d, m=None, nopts=None, wildonly=None):
        r = self.r
        c = self.c
        if wildonly is None:
            wildonly = self.names and r.random() < 0.12 and m is None
        f = None
        if not wildonly and m is None and nopts is None and c["empty"] and r.random() < 0.02:  # several empty picks: separators pile up
            k = r.randint(2, 3)
            o = [[None, self.lit()]] + [[None, ["A", f"nil{j}", ["L", ""]]] for j in range(k)] + ([[None, self.lit()]] if r.random() < 0.3 and k == 2 else [])
            r.shuffle(o)
            n = r.randint(2, len(o))
            return ["V", {"o": o, "lo": n, "hi": n, "sep": r.choice([",", ", ", " and ", "x"]), "m": None, "f": "exact"}]
        if wildonly:
            o = [[None, self.wild(0)]]
            n = 3
        else:
            n = nopts or r.randint(1, c["maxopts"])
            o = []
            have = set()
            for j in range(n):
                for _ in range(20):
                    op = self.option(d)
                    if r.random() < c["empty"] * 0.5 and j:
                        op = ["L", ""] if r.random() < 0.6 else ["A", f"nil{r.randint(1, 4)}", ["L", ""]]
                    elif op[0] == "L" and op[1] and r.random() < c["blank"]:
                        op = ["L", (r.choice([render(x) for _, x in o if x[0] == "L" and x[1]] or [op[1]]) if r.random() < 0.5 else op[1]).rstrip() + r.choice([" ", " ", "  ", ","])]
                    t = render(op)
                    if t not in have or r.random() < c["dup"]:
                        break
                else:
                    op = ["L", f"uniq{j}"]
                    t = op[1]
                have.add(t)
                w = None
                if r.random() < c["weights"]:
                    w = r.choice([1, 2, 3, 0.5, 0.25, 10, 1.5])
                o.append([w, op])
        sep = None
        lo = hi = 1
        if r.random() < c["bounds"]:
            f = r.choice(["exact", "range", "lower", "upper", "rev", "range"])
            a, b = sorted((r.randint(0, n), r.randint(0, n)))
            if r.random() < c["overb"]:
                b += r.randint(1, 3)
                if r.random() < 0.3:  # more than there is, at least
                    a = b
            if r.random() < 0.8:
                a = max(a, 1)
                b = max(b, a)
            if f == "exact":
                b = a
            lo, hi = a, b
            if f == "upper" and hi == 0:
                hi = 1
            if r.random() < 0.5:
                sep = r.choice([" and ", ", ", "|", " ", "; ", " | ", "-", "/", "x"])
        return ["V", {"o": o, "lo": lo, "hi": hi, "sep": sep, "m": m, "f": f}]

    def template(self, ntok=None):
        """Top-level template without assignments."""
        r = self.r
        d = self.c["depth"]
        if r.random() < self.c["sole"]:
            return self.node(d) if r.random() < 0.5 else self.variant(d)
        n = ntok or r.randint(2, 4)
        out = []
        for j in range(n):
            if j and r.random() < 0.6:
                out.append(["L", r.choice([" ", ", ", " in ", " - "])])
            out.append(self.node(d))
        if out[-1][0] == "L" and out[-1][1].endswith(" "):
            out.append(self.lit())
        return ["S", out]


def fix_literals(node):
    """Merge adjacent literals (what the text means anyway) and drop empty ones in sequences."""
    k = node[0]
    if k == "S":
        out = []
        for c in node[1]:
            c = fix_literals(c)
            if c[0] == "S":
                out.extend(c[1])
            else:
                out.append(c)
        m = []
        for c in out:
            if c == ["L", ""]:
                continue
            if m and m[-1][0] == "L" and c[0] == "L":
                m[-1] = ["L", m[-1][1] + c[1]]
            else:
                m.append(c)
        if not m:
            return ["L", ""]
        return m[0] if len(m) == 1 else ["S", m]
    if k == "V":
        v = dict(node[1])
        v["o"] = [[w, fix_literals(o)] for w, o in v["o"]]
        return ["V", v]
    if k == "X":
        return ["X", fix_literals(node[1]), fix_literals(node[2])]
    if k == "A" and node[2] is not None:
        return ["A", node[1], fix_literals(node[2])]
    return node


def shrinks(node):
    """Smaller variants of a template, for minimisation."""
    k = node[0]
    if k == "L":
        if len(node[1]) > 1:
            yield ["L", "a"]
        return
    if k == "S":
        for i in range(len(node[1])):
            rest = node[1][:i] + node[1][i + 1:]
            if rest:
                yield rest[0] if len(rest) == 1 else ["S", rest]
        for i, c in enumerate(node[1]):
            for s in shrinks(c):
                yield ["S", node[1][:i] + [s] + node[1][i + 1:]]
        return
    if k == "V":
        v = node[1]
        for i in range(len(v["o"])):
            if len(v["o"]) > 1:
                yield ["V", {**v, "o": v["o"][:i] + v["o"][i + 1:]}]
        if v.get("f"):
            yield ["V", {**v, "f": None}]
        if v.get("sep"):
            yield ["V", {**v, "sep": None}]
        for i, (w, o) in enumerate(v["o"]):
            if w is not None:
                yield ["V", {**v, "o": v["o"][:i] + [[None, o]] + v["o"][i + 1:]}]
            if o[0] not in ("L",):
                yield o
            for s in shrinks(o):
                yield ["V", {**v, "o": v["o"][:i] + [[w, s]] + v["o"][i + 1:]}]
        return
    if k == "W":
        if node[3]:
            yield ["W", node[1], node[2], {}]
        if not isinstance(node[1], str):
            yield ["L", "a"]
        return
    if k == "X":
        yield node[2]
        yield node[1]
        for s in shrinks(node[2]):
            yield ["X", node[1], s]
        return
    if k == "=":
        for s in shrinks(node[2]):
            yield ["=", node[1], s, node[3], node[4]]
