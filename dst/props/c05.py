"""C05: weights determine how often options and wildcard values are drawn."""
import itertools
import math

from sim import tmpl, wildlib
from sim.props_common import *  # noqa
from sim.props_common import setup  # noqa

RUNS = {"quick": 900, "thorough": 40000}
SHRINK = ["lib.*.vals"]
RULE = ("one run = a generated library and template with weights, drawn N times (400 to 4000) from simulated random streams (one generator seed, "
        "per-prompt seeds, or many generators), cache drops, refreshes and library shuffling in between, compared with the exact distribution by "
        "chi-square, zero-probability and successive-draw tests at |z| > 7.5; non-trivial: at least two outcomes have positive probability; "
        "distinct by (template, library, counts)")
COMPONENTS = {"real": ["parser", "random sampler", "wildcard values and manager", "RandomPromptGenerator"], "stub": ["random streams (seeded)"]}
ASSUMPTIONS = ["false-alarm probability of one run is below 1e-12 under a correct implementation"]
Z = 7.5
FAMS = [[1, 1, 2, 5, 0.5, 0.1, 3.5, 0, 9]] * 3 + [[0.04, 0.06, 0.14, 0.02], [0.25, 0.75, 0.45, 1.05], [100, 250, 1000, 40], [0.001, 0.003, 0.008], [1, 1.4, 0.6, 2.4], [1, 1, 1, 30]]


def gen(r, tier, i):
    lib = {}
    names = r.sample(wildlib.NAMES, r.randint(1, 3))
    for k, n in enumerate(names):
        fmt = r.choice(["json", "yaml", "yaml", "txt", "list"])
        words = r.sample(tmpl.WORDS, r.choice([2, 3, 4, 5, 5, 14, 24]))
        vals = []
        fam = r.choice(FAMS)
        for w in words:
            node = ["L", f"{w}{k}"]
            if r.random() < 0.12:
                node = ["V", {"o": [[None, ["L", f"{w}{k}x"]], [3, ["L", f"{w}{k}y"]]], "lo": 1, "hi": 1, "sep": None, "m": None, "f": None}]
            wt = 1 if fmt in ("txt", "list") else r.choice(fam)
            vals.append([node, wt])
        if sum(1 for v in vals if v[1]) < 2:
            vals[0][1] = vals[1][1] = 2
        if r.random() < 0.2 and fmt in ("json", "yaml"):  # nearly equal weights
            for v in vals:
                v[1] = r.choice([1, 1, 1.9, 1.8])
            vals[0][1], vals[1][1] = 1, 1.9
        elif r.random() < 0.15 and fmt in ("json", "yaml"):
            for v in vals:
                v[1] = 4
        elif r.random() < 0.2 and fmt in ("json", "yaml"):  # all equal but one or two, anywhere
            e = r.choice([1, 1, 0.5, 3])
            for v in vals:
                v[1] = e
            for v in r.sample(vals, r.randint(1, 2)):
                v[1] = e * r.choice([len(vals), 5, 20, 0])
            if sum(1 for v in vals if v[1]) < 2:
                vals[0][1] = vals[1][1] = e
        lib[n] = {"fmt": fmt, "vals": vals}
    name = r.choice(names)
    kind = r.choice(["var", "var", "multi", "multi", "wild", "wild", "wildvar", "wildmulti", "nested", "glob", "twotok"])
    o = []
    ofam = r.choice([[None, None, 1, 2, 5, 0.5, 0.1, 0.25, 3.5, 0, 10]] * 3 + FAMS[3:])
    for k, w in enumerate(r.sample(tmpl.WORDS, r.choice([2, 3, 4, 4, 12]) if kind in ("var", "wildvar", "nested") else r.randint(2, 4))):
        o.append([r.choice(ofam), ["L", w]])
    if kind in ("var", "multi") and r.random() < 0.15:  # options that look the same
        o[-1][1] = o[r.randrange(len(o) - 1)][1]
    nz = sum(1 for w, _ in o if w != 0)
    if nz < 2:
        o[0][0], o[1][0] = 2, None
        nz = sum(1 for w, _ in o if w != 0)

    def V(o, lo=1, hi=1, f=None, sep=None):
        return ["V", {"o": o, "lo": lo, "hi": hi, "sep": sep, "m": None, "f": f}]
    if kind == "var":
        t = V(o)
    elif kind == "multi":
        hi = r.randint(1, nz)
        lo = r.randint(0, hi)
        if nz == len(o) and r.random() < 0.3:  # up to more than there are
            hi = nz + r.randint(1, 4)
        t = V(o, lo, hi, "range", r.choice([None, " and "]))
    elif kind == "wild":
        t = ["W", name, None, {}]
    elif kind == "wildvar":
        o[r.randrange(len(o))][1] = ["W", name, None, {}]
        t = V(o)
    elif kind == "wildmulti":
        nzv = sum(1 for _, w in lib[name]["vals"] if w)
        hi = r.randint(1, min(nzv, 3 if len(lib[name]["vals"]) < 6 else 1))
        t = V([[None, ["W", name, None, {}]]], r.randint(1, hi), hi, "range", " + ")
    elif kind == "nested":
        o[0][1] = V([[None, ["L", "in1"]], [4, ["L", "in2"]], [0.5, ["L", "in3"]]])
        t = V(o)
    elif kind == "glob":
        t = ["W", r.choice(["*", "beasts/*", "*s"]), None, {}]
    else:
        t = ["S", [V(o), ["L", " "], ["W", name, None, {}]]]
    return {"lib": lib, "t": t, "kind": kind, "mode": r.choice(["seed", "seed", "seeds", "many", "chunks"]), "seed": r.getrandbits(30), "style": r.randint(0, 2),
            "shuffle": r.random() < 0.2, "sort": r.random() < 0.8, "n": r.choice([800, 1600]) if kind in ("wild", "wildvar", "glob", "twotok") else r.choice([800, 2500])}


def dist(node, env):
    k = node[0]
    if k == "L":
        return {node[1]: 1.0}
    if k == "S":
        out = {"": 1.0}
        for c in node[1]:
            d = dist(c, env)
            out = {a + b: p * q for a, p in out.items() for b, q in d.items()}
        return out
    if k == "V":
        v = node[1]
        opts = [[o, 1 if w is None else w] for w, o in v["o"]]
        if tmpl.is_wild_variant(v):
            opts = env.values(v["o"][0][1][1])
        lo, hi, sep = tmpl.bounds(v, len(opts))
        out = {}
        ds = [dist(o, env) for o, _ in opts]
        for n in range(lo, hi + 1):
            for idx in itertools.permutations(range(len(opts)), n):
                p, left = 1 / (hi - lo + 1), sum(w for _, w in opts)
                for i in idx:
                    if left <= 1e-12:
                        p = 0
                        break
                    p *= opts[i][1] / left
                    left -= opts[i][1]
                if p == 0:
                    continue
                for combo in itertools.product(*(ds[i].items() for i in idx)):
                    q = p
                    for _, x in combo:
                        q *= x
                    s = tmpl.join([c for c, _ in combo], sep) if combo else ""
                    out[s] = out.get(s, 0) + q
        return out
    if k == "W":
        vals = env.values(node[1])
        if not vals:
            return {"__" + node[1] + "__": 1.0}
        tot = sum(w for _, w in vals)
        out = {}
        for n, w in vals:
            for s, q in dist(n, env).items():
                if w:
                    out[s] = out.get(s, 0) + q * w / tot
        return out
    raise ValueError(k)


def run(s, ctx):
    from dynamicprompts.generators import RandomPromptGenerator
    wm = wildlib.manager(s["lib"], ctx.scratch + "/wc", s["style"])
    wm.sort_wildcards = s["sort"]
    wm.shuffle_wildcards = s["shuffle"]
    d = dist(s["t"], tmpl.Env(wildlib.lookup(s["lib"])))
    if not d or len(d) > 400:
        return
    text, n = tmpl.render(s["t"]), s["n"]
    B = 400_000_000
    if s["mode"] == "seed":
        out = RandomPromptGenerator(wm, seed=s["seed"])
        out = ctx.must("generate", out.generate, text, n, budget=B)
    elif s["mode"] == "seeds":
        out = ctx.must("generate", RandomPromptGenerator(wm).generate, text, n, seeds=[s["seed"] + q for q in range(n)], budget=B)
    else:
        out = []
        g = RandomPromptGenerator(wm, seed=s["seed"])
        step = 7 if s["mode"] == "many" else 83
        for q in range(0, n, step):
            if s["mode"] == "many":
                g = RandomPromptGenerator(wm, seed=s["seed"] + q)
            elif q % 3 == 0:
                wm.clear_cache()
                ctx.fault("cache-dropped")
            out += ctx.must("generate", g.generate, text, min(step, n - q), budget=B)
    cnt = {}
    for x in out:
        cnt[x] = cnt.get(x, 0) + 1
    ctx.log(text, sorted(cnt.items()))
    ctx.sig(text, sorted(cnt.items()))
    ctx.nontrivial = len(d) > 1
    ctx.probe(s["kind"])
    for x in cnt:
        ctx.check(x in d, "impossible-outcome", lambda: f"{text!r} produced {x!r}, which has probability 0 (possible: {sorted(d)[:12]})")
    # chi-square, pooling rare outcomes
    big = [(x, p) for x, p in d.items() if p * n >= 5]
    rest = 1 - sum(p for _, p in big)
    cells = [(x, p, cnt.get(x, 0)) for x, p in big]
    if rest * n > 0.5:
        cells.append(("(rare)", rest, sum(c for x, c in cnt.items() if x not in dict(big))))
    for x, p, c in cells:
        sd = math.sqrt(n * p * (1 - p)) or 1
        z = (c - n * p) / max(sd, 1.0)
        ctx.check(abs(z) < Z or (p * n < 50 and abs(z) < 2 * Z), "wrong-frequency", lambda: f"{text!r}: {x!r} came {c} times of {n}, expected {n * p:.1f} (z={z:.1f})")
    if len(cells) > 1:
        chi = sum((c - n * p) ** 2 / (n * p) for _, p, c in cells)
        k = len(cells) - 1
        z = ((chi / k) ** (1 / 3) - (1 - 2 / (9 * k))) / math.sqrt(2 / (9 * k))
        ctx.check(z < Z, "wrong-distribution", lambda: f"{text!r}: chi-square {chi:.1f} with {k} degrees of freedom over {n} draws: {[(x, round(n * p, 1), c) for x, p, c in cells][:12]}")
        rep = sum(p * p for p in d.values())
        m = sum(1 for a, b in zip(out, out[1:]) if a == b)
        var = (n - 1) * rep * (1 - rep) + 2 * (n - 2) * max(0.0, sum(p ** 3 for p in d.values()) - rep * rep)
        z = (m - (n - 1) * rep) / math.sqrt(max(var, 1.0))
        ctx.check(abs(z) < 2 * Z, "dependent-draws", lambda: f"{text!r}: {m} of {n - 1} successive prompts repeat, expected {(n - 1) * rep:.1f}")


def simplify(s):
    if s["mode"] != "seed":
        yield {**s, "mode": "seed"}
    for k in ("shuffle",):
        if s[k]:
            yield {**s, k: False}
    for u in tmpl.shrinks(s["t"]):
        yield {**s, "t": u}
