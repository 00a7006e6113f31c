"""C17: bounded requests do bounded work and always finish."""
import logging
import os
import resource
import sys

from sim import mon
from sim.props_common import PRODUCT  # noqa

RUNS = {"quick": 4000, "thorough": 250000}
SHRINK = ["parts", "reqs", "links"]
RULE = ("one run = a template and library of one kind (huge products, self-referential wildcards or variables, missing/empty/unsatisfiable choices, "
        "directory trees with link loops) and 1-4 requests for 1-30 prompts (or a drawn number taken from an unlimited enumeration) in the random, "
        "combinatorial and cyclical modes, under a step counter and a memory limit; non-trivial: the template describes more than 10000 prompts, or is "
        "self-referential, empty or looping; distinct by (template, library, requests)")
COMPONENTS = {"real": ["parser", "samplers", "wildcard manager and tree", "generators"], "stub": ["nothing; a step counter (function starts, generator resumptions, jumps of the product's code) measures work"]}
ASSUMPTIONS = ["work in C code (pyparsing's regular expressions, itertools) is bounded by a memory limit and a wall-clock limit only"]
K_STEPS = 400


class G:
    def __init__(self, r):
        self.r, self.n, self.lib, self.k = r, 0, {}, 0

    def word(self):
        self.n += 1
        return f"w{self.n}"

    def leaf(self, depth):
        # (equal texts from several options of a multi-choice are skipped one by one: not generated here)
        return self.word() if depth <= 0 or self.r.random() < 0.75 else self.part(depth - 1)

    def part(self, depth):
        r = self.r
        x = r.random()
        if x < 0.5:
            k = r.choice([1, 3, 5, 8, 30])
            opts = [self.leaf(depth if k < 9 else 0) for _ in range(k)]
            pre = ""
            if r.random() < 0.35:
                lo = r.randint(0, min(k, 8))
                pre = r.choice([f"{lo}$$", f"{lo}-$$", f"-{max(1, lo)}$$", f"{lo}-{lo + r.randint(0, 3)}$$", f"{max(1, lo)}-{lo + 9}$$ and $$"])
            if r.random() < 0.2:
                ws = r.choice([[1, 2, 0.5], [1, 10 ** 9, "0.0000001", 3 * 10 ** 12]])  # picks must not take longer however unlikely an option is
                opts = [f"{r.choice(ws)}::{o}" for o in opts]
            return "{" + r.choice(["", "", "", "", "@", "~"]) * (depth == 2) + pre + "|".join(opts) + "}"
        if x < 0.8:
            return self.wild(depth)
        if x < 0.87 and depth == 2:
            v = "v%d" % r.randrange(3)
            return "${%s=%s%s}${%s} ${%s}" % (v, r.choice(["", "!"]), self.part(depth - 1) if depth > 0 else self.word(), v, v)
        if x < 0.92:
            return "%{" + self.leaf(depth - 1) + "...$$" + self.leaf(depth - 1) + "}"
        return self.word() + " "

    def wild(self, depth):
        r = self.r
        if self.lib and depth == 2 and r.random() < 0.4:
            n = r.choice(sorted(self.lib))
            if not all(type(x) is str for x in self.lib[n]):
                return f"__{n}__"
            return r.choice([f"__{n}__", "__d/*__", "{%d$$__%s__}" % (r.randint(1, 6), n)])
        k = r.choice([1, 3, 20, 150])
        n = f"d/f{self.k}"
        self.k += 1
        vals = [self.leaf(depth - 1 if k < 21 else 0) if r.random() < 0.5 else self.word() for _ in range(k)]
        if depth == 2 and r.random() < 0.15:  # weighted values (in the library as [text, weight]); not within choices, which skip equal texts
            for i in range(min(k, 3)):
                vals[i] = [vals[i], r.choice([0, 2, 0.5, 7, 10 ** 6, 10 ** 9, 1e10])]
        self.lib[n] = vals
        return f"__{n}__"


SELF = [
    ({"a": ["__a__"]}, "__a__"), ({"a": ["__a__", "x"]}, "__a__"), ({"a": ["x", "__a__"]}, "__a__ y"), ({"a": ["__b__"], "b": ["__a__"]}, "__a__"),
    ({"a": ["__b__ q", "z"], "b": ["__c__"], "c": ["{k|__a__}"]}, "{__a__|__c__}"), ({"a": ["__a__ __a__", "x"]}, "__a__"), ({"a": ["{2$$__a__}", "x", "y"]}, "__a__"),
    ({"a": ["__*__", "x"]}, "__a__"), ({"a": ["x", "y", "__**__"]}, "__*__"), ({}, "${r=${r}}${r}"), ({}, "${a=${b}}${b=${a}}${a}"), ({}, "${a=!${a}}${a}"), ({}, "${a={x|${a}}}${a}"),
    ({"a": ["${v}"]}, "${v=__a__}${v}"), ({"a": ["${v}", "k"]}, "${v=!__a__}${v}"), ({"a": ["__a(p=${p:x}y)__"]}, "__a__"), ({}, "${x:${x}}"), ({}, "${x:${y:${x}}}"), ({"a": ["%{__a__...$$q}"]}, "__a__"),
    ({"a": ["__@a__", "x"]}, "__@a__"), ({"a": ["{@x|__a__}"]}, "{@__a__|y}"), ({"a": ["{~x|__a__}"]}, "__a__"),
]
EMPTY = [
    "__nosuch__", "{__nosuch__}", "{2$$__nosuch__}", "{2$$__nosuch__|__nosuch__}", "__em__", "{__em__|a}", "{3$$__em__|a|b}", "{2$$a|a}", "{3$$a|a|b}", "{0$$a|b}", "{0-0$$a}", "{9$$a|b}",
    "{@__nosuch__}", "{@2$$__nosuch__}", "{@2$$a|a}", "__@nosuch__", "__@em__", "{@0$$a|b}", "{~2$$a|a}", "{0::a|0::b}", "{0::a}", "{|}", "{}", "{ }", "__one__", "{2$$__one__}", "{@2$$__one__}", "{@3$$__one__|__one__}",
    "{2$$__emv__}", "__emv__", "${v=__nosuch__}${v}", "${v=!__nosuch__}${v} ${v}", "%{__nosuch__...$$a}", "%{a$$__em__}", "__{nosuch|em}__", "{5$$__nest__}", "__nest__", "__?__", "__**__", "${z}", "${z:}", "${z:__em__}", "%{...$$}",
    "__ones/*__", "{2$$ and $$__nosuch__|__em__}", "__lo__", "__@lo__", "__@lot__", "__@lot2__", "{@__lot__|a}", "{@__lot2__}", "{@2$$__lot__|a|b}", "{2$$__lot__|a|b}", "{~__lo__}", "__@lot__ __lot__", "{@__nest__|a}",
]
BAD = {"{2$$a|a}", "{3$$a|a|b}", "{@2$$a|a}", "{~2$$a|a}"}


def gen(r, tier, i):
    kind = os.environ.get("DST_KIND") or r.choice(["huge"] * 11 + ["self"] * 2 + ["empty"] * 5 + ["loops"] * 2)
    s = {"kind": kind, "lib": {}, "parts": [], "links": []}
    if kind == "huge":
        g = G(r)
        s["parts"] = [g.part(2) for _ in range(r.choice([2, 5, 8, 14]))]
        s["lib"] = g.lib
    elif kind == "self":
        lib, t = r.choice(SELF)
        s["lib"] = {k: list(v) for k, v in lib.items()}
        s["parts"] = ["{k|l|m}"] * r.choice([0, 0, 3]) + [t] + ["{n|o}"] * r.choice([0, 0, 8])
    elif kind == "empty":
        s["lib"] = {"lo": [["x", 0.5], ["y", 0.2]], "lot": ["__lo__"], "lot2": ["__lo__", "q"], "em": [], "one": ["q"], "emv": ["{2$$x|x}", "{2$$y|y}"], "nest": ["__em__", "__nosuch__", "{2$$__em__}"], "ones/a": ["u"], "ones/b": []}
        pad = lambda k: ["{%s}" % "|".join("p%d_%d" % (j, q) for q in range(6)) for j in range(k)]
        s["parts"] = pad(r.choice([0, 0, 1, 12])) + [r.choice(EMPTY) for _ in range(r.choice([1, 1, 1, 2]))] + pad(r.choice([0, 0, 1, 12]))
    else:
        ds = ["", "a", "a/b", "c"]
        s["links"] = [[r.choice(ds), "l%d" % k, r.choice(ds + ["a/l0", "c/l1"])] for k in range(r.randint(1, 4))]
        s["lib"] = {"x": ["1"], "a/y": ["2"], "a/b/z": ["3"], "c/w": ["4"]}
        s["parts"] = [r.choice(["__x__", "__**__", "__*__", "__a/*__", "__y__", "__l0/x__", "__**/z__"])]
    s["reqs"] = [[r.choice(["comb", "comb", "rand", "cyc", "bcomb", "take"]), r.choice([1, 1, 2, 5, 30]), r.randrange(1000)] for _ in range(r.randint(1, 4))]
    return s


def setup():
    from sim.props_common import warm
    warm()


def describes(parts):
    n = 1
    for p in parts:
        n *= max(1, p.count("|") + 1)
    return n


def run(s, ctx):
    import random
    from dynamicprompts.enums import SamplingMethod
    from dynamicprompts.generators import CombinatorialPromptGenerator, RandomPromptGenerator
    from dynamicprompts.generators.batched_combinatorial import BatchedCombinatorialPromptGenerator
    from dynamicprompts.sampling_context import SamplingContext
    from dynamicprompts.wildcards import WildcardManager
    logging.disable(logging.CRITICAL)
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    if s["kind"] == "loops":
        root = ctx.scratch + "/r"
        for d in ("a/b", "c"):
            os.makedirs(f"{root}/{d}")
        for k, v in s["lib"].items():
            with open(f"{root}/{k}.txt", "w") as f:
                f.write("\n".join(v))
        for d, l, t in s["links"]:
            os.symlink(f"{root}/{t}", f"{root}/{d}/{l}")
        wm = WildcardManager(root)
        names = ctx.must("get_collection_names", wm.get_collection_names, budget=500_000)
        ctx.log(sorted(names))
        ctx.check(set(s["lib"]) <= names, "lost-wildcards", lambda: f"links {s['links']!r}: only {sorted(names)} are found")
    else:
        from dynamicprompts.wildcards.collection.list import ListWildcardCollection
        from dynamicprompts.wildcards.item import WildcardItem
        wm = WildcardManager(root_map={"": [{n: v if all(type(x) is str for x in v) else ListWildcardCollection([x if type(x) is str else WildcardItem(*x) for x in v]) for n, v in s["lib"].items()}]})
    if s["kind"] == "self":
        sys.setrecursionlimit(450)  # the deeper limit only costs time
    t = " ".join(s["parts"])
    size = len(t) // 4 + sum(len(v) + sum(len(str(x)) for x in v) // 4 for v in s["lib"].values()) + 10
    if s["kind"] != "huge" or describes(s["parts"]) > 10000:
        ctx.nontrivial = True
    ctx.probe("kind-" + s["kind"])
    if s["kind"] != "huge":
        ctx.fault({"self": "self-reference", "empty": "missing-or-empty", "loops": "link-loop"}[s["kind"]])
    ctx.sig(t, s["lib"], s["links"], s["reqs"])
    heavy = any(type(x) is not str and x[1] > 100 for v in s["lib"].values() for x in v)
    for mode, n, seed in s["reqs"]:
        if mode == "cyc" and heavy:
            mode = "take"  # the cyclical mode lists a value as often as its weight says: work in proportion to the weights
        budget = 20000 + K_STEPS * size * (n + 1)
        if s["kind"] in ("self",):
            budget = 3_000_000  # down to the recursion limit
        if s["kind"] == "loops":
            budget = 500_000
        mon.Steps.n = 0

        ws = bool(seed) and seed % 3 == 0  # squashing white space is lazy too

        def take():
            it = iter(SamplingContext(SamplingMethod.COMBINATORIAL, wm, ignore_whitespace=ws).sample_prompts(t))
            out = []
            for _ in range(n):
                x = next(it, None)
                if x is None:
                    break
                out.append(str(x))
            return out
        f = {"comb": lambda: CombinatorialPromptGenerator(wm, ignore_whitespace=ws).generate(t, n), "rand": lambda: RandomPromptGenerator(wm, seed=seed, ignore_whitespace=ws).generate(t, n),
             "bcomb": lambda: BatchedCombinatorialPromptGenerator(CombinatorialPromptGenerator(wm, ignore_whitespace=ws), 2).generate(t, n),
             "cyc": lambda: [str(x) for x in SamplingContext(SamplingMethod.CYCLICAL, wm, rand=random.Random(seed), ignore_whitespace=ws).sample_prompts(t, n)], "take": take}[mode]
        a = mon.Steps.n
        st, v = ctx.call(f, budget=budget)
        used = mon.Steps.n - a
        ctx.log(mode, n, st, v if st == "ok" else type(v).__name__, used if not isinstance(v, RecursionError) else None)
        ctx.probe("steps", used)
        ctx.probe("requests-above-a-tenth-of-the-work-bound", int(used * 10 > budget))
        what = f"{mode} request for {n} prompts of {t[:300]!r} (library {str(s['lib'])[:300]}, links {s['links']!r})"
        if st == "err":
            ctx.probe("error-" + type(v).__name__)
            ctx.check("raised StopIteration" not in str(v), "crash", lambda: f"{what}: {type(v).__name__}: {v}")
            ctx.check(not isinstance(v, MemoryError), "memory", lambda: f"{what}: ran out of memory (3 GB)")
            if s["kind"] == "loops":
                ctx.fail("unexpected-error", f"{what}: {type(v).__name__}: {v}")
            if s["kind"] == "huge":
                ctx.check(isinstance(v, NotImplementedError) or type(v).__name__ == "ParseException" or "%{" in t or "@" in t or "~" in t, "unexpected-error", lambda: f"{what}: {type(v).__name__}: {v}")
            continue
        m = 2 * n if mode == "bcomb" else n
        ctx.check(len(v) <= m, "too-many", lambda: f"{what}: returned {len(v)} prompts")


def simplify(s):
    for k in sorted(s["lib"]):
        v = s["lib"][k]
        if len(v) > 1:
            yield {**s, "lib": {**s["lib"], k: v[:len(v) // 2]}}
            if len(v) < 6:
                for i in range(len(v)):
                    yield {**s, "lib": {**s["lib"], k: v[:i] + v[i + 1:]}}
    for i, (m, n, seed) in enumerate(s["reqs"]):
        if n > 1:
            yield {**s, "reqs": s["reqs"][:i] + [[m, 1, seed]] + s["reqs"][i + 1:]}
