"""C04: seeded output depends only on template, library, settings and seeds."""
import random

from sim import boot, sched as sch, simfs, tmpl, wildlib
from sim.props_common import *  # noqa
from sim.props_common import setup, mark_methods, has_kind  # noqa

RUNS = {"quick": 3000, "thorough": 250000}
SHRINK = ["calls", "noise", "lib.*.vals", "extra"]
DET_SAMPLE = 400
HASHSEED_VIOLATION = True
RULE = ("one run = a generated library and a history of seeded calls, executed once in a reference environment and once in a perturbed one "
        "(permuted directory listings, different entropy, warm or dropped caches, other generators, global random draws, abandoned and failing "
        "calls in between, optionally a second thread under the scheduler), then call by call with per-prompt seeds split up; a sample of runs "
        "is executed again under another PYTHONHASHSEED; non-trivial: the outputs of the history are not all equal; distinct by outputs")
COMPONENTS = {"real": ["parser", "random sampler", "wildcard manager/tree/collections", "RandomPromptGenerator"],
              "stub": ["operating-system entropy", "directory listing order", "thread schedule", "other activity in the process"]}
NOISE = ["global", "default", "othergen", "clear", "warm", "abandon", "fail", "names", "seedglobal", "twin", "twin"]


def gen(r, tier, i):
    vars_ = ["p", "q"] if r.random() < 0.3 else []
    marks = r.random() < 0.25  # weights below one count as zero in cyclical parts
    lib = wildlib.gen_lib(r, vars_=vars_, weights=0.6, n=r.randint(2, 5), deep_weights=not marks)
    params = bool(vars_) and r.random() < 0.5
    g = tmpl.Gen(r, lib, depth=r.choice([1, 2, 3]), params=0.4 if params else 0.0, globs=["*", "beasts/*", "*/*"], path=0.1, wild=0.5)
    ts = []
    for _ in range(r.randint(1, 3)):
        t = tmpl.fix_literals(g.template())
        if r.random() < 0.2:
            t = tmpl.fix_literals(["S", [["=", "v", g.variant(1), r.random() < 0.5, False], t, ["L", " "], ["A", "v", None]]])
        if marks and r.random() < 0.6 and t[0] in ("S", "V"):
            t = mark_methods(t, r, True, 0.4)
        ts.append(t)
    if r.random() < 0.08:
        ts.append(["L", ""])
    calls = []
    for _ in range(r.randint(1, 6)):
        n = r.choice([0, 1, 1, 2, 3, 5, 12])
        x = r.random()
        if x < 0.5:
            sd = [r.choice([0, 1, 2, 3, 42, r.getrandbits(20), -5]) for _ in range(n)]
            if n > 1 and r.random() < 0.2:
                sd = [r.choice([0, 0, 7, r.getrandbits(30)])]
        elif x < 0.7:
            sd = r.choice([0, 0, 1, 9, r.getrandbits(30)])
        else:
            sd = None
        calls.append([r.randrange(len(ts)), n, sd])
    noise = []
    for _ in range(r.randint(0, 7)):
        noise.append([r.randrange(len(calls) + 1), r.choice(NOISE), r.randrange(100)])
    extra = []
    if r.random() < 0.4:  # names defined twice, same text with different weights: the winner must not depend on listing order
        base = r.choice(list(lib))
        extra.append([base.rpartition("/")[0], "zz-extra.yaml", {base.rpartition("/")[2]: ["other", "thing"]}])
    if r.random() < 0.3:
        d = r.choice(["", "beasts", "deep/er"])
        tw = r.sample(tmpl.WORDS, 3)
        extra.append([d, "twin.yaml", {"twin": [f"{r.choice([2, 3, 6])}::{x}" for x in tw]}])
        extra.append([d, "twin2.json", {"twin2": tw}])
        w = ["W", "*twin*" if d == "" else d + "/twin*", None, {}]
        if r.random() < 0.6:  # several picks: the order of equal texts with different weights matters
            w = ["V", {"o": [[None, w]], "lo": 2, "hi": 3, "sep": None, "m": None, "f": "range"}]
        ts.append(["S", [w, ["L", "!"]]])
        calls.append([len(ts) - 1, 4, [1, 2, 3, 4]])
    return {"lib": lib, "ts": ts, "calls": calls, "noise": noise, "extra": extra, "seed": r.choice([0, 1, r.getrandbits(32)]), "style": r.randint(0, 2),
            "sort": r.random() < 0.7, "dedup": r.random() < 0.85, "lists": [r.getrandbits(16), r.getrandbits(16)], "ents": [r.getrandbits(32), r.getrandbits(32)],
            "thread": {"mode": "rand", "seed": r.getrandbits(32), "p": r.choice([0.02, 0.1, 0.3])} if r.random() < 0.12 else None,
            "ws": r.random() < 0.1, "prewarm": r.random() < 0.4}


def write_extra(s, root):
    import json
    import os
    for d, f, data in s["extra"]:
        os.makedirs(os.path.join(root, d), exist_ok=True)
        with open(os.path.join(root, d, f), "w") as h:
            json.dump(data, h)


def run(s, ctx):
    from dynamicprompts.constants import DEFAULT_RANDOM
    from dynamicprompts.enums import SamplingMethod
    from dynamicprompts.sampling_context import SamplingContext
    from dynamicprompts.generators import CombinatorialPromptGenerator, RandomPromptGenerator
    texts = [tmpl.render(t) for t in s["ts"]]
    roots = [ctx.scratch + "/a", ctx.scratch + "/b"]

    def make(k):
        wm = wildlib.manager(s["lib"], roots[k], s["style"])
        write_extra(s, roots[k])
        wm.sort_wildcards = s["sort"]
        wm.dedup_wildcards = s["dedup"]
        return wm

    lists = {}

    def call(gen, c, what):
        ti, n, sd = c
        t = texts[ti % len(texts)]
        # A caller keeps one list of seeds for all requests that need it
        kw = {} if sd is None else {"seeds": lists.setdefault(tuple(sd), list(sd)) if isinstance(sd, list) else sd}
        out = own(ctx.must(f"{what} generate({t!r}, {n}, seeds={sd!r})", gen.generate, t, n, **kw))
        ctx.check(len(out) == (n if t else 0), "count", lambda: f"{what} generate({t!r}, {n}, seeds={sd!r}) returned {len(out)} prompts")
        return out

    # reference
    boot.set_entropy(s["ents"][0])
    with simfs.SimFS(roots[0], list_seed=s["lists"][0]):
        wm = make(0)
        gen = RandomPromptGenerator(wm, seed=s["seed"], ignore_whitespace=s["ws"])
        ref = []
        for c in s["calls"]:
            ref.append(call(gen, c, "reference"))
            ctx.log("ref", c, ref[-1])
    ctx.sig(ref)
    ctx.nontrivial = len({x for o in ref for x in o}) > 1

    # perturbed
    boot.set_entropy(s["ents"][1])
    out2 = [None] * len(s["calls"])
    with simfs.SimFS(roots[1], list_seed=s["lists"][1]) as fs:
        wm = make(1)
        ctx.fault("permuted-listing")
        other = RandomPromptGenerator(wm)
        held = []

        def noise(i):
            for at, kind, q in s["noise"]:
                if at != i:
                    continue
                ctx.fault("noise-" + kind)
                t = texts[q % len(texts)]
                if kind == "global":
                    [random.random() for _ in range(q)]
                elif kind == "seedglobal":
                    random.seed(q)
                elif kind == "default":
                    [DEFAULT_RANDOM.random() for _ in range(q % 7 + 1)]
                elif kind == "othergen":
                    ctx.call(other.generate, t, q % 4)
                    ctx.call(CombinatorialPromptGenerator(wm).generate, t, q % 6)
                elif kind == "clear":
                    wm.clear_cache()
                elif kind == "warm":
                    for nme in list(s["lib"]) + ["*"]:
                        ctx.call(wm.get_values, nme)
                elif kind == "abandon":
                    it = iter(SamplingContext(SamplingMethod.RANDOM, wm, rand=random.Random(q)).sample_prompts(t)) if t else iter(())
                    ctx.call(next, it, None)
                    held.append(it)
                elif kind == "fail":
                    ctx.call(other.generate, "{a|b", 1)
                    ctx.call(other.generate, "${nope}", 1)
                elif kind == "twin":  # another generator with the same seed
                    if not held or q % 3 == 0 or not isinstance(held[-1], RandomPromptGenerator):
                        held.append(RandomPromptGenerator(wm, seed=s["seed"], ignore_whitespace=s["ws"]))
                    ctx.call(held[-1].generate, t, q % 4 + 1)
                elif kind == "names":
                    ctx.call(wm.get_collection_names)

        if s["prewarm"]:
            for nme in s["lib"]:
                ctx.call(wm.get_values, nme)
        gen = RandomPromptGenerator(wm, seed=s["seed"], ignore_whitespace=s["ws"])

        def body():
            for i, c in enumerate(s["calls"]):
                noise(i)
                out2[i] = call(gen, c, "perturbed")

        def rival():
            g2 = RandomPromptGenerator(wm, seed=99)
            for t in texts:
                try:
                    g2.generate(t, 2, seeds=[5, 6])
                    other.generate(t, 2)
                except Exception:
                    pass

        if s["thread"]:
            ctx.fault("concurrent-thread")
            sc = sch.Sched(s["thread"])
            fs.sched = sc
            th = sc.run([body, rival], [PRODUCT])
            fs.sched = None
            ctx.patch_scenario = {"thread": sc.explicit_policy()}
            ctx.log("switches", len(sc.switches))
            e = th[0].exc
            if e is not None:
                if isinstance(e, BaseException) and type(e).__name__ == "Violation":
                    raise e
                ctx.fail("unexpected-error", f"in a thread: {type(e).__name__}: {e}" if e != "abort" else "deadlock or livelock")
        else:
            body()
        for c, a, b in zip(s["calls"], ref, out2):
            ctx.log("out", b)
            ctx.check(a == b, "not-reproduced", lambda: f"generate({texts[c[0] % len(texts)]!r}, {c[1]}, seeds={c[2]!r}) gave {a!r} and then {b!r}")

        # per-prompt seeds: prompt i is a function of seed i
        fresh = RandomPromptGenerator(wm, seed=12345, ignore_whitespace=s["ws"])
        for c, a in zip(s["calls"], ref):
            t = s["ts"][c[0] % len(texts)]
            if c[2] is None or not texts[c[0] % len(texts)] or dependent(t):
                continue
            sd = [c[2]] * c[1] if isinstance(c[2], int) else c[2] * c[1] if len(c[2]) == 1 else c[2]
            for i in list(range(len(sd)))[::-1][:6]:
                one = call(fresh, [c[0], 1, [sd[i]]], "single")
                ctx.probe("single-seed-compared")
                ctx.check(one == [a[i]], "seed-not-honoured", lambda: f"generate({texts[c[0] % len(texts)]!r}, {c[1]}, seeds={c[2]!r})[{i}] is {a[i]!r}, but "
                          f"seed {sd[i]} alone gives {one[0]!r}")


def dependent(t):
    """Templates whose prompts legitimately depend on more than their own seed."""
    if has_kind(t, ("=",)):
        if any(c[0] == "=" and c[3] for c in t[1]):
            return True
    return any(m in tmpl.render(t) for m in ("{@", "__@")) or random_path(t)


def random_path(t):
    """A wildcard whose name itself contains a choice is resolved once per call."""
    k = t[0]
    if k == "W":
        return not isinstance(t[1], str)
    if k == "S":
        return any(random_path(c) for c in t[1])
    if k == "V":
        return any(random_path(o) for _, o in t[1]["o"])
    if k == "X":
        return random_path(t[1]) or random_path(t[2])
    if k == "A":
        return t[2] is not None and random_path(t[2])
    if k == "=":
        return random_path(t[2])
    return False


def simplify(s):
    for i, t in enumerate(s["ts"]):
        for u in tmpl.shrinks(t):
            yield {**s, "ts": s["ts"][:i] + [u] + s["ts"][i + 1:]}
    if len(s["lib"]) > 1:
        for n in s["lib"]:
            yield {**s, "lib": {k: v for k, v in s["lib"].items() if k != n}}
    if s["thread"]:
        yield {**s, "thread": None}
    for i, c in enumerate(s["calls"]):
        if c[1] > 1 and not isinstance(c[2], list):
            yield {**s, "calls": s["calls"][:i] + [[c[0], c[1] - 1, c[2]]] + s["calls"][i + 1:]}
        if isinstance(c[2], list) and len(c[2]) == c[1] > 1:
            yield {**s, "calls": s["calls"][:i] + [[c[0], c[1] - 1, c[2][1:]]] + s["calls"][i + 1:]}
            yield {**s, "calls": s["calls"][:i] + [[c[0], c[1] - 1, c[2][:-1]]] + s["calls"][i + 1:]}
