"""C02: combinatorial enumeration is exact, ordered, and unaffected by interleaving."""
import itertools
import re

from sim import tmpl, wildlib
from sim.props_common import *  # noqa
from sim.props_common import setup, mark_methods, strip_methods  # noqa

RUNS = {"quick": 5000, "thorough": 300000}
SHRINK = ["ops", "lib.*.vals"]
RULE = ("one run = a generated library, 1-3 generated templates and a seeded schedule of start/advance/abandon/cache-drop steps over up "
        "to 6 live enumerations of one shared SamplingContext, mixed with CombinatorialPromptGenerator and Batched calls; non-trivial: two "
        "or more enumerations were live at once or a call returned more than one prompt; distinct by (templates, step sequence, outputs)")
COMPONENTS = {"real": ["parser", "combinatorial (and nested cyclical/random) samplers", "command collection", "wildcard manager/tree/collections",
                       "combinatorial and batched generators"], "stub": ["operating-system entropy", "the schedule of consumers"]}
HORIZON = 70


def gen(r, tier, i):
    ignore_ws = r.random() < 0.12
    vars_ = ["p", "q"] if r.random() < 0.4 else []
    lib = wildlib.gen_lib(r, vars_=vars_, maxvals=3, deep_weights=r.random() < 0.4)
    ts = []
    for _ in range(r.randint(1, 3)):
        for _try in range(40):
            t = gen_template(r, lib, vars_, ignore_ws)
            if feasible(t, lib):
                break
        else:
            t = ["S", [["L", "a "], ["V", {"o": [[None, ["L", "x"]], [None, ["L", "y"]]], "lo": 1, "hi": 1, "sep": None, "m": None, "f": None}]]]
        ts.append(t)
    ops = []
    nit = 0
    for _ in range(r.randint(4, 22)):
        x = r.random()
        if x < 0.25 or not nit:
            ops.append(["start", r.randrange(len(ts)), r.choice(["text", "cmd", "text"])])
            nit += 1
        elif x < 0.68:
            ops.append(["adv", r.randrange(nit), r.choice([1, 1, 1, 2, 3, 7, 30])])
        elif x < 0.75:
            ops.append(["drop", r.randrange(nit)])
        elif x < 0.82:
            ops.append(["clear"])
        elif x < 0.94:
            ops.append(["gen", r.randrange(len(ts)), r.choice([0, 1, 2, 5, 17, 60])])
        else:
            ops.append(["batch", r.randrange(len(ts)), r.choice([1, 3, 8]), r.randint(1, 3)])
    return {"lib": lib, "spell": tmpl.spelling(r, lib, ts) if r.random() < 0.2 else 0, "ts": ts, "ops": ops, "style": r.randint(0, 2), "ignore_ws": ignore_ws, "sort": r.random() < 0.85}


def gen_template(r, lib, vars_, ignore_ws):
    params = bool(vars_) and r.random() < 0.6
    cfg = dict(depth=r.choice([1, 2, 2, 3]), params=0.5 if params else 0.0, globs=["animals*", "*/*", "beasts/*", "big"],
               empty=0 if ignore_ws else r.choice([0, 0.2]), fancy=0.2 if not ignore_ws else 0, dup=r.choice([0, 0, 0, 0.3]), blank=0 if ignore_ws else r.choice([0, 0, 0.2]), maxopts=3)
    g = tmpl.Gen(r, lib, **cfg)
    if r.random() < 0.3:
        names = r.sample(["v", "w"] if params else ["v", "p"], r.randint(1, 2))
        asg, done = [], []
        for n in names:
            g.c["vars"], g.c["acc"] = tuple(done), 0.4
            val = g.variant(1) if r.random() < 0.7 else g.lit()
            if n == "p" and has_kind(val, ("W", "A")):
                val = g.lit()  # library values mention ${p}: would be truly recursive
            if cfg["empty"] and r.random() < 0.1:
                val = ["L", ""]
            asg.append(["=", n, val, r.random() < 0.4, r.random() < 0.2])
            done.append(n)
            if r.random() < 0.15:
                asg.append(["=", n, ["L", "later"], False, True])
        g.c["vars"], g.c["acc"], g.c["sole"] = tuple(names), 0.5, 0
        body = g.template()
        node = ["S", asg + (body[1] if body[0] == "S" else [body]) + [["L", " "], ["A", names[0], None]]]
    else:
        node = g.template()
    node = tmpl.fix_literals(node)
    if ignore_ws:
        no_zero(node)
    if r.random() < 0.4:
        node = mark_methods(node, r, top=True, p=0.4)
    return node


def feasible(t, lib):
    env = tmpl.Env(wildlib.lookup(lib))
    tmpl.Work.n, tmpl.Work.limit = 0, 6000
    try:
        m = Model(t, env)
        for _ in itertools.islice(m.it, HORIZON + 5):
            pass
    except (tmpl.TooBig, KeyError, RecursionError, StopIteration, ZeroDivisionError, RuntimeError):
        return False
    finally:
        tmpl.Work.limit = None
    return True


class Model:
    """Expected sequence, computed once and extended lazily."""

    def __init__(self, t, env):
        self.sets = []

        def rnd(node, e):
            self.sets.append(list(tmpl.lang(strip_methods(node), e, cap=300)))
            return f"\0{len(self.sets) - 1}\0"
        self.it = tmpl.comb(t, env, rnd)
        self.seen = []
        self.done = False

    def get(self, i):
        while len(self.seen) <= i and not self.done:
            try:
                self.seen.append(next(self.it))
            except StopIteration:
                self.done = True
        return self.seen[i] if i < len(self.seen) else None

    def matches(self, exp, got, squash):
        if exp is None or got is None:
            return exp is got
        if "\0" not in exp:
            return (tmpl.squash(exp) if squash else exp) == got
        parts = exp.split("\0")
        rx = "".join(re.escape(p) if k % 2 == 0 else "(?:" + "|".join(re.escape(x) for x in self.sets[int(p)]) + ")" for k, p in enumerate(parts))
        if squash:
            return True if len(rx) > 5000 else any(tmpl.squash(x) == got for x in expand(parts, self.sets))
        return re.fullmatch(rx, got, re.S) is not None


def expand(parts, sets):
    return ("".join(c) for c in itertools.product(*[[p] if k % 2 == 0 else sets[int(p)] for k, p in enumerate(parts)]))


def run(s, ctx):
    from dynamicprompts.enums import SamplingMethod
    from dynamicprompts.generators import BatchedCombinatorialPromptGenerator, CombinatorialPromptGenerator
    from dynamicprompts.parser.parse import parse
    from dynamicprompts.sampling_context import SamplingContext
    pc = tmpl.spell(s["spell"])
    wm = wildlib.manager(s["lib"], ctx.scratch + "/wc", s["style"])
    sq = s["ignore_ws"]
    has_glob = any("*" in tmpl.render(t) or "big" in tmpl.render(t) for t in s["ts"])
    if not s["sort"] and not has_glob:
        wm.sort_wildcards = False
        env = tmpl.Env(wildlib.lookup(s["lib"], sort=False))
    else:
        env = tmpl.Env(wildlib.lookup(s["lib"]))
    c = SamplingContext(default_sampling_method=SamplingMethod.COMBINATORIAL, wildcard_manager=wm, parser_config=pc, ignore_whitespace=sq)
    gen = CombinatorialPromptGenerator(wm, parser_config=pc, ignore_whitespace=sq)
    texts, cmds = [tmpl.render(t) for t in s["ts"]], {}
    its = []
    try:
        probe = [Model(t, env) for t in s["ts"]]
        for m in probe:
            tmpl.Work.n, tmpl.Work.limit = 0, 20000
            for _ in itertools.islice(m.it, HORIZON + 5):
                pass
            tmpl.Work.limit = None
    except (KeyError, RecursionError, tmpl.TooBig, RuntimeError, ZeroDivisionError):
        return  # only reachable while minimising

    def compare(m, start, got, what, text):
        for k, g in enumerate(got):
            e = m.get(start + k)
            if not m.matches(e, g, sq):
                exp = [m.get(q) for q in range(max(0, start + k - 2), start + k + 3)]
                ctx.fail("wrong-prompt", f"{what} of {text!r}: prompt #{start + k} is {g!r}, expected {e!r} (around it: {exp!r})")

    for op in s["ops"]:
        k = op[0]
        if k == "start":
            ti = op[1] % len(s["ts"])
            if not texts[ti]:
                continue
            if op[2] == "cmd":
                if ti not in cmds:
                    cmds[ti] = ctx.must(f"parse({texts[ti]!r})", parse, texts[ti], pc)
                src = cmds[ti]
            else:
                src = texts[ti]
            it = ctx.must("sample_prompts", lambda: iter(c.sample_prompts(src)))
            its.append([it, Model(s["ts"][ti], env), 0, texts[ti], True])
            if sum(x[4] for x in its) > 1:
                ctx.nontrivial = True
                ctx.probe("several-live-enumerations")
        elif k == "adv" and its:
            e = its[op[1] % len(its)]
            if not e[4]:
                continue
            n = min(op[2], HORIZON - e[2])
            got = ctx.must(f"advancing {e[3]!r}", lambda: [str(x) for x in itertools.islice(e[0], n)])
            ctx.log("adv", e[3], got)
            ctx.sig(e[3], got)
            if e[2]:
                ctx.probe("resumed-enumeration")
            compare(e[1], e[2], got, "enumeration", e[3])
            e[2] += len(got)
            if len(got) < n:
                exp = e[1].get(e[2])
                if exp is not None:
                    ctx.fail("missing-prompt", f"enumeration of {e[3]!r} ended after {e[2]} prompts; next should be {exp!r}")
                ctx.probe("exhausted-enumeration")
                e[4] = False
        elif k == "drop" and its:
            e = its[op[1] % len(its)]
            e[0], e[4] = None, False
            ctx.fault("abandoned-enumeration")
        elif k == "clear":
            wm.clear_cache()
            ctx.fault("cache-dropped")
        elif k in ("gen", "batch"):
            ti = op[1] % len(s["ts"])
            n = op[2]
            m = Model(s["ts"][ti], env)
            if k == "gen":
                out = own(ctx.must(f"generate({texts[ti]!r}, {n})", gen.generate, texts[ti], n))
                outs = [out]
            else:
                b = BatchedCombinatorialPromptGenerator(gen, op[3]) if op[3] != 1 else BatchedCombinatorialPromptGenerator(gen)
                out = own(ctx.must(f"batched generate({texts[ti]!r}, {n})", b.generate, texts[ti], n))
                size = 0 if not texts[ti] else sum(1 for q in range(n) if m.get(q) is not None)
                ctx.check(len(out) == size * op[3], "batch-count", lambda: f"{op[3]} batches of {size}: got {len(out)} prompts for {texts[ti]!r}")
                outs = [out[j * size:(j + 1) * size] for j in range(op[3])]
            ctx.log(k, texts[ti], out)
            if not texts[ti]:
                ctx.check(out == [], "empty-template", lambda: f"empty template gave {out!r}")
                continue
            if len(out) > 1:
                ctx.nontrivial = True
            ctx.sig(k, texts[ti], out)
            for o in outs:
                compare(m, 0, o, k, texts[ti])
                ctx.check(len(o) <= n, "over-limit", lambda: f"{len(o)} prompts for limit {n} of {texts[ti]!r}")
                if len(o) < n and m.get(len(o)) is not None:
                    ctx.fail("missing-prompt", f"{k} of {texts[ti]!r} with limit {n} gave {len(o)} prompts; next should be {m.get(len(o))!r}")


def simplify(s):
    for i, t in enumerate(s["ts"]):
        for u in tmpl.shrinks(t):
            yield {**s, "ts": s["ts"][:i] + [u] + s["ts"][i + 1:]}
    for n in s["lib"]:
        yield {**s, "lib": {k: v for k, v in s["lib"].items() if k != n}}
    if s["ignore_ws"]:
        yield {**s, "ignore_ws": False}
