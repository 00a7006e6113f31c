"""C03: cyclical parts advance one step per prompt, in order, in every interleaving."""
import itertools
import re

from sim import tmpl, wildlib
from sim.props_common import *  # noqa
from sim.props_common import setup, mark_methods, strip_methods, set_method  # noqa

RUNS = {"quick": 5000, "thorough": 300000}
SHRINK = ["ops", "lib.*.vals"]
RULE = ("one run = a generated library, 1-3 generated templates with '@' parts (or sampled by a cyclical context) and a seeded schedule of "
        "start/advance/abandon/cache-drop steps over live enumerations of random, cyclical and combinatorial contexts that share samplers and "
        "library, mixed with generator calls; non-trivial: some enumeration advanced past a wrap-around or two were live at once; distinct by "
        "(templates, step sequence, outputs)")
COMPONENTS = {"real": ["parser", "cyclical, random and combinatorial samplers", "wildcard manager/tree/collections", "random and combinatorial generators"],
              "stub": ["random streams", "operating-system entropy", "the schedule of consumers"]}
HORIZON = 90
MODES = ["RANDOM", "CYCLICAL", "COMBINATORIAL"]


def gen(r, tier, i):
    vars_ = ["p", "q"] if r.random() < 0.4 else []
    lib = wildlib.gen_lib(r, vars_=vars_, maxvals=4, deep_weights=False)
    ts = []
    for _ in range(r.randint(1, 3)):
        mode = r.choice(["RANDOM", "RANDOM", "CYCLICAL", "CYCLICAL", "COMBINATORIAL"])
        for _try in range(60):
            t = gen_template(r, lib, vars_, mode)
            if feasible(t, lib, mode):
                break
        else:
            t = ["S", [["L", "a "], ["V", {"o": [[None, ["L", "x"]], [None, ["L", "y"]]], "lo": 1, "hi": 1, "sep": None, "m": "@", "f": None}]]]
        ts.append([mode, t])
    ops, nit = [], 0
    for _ in range(r.randint(4, 24)):
        x = r.random()
        if x < 0.25 or not nit:
            ops.append(["start", r.randrange(len(ts)), r.choice(["text", "cmd"])])
            nit += 1
        elif x < 0.7:
            ops.append(["adv", r.randrange(nit), r.choice([1, 1, 1, 2, 3, 7, 30])])
        elif x < 0.77:
            ops.append(["drop", r.randrange(nit)])
        elif x < 0.84:
            ops.append(["clear"])
        else:
            ops.append(["gen", r.randrange(len(ts)), r.choice([1, 2, 5, 17]), r.random() < 0.4])
    return {"lib": lib, "spell": tmpl.spelling(r, lib, ts) if r.random() < 0.2 else 0, "ts": ts, "ops": ops, "style": r.randint(0, 2), "seed": r.getrandbits(32)}


def gen_template(r, lib, vars_, mode):
    params = bool(vars_) and r.random() < 0.5
    g = tmpl.Gen(r, lib, depth=r.choice([1, 2, 2, 3]), params=0.5 if params else 0.0, globs=["beasts/*", "*/*"], empty=r.choice([0, 0.15]), blank=r.choice([0, 0, 0.2]),
                 fancy=0.1, maxopts=3, wrap=0.08 if mode == "RANDOM" else 0, sole=0.1, path=0.1 if mode != "RANDOM" else 0)
    asg = []
    if r.random() < 0.3:
        g.c["vars"], g.c["acc"] = (), 0
        val = g.variant(1)
        if mode == "RANDOM" and markable(val) and r.random() < 0.6:
            val = set_method(val, "@")
        asg = [["=", "v", val, r.random() < 0.3 and mode != "RANDOM", False]]
        g.c["vars"], g.c["acc"] = ("v",), 0.4
    body = g.template()
    node = ["S", asg + (body[1] if body[0] == "S" else [body]) + ([["L", " "], ["A", "v", None]] if asg else [])]
    node = tmpl.fix_literals(node)
    if node[0] not in ("S", "V"):
        return node
    if mode == "RANDOM":
        toks = node[1] if node[0] == "S" else [node]
        toks = [set_method(c, "@") if c[0] in ("V", "W") and markable(c) and r.random() < 0.7 else c for c in toks]
        return ["S", toks] if node[0] == "S" else toks[0]
    if mode == "COMBINATORIAL":
        return mark_methods(node, r, top=True, p=0.6, rnd=False)
    return mark_rnd(node, r) if r.random() < 0.5 else node


def mark_rnd(node, r, d=0):
    k = node[0]
    if k == "S":
        return ["S", [mark_rnd(c, r, d + 1) for c in node[1]]]
    if k == "V" and not has_kind(node, ("X", "A")):
        if r.random() < 0.25 and d:
            return set_method(node, "~")
        return ["V", {**node[1], "o": [[w, mark_rnd(o, r, d + 1) if len(node[1]["o"]) > 1 else o] for w, o in node[1]["o"]]}]
    return node


def feasible(t, lib, mode):
    try:
        m = Model(t, tmpl.Env(wildlib.lookup(lib)), mode)
        tmpl.Work.n, tmpl.Work.limit = 0, 6000
        for q in range(HORIZON + 5):
            m.get(q)
    except (tmpl.TooBig, KeyError, RecursionError, StopIteration, ZeroDivisionError, RuntimeError):
        return False
    finally:
        tmpl.Work.limit = None
    return True


class Model:
    def __init__(self, t, env, mode):
        self.t, self.env, self.mode = t, env, mode
        self.sets, self.memo = [], {}
        self.known = {}
        self.it = tmpl.comb(t, env) if mode == "COMBINATORIAL" else None
        self.list = []

    def rnd(self, node, e):
        key = (tmpl.render(node), tuple(sorted((k, tmpl.render(v)) for k, v in e.vars.items())))
        if key not in self.known:
            self.sets.append(list(tmpl.lang(strip_methods(node), e, cap=250)))
            self.known[key] = len(self.sets) - 1
        return f"\0{self.known[key]}\0"

    def get(self, i):
        if self.it is not None:
            while len(self.list) <= i and self.it:
                try:
                    self.list.append(next(self.it))
                except StopIteration:
                    self.it = ()
            return self.list[i] if i < len(self.list) else None
        if i not in self.memo:
            tmpl.RNDCB = self.rnd
            try:
                self.memo[i] = tmpl.cyc(self.t, i, self.env) if self.mode == "CYCLICAL" else self.random(i)
            finally:
                tmpl.RNDCB = None
        return self.memo[i]

    def random(self, i):
        env, t = self.env, self.t
        asg, _ = tmpl.split_assignments(t)
        for _, name, val, imm, keep in asg:
            if not (keep and name in env.vars):
                env = env.with_vars({name: val})
        toks = [c for c in t[1] if c[0] != "="] if t[0] == "S" else [t]
        out = []
        for c in toks:
            n = tmpl.resolve(c, env) if c[0] == "A" else c
            if n[0] == "L":
                out.append(n[1])
            elif tmpl.method(n) == "@":
                out.append(tmpl.cyc(n, i, env))
            else:
                out.append(self.rnd(n, env))
        return "".join(out)

    def matches(self, exp, got):
        if exp is None or got is None:
            return exp is got
        if "\0" not in exp:
            return exp == got
        rx = "".join(re.escape(p) if k % 2 == 0 else "(?:" + "|".join(re.escape(x) for x in self.sets[int(p)]) + ")"
                     for k, p in enumerate(exp.split("\0")))
        return re.fullmatch(rx, got, re.S) is not None

    def show(self, exp):
        if exp is None:
            return "nothing (the enumeration ends)"
        return "".join(p if k % 2 == 0 else "<one of %s>" % self.sets[int(p)][:6] for k, p in enumerate(exp.split("\0")))


def run(s, ctx):
    from dynamicprompts.enums import SamplingMethod
    from dynamicprompts.generators import CombinatorialPromptGenerator, RandomPromptGenerator
    from dynamicprompts.parser.parse import parse
    from dynamicprompts.sampling_context import SamplingContext
    import random
    pc = tmpl.spell(s["spell"])
    wm = wildlib.manager(s["lib"], ctx.scratch + "/wc", s["style"])
    env = tmpl.Env(wildlib.lookup(s["lib"]))
    base = SamplingContext(default_sampling_method=SamplingMethod.RANDOM, wildcard_manager=wm, parser_config=pc, rand=random.Random(s["seed"]))
    cs = {m: base.with_sampling_method(getattr(SamplingMethod, m)) for m in MODES}
    gens = {"RANDOM": RandomPromptGenerator(wm, parser_config=pc, seed=s["seed"]), "COMBINATORIAL": CombinatorialPromptGenerator(wm, parser_config=pc)}
    texts, cmds, its = [tmpl.render(t) for _, t in s["ts"]], {}, []
    for m, t in s["ts"]:
        if not feasible(t, s["lib"], m):
            return  # only reachable while minimising

    def compare(m, start, got, what, text):
        for k, g in enumerate(got):
            e = m.get(start + k)
            if not m.matches(e, g):
                ctx.fail("wrong-step", f"{what} of {text!r}: prompt #{start + k} is {g!r}, expected {m.show(e)!r}; before it "
                         + repr([m.show(m.get(q)) for q in range(max(0, start + k - 2), start + k)]))

    for op in s["ops"]:
        k = op[0]
        if k == "start":
            ti = op[1] % len(s["ts"])
            if not texts[ti]:
                continue
            src = texts[ti]
            if op[2] == "cmd":
                if ti not in cmds:
                    cmds[ti] = ctx.must(f"parse({texts[ti]!r})", parse, texts[ti], pc)
                src = cmds[ti]
            mode, t = s["ts"][ti]
            it = ctx.must("sample_prompts", lambda: iter(cs[mode].sample_prompts(src)))
            its.append([it, Model(t, env, mode), 0, f"{mode} {texts[ti]}", True])
            if sum(x[4] for x in its) > 1:
                ctx.nontrivial = True
                ctx.probe("several-live-enumerations")
        elif k == "adv" and its:
            e = its[op[1] % len(its)]
            if not e[4]:
                continue
            n = min(op[2], HORIZON - e[2])
            got = ctx.must(f"advancing {e[3]!r}", lambda: [str(x) for x in itertools.islice(e[0], n)])
            ctx.log("adv", e[3], got)
            ctx.sig(e[3], got)
            if e[2] > 20:
                ctx.probe("long-run")
                ctx.nontrivial = True
            compare(e[1], e[2], got, "enumeration", e[3])
            e[2] += len(got)
            if len(got) < n:
                ctx.check(e[1].get(e[2]) is None, "ended-early", lambda: f"enumeration of {e[3]!r} ended after {e[2]} prompts; next is {e[1].show(e[1].get(e[2]))!r}")
                e[4] = False
        elif k == "drop" and its:
            e = its[op[1] % len(its)]
            e[0], e[4] = None, False
            ctx.fault("abandoned-enumeration")
        elif k == "clear":
            wm.clear_cache()
            ctx.fault("cache-dropped")
        elif k == "gen":
            ti = op[1] % len(s["ts"])
            mode, t = s["ts"][ti]
            m = Model(t, env, mode)
            if mode not in gens or not texts[ti]:
                continue
            kw = {"seeds": [s["seed"] % 1000 + q + 1 for q in range(op[2])]} if op[3] and mode == "RANDOM" else {}
            out = ctx.must(f"{mode} generate({texts[ti]!r}, {op[2]})", gens[mode].generate, texts[ti], op[2], **kw)
            ctx.log("gen", mode, texts[ti], out)
            ctx.sig("gen", mode, texts[ti], out)
            compare(m, 0, out, f"{mode} generate", texts[ti])
            if len(out) < op[2]:
                ctx.check(m.get(len(out)) is None, "ended-early", lambda: f"{mode} generate({texts[ti]!r}, {op[2]}) gave {len(out)}")


def simplify(s):
    for i, (m, t) in enumerate(s["ts"]):
        for u in tmpl.shrinks(t):
            yield {**s, "ts": s["ts"][:i] + [[m, u]] + s["ts"][i + 1:]}
    for n in s["lib"]:
        yield {**s, "lib": {k: v for k, v in s["lib"].items() if k != n}}
