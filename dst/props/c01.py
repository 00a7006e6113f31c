"""C01: random prompts stay inside the template's language for every random stream."""
import dataclasses

from sim import rnd, tmpl, wildlib
from sim.props_common import *  # noqa

RUNS = {"quick": 7000, "thorough": 400000}
SHRINK = ["ops", "lib.*.vals"]
RULE = ("one run = a generated library and 1-4 generated templates, sampled through SamplingContext with a simulator-owned random "
        "stream (fair, all-zero, all-max, alternating, sticky, edge) and through RandomPromptGenerator with seeds; non-trivial: at "
        "least one template offers more than one prompt; distinct by (rendered templates, stream kinds, outputs)")
COMPONENTS = {"real": ["parser", "random sampler", "sampling context", "wildcard manager, tree and collections", "pyparsing"],
              "stub": ["random source (adversarial streams)", "operating-system entropy"]}


def gen(r, tier, i):
    vars_ = ["p", "q"] if r.random() < 0.4 else []
    lib = wildlib.gen_lib(r, vars_=vars_, wraps=0.05)
    ops = []
    ignore_ws = r.random() < 0.2
    for _ in range(r.randint(1, 4)):
        given = {}
        if r.random() < 0.12:
            g = tmpl.Gen(r, [], depth=1, fancy=0, empty=0)
            given = {"vars": {n: g.lit() if r.random() < 0.4 else g.variant(1) for n in r.sample(["p", "q", "v", "z"], r.randint(1, 2))}}
            if r.random() < 0.6:
                given["unk"] = ["L", ""] if r.random() < 0.25 else g.lit() if r.random() < 0.6 else g.variant(1)
            if ignore_ws:
                [no_zero(x) for x in [*given["vars"].values(), given.get("unk", ["L", ""])]]
        for _try in range(50):
            t = gen_template(r, lib, vars_, ignore_ws=ignore_ws)
            if given:
                t = tmpl.fix_literals(["S", (t[1] if t[0] == "S" else [t]) + [["L", " "], ["A", r.choice(sorted(given["vars"]) + ["u"] * ("unk" in given)), r.choice([None, ["L", "dflt"]])]]])
                if "unk" not in given and t[1][-1][1] not in given["vars"]:
                    t[1][-1][2] = ["L", "dflt"]
            try:
                if sum(len(x) for x in tmpl.call_langs(t, tmpl.Env(wildlib.lookup(lib), given.get("vars"), given.get("unk")))) > 6000:
                    continue
            except (tmpl.TooBig, KeyError, RecursionError):
                continue
            break
        else:
            t = ["L", "plain"]
        ops.append({"t": t, "n": r.choice([1, 1, 2, 3, 5, 8, 12, 25]), "via": r.choice(["ctx", "ctx", "gen", "seeds"]) if not given else "ctx", "given": given,
                    "kind": r.choice(rnd.KINDS), "seed": r.getrandbits(32), "clear": r.random() < 0.1})
    return {"lib": lib, "ops": ops, "spell": tmpl.spelling(r, lib, ops) if r.random() < 0.2 else 0, "style": r.randint(0, 2), "ignore_ws": ignore_ws}


def gen_template(r, lib, vars_, ignore_ws=False):
    params = bool(vars_) and r.random() < 0.6
    cfg = dict(depth=r.choice([1, 2, 2, 3]), params=0.5 if params else 0.0, globs=["animals*", "*/*", "beasts/*", "big"],
               empty=0 if ignore_ws else r.choice([0, 0.2]), fancy=0.2 if not ignore_ws else 0, dup=r.choice([0, 0, 0.3]), blank=0 if ignore_ws else r.choice([0, 0, 0.2]))
    g = tmpl.Gen(r, lib, **cfg)
    if r.random() < 0.35:
        # (a parameter that shadows the variable being expanded is refused by the recursion guard: not used)
        names = r.sample(["v", "w"] if params else ["v", "p"], r.randint(1, 2))
        asg = []
        done = []
        for n in names:
            g.c["vars"], g.c["acc"] = tuple(done), 0.4
            val = g.option(1) if r.random() < 0.3 else g.variant(1)
            if n == "p" and has_kind(val, ("W", "A")):
                val = g.lit()  # library values mention ${p}: would be truly recursive
            if cfg["empty"] and r.random() < 0.1:
                val = ["L", ""]
            asg.append(["=", n, val, r.random() < 0.5, r.random() < 0.2])
            done.append(n)
            if r.random() < 0.15:
                asg.append(["=", n, ["L", "later"], False, True])
        g.c["vars"], g.c["acc"] = tuple(names), 0.5
        g.c["sole"] = 0
        body = g.template()
        node = ["S", asg + (body[1] if body[0] == "S" else [body]) + [["L", " "], ["A", names[0], None]] + ([["L", "="], ["A", names[0], None]] if r.random() < 0.7 else [])]
    else:
        node = g.template()
    node = tmpl.fix_literals(node)
    if ignore_ws:
        no_zero(node)
    return node


def run(s, ctx):
    from dynamicprompts.enums import SamplingMethod
    from dynamicprompts.generators import RandomPromptGenerator
    from dynamicprompts.parser.parse import parse
    from dynamicprompts.sampling_context import SamplingContext
    pc = tmpl.spell(s["spell"])
    wm = wildlib.manager(s["lib"], ctx.scratch + "/wc", s["style"])
    env = tmpl.Env(wildlib.lookup(s["lib"]))
    gen = RandomPromptGenerator(wm, parser_config=pc, ignore_whitespace=s["ignore_ws"])
    for op in s["ops"]:
        text = tmpl.render(op["t"])
        given = op["given"]
        try:
            langs = tmpl.call_langs(op["t"], env if not given else tmpl.Env(env.lib, given["vars"], given.get("unk")), cap=20000)
        except (tmpl.TooBig, KeyError, RecursionError):
            continue
        if not text:
            continue
        if s["ignore_ws"]:
            langs = [{tmpl.squash(x): 1 for x in l} for l in langs]
        if op.get("clear"):
            wm.clear_cache()
        n = op["n"]
        if op["via"] == "ctx":
            c = SamplingContext(default_sampling_method=SamplingMethod.RANDOM, wildcard_manager=wm, parser_config=pc, ignore_whitespace=s["ignore_ws"],
                                rand=rnd.Stream(op["kind"], op["seed"]))
            if given:
                c = dataclasses.replace(c, variables={n: parse(tmpl.render(x), pc) for n, x in given["vars"].items()})
                if "unk" in given:
                    c = dataclasses.replace(c, unknown_variable_value=given["unk"][1] if given["unk"][0] == "L" else parse(tmpl.render(given["unk"]), pc))
                ctx.probe("variables-passed-in")
            ctx.fault("rng-stream-" + op["kind"])
            out = ctx.must(f"sampling {text!r}", lambda: [str(x) for x in c.sample_prompts(text, n)])
        elif op["via"] == "gen":
            out = ctx.must(f"generate({text!r}, {n})", gen.generate, text, n)
        else:
            seeds = [op["seed"] + j * 7 for j in range(n)]
            out = ctx.must(f"generate({text!r}, {n}, seeds)", gen.generate, text, n, seeds=seeds)
        ctx.log(text, out)
        ctx.check(isinstance(out, list) and len(out) == n and all(type(x) is str for x in out), "count",
                  lambda: f"asked {n} prompts of {text!r}, got {len(out)}: {out[:5]!r}")
        ctx.sig(text, op["kind"] if op["via"] == "ctx" else op["via"], out)
        if sum(len(l) for l in langs) > 1:
            ctx.nontrivial = True
        if len(langs) > 1:
            ctx.probe("immediate-variable-call")
        if not any(all(o in l for o in out) for l in langs):
            bad = [o for o in out if not any(o in l for l in langs)]
            if bad:
                ctx.fail("outside-language", f"template {text!r} produced {bad[0]!r}; the template allows e.g. {list(langs[0])[:8]!r}")
            ctx.fail("immediate-variable-changed", f"template {text!r}: {out!r} mixes several values of an immediate variable")


def simplify(s):
    for i, op in enumerate(s["ops"]):
        for t in tmpl.shrinks(op["t"]):
            yield {**s, "ops": s["ops"][:i] + [{**op, "t": t}] + s["ops"][i + 1:]}
        if op["n"] > 1:
            yield {**s, "ops": s["ops"][:i] + [{**op, "n": op["n"] // 2}] + s["ops"][i + 1:]}
    for n in s["lib"]:
        yield {**s, "lib": {k: v for k, v in s["lib"].items() if k != n}}
