"""C16: Jinja templates - calls are isolated and counted, and errors are reported."""
import itertools
import logging
import random
import re

from sim import sched as sch
from sim.props_common import PRODUCT, own

RUNS = {"quick": 6000, "thorough": 300000}
SHRINK = ["reqs", "subs"]
RULE = ("one run = two Jinja generators (contexts, prompt limiting and whitespace options from the seed) sharing a library (changed and refreshed between some requests), 2-8 requests built from documented "
        "functions, prompt blocks, loops and assignments, some failing (malformed, or raising in mid-rendering), some making further requests on the same "
        "generators in mid-rendering, some spread over threads under a seeded line-level schedule; non-trivial: a failure, a nested request or a thread switch; "
        "distinct by (templates, outcome, schedule)")
COMPONENTS = {"real": ["JinjaGenerator", "Jinja2", "the documented template functions", "samplers, parser, wildcard manager"], "stub": ["thread scheduling", "random seeds"]}
LIB = {"c": ["red", "green", "blue"], "n": ["x {p|q}", "y"], "d/e": ["é1", "é2"], "w": ["one"]}
EDITS = [["c", ["red"]], ["c", ["green", "violet", "blue"]], ["w", ["two", "one"]], ["w", ["1"]], ["d/e", ["é3"]], ["d/f", ["z1", "é1"]], ["c", ["black", "red", "white", "red"]], ["nosuch", ["now"]]]
WC = ["c", "__c__", "n", "d/*", "__d/e__", "w", "nosuch", "__w__"]
COMB = ["{a|b} {c|d}", "__c__ {1|2}", "{2$$a|b|c}", "plain", "${v={a|b}}${v}-", "__w__?", "{__w__|k}"]
RAND = ["{a|b} x", "__c__!", "plain", "{2$$p|q}", "__n__", "{0::no|yes}", "__w__ __w__"]


def values(lib, name):
    """What a wildcard name stands for, values in order."""
    name = name.strip("_")
    pats = [n for n in sorted(lib) if n == name or name == "d/*" and n.startswith("d/")]
    v = sorted({x for n in pats for x in lib[n]})
    return [y for x in v for y in (["x p", "x q"] if x == "x {p|q}" else [x])] or [f"__{name}__"]


def combos(lib, t):
    if t == "__c__ {1|2}":
        return [f"{x} {y}" for x in values(lib, "c") for y in "12"]
    if t == "__w__?":
        return [f"{x}?" for x in values(lib, "w")]
    if t == "{__w__|k}":
        return values(lib, "w") + ["k"]
    return {"{a|b} {c|d}": ["a c", "a d", "b c", "b d"], "{2$$a|b|c}": ["a,b", "a,c", "b,a", "b,c", "c,a", "c,b"], "plain": ["plain"], "${v={a|b}}${v}-": ["a-", "b-"]}[t]


def sample(lib, t):
    alt = lambda n: "(?:" + "|".join(map(re.escape, values(lib, n))) + ")"
    return {"{a|b} x": "(a|b) x", "__c__!": alt("c") + "!", "plain": "plain", "{2$$p|q}": "(p,q|q,p)", "__n__": "(x p|x q|y)", "{0::no|yes}": "yes", "__w__ __w__": alt("w") + " " + alt("w")}[t]


CONTEXTS = [{}, {"who": "cat", "flag": True, "xs": ["k", "l"]}, {"who": "dog & co", "flag": False, "xs": []}, {"who": "x", "xs": ["m"], "leak": "ctx"}]
SYNTAX = ["{% if %}", "{{ ", "{% prompt %}", "{% for x %}", "{% endprompt %}", "{% nosuchtag %}", "{{ a b }}", "{% prompt %}a{% endfor %}"]
BOOM = ["{{ 1/0 }}", "{{ nope.x }}", "{{ random_sample('{a|') }}", "{{ choice() }}", "{{ wildcard() }}", "{{ permutations(3) }}", "{{ nofunc() }}"]
TXT = ["a", " b ", "c, ", "(x:1.2) ", "ü ", "50% ", "  "]


def pieces(r, depth, nsub):
    out = []
    for _ in range(r.randint(1, 4)):
        x = r.random()
        if x < 0.2:
            out.append(["t", r.choice(TXT)])
        elif x < 0.28:
            out.append(["ctx", r.choice(["who", "leak", "other"])])
        elif x < 0.36:
            out.append(["wc", r.choice(sorted(WC))])
        elif x < 0.44:
            out.append(["comb", r.choice(sorted(COMB))])
        elif x < 0.5:
            out.append(["perm", ["a", "b", "c"][:r.randint(1, 3)], r.randint(0, 2), r.choice([None, 1, 2])])
        elif x < 0.66 and depth < 2:
            out.append(["block", pieces(r, depth + 2, nsub)])
        elif x < 0.72 and depth == 0:
            out.append(["set", r.choice(["leak", "v"]), "set%d" % r.randrange(9)])
        elif x < 0.77:
            out.append(["choice", [r.choice(["p", "q", "r s"]) for _ in range(r.randint(1, 3))]])
        elif x < 0.81:
            out.append(["wchoice", [["p", r.choice([0, 1, 5])], ["q", r.choice([0.5, 2])], ["z", 0]]])
        elif x < 0.87:
            out.append(["rs", r.choice(sorted(RAND))])
        elif x < 0.9:
            out.append(["ri", r.randint(0, 3), r.randint(3, 5)])
        elif x < 0.94 and depth < 2:
            out.append(["loop", r.choice(["xs", "ab"]), pieces(r, depth + 1, nsub)])
        elif x < 0.97 and depth < 2:
            out.append(["if", pieces(r, depth + 1, nsub)])
        elif nsub:
            out.append(["nest", r.randrange(nsub)])
    return sorted(out, key=lambda p: p[0] != "set")  # Jinja's scoping of later assignments is its own affair


def req(r, nsub):
    x = r.random()
    n = r.choice([0, 1, 1, 1, 2, 3, 5])
    if x < 0.12:
        return {"g": r.randrange(2), "n": n, "syntax": r.choice(["", "{% prompt %}k{% endprompt %}", "x "]) + r.choice(SYNTAX)}
    p = pieces(r, 0, nsub)
    if x < 0.27:
        p.insert(r.randrange(len(p) + 1), ["boom", r.choice(BOOM)])
    return {"g": r.randrange(2), "n": n, "p": p, "kw": r.random() < 0.1, "default": r.random() < 0.05}


def gen(r, tier, i):
    nsub = r.randint(0, 2)
    threads = None
    if r.random() < 0.2:
        threads = {"mode": "rand", "seed": r.getrandbits(20), "p": r.choice([0.02, 0.1, 0.5])} if r.random() < 0.6 else {"mode": "pct", "seed": r.getrandbits(20), "depth": r.randint(1, 4), "steps": r.choice([50, 300, 2000])}
    return {"gens": [[r.randrange(len(CONTEXTS)), r.random() < 0.3, r.random() < 0.2] for _ in range(2)], "subs": [req(r, 0) for _ in range(nsub)],
            "reqs": [["edit", *r.choice(EDITS)] if threads is None and r.random() < 0.15 else req(r, nsub) for _ in range(r.randint(2, 8))], "rseed": r.getrandbits(20), "policy": threads}


def q(x):
    return repr(x)


def text(ps):
    out = []
    for p in ps:
        k = p[0]
        if k == "t":
            out.append(p[1])
        elif k == "ctx":
            out.append("{{ " + p[1] + " }}")
        elif k == "wc":
            out.append("{% for x in wildcard(" + q(p[1]) + ") %}<{{ x }}>{% endfor %}")
        elif k == "comb":
            out.append("{{ all_combinations(" + q(p[1]) + ")|join('/') }}")
        elif k == "perm":
            out.append("{% for x in permutations(" + q(p[1]) + f", {p[2]}" + ("" if p[3] is None else f", {p[3]}") + ") %}[{{ x|join('+') }}]{% endfor %}")
        elif k == "block":
            out.append("{% prompt %}" + text(p[1]) + "{% endprompt %}")
        elif k == "set":
            out.append("{% set " + p[1] + " = " + q(p[2]) + " %}")
        elif k == "choice":
            out.append("{{ choice(" + ", ".join(map(q, p[1])) + ") }}")
        elif k == "wchoice":
            out.append("{{ weighted_choice(" + ", ".join(f"({q(a)}, {w})" for a, w in p[1]) + ") }}")
        elif k == "rs":
            out.append("{{ random_sample(" + q(p[1]) + ") }}")
        elif k == "ri":
            out.append("{{ randint(%d, %d) }}" % (p[1], p[2]))
        elif k == "loop":
            out.append("{% for y in " + ("xs" if p[1] == "xs" else "['a', 'b']") + " %}" + text(p[2]) + "{{ y }}{% endfor %}")
        elif k == "if":
            out.append("{% if flag %}" + text(p[1]) + "{% else %}no{% endif %}")
        elif k == "nest":
            out.append("{{ cb(%d) }}" % p[1])
        elif k == "boom":
            out.append(p[1])
    return "".join(out)


class Boom(Exception):
    pass


def model(ps, env, blocks, lib):
    """Regular expression of what the pieces render to; completed blocks' expressions are appended."""
    out = []
    e = re.escape
    for p in ps:
        k = p[0]
        if k == "t":
            out.append(e(p[1]))
        elif k == "ctx":
            out.append(e(str(env.get(p[1], ""))))
        elif k == "wc":
            out.append(e("".join(f"<{x}>" for x in values(lib, p[1]))))
        elif k == "comb":
            out.append(e("/".join(combos(lib, p[1]))))
        elif k == "perm":
            hi = p[2] if p[3] is None else p[3]
            out.append(e("".join("[" + "+".join(x) + "]" for i in range(p[2], hi + 1) for x in itertools.permutations(p[1], i))))
        elif k == "block":
            b = model(p[1], env, blocks, lib)
            blocks.append(b)
            out.append(b)
        elif k == "set":
            env[p[1]] = p[2]
        elif k == "choice":
            out.append("(?:" + "|".join(map(e, p[1])) + ")")
        elif k == "wchoice":
            out.append("(?:" + "|".join(e(a) for a, w in p[1] if w) + ")")
        elif k == "rs":
            out.append(f"(?:{sample(lib, p[1])})")
        elif k == "ri":
            out.append(f"[{p[1]}-{p[2]}]")
        elif k == "loop":
            for y in env.get("xs", []) if p[1] == "xs" else ["a", "b"]:
                out.append(model(p[2], env, blocks, lib) + y)
        elif k == "if":
            out.append(model(p[1], env, blocks, lib) if env.get("flag") else "no")
        elif k == "boom":
            raise Boom
    return "".join(out)


def setup():
    import jinja2  # noqa
    import dynamicprompts.jinja_extensions  # noqa
    import dynamicprompts.generators.jinjagenerator  # noqa
    from sim.props_common import warm
    warm()


def run(s, ctx):
    from dynamicprompts.generators import JinjaGenerator
    from dynamicprompts.generators.promptgenerator import GeneratorException
    from dynamicprompts.wildcards import WildcardManager
    logging.disable(logging.CRITICAL)
    random.seed(s["rseed"])
    lib = {k: list(v) for k, v in LIB.items()}
    wm = WildcardManager(root_map={"": [lib]})
    ctxs, gens = [], []
    for i, (c, limit, squash) in enumerate(s["gens"]):
        d = dict(CONTEXTS[c], cb=lambda k: request(s["subs"][k], True) or "" if k < len(s["subs"]) else "")
        ctxs.append(d)
        gens.append(JinjaGenerator(wm, context=d, limit_prompts=limit, ignore_whitespace=squash))
    before = [dict(d) for d in ctxs]
    probs = []

    def request(rq, nested):
        g = rq["g"]
        t = rq["syntax"] if "syntax" in rq else text(rq["p"])
        if nested:
            ctx.probe("nested-request")
            ctx.nontrivial = True
        n = 1 if rq.get("default") else rq["n"]
        try:
            a = () if rq.get("default") else (n,)
            st, v = "ok", own(gens[g].generate(t, *a, **({"seeds": [1] * n, "foo": 1} if rq.get("kw") else {})))
        except Exception as e:
            st, v = "err", e
        ctx.log(t, n, st, v if st == "ok" else type(v).__name__)
        ctx.sig(t, n, st)
        what = f"template {t!r}, {n} prompts, generator {s['gens'][g]!r}"

        def check(cond, kind, detail):
            if not cond:
                probs.append((kind, f"{what}{' (nested)' if nested else ''}: {detail}"))
                ctx.fail(*probs[0])
        if probs:
            ctx.fail(*probs[0])
        if "syntax" in rq:
            ctx.fault("malformed-template")
            ctx.nontrivial = True
            check(st == "err" and isinstance(v, GeneratorException), "wrong-error", f"malformed, but gave {v!r}")
            return
        rend, blocks, boom = [], [], False
        try:
            for _ in range(n):
                rend.append(model(rq["p"], dict(CONTEXTS[s["gens"][g][0]]), blocks, lib))
        except Boom:
            boom = True
        if boom:
            ctx.fault("raises-in-mid-rendering")
            ctx.nontrivial = True
            check(st == "err", "failure-hidden", f"returned {v!r}")
            return
        check(st == "ok", "unexpected-error", f"raised {type(v).__name__ if st == 'err' else ''}: {v}")
        exp = blocks or rend
        limit, squash = s["gens"][g][1:]
        if limit:
            exp = exp[:n]
        check(isinstance(v, list) and len(v) == len(exp), "wrong-count", f"returned {len(v)} prompts {v!r}, expected {len(exp)}")
        for i, (x, y) in enumerate(zip(v, exp)):
            if squash:
                # compare without any white space, and check the squashing itself
                check(x == " ".join(x.split()), "not-squashed", f"prompt {i} is {x!r}")
                ok = re.fullmatch(re.sub(r"\\ | ", "", y), x.replace(" ", ""))
            else:
                ok = re.fullmatch(y, x)
            check(ok, "wrong-prompt", f"prompt {i} is {x!r}, expected to match {y!r}; all: {v!r}")
        ctx.probe("rendered", len(v))
        if blocks:
            ctx.probe("blocks", len(blocks))

    if s["policy"] is None:
        for rq in s["reqs"]:
            if type(rq) is list:
                lib[rq[1]] = list(rq[2])
                wm.clear_cache()
                ctx.log(rq)
                ctx.fault("library-changed-between-requests")
                continue
            request(rq, False)
    else:
        k = 2 + (len(s["reqs"]) > 5)
        parts = [s["reqs"][i::k] for i in range(k)]

        def thread(part):
            def body():
                for rq in part:
                    request(rq, False)
            return body
        sc = sch.Sched(s["policy"])
        th = sc.run([thread(p) for p in parts], [PRODUCT])
        ctx.patch_scenario = {"policy": sc.explicit_policy()}
        ctx.log("switches", sc.switches[:2000])
        ctx.sig(sc.switches[:2000])
        ctx.fault("context-switch", len(sc.switches))
        if len(sc.switches) > k:
            ctx.nontrivial = True
        ctx.check(not sc.deadlock and not sc.livelock, "no-progress", "the threads' requests did not finish")
        if probs:
            ctx.fail(*probs[0])
        for t in th:
            if t.exc is not None:
                raise t.exc if isinstance(t.exc, BaseException) else RuntimeError(t.exc)
    ctx.check([dict(d) for d in ctxs] == before, "context-changed", lambda: f"the caller's context became {ctxs!r}")


def simplify(s):
    if s["policy"]:
        yield {**s, "policy": None}
        if s["policy"]["mode"] == "explicit":
            sw = s["policy"]["switches"]
            n = max(1, len(sw) // 2)
            while n >= 1:
                for i in range(0, len(sw), n):
                    yield {**s, "policy": {"mode": "explicit", "switches": sw[:i] + sw[i + n:]}}
                n //= 2
    for i, rq in enumerate(s["reqs"]):
        if type(rq) is list:
            continue
        for j in range(len(rq.get("p", []))):
            if len(rq["p"]) > 1:
                yield {**s, "reqs": s["reqs"][:i] + [{**rq, "p": rq["p"][:j] + rq["p"][j + 1:]}] + s["reqs"][i + 1:]}
