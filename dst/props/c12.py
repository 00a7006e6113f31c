"""C12: magic prompts - aligned, within the retry budget, blocked text is retried."""
import logging
import random
import re

from sim import fakehf

RUNS = {"quick": 12000, "thorough": 600000}
SHRINK = ["reqs"]
RULE = ("one run = two magic-prompt generators sharing the model, 1-6 requests of 0-7 inner prompts with block lists and attempt limits, the model's replies "
        "drawn from the seed (blocked or clean, with or without the prompt as prefix, noisy), model failures at chosen calls, and requests made while another "
        "one waits for the model; non-trivial: a reply was blocked or a failure fired; distinct by (prompts, calls, blocked positions, failures)")
COMPONENTS = {"real": ["MagicPromptGenerator", "clean_up_magic_prompt", "inner generators"], "stub": ["transformers (scripted text-generation pipeline)"]}
ASSUMPTIONS = ["the pipeline returns one reply per prompt, in order, or raises"]
BLOCK = ["plow", r"ertGa|grug", r"\bbad\d?\b", "PLOW|bad", None, ""]
WORDS = ["castle", "by artgerm", "plow", "Grug", "bad", "bad7", "ertgarm", "trending", "8k", "plowing", "abad", "oil, paint", "cat - dog", "sharp!", "( soft )", "a _ b", "mist;", "very, , nice", "{old}", "BAD"]
PROMPTS = ["a cat", "a dog, sitting", "bad weather", "x", "a cat", "plow field", "sky (blue:1.2)", "forest -", "ünï", "a", "a cat on a mat", "wow!", "the end."]
SAME = ["bad plow", "grug bad plow castle", "a castle", "castle"]
EXC = [RuntimeError("CUDA error"), MemoryError(), KeyboardInterrupt(), ValueError("too long"), OSError("gone")]


def setup():
    import dynamicprompts.generators.magicprompt  # noqa
    from sim.props_common import warm
    warm()


def gen(r, tier, i):
    reqs = []
    for _ in range(r.randint(1, 6)):
        reqs.append({"g": r.randrange(2), "prompts": [r.choice(PROMPTS) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 7]))], "m": r.choice([None, 0, 1, 2, 3, 6]),
                     "real": r.choice(["comb", "dummy"]) if r.random() < 0.2 else None, "seed": r.getrandbits(24), "p": r.choice([0.05, 0.3, 0.6, 1.0]),
                     "fault": [r.randrange(4), r.randrange(len(EXC))] if r.random() < 0.2 else None,
                     "nest": [r.randrange(3), r.randrange(2), [r.choice(PROMPTS) for _ in range(r.randint(1, 3))], r.getrandbits(24)] if r.random() < 0.2 else None,
                     "twice": r.random() < 0.1, "same": r.random() < 0.25})
    return {"block": [r.choice(BLOCK), r.choice(BLOCK)], "reqs": reqs, "batch": [r.choice([1, 2, 8]), 1]}


def run(s, ctx):
    hub = fakehf.Hub()
    hub.install()
    from dynamicprompts.generators import CombinatorialPromptGenerator, DummyGenerator, magicprompt
    from dynamicprompts.generators.magicprompt import MagicPromptGenerator, clean_up_magic_prompt
    from dynamicprompts.generators.promptgenerator import PromptGenerator
    logging.getLogger(magicprompt.__name__).disabled = True

    class Inner(PromptGenerator):
        real = None
        prompts = []

        def generate(self, *a, **k):
            self.args = (a, k)
            if self.real:
                return self.real.generate(*a, **k)
            return list(self.prompts)

    inner = [Inner(), Inner()]
    regex = [re.compile(b, re.I) if b else None for b in s["block"]]
    gens = [MagicPromptGenerator(inner[i], blocklist_regex=s["block"][i], batch_size=s["batch"][i], seed=i) for i in (0, 1)]
    stack = []
    count = [0]

    def on_use(pipe, prompts, kw):
        q = stack[-1]
        ctx.check(isinstance(prompts, list) and all(isinstance(p, str) for p in prompts), "bad-call", lambda: f"the model was given {prompts!r}")
        k = len(q["calls"])
        rng = random.Random(q["seed"] * 1000 + k)
        q["calls"].append(list(prompts))
        if q["nest"] and q["nest"][0] == k:
            _, g, ps, seed = q["nest"]
            q["nest"] = None
            ctx.probe("nested-request")
            request(g, ps, 1, seed, 0.5, None, None, None)
        if q["fault"] and q["fault"][0] == k:
            q["fired"] = EXC[q["fault"][1]]
            ctx.fault("model-" + type(q["fired"]).__name__)
            ctx.nontrivial = True
            raise q["fired"]
        out = []
        for p in prompts:
            count[0] += 1
            body = [w for w in (rng.choice(WORDS) for _ in range(rng.randint(0, 4)))]
            if rng.random() > q["p"]:
                body = [w for w in body if not (q["regex"] and q["regex"].search(w))]
            body.insert(rng.randint(0, len(body)), f"tok{count[0]}x")
            t = " ".join(body)
            # blocked or not must not depend on the clean-up's joining of words
            if q["regex"] and bool(q["regex"].search(clean(t))) != any(q["regex"].search(w) for w in re.findall(r"\w+", t)):
                t = f"tok{count[0]}x"
            t = rng.choice([p + " ", p + ", ", p]) + t if rng.random() < 0.7 else t
            bare = rng.random() < 0.12 and not (q["regex"] and q["regex"].search(p))
            if bare:  # nothing (but noise) added to the prompt
                t = p + rng.choice(["", "", " ", ",", " ...", "\n", "!", " -"])
            if q["same"]:  # equal replies to different prompts
                t = rng.choice(SAME)
            q["replies"].append((k, p, t, "" if q["same"] or bare else f"tok{count[0]}x"))
            out.append([{"generated_text": t}])
        return out

    hub.on_use = on_use

    def clean(t):
        return clean_up_magic_prompt("\0", t)

    def request(gi, prompts, m, seed, p, fault, nest, real, same=False):
        g, rx = gens[gi], regex[gi]
        old = inner[gi].real, inner[gi].prompts
        inner[gi].real = {"comb": CombinatorialPromptGenerator, "dummy": DummyGenerator, None: lambda: None}[real]()
        inner[gi].prompts = list(prompts)
        args = ("{a|plow|c} {x|y}", 4) if real == "comb" else ("just text", 3) if real == "dummy" else ("tpl", 5)
        if real:
            prompts = list(inner[gi].real.generate(*args))
        q = {"calls": [], "replies": [], "seed": seed, "p": p, "fault": fault, "fired": None, "nest": nest, "regex": rx, "same": same}
        stack.append(q)
        kw = {} if m is None else {"max_attempts": m}
        try:
            st, v = "ok", g.generate(*args, seeds=None, **kw) if real == "dummy" else g.generate(*args, **kw)
        except Exception as e:
            st, v = "err", e
        except KeyboardInterrupt as e:
            st, v = "err", e
        finally:
            stack.pop()
            inner[gi].real, inner[gi].prompts = old
        m = 20 if m is None else m
        what = f"request for {prompts!r}, block list {s['block'][gi]!r}, {m} attempts, model calls {q['calls']!r}, replies {[x[2] for x in q['replies']]!r}"
        ctx.log(gi, prompts, m, st, v if st == "ok" else type(v).__name__, q["calls"])
        if type(v).__name__ == "Violation":
            raise v
        ctx.check((st == "err") == (q["fired"] is not None), "failure-hidden" if st == "ok" else "unexpected-error", lambda: f"{what}: {st} {v!r}")
        if st == "err":
            ctx.check(v is q["fired"] or isinstance(v, Exception), "wrong-error", lambda: f"{what}: raised {v!r}")
        ctx.check(len(q["calls"]) <= 1 + m, "too-many-attempts", lambda: f"{what}: {len(q['calls'])} model calls")
        cur = [None] * len(prompts)
        want = list(range(len(prompts)))
        pos = 0
        for k, c in enumerate(q["calls"]):
            exp = [prompts[i] for i in want]
            ctx.check(c == exp, "wrong-retry", lambda: f"{what}: model call {k} should have been for {exp!r}")
            rep = q["replies"][pos:pos + len(want)]
            if k == len(q["calls"]) - 1 and st == "err":
                break
            pos += len(want)
            for i, x in zip(want, rep):
                cur[i] = x
            want = [i for i in want if rx and (rx.search(clean(cur[i][2])) if not cur[i][2].startswith(prompts[i]) else rx.search(prompts[i] + " " + clean(cur[i][2][len(prompts[i]):])))]
            if want:
                ctx.nontrivial = True
                ctx.probe("blocked", len(want))
            ctx.sig(k, want)
        ctx.sig(prompts, len(q["calls"]), st)
        if st == "err":
            return None
        ctx.check(isinstance(v, list) and len(v) == len(prompts), "wrong-count", lambda: f"{what}: returned {v!r}")
        if prompts:
            ctx.check(len(q["calls"]) >= 1, "no-call", lambda: f"{what}: the model was not asked")
        ctx.check(not want or len(q["calls"]) == 1 + m, "gave-up-early", lambda: f"{what}: results {[v[i] for i in want]!r} match the block list but only {len(q['calls'])} calls were made")
        if want:
            ctx.probe("attempts-ran-out")
        for i, x in enumerate(cur):
            exp = clean_up_magic_prompt(prompts[i], x[2])
            if x[2].startswith(prompts[i]):
                ctx.check(v[i].startswith(prompts[i]), "prompt-lost", lambda: f"{what}: result {i} is {v[i]!r}, not grown from {prompts[i]!r}")
            it = iter(v[i])  # nothing but punctuation and blanks may go
            ctx.check(all(w in it for w in x[2] if w.isalnum()), "words-lost", lambda: f"{what}: result {i} is {v[i]!r}, its last reply was {x[2]!r}")
            ctx.check(v[i] == exp and x[3] in v[i], "misaligned", lambda: f"{what}: result {i} is {v[i]!r}, its last reply was {x[2]!r}")
        return v

    for rq in s["reqs"]:
        for _ in range(2 if rq["twice"] else 1):
            request(rq["g"], rq["prompts"], rq["m"], rq["seed"], rq["p"], rq["fault"], rq["nest"], rq["real"], rq["same"])


def simplify(s):
    for i, q in enumerate(s["reqs"]):
        for k in ("fault", "nest", "real"):
            if q[k]:
                yield {**s, "reqs": s["reqs"][:i] + [{**q, k: None}] + s["reqs"][i + 1:]}
        if q["twice"]:
            yield {**s, "reqs": s["reqs"][:i] + [{**q, "twice": False}] + s["reqs"][i + 1:]}
        for j in range(len(q["prompts"])):
            yield {**s, "reqs": s["reqs"][:i] + [{**q, "prompts": q["prompts"][:j] + q["prompts"][j + 1:]}] + s["reqs"][i + 1:]}
