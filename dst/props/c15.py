"""C15: attention - emphasis only, within bounds, aligned with the inner prompts."""
import logging
import itertools
import random
import re
import warnings

from sim import fakespacy

RUNS = {"quick": 16000, "thorough": 700000}
SHRINK = ["reqs"]
RULE = ("one run = two attention generators with different bounds, 1-8 requests of 0-6 inner prompts, the language model absent, ready or to be downloaded, "
        "with failures at import, load, download or parsing, random streams fair or pinned at their extremes; non-trivial: something was emphasised or a "
        "failure fired; distinct by (prompts, finder, emphasised phrases, failures)")
COMPONENTS = {"real": ["AttentionGenerator", "built-in phrase finder", "inner generators"], "stub": ["spaCy (loading, download, noun phrases)", "the random source's extremes"]}
ASSUMPTIONS = ["the language model's phrases are parts of the text"]
WORDS = ["cat", "category", "a purple cat", "1234", "42", "best quality", "oil", "x", "cat", "ünï", "猫", "$[a]", "a|b", "**", "3d render", "- -", "<lora:x>", "\\1", "sky", "cat oil", "new\nline", "--", "Cat", "A Big CAT", "Ünï", "C++ [x]", "ÉTÉ", "STRASSE", "straße", "e.g. this"]
PUNCT = [", ", ", ", ". ", "; ", " (", "), ", ": ", "! ", "?", ",,", " , ", "...", "\n"]
BOUNDS = [None, (0.1, 0.9), (0.9, 0.1), (1.0, 1.5), (0.5, 0.5), (1.333, 1.337), (0.004, 0.996), (0, 2), (1.5, 0), (0.25, 0.75), (1, 1)]
EXC = {"OSError": OSError("broken"), "RuntimeError": RuntimeError("bad model"), "SystemExit": SystemExit(1), "KeyboardInterrupt": KeyboardInterrupt(), "ValueError": ValueError("incompatible"), "MemoryError": MemoryError(),
       "ImportError": ImportError("libcudart missing")}


def setup():
    import dynamicprompts.generators.attentiongenerator  # noqa
    from sim.props_common import warm
    warm()


def prompt(r):
    x = r.random()
    if x < 0.08:
        return r.choice(["", "   ", ",", "12, 34", "(x:1.2)", "(cat:0.5), cat", "!!", "a" * 50])
    return "".join(r.choice(WORDS) + r.choice(PUNCT) for _ in range(r.randint(1, 5))) + r.choice(["", "", "end"])


def gen(r, tier, i):
    pool = [prompt(r) for _ in range(r.randint(1, 14))]
    reqs = []
    for _ in range(r.randint(1, 8)):
        f = None
        if r.random() < 0.3:
            f = [r.choice(["import", "load", "download", "parse", "parse", "load"]), r.choice(sorted(EXC))]
        reqs.append({"g": r.randrange(2), "prompts": [r.choice(pool) for _ in range(r.choice([0, 1, 1, 2, 3, 6]))], "fault": f, "comb": r.random() < 0.1})
    return {"mode": r.choice(["absent", "absent", "ready", "download"]), "bounds": [r.choice(BOUNDS), r.choice(BOUNDS)], "reqs": reqs, "rseed": r.getrandbits(20),
            "stream": r.choice(["fair", "fair", "fair", "zero", "one", "alt"]), "empty": r.random() < 0.2}


def cheap(t):
    out = []
    for c in re.split(r"[,;:.?!()]", t):
        c = c.strip()
        if c and not c.isdigit() and not all(33 <= ord(x) < 127 and not x.isalnum() for x in c):
            out.append(c)
    return out


def model_chunks(text, empty):
    """What the stub language model finds: runs of words, chosen by the text alone."""
    ws = [(m.start(), m.end()) for m in re.finditer(r"\w+", text)]
    rng = random.Random(text)
    out, i = [], 0
    if empty and rng.random() < 0.5:
        return []
    while i < len(ws):
        j = min(len(ws) - 1, i + rng.randrange(3))
        if rng.random() < 0.7:
            out.append(text[ws[i][0]:ws[j][1]])
        i = j + 1
    return out


def run(s, ctx):
    warnings.simplefilter("ignore")
    sp = fakespacy.Spacy(s["mode"])
    sp.chunks = lambda t: model_chunks(t, s["empty"])
    import dynamicprompts.generators.attentiongenerator as ag
    from dynamicprompts.generators import CombinatorialPromptGenerator
    from dynamicprompts.generators.attentiongenerator import AttentionGenerator
    from dynamicprompts.generators.promptgenerator import PromptGenerator
    logging.getLogger(ag.__name__).disabled = True
    random.seed(s["rseed"])
    top = 1 - 2 ** -53
    if s["stream"] != "fair":
        seq = itertools.cycle({"zero": [0.0], "one": [top], "alt": [0.0, top]}[s["stream"]])
        random._inst.random = lambda: next(seq)
        random.random = random._inst.random
        ctx.fault("extreme-random-stream")

    class Inner(PromptGenerator):
        def generate(self, *a, **k):
            self.args = a, k
            return list(self.prompts) if self.other is None else self.other.generate(*a, **k)
        other = None
    inner = [Inner(), Inner()]
    gens = [AttentionGenerator(inner[i], *(s["bounds"][i] or ())) for i in (0, 1)]
    bounds = [sorted(b or (0.1, 0.9)) for b in s["bounds"]]
    finder = [None]  # unknown until something fixed it
    for rq in s["reqs"]:
        g = rq["g"]
        prompts = inner[g].prompts = rq["prompts"]
        args = ("tpl", 3)
        if rq["comb"]:
            inner[g].other, args = CombinatorialPromptGenerator(), ("{cat|dog}, sitting, __x__",)
            prompts = ["cat, sitting, __x__", "dog, sitting, __x__"]
        sp.faults, sp.fired = [], []
        if rq["fault"]:
            sp.faults = [[rq["fault"][0], EXC[rq["fault"][1]]]]
        try:
            st, v = "ok", gens[g].generate(*args)
        except Exception as e:
            st, v = "err", e
        except (KeyboardInterrupt, SystemExit) as e:
            st, v = "err", e
        finally:
            inner[g].other = None
        what = f"attention for {prompts!r} with bounds {bounds[g]!r} (language model {s['mode']}, failures {sp.fired!r})"
        ctx.log(prompts, st, v if st == "ok" else type(v).__name__, sp.fired)
        ctx.sig(prompts, st, sp.fired)
        for f in sp.fired:
            ctx.fault(f"{f}-failure")
            ctx.nontrivial = True
        if st == "err":
            ctx.check(sp.fired, "unexpected-error", lambda: f"{what}: raised {type(v).__name__}: {v}")
            ctx.probe("failed-call")
            continue
        ctx.check(isinstance(v, list) and len(v) == len(prompts), "wrong-count", lambda: f"{what}: returned {v!r}")
        for p, q in zip(prompts, v):
            opts = {"cheap": cheap(p)}
            if s["mode"] != "absent":
                opts["spacy"] = model_chunks(p, s["empty"])
            fits = [k for k, c in opts.items() if emphasised(p, q, c, bounds[g])]
            ctx.check(fits, "not-an-emphasis", lambda: f"{what}: {p!r} became {q!r}; phrases {opts!r}")
            if s["mode"] == "absent" or not any(r["fault"] for r in s["reqs"]):
                want = "cheap" if s["mode"] == "absent" else "spacy"
                ctx.check(want in fits, "wrong-finder", lambda: f"{what}: {p!r} became {q!r}, which is not from the phrases {opts[want]!r}")
            if p != q:
                ctx.nontrivial = True
                ctx.probe("emphasised")
            ctx.sig(q)


def emphasised(p, q, chunks, b):
    if not chunks:
        return p == q
    lo, hi = round(b[0], 2), round(b[1], 2)
    for c in set(chunks):
        occ = [m for m in re.finditer(r"\((" + re.escape(c) + r"):(-?\d+(?:\.\d{1,2})?)\)", q)]
        for w in {m.group(2) for m in occ}:
            if not lo <= float(w) <= hi:
                continue
            e = f"({c}:{w})"
            # undo at a non-empty set of places
            parts = q.split(e)
            n = len(parts) - 1
            for keep in itertools.product((c, e), repeat=n) if n <= 10 else [(c,) * n]:
                if all(k == e for k in keep):
                    continue
                if parts[0] + "".join(k + x for k, x in zip(keep, parts[1:])) == p:
                    return True
    return False


def simplify(s):
    for i, q in enumerate(s["reqs"]):
        for k, d in (("fault", None), ("comb", False)):
            if q[k]:
                yield {**s, "reqs": s["reqs"][:i] + [{**q, k: d}] + s["reqs"][i + 1:]}
        for j in range(len(q["prompts"])):
            yield {**s, "reqs": s["reqs"][:i] + [{**q, "prompts": q["prompts"][:j] + q["prompts"][j + 1:]}] + s["reqs"][i + 1:]}
    if s["stream"] != "fair":
        yield {**s, "stream": "fair"}
