"""C14: feeling-lucky - the right query, one bounded request, failures as one error."""
import logging
import random
import re

from sim import fakehttp

RUNS = {"quick": 7000, "thorough": 400000}
LEVEL = "fault_enumeration"
SHRINK = ["reqs"]
RULE = ("one run = 1-6 feeling-lucky requests against a simulated search service: latencies, stalls (connecting, waiting, in mid-body), refusals, resets, "
        "error statuses, redirects, truncated, malformed or empty replies; query texts with reserved, percent and non-ASCII characters; inner generators real; "
        "non-trivial: a fault fired or the query needs escaping; distinct by (query, behaviours, outcome)")
COMPONENTS = {"real": ["FeelingLuckyGenerator", "inner generators", "requests and urllib3 (URL building, redirects, decoding, errors)"],
              "stub": ["HTTP transport (requests' adapter) and the search service", "clock"]}
ASSUMPTIONS = ["a reply that keeps trickling in is outside the fault model: requests bounds each wait, not their sum"]
LIMIT = 600.0
QUERIES = ["a cat", "cats & dogs", "50% off", "a+b", "#1 portrait", "what? why?", "ünï 猫", "a=b&q=evil", "x;y", "%41%20", "a/b/../c", "a\\b", "", "   ", "tab\tnl\nx", "\"quoted\"", "{not|a}", "q", "é" * 40, "a  b", " lead", "%",
           "&", "C# & F#", "[a:b:0.5]", "(x:1.2)", "http://x/?q=1#y", "\u3000"]
TEMPLATES = [("rand", "{a & b|c=d|e?f}"), ("comb", "{x+y|z} &"), ("rand", "__nosuch__ & co"), ("comb", ""), ("rand", ""), ("comb", "{a|b}"), ("rand", "{0$$a}"), ("comb", "${v=q&r}${v}")]
OK = {"k": "ok"}


def body(r):
    n = r.choice([1, 1, 2, 5, 20])
    return fakehttp.reply([{"id": str(i), "prompt": r.choice(["p%d", "a, b %d", "ü %d", "{x|y} %d", ""]).replace("%d", str(r.randrange(1000)))} for i in range(n)])


def behaviour(r):
    x = r.random()
    if x < 0.35:
        return {"k": "ok", "body": body(r), "latency": r.choice([0.1, 0.1, 3.0]), "gzip": r.random() < 0.3}
    k = r.choice(["connect-stall", "refused", "dns", "ssl", "reset", "stall", "status", "truncated", "malformed", "empty", "shape", "redirect", "body-stall", "redirect-loop", "not-json"])
    if k == "status":
        return {"k": k, "status": r.choice([400, 403, 404, 429, 500, 502, 503, 504]), "body": r.choice(["", "<html>error</html>", body(r)])}
    if k == "truncated":
        return {"k": k, "body": body(r), "cut": r.choice([0, 0.3, 0.7, 0.95]), "gzip": r.random() < 0.4}
    if k == "malformed":
        return {"k": k, "body": r.choice(["", "{", "nul", '{"images": [', "\x00\x01", "{'images': []}", body(r)[:-3]])}
    if k == "not-json":
        return {"k": k, "body": "<html>hi</html>", "ctype": "text/html"}
    if k == "empty":
        return {"k": k, "body": r.choice(['{"images": []}', '{"images": {}}'])}
    if k == "shape":
        return {"k": k, "body": r.choice(['{}', '[]', '"x"', 'null', '17', '{"images": null}', '{"images": [{"id": 1}]}', '{"images": [1, 2]}', '{"error": "rate limit"}', '{"images": [null]}', '{"images": [[]]}'])}
    if k == "body-stall":
        return {"k": k, "body": body(r), "body_stall": True}
    if k == "redirect":
        return {"k": k, "status": r.choice([301, 302, 303, 307, 308]), "to": r.choice(["{url}", "{url}&page=2"])}
    if k == "redirect-loop":
        return {"k": "redirect", "status": 302, "to": "{url}", "loop": True}
    return {"k": k, "latency": r.choice([0.1, 2.0])}


def gen(r, tier, i):
    reqs = []
    for _ in range(r.randint(1, 6)):
        inner = None
        if r.random() < 0.3:
            inner, q = r.choice(TEMPLATES)
        elif r.random() < 0.7:
            q = r.choice(QUERIES)
        else:
            q = "".join(r.choice("ab &+%#?=;/\\\"'<>é猫\U0001f600:@[]{}|^~$,!()*.") for _ in range(r.randint(1, 12)))
        plan = [behaviour(r)]
        while plan[-1]["k"] == "redirect" and not plan[-1].get("loop") and len(plan) < 4:
            plan.append(behaviour(r))
        reqs.append({"inner": inner, "q": q, "n": r.choice([1, 1, 2, 5, 30]), "plan": plan})
    return {"reqs": reqs, "rseed": r.getrandbits(20)}


def setup():
    import requests  # noqa
    import urllib3  # noqa
    import dynamicprompts.generators.feelinglucky  # noqa
    import encodings.idna  # noqa
    from sim.props_common import warm
    warm()


def run(s, ctx):
    import json
    import dynamicprompts.generators.feelinglucky as fl
    from dynamicprompts.generators import CombinatorialPromptGenerator, FeelingLuckyGenerator, RandomPromptGenerator
    from dynamicprompts.generators.promptgenerator import GeneratorException, PromptGenerator
    logging.getLogger(fl.__name__).disabled = True
    svc = fakehttp.Service(ctx)
    svc.install()
    random.seed(s["rseed"])

    class Rec(PromptGenerator):
        def __init__(self, inner):
            self.inner = inner

        def generate(self, *a, **k):
            self.out = self.inner.generate(*a, **k)
            return list(self.out)

    gens = {None: FeelingLuckyGenerator(), "rand": None, "comb": None}
    rec = {"rand": Rec(RandomPromptGenerator(seed=3)), "comb": Rec(CombinatorialPromptGenerator())}
    for k in rec:
        gens[k] = FeelingLuckyGenerator(rec[k])
    for rq in s["reqs"]:
        plan = [dict(b) for b in rq["plan"]]
        if plan[-1].get("loop"):
            plan += [dict(plan[-1]) for _ in range(200)]
        svc.plan, svc.seen = plan, []
        t0 = svc.now
        try:
            st, v = "ok", gens[rq["inner"]].generate(rq["q"], rq["n"])
        except fakehttp.Hang as e:
            st, v = "hang", e
        except Exception as e:
            st, v = "err", e
        took = svc.now - t0
        ctx.simtime += took
        q = rq["q"]
        if rq["inner"]:
            q = rec[rq["inner"]].out[0] if rec[rq["inner"]].out else ""
        kinds = [x["k"] for x in svc.seen][:6]
        what = f"request {q!r} for {rq['n']} prompts, the service's behaviour {kinds!r}"
        ctx.log(q, rq["n"], kinds, st, v if st == "ok" else type(v).__name__, took)
        ctx.sig(q, kinds, st)
        for k in kinds:
            if k != "ok":
                ctx.fault(k)
                ctx.nontrivial = True
        if re.search(r"[^\w ]", q):
            ctx.nontrivial = True
            ctx.probe("query-needs-escaping")
        ctx.check(st != "hang", "no-time-limit", lambda: f"{what}: the caller waits for ever ({v})")
        ctx.check(took <= LIMIT, "too-slow", lambda: f"{what}: took {took} simulated seconds")
        ctx.check(svc.seen, "no-request", lambda: f"{what}: nothing was sent ({st}: {v!r})")
        first = [x for i, x in enumerate(svc.seen) if i == 0 or svc.seen[i - 1]["k"] != "redirect"]
        ctx.check(len(first) == 1, "several-requests", lambda: f"{what}: {len(first)} requests were sent")
        x = first[0]
        ctx.check(x["host"] == "lexica.art" and x["method"] == "GET" and x["scheme"] == "https", "wrong-service", lambda: f"{what}: {x['method']} {x['url']}")
        sent = [b for a, b in x["query"] if a == "q"]
        if q.strip() == "":
            ctx.check(len(sent) == 1 and re.fullmatch(r"\d+", sent[0]) and not x["fragment"], "wrong-query", lambda: f"{what}: blank, so a number should be sent, but the URL is {x['url']}")
            ctx.probe("blank-query")
        else:
            ctx.check(sent == [q] and not x["fragment"], "wrong-query", lambda: f"{what}: the service received {sent!r} (URL {x['url']})")
        last = s_last(plan_used(rq["plan"], len(svc.seen)))
        good = None
        if last["k"] == "ok":
            good = [im["prompt"] for im in json.loads(last["body"])["images"]]
        if good is None:
            ctx.check(st == "err", "failure-hidden", lambda: f"{what}: returned {v!r}")
            ctx.check(isinstance(v, GeneratorException), "wrong-error", lambda: f"{what}: raised {type(v).__name__}: {v}")
            ctx.probe("failures-reported")
        else:
            ctx.check(st == "ok", "unexpected-error", lambda: f"{what}: raised {type(v).__name__}: {v}")
            ctx.check(isinstance(v, list) and len(v) == rq["n"] and all(p in good for p in v), "wrong-prompts", lambda: f"{what}: returned {v!r}, the service sent {good!r}")
            ctx.probe("answered")


def plan_used(plan, n):
    return plan[:max(1, n)]


def s_last(p):
    return p[-1]


def simplify(s):
    for i, q in enumerate(s["reqs"]):
        if q["inner"]:
            yield {**s, "reqs": s["reqs"][:i] + [{**q, "inner": None}] + s["reqs"][i + 1:]}
        if q["n"] != 1:
            yield {**s, "reqs": s["reqs"][:i] + [{**q, "n": 1}] + s["reqs"][i + 1:]}
        for j in range(len(q["q"]) if len(q["q"]) < 20 else 0):
            if not q["inner"]:
                yield {**s, "reqs": s["reqs"][:i] + [{**q, "q": q["q"][:j] + q["q"][j + 1:]}] + s["reqs"][i + 1:]}
