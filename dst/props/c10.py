"""C10: a library and generators may be shared between threads."""
import itertools
import os

from sim import disklib as dl, sched as sch, simfs
from sim.props_common import *  # noqa

RUNS = {"quick": 3000, "thorough": 250000}
SHRINK = ["threads.*", "files"]
RULE = ("one run = a library on the simulated disk and 2-4 threads of 1-6 operations each (lookups, refreshes, setting changes, edits by other "
        "programs, saves and reads through shared collections, parsing from a cold start, random/combinatorial/Jinja generation), executed under "
        "one seeded schedule with switches at lines or bytecodes of the product (and of pyparsing in cold-parser runs), at file-system calls and "
        "locks; non-trivial: at least one preemption inside an operation; distinct by (operations, switch trace)")
COMPONENTS = {"real": ["wildcard manager, tree, collections", "parser (pyparsing)", "samplers", "random/combinatorial/Jinja generators", "Python threads"],
              "stub": ["thread scheduling (one thread at a time)", "locks (scheduler-aware)", "file-system timing", "other programs' edits"]}
ASSUMPTIONS = ["switches happen between Python lines or bytecodes; C functions are atomic, as under the GIL"]


def setup():
    import jinja2
    import os as _os
    import pyparsing
    from sim import mon
    for p in (PRODUCT, _os.path.dirname(pyparsing.__file__) + _os.sep):
        mon.collect(p)
    # nothing of the product is warmed up: each run starts with a cold parser
    jinja2.Environment().from_string("{% for x in y %}{{ x }}{% endfor %}").render(y=[1])


GEN = [("comb", "{a|b} __s/one__"), ("comb", "__s/*__ and {2$$x|y|z}"), ("comb", "${v={p|q}}${v} ${v} {c|d}"), ("comb", "%{<...>$$__s/two__}"),
       ("comb", "{@r|s|t} {k|l|m}"), ("cyc", "{@a|b} {@1|2|3}"), ("cyc", "__s/*__ x"), ("rand", "{a|3::b|c} __s/one__"), ("rand", "{2$$__s/*__} ${w=!{x|y|z}}${w} ${w}"),
       ("jinja", "{% for x in wildcard('__s/*__') %}{{ x }};{% endfor %}"), ("jinja", "{% for i in range(3) %}{% prompt %}p{{ i }} {{ all_combinations('{a|b}')[1] }}{% endprompt %}{% endfor %}"),
       ("rand", "__s/one__ __s/two__"), ("rand", "__s/one__"), ("rand", "__s/*__ {a|b}"), ("comb", "{2$$__s/*__}"), ("parse", "{2$$a|b|{c|__d__}}"), ("parse", "${a=!{b|c}} x __y(z=1)__ ${a:q}"), ("parse", "%{ww ... w$$in {0.5::n|m}}"), ("parse", "{1-2$$ and $$a|3::b} # comment\n c")]


def gen(r, tier, i):
    kind = r.choice(["lib", "lib", "lib", "settings", "handle", "handle", "gen", "gen", "cold"])
    files = {}
    for _ in range(r.randint(1, 4)):
        f = dl.gen_file(r, files)
        if f:
            files[f["p"]] = f
    h = {"p": "hh/t.txt", "k": "txt", "d": ["v0a", "v0b"]}
    names = sorted(n for f in files.values() for n in dl.collections(f))
    pats = names + ["*", "*/*", "one"]
    threads = []
    nset = 0
    vn = 0
    same = r.random() < 0.5
    gs = r.sample([g for g in GEN if g[0] != "jinja" or kind == "gen"], 2)
    for t in range(r.choice([2, 2, 3, 4]) if kind != "cold" else r.choice([2, 3])):
        ops = []
        for _ in range(r.randint(1, 5) if kind not in ("gen", "cold") else r.randint(1, 2)):
            x = r.random()
            if kind in ("gen", "cold"):
                g = r.choice(gs if same else GEN)
                if kind == "cold" and g[0] == "jinja":
                    g = GEN[0]
                ops.append(["gen", *g, r.choice([1, 3, 5]), "alt" if g[1] in ALT else "default", r.randrange(100)])
                if kind == "gen" and x < 0.3:
                    ops.append(["refresh"])
                elif kind == "gen" and x < 0.4:
                    ops.append(["look", r.choice(pats), "values"])
                continue
            if kind == "handle" and x < 0.7:
                vn += 1
                y = r.random()
                ops.append(["hsave", [f"v{vn}x", f"v{vn}y"] * r.choice([1, 1, 200])] if y < 0.4 else ["hread", r.choice(["values", "values", "text"])])
                continue
            if kind == "settings" and x < 0.4 and nset < 5:
                nset += 1
                ops.append(["set", r.choice(["sort_wildcards", "dedup_wildcards", "shuffle_wildcards"]), r.random() < 0.5])
            elif x < 0.2:
                ops.append(["refresh"])
            elif x < 0.35:
                p = r.choice(sorted(files))
                f = dict(files[p])
                f["d"] = dl.gen_data(r, f["k"], os.path.basename(p).split(".")[0])
                if not set(dl.collections(f)) & set().union(set(), *[set(dl.collections(g)) for q, g in files.items() if q != p]):
                    ops.append(["edit", f])
            elif x < 0.4:
                ops.append(["names"])
            elif x < 0.44:
                ops.append(["flood", r.choice([60, 120])])
            elif x < 0.5:
                ops.append(["gen", "comb", "{a|b} __s/one__", 3, "default", 0])
            else:
                ops.append(["look", r.choice(pats) if r.random() < 0.7 else pats[0], r.choice(["values", "values", "match", "all"])])
        threads.append(ops)
    if r.random() < 0.5:
        pol = {"mode": "rand", "seed": r.getrandbits(32), "p": r.choice([0.005, 0.02, 0.1, 0.3])}
    else:
        pol = {"mode": "pct", "seed": r.getrandbits(32), "depth": r.choice([1, 2, 3, 5]), "steps": r.choice([100, 300, 1000, 4000])}
    if kind == "cold":
        pol["p"] = r.choice([0.002, 0.01, 0.05])
        pol["steps"] = r.choice([4000, 20000, 60000])
    return {"kind": kind, "files": list(files.values()) + [h], "threads": threads, "policy": pol, "opcodes": r.random() < 0.35 and kind != "cold", "list_seed": r.getrandbits(16),
            "warm": r.random() < 0.5, "seed": r.getrandbits(16), "prefill": r.choice([0, 0, 0, 98, 99, 100, 100, 101])}


ALT = ["<<2$$a|b|<<c|%%d%%>>>> x", "a <<1-2$$ and $$x|3::y>> %%z(q=1)%%"]
GEN += [("parse", t) for t in ALT]
STATIC = [{"p": "s/one.txt", "k": "txt", "d": ["s1", "s2 {i|j}", "s3"]}, {"p": "s/two.yaml", "k": "yaml", "d": {"two": [["t1", 2], ["t2", 1]]}}]


class Reg:
    """Writes of one register with real-time intervals; which values a read over [i, o] may return."""

    def __init__(self, init):
        self.w = [[-2, -1, init]]

    def begin(self, t, v):
        rec = [t, float("inf"), v]
        self.w.append(rec)
        return rec

    def possible(self, i, o):
        """Values in force at some moment of [i, o]."""
        out = []
        for a in self.w:
            if a[0] > o:
                continue
            # superseded for the whole interval: another write began after a ended and ended before i
            if any(b[0] > a[1] and b[1] < i for b in self.w):
                continue
            if a[2] not in out:
                out.append(a[2])
        return out


def run(s, ctx):
    import warnings
    from pathlib import Path
    import pyparsing
    from dynamicprompts.enums import SamplingMethod
    from dynamicprompts.generators import CombinatorialPromptGenerator, JinjaGenerator, RandomPromptGenerator
    from dynamicprompts.parser.config import ParserConfig
    from dynamicprompts.parser.parse import parse
    from dynamicprompts.sampling_context import SamplingContext
    from dynamicprompts.wildcards import WildcardManager
    warnings.simplefilter("ignore")
    root = ctx.scratch + "/r"
    os.makedirs(root)
    for f in s["files"] + STATIC:
        dl.put(root, f)
    alt = ParserConfig(variant_start="<<", variant_end=">>", wildcard_wrap="%%")
    fs = simfs.SimFS(root, list_seed=s["list_seed"])
    clock = itertools.count()
    regs = {f["p"]: Reg(f) for f in s["files"]}
    sets = []  # [begin, end, name, value]
    refreshes = []
    H = "hh/t.txt"
    hist = []
    wm = WildcardManager(Path(root))
    cg, jg = CombinatorialPromptGenerator(wm), JinjaGenerator(wm)
    cyc = SamplingContext(SamplingMethod.CYCLICAL, wm)
    with fs:
        handle = wm.get_file("hh/t")
        if s["warm"]:
            wm.get_values("*")
            handle.get_values()
        for q in range(s.get("prefill", 0)):  # the cache of answers is (nearly) full
            wm.get_values(f"before{q}")
    fs.n, fs.ops = 0, []

    def produce(op, cg, jg, cyc, wm):
        _, kind, t, n, cfg, seed = op
        if kind == "comb":
            return cg.generate(t, n)
        if kind == "cyc":
            return [str(x) for x in cyc.sample_prompts(t, n)]
        if kind == "rand":
            return RandomPromptGenerator(wm, seed=seed).generate(t, n)
        if kind == "jinja":
            return jg.generate(t, 1)
        return repr(parse(t, parser_config=alt) if cfg == "alt" else parse(t))

    def thread(tid):
        def body():
            for k, op in enumerate(s["threads"][tid]):
                a = next(clock)
                rec = {"op": op, "a": a, "tid": tid}
                try:
                    o = op[0]
                    if o == "look":
                        if op[2] == "match":
                            rec["v"] = [x for c in wm.match_collections(op[1]) for x in c.get_values()]
                        elif op[2] == "all":
                            rec["v"] = list(wm.get_all_values(op[1]))
                        else:
                            rec["v"] = list(wm.get_values(op[1]))
                    elif o == "names":
                        rec["v"] = wm.get_collection_names()
                    elif o == "refresh":
                        wm.clear_cache()
                        refreshes.append([a, next(clock)])
                    elif o == "set":
                        w = [a, float("inf"), op[1], op[2]]
                        sets.append(w)
                        setattr(wm, op[1], op[2])
                        w[1] = next(clock)
                    elif o == "edit":
                        w = regs[op[1]["p"]].begin(a, op[1])
                        cur, simfs.current = simfs.current, None
                        dl.put(root, op[1])
                        simfs.current = cur
                        w[1] = next(clock)
                    elif o == "hsave":
                        w = regs[H].begin(a, {"p": H, "k": "txt", "d": op[1]})
                        handle.write_text("".join(x + "\n" for x in op[1]))
                        w[1] = next(clock)
                    elif o == "hread":
                        rec["v"] = handle.read_text() if op[1] == "text" else list(handle.get_values())
                    elif o == "flood":
                        for q in range(op[1]):
                            wm.get_values(f"nosuch{q}")
                    else:
                        rec["v"] = produce(op, cg, jg, cyc, wm)
                except Exception as e:
                    import traceback
                    rec["e"] = e
                    rec["tb"] = "".join(traceback.format_tb(e.__traceback__)[-2:])
                rec["o"] = next(clock)
                hist.append(rec)
        return body

    sc = sch.Sched(s["policy"], step_cap=6_000_000)
    fs.sched = sc
    prefixes = [PRODUCT]
    if s["kind"] == "cold":
        prefixes.append(os.path.dirname(pyparsing.__file__) + os.sep)
    with fs:
        th = sc.run([thread(t) for t in range(len(s["threads"]))], prefixes, opcodes=s["opcodes"])
    fs.sched = None
    ctx.patch_scenario = {"policy": sc.explicit_policy()}
    ctx.log("switches", sc.switches[:3000])
    ctx.sig(s["kind"], s["threads"], sc.switches[:2000])
    ctx.probe("preemptions", max(0, len(sc.switches) - len(th)))
    ctx.probe("kind-" + s["kind"])
    ctx.fault("context-switch", len(sc.switches))
    if len(sc.switches) > len(th):
        ctx.nontrivial = True
    ctx.check(not sc.deadlock, "deadlock", f"threads {s['threads']!r} deadlocked")
    ctx.check(not sc.livelock, "livelock", f"threads {s['threads']!r} did not finish within {sc.cap} steps")
    for t in th:
        if t.exc is not None:
            ctx.fail("thread-died", f"{type(t.exc).__name__}: {t.exc}")
    hist.sort(key=lambda r: r["a"])
    for rec in hist:
        ctx.log(rec["op"], rec["tid"], rec["a"], rec["o"], repr(rec.get("e")), sorted(map(str, rec["v"])) if isinstance(rec.get("v"), (list, set)) else rec.get("v"))
        ctx.check("e" not in rec, "failed-concurrently", lambda: f"{rec['op']!r} raised {type(rec['e']).__name__}: {rec['e']} while other threads ran\n{rec['tb']}")

    def setting_states(i, o):
        """All (sort, dedup, shuffle) in force at some moment of [i, o], over all orders of concurrent changes."""
        before = [w for w in sets if w[1] < i]
        maybe = [w for w in sets if w[1] >= i and w[0] <= o]
        out = set()
        for k in range(len(maybe) + 1):
            for sub in itertools.combinations(maybe, k):
                rest = [w for w in maybe if w not in sub]
                if any(x[1] < y[0] for x in rest for y in sub):
                    continue  # real-time order broken
                chosen = before + list(sub)
                if len(chosen) > 6:
                    chosen = sorted(chosen, key=lambda w: w[0])
                    orders = [chosen]
                    out.add(None)
                    continue
                for order in itertools.permutations(chosen):
                    if any(order[y][1] < order[x][0] for x in range(len(order)) for y in range(x + 1, len(order))):
                        continue
                    st = {"sort_wildcards": True, "dedup_wildcards": True, "shuffle_wildcards": False}
                    for w in order:
                        st[w[2]] = w[3]
                    out.add(tuple(st.values()))
        return out

    def since(i):
        done = [r for r in refreshes if r[1] < i]
        return max((r[0] for r in done), default=-1)

    def judge_lookup(pat, how, v, i, o, label):
        lo = since(i)
        cands = [regs[p].possible(lo, o) for p in sorted(regs)]
        total = 1
        for c in cands:
            total *= len(c)
        states = setting_states(i, o)
        if total > 400 or None in states:
            ctx.probe("window-too-wide")
            return
        for choice in itertools.product(*cands):
            colls = {}
            for f in list(choice) + STATIC:
                colls.update(dl.collections(f))
            if how == "names":
                if set(v) == set(colls):
                    return
                continue
            direct, rec = dl.matching(sorted(colls), pat)
            blocks = [colls[n] for n in direct]
            if how != "match" and not any(blocks) and not pat.startswith("**"):
                blocks = [colls[n] for n in rec]
            for sort, dedup, shuf in states if how != "match" else [(False, False, False)]:
                if how != "match" and shuf:
                    for e in dl.expected(blocks, True, dedup):
                        if how == "all":
                            e = [(t, 1) for t, _ in e]
                        if sorted(e) == sorted(dl.normal(v, False)):
                            return
                    continue
                for e in dl.expected(blocks, sort, dedup):
                    g = dl.normal(v, sort and how != "match")
                    if how == "all":
                        e = type(e)([(t, 1) for t, _ in e])
                    if isinstance(e, dl.Multi):
                        e, g = sorted(e), sorted(g)
                    if e == g:
                        return
        ctx.fail("not-linearizable", f"{label} {how}({pat!r}) returned {sorted(v) if how == 'names' else dl.normal(v, False)!r}, which no moment between the last completed refresh "
                 f"and its return explains (possible contents: {[[f['d'] for f in c] for c in cands]!r}; possible settings (sort, dedup, shuffle): {sorted(states)!r})")

    end = 10 ** 9
    fresh = None
    for rec in hist:
        op = rec["op"]
        if op[0] == "look":
            judge_lookup(op[1], op[2], rec["v"], rec["a"], rec["o"], "concurrent")
        elif op[0] == "names":
            judge_lookup("*", "names", rec["v"], rec["a"], rec["o"], "concurrent")
        elif op[0] == "hread":
            ok = [f["d"] for f in regs[H].possible(rec["a"], rec["o"])]
            exp = ok if op[1] == "values" else ["".join(x + "\n" for x in d) for d in ok]
            ctx.check(rec["v"] in exp, "stale-read", lambda: f"reading the shared collection ({op[1]}) gave {str(rec['v'])[:120]!r}; possible: {[str(x)[:60] for x in exp]!r}")
        elif op[0] == "gen":
            if fresh is None:
                wm2 = WildcardManager(Path(root))
                fresh = (CombinatorialPromptGenerator(wm2), JinjaGenerator(wm2), SamplingContext(SamplingMethod.CYCLICAL, wm2), wm2)
            wm2 = fresh[3]
            solo = ctx.must(f"alone: {op!r}", produce, op, *fresh)
            if op[1] in ("comb", "cyc", "rand", "jinja") and any(w for w in sets):
                continue  # settings legitimately change library-dependent output
            ctx.check(rec["v"] == solo, "differs-from-solo", lambda: f"{op!r} gave {rec['v']!r} concurrently, alone it gives {solo!r}")
            ctx.probe("solo-compared")
    # afterwards
    with fs:
        a = end
        v = ctx.must("final lookup", wm.get_values, "*")
        judge_lookup("*", "values", list(v), a, a + 1, "final, unrefreshed")
        st = (wm.sort_wildcards, wm.dedup_wildcards, wm.shuffle_wildcards)
        ok = setting_states(a, a + 1)
        ctx.check(None in ok or st in ok, "setting-lost", lambda: f"settings are {st} after {[(w[2], w[3]) for w in sets]}, possible: {ok}")
        wm.clear_cache()
        refreshes.append([a + 2, a + 3])
        v = ctx.must("final lookup", wm.get_values, "*")
        judge_lookup("*", "values", list(v), a + 4, a + 5, "final, refreshed")
        poss = [f["d"] for f in regs[H].possible(a, a + 1)]
        t = ctx.must("read_text", handle.read_text)
        ctx.check(t in ["".join(x + "\n" for x in d) for d in poss], "lost-save", lambda: f"the saved file holds {t[:100]!r}; possible: {[str(x)[:60] for x in poss]!r}")
        g = list(ctx.must("get_values", handle.get_values))
        ctx.check(g == [x for x in t.split("\n") if x], "disagrees-with-disk", lambda: f"the shared collection reads {g[:6]!r}, its file holds {t[:100]!r}")
        left = sorted(x for x in os.listdir(root + "/hh"))
        ctx.check(left == ["t.txt"], "left-over", lambda: f"files left next to the saved one: {left}")


def simplify(s):
    if s["policy"]["mode"] == "explicit":
        sw = s["policy"]["switches"]
        n = max(1, len(sw) // 2)
        while n >= 1:
            for i in range(0, len(sw), n):
                yield {**s, "policy": {"mode": "explicit", "switches": sw[:i] + sw[i + n:]}}
            if n == 1:
                break
            n //= 2
    if s["warm"]:
        yield {**s, "warm": False}
    ts = [t for t in s["threads"] if t]
    if len(ts) < len(s["threads"]):
        yield {**s, "threads": ts}
