"""C11: interrupted, failed or abandoned calls leave nothing behind."""
import os
import pickle
import sys

from sim import disklib as dl, mon, simfs
from sim.props_common import *  # noqa

RUNS = {"quick": 2500, "thorough": 200000}
LEVEL = "fault_enumeration"
SHRINK = ["ops", "files", "final"]
RULE = ("one run = a library and 3-12 calls on shared objects (lookups, saves, parsing, random/combinatorial/cyclical/Jinja generation, setting "
        "changes), some cut short by KeyboardInterrupt, MemoryError or RecursionError raised at the n-th executed line of the product (n sweeps "
        "over the run index; also of pyparsing and jinja2), some failing by themselves, some abandoned half-way; every later call is compared with "
        "the same call in a process forked before anything happened; non-trivial: an interruption fired or an enumeration was abandoned; distinct "
        "by (operations, interruption places)")
COMPONENTS = {"real": ["parser (pyparsing, cold start in each run)", "samplers", "wildcard manager, tree, collections", "generators", "Jinja2"],
              "stub": ["asynchronous exceptions (raised at chosen lines)", "directory order"]}
ASSUMPTIONS = ["asynchronous exceptions arrive between Python lines"]
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RecursionError": RecursionError}
TEXTS = ["{a|b|c} __s/one__", "__s/*__ and {2$$x|y|z}", "${v={p|q}}${v} ${v} {c|d}", "%{<...>$$__s/two__}", "{2$$ and $$__s/*__}", "${w=!{x|y|z}}${w} ${w}",
         "${a={m|n}}${b=${a} ${a}}${b} {1-2$$k|l}", "__s/nest__", "{3::a|b|0.5::__s/nest__} q", "plain text", "__nosuch__ {a|b}", "{1-3$$__s/one__|r|t}", "${u:{d|e}} f",
         "{@a|b} {g|h}", "__s/one(v={1|2})__ ${v:z}"]
CYC = ["{@a|b|c} {@1|2}", "__s/*__", "__s/nest__ {@x|y}", "{@2$$i|j|k}", "${v={@p|q}}${v} {@1|2|3}"]
BAD = ["{a|b", "${nope}", "${r=${r}}${r}", "__x", "{2$$a|b}}", "${a", "%{", "{a|b} ${unknown} {c|d}", "${x=!${y}}${x}"]
JIN = ["{% for x in wildcard('__s/*__') %}{{ x }};{% endfor %}", "{% prompt %}a{% endprompt %}{% prompt %}{{ all_combinations('{b|c}')[1] }}{% endprompt %}", "{{ 1 + 1 }} plain",
       "{% for p in permutations(['a','b'], 1, 2) %}{% prompt %}{{ p|join('-') }}{% endprompt %}{% endfor %}"]
BADJ = ["{% if %}", "{{ nope.x }}", "{% prompt %}a{% endprompt %}{{ 1/0 }}", "{{ random_sample('{a|') }}", "{% prompt %}"]


def setup():
    import jinja2
    import pyparsing
    for p in prefixes():
        for c in mon.collect(p):
            mon.quiet_lines(c.co_filename)


def prefixes():
    import jinja2
    import pyparsing
    return [PRODUCT, os.path.dirname(pyparsing.__file__) + os.sep, os.path.dirname(jinja2.__file__) + os.sep]


STATIC = [{"p": "s/one.txt", "k": "txt", "d": ["s1", "s2 {i|j}", "s3"]}, {"p": "s/two.yaml", "k": "yaml", "d": {"two": [["t1", 2], ["t2", 1]]}},
          {"p": "s/nest.txt", "k": "txt", "d": ["__s/one__ n", "m {o|p}"]}]


def call_op(r):
    x = r.random()
    if x < 0.2:
        return ["comb", r.choice(TEXTS), r.choice([1, 3, 20])]
    if x < 0.4:
        n = r.choice([1, 2, 4])
        return ["rand", r.choice(TEXTS), n, [r.randrange(50) for _ in range(n)]]
    if x < 0.52:
        return ["cyc", r.choice(CYC), r.choice([2, 5])]
    if x < 0.62:
        return ["jinja", r.choice(JIN), 1]
    if x < 0.8:
        return ["look", r.choice(["*", "s/*", "s/one", "two", "s/two", "one", "nosuch"])]
    if x < 0.84:
        return ["names"]
    if x < 0.9:
        return ["hread", r.choice(["values", "text"])]
    if x < 0.95:
        return ["bad", r.choice(BAD)]
    return ["badj", r.choice(BADJ)]


def gen(r, tier, i):
    files = {}
    for _ in range(r.randint(0, 3)):
        f = dl.gen_file(r, files)
        if f:
            files[f["p"]] = f
    ops = []
    for k in range(r.randint(2, 10)):
        x = r.random()
        if x < 0.75:
            op = call_op(r)
        elif x < 0.83:
            op = ["hsave", ["n%d" % k, "m%d" % k]]
        elif x < 0.88:
            op = ["set", r.choice(["sort_wildcards", "dedup_wildcards"]), r.random() < 0.5]
        elif x < 0.92:
            op = ["refresh"]
        else:
            op = ["abandon", r.choice(["comb", "rand", "cyc"]), r.choice(TEXTS[:9] + CYC[:1]), r.randint(0, 4), r.random() < 0.5]
        intr = None
        if op[0] != "abandon" and r.random() < 0.5 or k == 0:
            deep = r.random() < 0.3
            n = (i // 2) % 500 + 1 if k == 0 and not deep else int(2 ** r.uniform(0, 14 if deep else 10.5))
            if op[0] == "hsave":
                deep, n = False, r.randint(1, 24)
                ops.append([["hread", "values"], None])
            intr = [r.choice(["KeyboardInterrupt", "MemoryError", "KeyboardInterrupt", "RecursionError"][op[0] == "hsave":]), n, deep]
            if op[0] != "hsave" and r.random() < 0.4:  # at the n-th different line instead, so rarely executed lines count as much as loops
                intr = [intr[0], int(2 ** r.uniform(0, 9.5 if deep else 8.2)), deep, "lines"]
        ops.append([op, intr])
        if intr and op[0] != "hsave" and r.random() < 0.5:
            ops.append([op, None])
    return {"files": list(files.values()), "ops": ops, "final": [call_op(r) for _ in range(3)] + [["comb", r.choice(TEXTS), 5], ["look", "*"]], "list_seed": r.getrandbits(16)}


def run(s, ctx):
    sys.unraisablehook = lambda u: None  # an interruption inside __del__ is printed and dropped
    import warnings
    from pathlib import Path
    from dynamicprompts.enums import SamplingMethod
    from dynamicprompts.generators import CombinatorialPromptGenerator, JinjaGenerator, RandomPromptGenerator
    from dynamicprompts.sampling_context import SamplingContext
    from dynamicprompts.wildcards import WildcardManager
    warnings.simplefilter("ignore")
    root = ctx.scratch + "/r"
    os.makedirs(root)
    H = {"p": "hh/t.txt", "k": "txt", "d": ["h0", "h1"]}
    for f in s["files"] + STATIC + [H]:
        dl.put(root, f)

    def objects():
        wm = WildcardManager(Path(root))
        return {"wm": wm, "rg": RandomPromptGenerator(wm, seed=5), "cg": CombinatorialPromptGenerator(wm), "jg": JinjaGenerator(wm),
                "cyc": SamplingContext(SamplingMethod.CYCLICAL, wm), "h": None}

    def do(o, op):
        k = op[0]
        if k == "comb":
            return own(o["cg"].generate(op[1], op[2]))
        if k == "rand":
            return own(o["rg"].generate(op[1], op[2], seeds=op[3]))
        if k == "cyc":
            return [str(x) for x in o["cyc"].sample_prompts(op[1], op[2])]
        if k == "jinja" or k == "badj":
            return own(o["jg"].generate(op[1], 2))
        if k == "look":
            return [(str(x), getattr(x, "weight", 1)) for x in o["wm"].get_values(op[1])]
        if k == "names":
            return sorted(o["wm"].get_collection_names())
        if k == "hread":
            if o["h"] is None:
                o["h"] = o["wm"].get_file("hh/t")
            return o["h"].read_text() if op[1] == "text" else list(o["h"].get_values())
        if k == "hsave":
            if o["h"] is None:
                o["h"] = o["wm"].get_file("hh/t")
            return o["h"].write_text("".join(x + "\n" for x in op[1]))
        if k == "set":
            return setattr(o["wm"], op[1], op[2])
        if k == "refresh":
            return o["wm"].clear_cache()
        if k == "bad":
            return o["rg"].generate(op[1], 1, seeds=[1])
        raise ValueError(k)

    def outcome(o, op):
        try:
            return ["ok", do(o, op)]
        except Exception as e:
            return ["err", type(e).__name__, str(e)]

    # the answers of an untouched process, keyed by disk and settings, computed in forked processes
    # that have done nothing else before
    rd, wr = os.pipe()
    rd2, wr2 = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            os.close(wr2)
            fin, fout = os.fdopen(rd2, "rb"), os.fdopen(wr, "wb")
            while True:
                try:
                    op, st = pickle.load(fin)
                except EOFError:
                    break
                with simfs.SimFS(root, list_seed=s["list_seed"]):
                    o = objects()
                    o["wm"].sort_wildcards, o["wm"].dedup_wildcards = st
                    pickle.dump(outcome(o, op), fout)
                fout.flush()
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    os.close(rd2)
    fin, fout = os.fdopen(rd, "rb"), os.fdopen(wr2, "wb")

    def fresh(op, wm):
        pickle.dump((op, (wm.sort_wildcards, wm.dedup_wildcards)), fout)
        fout.flush()
        return pickle.load(fin)

    fired = []

    class At:
        def __init__(self, exc, n, lines):
            self.exc, self.left = exc, n
            self.seen = set() if lines else None

        def __call__(self, code, line):
            if self.seen is not None and self.exc is not None and self.left > 1:
                if (code, line) in self.seen:
                    return
                self.seen.add((code, line))
            self.left -= 1
            if self.left <= 0 and self.exc is not None:
                never, fin = mon.quiet_lines(code.co_filename)
                if line in never or line in fin and self.exc is not MemoryError:
                    return  # at the next line instead
                exc, self.exc = self.exc, None
                fired.append(f"{code.co_qualname}:{line}")
                raise exc()

    held = []
    try:
        with simfs.SimFS(root, list_seed=s["list_seed"]):
            o = objects()
            saved = [["h0", "h1"]]  # possible contents of the saved file
            stale_ok = False

            def compare(op, when):
                got = outcome(o, op)
                exp = fresh(op, o["wm"])
                ctx.log(when, op, got)
                ctx.check(got == exp, "left-behind", lambda: f"{when}, {op!r} gave {str(got)[:700]}; a fresh process gives {str(exp)[:700]} (interrupted at {fired[-3:]!r})")
                ctx.probe("compared")

            for op, intr in s["ops"]:
                if op[0] == "abandon":
                    _, mode, t, k, close = op
                    c = SamplingContext({"comb": SamplingMethod.COMBINATORIAL, "rand": SamplingMethod.RANDOM, "cyc": SamplingMethod.CYCLICAL}[mode], o["wm"])
                    if mode == "comb":
                        c = o["cg"]._context if hasattr(o["cg"], "_context") else c
                    try:
                        it = iter(c.sample_prompts(t))
                        for _ in range(k):
                            next(it, None)
                    except NotImplementedError:
                        continue
                    if close and hasattr(it, "close"):
                        it.close()
                    held.append(it)
                    ctx.fault("abandoned")
                    ctx.nontrivial = True
                    ctx.sig(op)
                    continue
                if op[0] == "hsave":
                    saved.append(op[1])
                if intr is None:
                    if op[0] in ("hsave", "set", "refresh"):
                        ctx.must(repr(op), do, o, op)
                        if op[0] == "hsave":
                            saved = [op[1]]
                            o["wm"].clear_cache()  # other lookups of that file need a refresh
                    else:
                        compare(op, "in between")
                    continue
                kind, n, deep = intr[:3]
                cb = At(EXC[kind], n, len(intr) > 3)
                before = len(fired)
                pf = prefixes() if deep else [PRODUCT]
                mon.arm_lines(pf, cb)
                try:
                    v = do(o, op)
                    st = "returned"
                except Exception as e:
                    st = type(e).__name__
                except KeyboardInterrupt:
                    st = "KeyboardInterrupt"
                finally:
                    mon.disarm_lines(pf)
                hit = len(fired) > before
                ctx.log("interrupted", op, kind, n, hit and fired[-1], st)
                ctx.sig(op, kind, hit and fired[-1])
                if hit:
                    ctx.fault(kind)
                    ctx.probe("interrupted-" + op[0])
                    ctx.nontrivial = True
                if hit and st == "returned":
                    o["wm"].clear_cache()  # contained per-file: visible until the next refresh (see C07)
                    ctx.probe("contained")
                if op[0] == "hsave":
                    simfs.current, cur = None, simfs.current
                    with open(root + "/hh/t.txt") as f:
                        t = f.read()
                    simfs.current = cur
                    ok = ["".join(x + "\n" for x in d) for d in saved]
                    ctx.check(t in ok, "torn", lambda: f"after an interrupted save ({fired[-1:]}) the file holds {t!r}")
                    saved = [[x for x in t.split("\n") if x]]
                    if o["h"] is not None:
                        got = list(o["h"].get_values())
                        ctx.check(got == saved[0], "disagrees-with-disk", lambda: f"after an interrupted save ({fired[-1:]}) the collection reads {got!r}, the disk has {saved[0]!r}")
                    o["wm"].clear_cache()
                    names = sorted(o["wm"].get_collection_names())
                    exp = fresh(["names"], o["wm"])[1]
                    ctx.check(names == exp and not [x for x in names if x.startswith("hh/") and x != "hh/t"], "stray-wildcard", lambda: f"collections after an interrupted save: {names}")
            for op in s["final"]:
                compare(op, "afterwards")
    finally:
        fout.close()
        fin.close()
        os.waitpid(pid, 0)


def simplify(s):
    for i, (op, intr) in enumerate(s["ops"]):
        if intr:
            yield {**s, "ops": s["ops"][:i] + [[op, None]] + s["ops"][i + 1:]}
