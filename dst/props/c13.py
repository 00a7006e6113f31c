"""C13: magic prompt model loading survives failures and switches."""
import logging

from sim import fakehf
from sim.props_common import PRODUCT  # noqa

RUNS = {"quick": 12000, "thorough": 500000}
LEVEL = "fault_enumeration"
SHRINK = ["ops"]
RULE = ("one run = 3-14 constructions, model switches and uses of magic-prompt generators over four model names, each construction or switch with an "
        "optional failure (six exception types) at one of six stages (import, tokenizer, weights, configuration, pipeline, seeding); non-trivial: a failure fired; "
        "distinct by (operations, failures)")
COMPONENTS = {"real": ["MagicPromptGenerator"], "stub": ["transformers (loads, pipelines, failures)"]}
ASSUMPTIONS = ["the model library either returns a usable object or raises"]
EXC = {"OSError": OSError("no such model"), "RuntimeError": RuntimeError("CUDA out of memory"), "ValueError": ValueError("bad config"), "ImportError": ImportError("no module named torch"),
       "MemoryError": MemoryError(), "KeyboardInterrupt": KeyboardInterrupt()}
MODELS = ["m/one", "m/two", "m/three", "other/one", "one", "M/One", "m/one-large", None]


def setup():
    import dynamicprompts.generators.magicprompt  # noqa


def gen(r, tier, i):
    ops, n = [], 0
    MODELS = r.sample(globals()["MODELS"][:-1], 3) + [None]
    for k in range(r.randint(3, 14)):
        x = r.random()
        fault = None
        if r.random() < 0.5:
            fault = [r.choice(fakehf.Hub.STAGES), r.choice(sorted(EXC))]
        if x < 0.4 or n == 0:
            ops.append(["new", r.choice(MODELS), r.choice([None, None, "cpu", 1]), r.choice([None, None, 0, 7]), fault])
            n += 1
        elif x < 0.7:
            ops.append(["switch", r.randrange(n), r.choice(MODELS[:-1]), fault])
        elif x < 0.95:
            ops.append(["use", r.randrange(n)])
        else:
            ops.append(["fresh-import"])
    return {"ops": ops}


def run(s, ctx):
    hub = fakehf.Hub()
    hub.install()
    from dynamicprompts.generators import magicprompt
    from dynamicprompts.generators.magicprompt import DEFAULT_MODEL_NAME, MagicPromptGenerator
    logging.getLogger(magicprompt.__name__).disabled = True
    used = []

    def on_use(pipe, prompts, kw):
        used.append(pipe.model_name)
        return [[{"generated_text": f"{p} by {pipe.model_name}"}] for p in prompts]
    hub.on_use = on_use
    gens = []       # [generator or None, model it was last successfully asked for]
    resident = None  # the model of the last successful load, while nothing failed since

    def attempt(f, fault):
        hub.fired.clear()
        hub.fail_at.clear()
        if fault:
            hub.fail_at[fault[0]] = EXC[fault[1]]
        try:
            return "ok", f()
        except Exception as e:
            return "err", e
        except KeyboardInterrupt as e:
            return "err", e
        finally:
            hub.fail_at.clear()

    def use(k, why):
        g, want = gens[k]
        if g is None:
            return
        used.clear()
        st, v = attempt(lambda: g.generate("a cat"), None)
        ctx.log("use", k, want, st, v if st == "ok" else type(v).__name__, list(used))
        ctx.check(st == "ok", "unusable", lambda: f"{why}: generator {k}, asked for {want!r}, raises {type(v).__name__}: {v}")
        ctx.check(used == [want], "wrong-model", lambda: f"{why}: generator {k} was asked for {want!r} but used {used!r}")
        name = attempt(lambda: g.model_name, None)
        ctx.check(name == ("ok", want), "wrong-name", lambda: f"{why}: generator {k} uses {want!r} but reports {name!r}")
        ctx.probe("used")

    for n, op in enumerate(s["ops"]):
        what = f"after step {n} {op!r} of {s['ops'][:n]!r}"
        ctx.sig(op)
        if op[0] == "use":
            if op[1] < len(gens):
                use(op[1], what)
            continue
        if op[0] == "fresh-import":
            hub.forget_import()
            continue
        before = len(hub.loads)
        if op[0] == "new":
            _, m, dev, seed, fault = op
            want = m or DEFAULT_MODEL_NAME
            kw = {} if m is None else {"model_name": m}
            st, v = attempt(lambda: MagicPromptGenerator(device=dev, seed=seed, **kw), fault)
            gens.append([v if st == "ok" else None, want])
        else:
            _, k, want, fault = op
            if k >= len(gens) or gens[k][0] is None:
                continue
            st, v = attempt(lambda: gens[k][0].set_model(want), fault)
            if st == "ok":
                gens[k][1] = want
        fired = list(hub.fired)
        loaded = hub.loads[before:]
        ctx.log(op, st, type(v).__name__ if st == "err" else None, fired, loaded)
        for f in fired:
            ctx.fault("failure-at-" + f)
            ctx.nontrivial = True
        ctx.check(bool(fired) == (st == "err"), "failure-hidden" if st == "ok" else "spurious-error",
                  lambda: f"{what}: injected failures {fired!r}, the call {'returned' if st == 'ok' else f'raised {type(v).__name__}: {v}'}")
        if fired and fired != ["seed"]:
            resident = None
        else:
            if resident == want:
                ctx.check(not loaded, "loaded-again", lambda: f"{what}: {want!r} was loaded already but loaded again ({loaded!r})")
                ctx.probe("reused")
            resident = want
        for k in range(len(gens)):
            use(k, what)


def simplify(s):
    for i, op in enumerate(s["ops"]):
        if op[0] in ("new", "switch") and op[-1]:
            yield {**s, "ops": s["ops"][:i] + [op[:-1] + [None]] + s["ops"][i + 1:]}
