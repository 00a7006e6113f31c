"""C07: read faults are contained: right values or an error, never partial; and recovery."""
import itertools
import os

from sim import disklib as dl, simfs
from sim.props_common import *  # noqa
from sim.props_common import setup  # noqa

RUNS = {"quick": 8000, "thorough": 500000}
LEVEL = "fault_enumeration"
SHRINK = ["phases", "files", "phases.*.looks", "phases.*.faults"]
RULE = ("one run = a library on the simulated disk, two to four phases of lookups, each with zero to three faults at chosen file-system call "
        "indices (the index cycles over all calls from run to run) or with damaged structured files, then a fault-free recovery phase; "
        "non-trivial: a fault fired; distinct by (files, fired faults, answers)")
COMPONENTS = {"real": ["wildcard manager", "tree builder", "text/structured collections", "json and PyYAML", "combinatorial generator", "Python's buffered and text I/O"],
              "stub": ["raw file reads, opens and directory scans (fault-injecting, over a scratch directory)"]}
KINDS = ["EIO", "EACCES", "EMFILE", "ENOENT", "ESTALE", "ENOMEM", "EPERM", "short", "EINTR", "vanish"]
BAD = {"json": [b'{"k": ["a", ', b'\xff\xfe\x00{"k": ["a"]}', b'{"k": ["ok", "b\xe9"]}', b"not json at all [", b'["a", "b'],
       "yaml": [b"k: [a, b\nx: {", b"\xff\xfek: [a]\n", b"k:\n\t- a\n", b"k: ['unclosed\n", b"- a\n- \xe9\n"]}


def gen(r, tier, i):
    files = {}
    for _ in range(r.randint(1, 6)):
        f = dl.gen_file(r, files)
        if f:
            files[f["p"]] = f
    for f in files.values():
        if f["k"] == "txt" and r.random() < 0.2:  # several read calls
            f["d"] = [f"{r.choice(dl.WORDS)} {'o' * 60} {q}" for q in range(r.choice([150, 300]))]
            break
    names = sorted(n for f in files.values() for n in dl.collections(f))
    pats = names + ["*", "trees/*", "*/*", "one", "nosuch", "k1"]
    phases = []
    for ph in range(r.randint(2, 4)):
        faults = []
        for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
            k = i // 4 % 24 if ph == 0 and not faults else r.randrange(30)
            if r.random() < 0.25:
                k = ["read", r.randrange(4)]
            faults.append([k, r.choice(KINDS)])
        damage = []
        st = [p for p in files if files[p]["k"] != "txt"]
        if st and r.random() < 0.3:
            p = r.choice(sorted(st))
            x = r.random()
            damage.append([p, r.randrange(5)] if x < 0.3 else [p, -1, r.random(), r.randrange(4)] if x < 0.7 else [p, -2, r.randrange(3), r.random(), r.randrange(len(NOWEIGHT))])
        looks = [[r.choice(pats), r.choice(["get_values", "get_values", "names", "gen"])] for _ in range(r.randint(1, 5))]
        phases.append({"refresh": r.random() < 0.7, "faults": faults, "damage": damage, "looks": looks})
    return {"files": list(files.values()), "phases": phases, "final": [r.choice(pats) for _ in range(3)] + ["*"], "list_seed": r.getrandbits(16),
            "persist": r.random() < 0.15}


NOWEIGHT = ["heavy", "2,5", [1], {}, None, "1::2"]


def hurt_item(f, key, where, weight):
    """A list with an item whose weight isn't a number, among the others."""
    d = {k: [list(v) for v in vals] for k, vals in f["d"].items()}
    vals = d[key]
    vals.insert(int((len(vals) + 1) * where), [None, 1, {"text": "hurt", "weight": weight}])
    return dl.encode({**f, "d": d})


def spoil(data, ext, where, how):
    """The file's real contents, made malformed somewhere."""
    import json
    import yaml
    k = int(len(data) * where)
    nl = data.rfind(b"\n", 0, k) + 1
    for d in {0: [data[:k]], 1: [data + b"\n- 'x\n"], 2: [data[:nl] + b"\t@ : [\n" + data[nl:]], 3: [data[:k] + b"\xff\xfe" + data[k:]]}[how]:
        try:
            t = d.decode()
            json.loads(t) if ext == "json" else yaml.safe_load(t)
        except (ValueError, yaml.YAMLError):
            return d
    return BAD[ext][how]


def run(s, ctx):
    from pathlib import Path
    from dynamicprompts.generators import CombinatorialPromptGenerator
    from dynamicprompts.wildcards import WildcardManager
    root = ctx.scratch + "/r"
    os.makedirs(root)
    files = {f["p"]: f for f in s["files"]}
    for f in files.values():
        dl.put(root, f)
    wm = WildcardManager(Path(root))
    cg = CombinatorialPromptGenerator(wm)
    affected, damaged, gone = set(), set(), set()  # since the last refresh; now
    mended = set()
    hurt = {}  # files with a malformed item in one list: without that list, or without that item
    dropped = set()  # damaged or gone at the last refresh and ever since: must not contribute
    fs = simfs.SimFS(root, list_seed=s["list_seed"], on_fault=lambda k, op, rel: ctx.fault(f"{k}-on-{op}"))

    def colls(drop):
        out = {}
        for p, f in files.items():
            if p not in drop:
                c = dl.collections(f)
                for k in hurt.get(p, ()):
                    if (p, k) in drop:
                        c = {n: v for n, v in c.items() if n != k and not n.endswith("/" + k)}
                out.update(c)
        return out

    def hit(rel):
        """Files affected by a fault at rel (a file or a directory)."""
        if rel in files:
            return {rel}
        if rel == ".":
            return set(files)
        return {p for p in files if p.startswith(rel + "/")}

    def look(pat, how, strict):
        nonlocal affected, dropped
        before = len(fs.fired)
        if how == "names":
            st, v = ctx.call(wm.get_collection_names)
        elif how == "gen" and not any(c in pat for c in " Ü"):
            st, v = ctx.call(cg.generate, f"__{pat}__", 900)
        else:
            how = "get_values"
            st, v = ctx.call(wm.get_values, pat)
        fired = fs.fired[before:]
        for kind, op, rel in fired:
            if kind in ("short", "EINTR"):
                continue
            affected |= hit(rel)
            if kind == "vanish" and rel in files:
                gone.add(rel)
                ctx.nontrivial = True
        if fired:
            ctx.nontrivial = True
        ctx.log(how, pat, st, str(v) if st == "err" else sorted(map(str, v)), fired)
        ctx.sig(how, pat, st, fired)
        where = f"{how}({pat!r}) after faults {fs.fired!r}"
        soft = affected | damaged | gone | set(hurt)
        if st == "err":
            ctx.check(not strict, "not-recovered", lambda: f"{where}: still raises {type(v).__name__}: {v} after the faults stopped and a refresh")
            real = [f for f in fired if f[0] not in ("short", "EINTR")]
            ctx.check(isinstance(v, (OSError, MemoryError)), "wrong-error", lambda: f"{where}: raised {type(v).__name__}: {v}")
            ctx.check(real or gone, "spurious-error", lambda: f"{where}: raised {type(v).__name__}: {v} though no fault fired in this call")
            if how != "names":
                aff = {n for p in affected | gone for n in dl.collections(files[p])}
                d, rec = dl.matching(sorted(aff), pat)
                ctx.check(d or rec, "not-contained", lambda: f"{where}: raised {type(v).__name__}: {v}, though no affected file matches")
            ctx.probe("raised")
            return
        must_drop = damaged | gone if strict else dropped
        opt = sorted(p for p in soft if dl.collections(files[p]) and p not in must_drop and (not strict or p in hurt))
        opt += [(p, k) for p in sorted(hurt) if p in opt for k in sorted(hurt[p])]
        for k in range(len(opt) + 1):
            for drop in itertools.combinations(opt, k):
                c = colls(set(drop) | must_drop)
                if how == "names":
                    if set(c) == set(v):
                        return
                    continue
                d, rec = dl.matching(sorted(c), pat)
                blocks = [c[n] for n in d]
                if not any(blocks) and not pat.startswith("**"):
                    blocks = [c[n] for n in rec]
                got = dl.normal(v, True)
                if how == "gen" and not any(blocks):
                    if list(v) == [f"__{pat}__"]:
                        return
                    continue
                for e in dl.expected(blocks, True, True):
                    if how == "gen":
                        e = [(t, 1) for t, w in e for _ in range(int(w))]
                    if e == got:
                        if k:
                            ctx.probe("left-out-whole-file")
                        return
        ctx.fail("wrong-values" if not strict else "not-recovered", f"{where}: returned {sorted(map(str, v))!r}; affected files {sorted(soft)!r}; on disk "
                 f"{ {n: [t for t, _ in x] for n, x in colls(damaged | gone).items()} !r}")

    with fs:
        for ph in s["phases"]:
            simfs.current = None
            for p, k, *how in ph["damage"]:
                if p in files and p not in gone:
                    ext = "json" if p.endswith("json") else "yaml"
                    if k == -2:
                        keys = [x for x, v in files[p]["d"].items() if v and v[0][2:] != ["single"]] if files[p]["k"] in ("json", "yaml") else []
                        if keys and p not in damaged:
                            key = keys[how[0] % len(keys)]
                            dl.put(root, files[p], hurt_item(files[p], key, how[1], NOWEIGHT[how[2]]))
                            mended.discard(p)
                            hurt.setdefault(p, set()).add(key)
                            ctx.fault("malformed-item-" + ext)
                            ctx.nontrivial = True
                        continue
                    dl.put(root, files[p], BAD[ext][k] if k >= 0 else spoil(dl.encode(files[p]), ext, *how))
                    damaged.add(p)
                    affected.add(p)
                    ctx.fault("damaged-" + ext)
                    ctx.nontrivial = True
            simfs.current = fs
            if ph["refresh"]:
                wm.clear_cache()
                affected = set(damaged)
                for p in mended:
                    hurt.pop(p, None)
                mended.clear()
                dropped = damaged | gone
            fs.plan = [{**({"n": fs.n + k} if isinstance(k, int) else {"op": k[0], "k": k[1]}), "kind": kind, **({"always": True} if s["persist"] and kind != "EINTR" else {})} for k, kind in ph["faults"]]
            for pat, how in ph["looks"]:
                look(pat, how, False)
            fs.plan = []
            # repaired files are picked up by the next refresh
            if (damaged or hurt) and len(ph["looks"]) % 2:
                simfs.current = None
                for p in sorted(damaged):
                    if p not in gone:
                        dl.put(root, files[p])
                        affected.add(p)
                for p in sorted(hurt):
                    if p not in gone:
                        dl.put(root, files[p])
                        affected.add(p)
                        mended.add(p)
                damaged = {p for p in damaged if p in gone}
                dropped = dropped & (damaged | gone)
                simfs.current = fs
        fs.plan = []
        wm.clear_cache()
        affected = set()
        for p in mended:
            hurt.pop(p, None)
        for pat in s["final"]:
            look(pat, "get_values", True)
        look("*", "names", True)


def simplify(s):
    for i, ph in enumerate(s["phases"]):
        if ph["damage"]:
            yield {**s, "phases": s["phases"][:i] + [{**ph, "damage": []}] + s["phases"][i + 1:]}
    if len(s["final"]) > 1:
        for x in s["final"]:
            yield {**s, "final": [x]}
