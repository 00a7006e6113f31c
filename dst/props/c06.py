"""C06: after a refresh, wildcard lookups equal what is on disk, for any edit history."""
import itertools
import os
import random

from sim import disklib as dl, simfs
from sim.props_common import *  # noqa
from sim.props_common import setup  # noqa

RUNS = {"quick": 6000, "thorough": 400000}
SHRINK = ["ops", "files"]
RULE = ("one run = an initial library on the simulated disk and a seeded history of up to 30 edits (create, rewrite, same-size rewrite with the "
        "old timestamp, rename, delete, directory rename), setting changes, refreshes, saves and lookups, optionally with an edit landing in the "
        "middle of a lookup; non-trivial: some lookup came after an edit; distinct by (history, answers)")
COMPONENTS = {"real": ["wildcard manager", "tree builder and matcher", "text/list/structured collections", "combinatorial generator"],
              "stub": ["directory listing order", "timing of other processes' edits", "file timestamps"]}


def gen(r, tier, i):
    files = {}
    for _ in range(r.randint(0, 5)):
        f = dl.gen_file(r, files)
        if f:
            files[f["p"]] = f
    mem = {}
    if r.random() < 0.3:
        mem = {"mem/list": [r.choice(dl.WORDS) for _ in range(3)], "memlist": [r.choice(dl.WORDS)]}
    over = {}
    if r.random() < 0.15:  # names that an earlier item of the root map has too
        over = {n: [r.choice(dl.WORDS) for _ in range(r.randint(0, 2))] for n in r.sample([*mem, "one", "two", "trees/one", "k1", "only"], r.randint(1, 2))}
    cur = dict(files)
    ops = []

    def edit():
        x = r.random()
        ps = sorted(cur)
        if x < 0.3 or not ps:
            f = dl.gen_file(r, cur)
            if not f:
                return None
            if r.random() < 0.12:
                f = {"p": r.choice([".hidden/h.txt", "trees/.git/c.txt", "notes.md", "one.txt.bak", "trees/readme"]), "k": "raw", "d": "ash\n"}
            cur[f["p"]] = f
            return ["write", f, False]
        p = r.choice(ps)
        if x < 0.6:
            f = dict(cur[p])
            if f["k"] == "raw":
                return None
            same = r.random() < 0.5
            if same and f["k"] == "txt":
                f["d"] = [swap(l, r) for l in f["d"]]  # equal length
            else:
                f["d"] = dl.gen_data(r, f["k"], os.path.basename(p).split(".")[0])
            if set(dl.collections(f)) & set().union(set(), *[set(dl.collections(g)) for q, g in cur.items() if q != p]):
                return None
            cur[p] = f
            return ["write", f, same]
        if x < 0.8:
            del cur[p]
            return ["del", p]
        g = dl.gen_file(r, cur)
        if not g or cur[p]["k"] != "txt":
            return None
        q = g["p"].rpartition(".")[0] + ".txt"
        f = {**cur[p], "p": q}
        if q in cur or set(dl.collections(f)) & set().union(set(), *[set(dl.collections(h)) for h in cur.values()]):
            return None
        del cur[p]
        cur[q] = f
        return ["ren", p, q]

    nops = r.randint(5, 30)
    fav = r.choice([n for f in cur.values() for n in dl.collections(f)] or ["*"]) if r.random() < 0.7 else "*"
    for _ in range(nops):
        x = r.random()
        if x < 0.3:
            e = edit()
            if e:
                ops.append(e)
        elif x < 0.4:
            ops.append(["refresh"])
        elif x < 0.5:
            ops.append(["set", r.choice(["sort_wildcards", "dedup_wildcards", "shuffle_wildcards"]), r.random() < 0.5])
        elif x < 0.56:
            txts = [p for p in cur if cur[p]["k"] == "txt"]
            if txts:
                p = r.choice(sorted(txts))
                new = dl.gen_data(r, "txt", "x")
                cur[p] = {**cur[p], "d": new}
                ops.append(["save", p, new, r.random() < 0.5])
        elif x < 0.6:
            ops.append(["names"])
        elif x < 0.62:
            ops.append(["flood", r.randint(90, 130)])
        else:
            pat = fav if r.random() < 0.4 else r.choice(["*", "trees/*", "*/*", "one", "two", "k1", "*k*", "v1.0/*", "nosuch", "**/one", "mem/list",
                                                                   "on?", "[ot]*", "t[hw]*e", "tree?/*", "?*", "[!o]*", "*e", "*/?ne", "one*", "mem*", "K1", "ONE", "?", "**", "__one__", "__t*__", "__two", "three__"])
            if pat != fav and r.random() < 0.5 and cur:
                f = cur[r.choice(sorted(cur))]
                if dl.collections(f):
                    pat = r.choice(sorted(dl.collections(f)))
            if r.random() < 0.15:
                pat = "__" + pat + "__"
            elif r.random() < 0.1:
                pat = "/" + pat.replace("/", "\\") + "/"
            how = r.choice(["get_values", "get_values", "get_values", "get_values", "get_all_values", "match", "gen", "variant", "rand"])
            mid = None
            if r.random() < 0.12:
                e = edit()
                if e:
                    mid = [r.randint(0, 8), e]
            ops.append(["look", pat, how, mid])
    return {"files": list(files.values()), "mem": mem, "over": over, "ops": ops, "list_seed": r.getrandbits(16), "tworoots": r.random() < 0.25,
            "autorefresh": r.random() < 0.5, "pathtype": r.choice(["path", "str", "map"])}


def swap(line, r):
    w = line.strip()
    c = [x for x in dl.WORDS if len(x) == len(w)]
    return line.replace(w, r.choice(c)) if c else line


class Disk:
    """Versions of every file, in order, with the step of the last refresh."""

    def __init__(self):
        self.hist = {}  # path -> [[step, file or None], ...]

    def set(self, p, step, f):
        self.hist.setdefault(p, [[-1, None]]).append([step, f])

    def now(self, p):
        return self.hist[p][-1][1]

    def window(self, p, since):
        """Versions of p in force at some moment from step `since` on."""
        h = self.hist[p]
        k = max(i for i, (st, _) in enumerate(h) if st <= since)
        return [f for _, f in h[k:]]


def run(s, ctx):
    import warnings
    from pathlib import Path
    from dynamicprompts.generators import CombinatorialPromptGenerator, RandomPromptGenerator
    from dynamicprompts.wildcards import WildcardManager
    roots = [ctx.scratch + "/r1", ctx.scratch + "/r2"]
    for x in roots:
        os.makedirs(x)
    disk = Disk()
    step = 0

    def rootof(p):
        # with two roots the second serves files of directory "trees"
        return roots[1] if s["tworoots"] and p.startswith("trees") else roots[0]

    def apply(e, st):
        if e[0] == "write":
            f = e[1]
            p = os.path.join(rootof(f["p"]), f["p"])
            old = os.stat(p) if e[2] and os.path.exists(p) else None
            dl.put(rootof(f["p"]), f)
            if old:
                os.utime(p, ns=(old.st_atime_ns, old.st_mtime_ns))
            disk.set(f["p"], st, f)
        elif e[0] == "del":
            if e[1] in disk.hist and disk.now(e[1]):
                os.unlink(os.path.join(rootof(e[1]), e[1]))
                disk.set(e[1], st, None)
        elif e[0] == "ren":
            f = disk.hist.get(e[1]) and disk.now(e[1])
            if f:
                a, b = os.path.join(rootof(e[1]), e[1]), os.path.join(rootof(e[2]), e[2])
                os.makedirs(os.path.dirname(b), exist_ok=True)
                os.replace(a, b)
                disk.set(e[1], st, None)
                disk.set(e[2], st, {**f, "p": e[2]})

    for f in s["files"]:
        apply(["write", f, False], -1)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fs = simfs.SimFS(ctx.scratch, list_seed=s["list_seed"])
        with fs:
            if s["mem"] or s["over"] or s["tworoots"] or s["pathtype"] == "map":
                items = [Path(roots[0])] + ([s["mem"]] if s["mem"] else []) + ([Path(roots[1])] if s["tworoots"] else []) + ([s["over"]] if s["over"] else [])
                wm = WildcardManager(root_map={"": items})
            else:
                wm = WildcardManager(Path(roots[0]) if s["pathtype"] == "path" else roots[0])
            cg = CombinatorialPromptGenerator(wm)
            rg = RandomPromptGenerator(wm)
            r_tpl = ["__PAT__", "{__PAT__}"]
            cfg = {"sort_wildcards": True, "dedup_wildcards": True, "shuffle_wildcards": False}
            since = 0
            edited = False
            step = 0
            handles = {}

            def versions(upto_since):
                """Candidate collection maps: every choice of one version per file inside the window."""
                ps = sorted(disk.hist)
                cands = []
                for p in ps:
                    vs = []
                    for f in disk.window(p, upto_since):
                        if f not in vs:
                            vs.append(f)
                    cands.append(vs)
                total = 1
                for c in cands:
                    total *= len(c)
                return cands, total

            for op in s["ops"]:
                step += 1
                k = op[0]
                if k in ("write", "del", "ren"):
                    cur, simfs.current = simfs.current, None
                    apply(op, step)
                    simfs.current = cur
                    edited = True
                    ctx.fault("edit-" + k)
                    continue
                if k == "refresh":
                    wm.clear_cache()
                    since = step - 0.5
                    continue
                if k == "set":
                    setattr(wm, op[1], op[2])
                    cfg[op[1]] = op[2]
                    got = {x: getattr(wm, x) for x in cfg}
                    ctx.check(got == cfg, "wrong-setting", lambda: f"the settings read {got}, they were set to {cfg}")
                    if op[1] != "shuffle_wildcards":
                        since = since  # a setting change need not re-read the disk
                    continue
                if s["autorefresh"] and k in ("look", "names"):
                    wm.clear_cache()
                    since = step - 0.5
                if k == "save":
                    p = op[1]
                    name = p[:-4]
                    if not (p in disk.hist and disk.now(p)):
                        continue
                    if name not in handles or not op[3]:
                        st, v = ctx.call(wm.get_file, name)
                        if st == "err":
                            continue  # listed before the file existed
                        if not hasattr(v, "write_text"):
                            continue  # the listing still has a structured file, or a list, of that name
                        handles[name] = v
                    h = handles[name]
                    text = "".join(x + "\n" for x in op[2])
                    ctx.must(f"write_text({name!r})", h.write_text, text)
                    disk.set(p, step, {**disk.now(p), "d": op[2]})
                    edited = True
                    ctx.fault("save")
                    got = ctx.must("read back", h.get_values)
                    exp = [x for x, _ in dl.collections(disk.now(p))[name]]
                    ctx.check(list(got) == exp, "save-not-visible", lambda: f"after saving {name!r} its values are {list(got)!r}, expected {exp!r}")
                    got = ctx.must("read_text", h.read_text)
                    ctx.check(got == text, "save-not-visible", lambda: f"after saving {name!r} its text is {got!r}, expected {text!r}")
                    continue
                if k == "flood":
                    for q in range(op[1]):
                        ctx.call(wm.get_values, f"nosuch{q}")
                    ctx.probe("cache-flood")
                    continue
                cands, total = versions(since)
                if k == "names":
                    got = ctx.must("get_collection_names", wm.get_collection_names)
                    if total > 300:
                        continue
                    ok = False
                    for choice in itertools.product(*cands):
                        exp = set(s["mem"]) | set(s["over"]) | {n for f in choice if f for n in dl.collections(f)}
                        if exp == set(got):
                            ok = True
                            break
                    ctx.log("names", sorted(got))
                    ctx.check(ok, "wrong-names", lambda: f"listed {sorted(got)}, on disk {sorted(set(s['mem']) | {n for p in disk.hist if disk.now(p) for n in dl.collections(disk.now(p))})} (refreshed: {since == step - 0.5})")
                    continue
                # lookups
                pat, how, mid = op[1], op[2], op[3]
                if mid:
                    start = fs.n

                    def before(n, o, path):
                        if n - start == mid[0]:
                            fs.before_op = None
                            simfs.current = None
                            apply(mid[1], step)
                            simfs.current = fs
                            ctx.fault("edit-during-lookup")
                    fs.before_op = before
                if how == "get_values":
                    st, v = ctx.call(wm.get_values, pat)
                elif how == "get_all_values":
                    st, v = ctx.call(wm.get_all_values, pat)
                    if st == "ok":  # the list is the caller's own, to do with it as it likes
                        v = own(v)
                elif how == "match":
                    st, v = ctx.call(lambda: [x for c in wm.match_collections(pat) for x in c.get_values()])
                else:
                    if any(c in pat for c in "_ \\Ü") or pat.startswith("/"):
                        pat = "one"
                    if how == "gen":
                        st, v = ctx.call(lambda: cg.generate(f"__{pat}__", 500))
                    elif how == "variant":
                        st, v = ctx.call(lambda: cg.generate("{__" + pat + "__}", 500))
                    else:
                        st, v = ctx.call(lambda: rg.generate(r_tpl[step % 2].replace("PAT", pat), 4, seeds=[step, step + 1, 2, 3]))
                fs.before_op = None
                if mid:
                    cands, total = versions(since)
                    edited = True
                ctx.log("look", pat, how, st, str(v) if st == "err" else [str(x) for x in v], cfg)
                ctx.sig(pat, how, st, [str(x) for x in v] if st == "ok" else type(v).__name__)
                if edited:
                    ctx.nontrivial = True
                if st == "err":
                    # only a file listed earlier and gone now may make a lookup fail
                    gone = [c for c in cands if None in c and len(c) > 1]
                    ctx.check(isinstance(v, OSError) and gone, "lookup-failed", lambda: f"{how}({pat!r}) raised {type(v).__name__}: {v} (refreshed: {since == step - 0.5})")
                    ctx.probe("stale-listing-error")
                    continue
                if total > 300:
                    ctx.probe("window-too-wide")
                    continue
                ok = False
                shown = None
                for choice in itertools.product(*cands):
                    colls = {n: [(x, 1) for x in vs] for n, vs in s["mem"].items()}
                    for f in choice:
                        if f:
                            colls.update(dl.collections(f))
                    colls.update({n: [(x, 1) for x in vs] for n, vs in s["over"].items()})
                    for exp in answers(colls, pat, how, cfg):
                        if compare(exp, v, how, cfg):
                            ok = True
                            break
                        shown = exp
                    if ok:
                        break
                ctx.check(ok, "wrong-values", lambda: f"{how}({pat!r}) returned {dl.normal(v, False)!r}, expected {shown!r} with {cfg} "
                          f"(refreshed: {since == step - 0.5}; {total} possible disk states since the last refresh)")
                ctx.probe("refreshed-lookup" if since == step - 0.5 else "stale-allowed-lookup")


def answers(colls, pat, how, cfg):
    direct, rec = dl.matching(sorted(colls), pat)
    blocks = [colls[n] for n in direct]
    if how != "match" and not any(blocks) and not pat.startswith("**"):
        blocks = [colls[n] for n in rec]
    if how == "match":
        yield from dl.expected(blocks, False, False)
        return
    sort = cfg["sort_wildcards"] and not cfg["shuffle_wildcards"]
    if how in ("gen", "variant", "rand"):
        if not any(blocks):
            yield [("__" + pat + "__", 1)]
            return
        for e in dl.expected(blocks, sort, cfg["dedup_wildcards"]):
            e = type(e)([(t, 1) for t, w in e for _ in range(int(w) if how != "rand" else 1)])
            yield e if how == "gen" else type(e)(dict.fromkeys(e))
        return
    yield from dl.expected(blocks, sort, cfg["dedup_wildcards"])


def compare(exp, got, how, cfg):
    g = dl.normal(got, how != "match" and cfg["sort_wildcards"] and not cfg["shuffle_wildcards"])
    if isinstance(exp, dl.Multi):
        exp, g = sorted(exp), sorted(g)
    if how == "rand":
        return {t for t, _ in g} <= {t for t, _ in exp}
    if how in ("gen", "variant", "get_all_values"):
        exp = [(t, 1) for t, _ in exp]
        g = [(t, 1) for t, _ in g]
    if cfg["shuffle_wildcards"] and how != "match":
        return sorted(exp) == sorted(g)
    return exp == g


def simplify(s):
    for k in ("mem", "over"):
        if s[k]:
            yield {**s, k: {}}
    for k in ("tworoots", "autorefresh"):
        if s[k]:
            yield {**s, k: False}
    for i, op in enumerate(s["ops"]):
        if op[0] == "look" and op[3]:
            yield {**s, "ops": s["ops"][:i] + [op[:3] + [None]] + s["ops"][i + 1:]}
