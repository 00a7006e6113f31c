"""C09: wildcard references never read outside the configured roots."""
import os

from sim import simfs
from sim.props_common import *  # noqa
from sim.props_common import setup  # noqa

RUNS = {"quick": 4000, "thorough": 300000}
SHRINK = ["ops", "layout"]
RULE = ("one run = a directory layout with bait files outside the roots and in hidden directories, a history of up to 25 references (spelled, "
        "globbed, assembled from variables and variants, through lookups, handles, generation and Jinja) mixed with files appearing, vanishing and "
        "refreshes; every path opened or listed is recorded at the file-system seam; non-trivial: a hostile reference was looked up over a "
        "non-empty library; distinct by (layout, references, answers)")
COMPONENTS = {"real": ["parser", "samplers", "wildcard manager, tree and collections", "generators incl. Jinja"],
              "stub": ["file-system calls (recorded; writes outside the scratch directory refused)", "directory order"]}
ASSUMPTIONS = ["symbolic links placed inside a root by its owner are followed by design and not generated"]

IN = ["a.txt", "b.txt", "trees/a.txt", "trees/tall/oak.txt", "p.yaml", "trees/q.json", "v1.0/x.txt", "odd..name.txt", "sp ace.txt"]
HID = [".hidden/h.txt", ".git/a.txt", "trees/.svn/a.txt", ".hidden/p.yaml", "trees/.cache/deep/oak.txt", "..dots/a.txt", ".../a.txt"]
OUT = ["../secret.txt", "../a.txt", "../root2/a.txt", "../rootx/trees/a.txt", "../../secret.txt", "../p.yaml", "../trees/a.txt", "../.root/a.txt", "../b/secret.txt"]


def refs(r, rootname):
    base = r.choice(["secret", "a", "b", "trees/a", "h", "oak", "p", "k", "../secret", "root2/a", "*", "x", "k1"])
    x = r.random()
    if x < 0.2:
        return r.choice(["../" * r.randint(1, 4), "..\\" * r.randint(1, 3), "trees/../../", "trees\\..\\..\\", "./../", ".../", "....//", "..", "/..", "a/..\\../"]) + base
    if x < 0.3:
        return r.choice(["<OUT>/", "/<OUT>/", "//<OUT>//", "<ROOT>/../", "<OUT>/root2/", "<ROOT>/", "file://<OUT>/", "~/", "<OUT>/" + rootname + "/.hidden/"]) + base
    if x < 0.5:
        return r.choice([".hidden/h", ".*/*", "*/.*/*", ".hidden/*", "**/.git/*", ".git/a", "trees/.svn/a", "[.]hidden/h", "?hidden/h", "?git/?", "trees/?svn/*",
                         ".hidden/k", "..dots/a", ".../a", "trees/.cache/*/oak", "*hidden*", "**/.*/**", "[!a-z]*/*"])
    if x < 0.65:
        return r.choice(["*/../*", "**/../*", "?./*", "[.][.]/*", "*../secret", "**", "*", "**/*", "../*", "/*", "*/*/*", "[./]*", "%2e%2e/secret", "..%2fsecret", "\u2024\u2024/secret", "a\x00b", "a/./b"])
    if x < 0.75:
        return r.choice(["secret.txt", "a.txt", "../secret.txt", ".hidden/h.txt", "../p.yaml", "trees/a.txt", "root2/a.txt", rootname + "/../secret", "trees//a", "\\\\a"])
    return base


def gen(r, tier, i):
    rootname = r.choice(["root", "root", ".root", "ro ot", "root.txt"])
    layout = [p for p in IN if r.random() < 0.5] + [p for p in HID if r.random() < 0.5] + [p for p in OUT if r.random() < 0.6]
    ops = []
    for _ in range(r.randint(4, 25)):
        x = r.random()
        if x < 0.12:
            ops.append(["put", r.choice(IN + HID + OUT)])
        elif x < 0.18:
            ops.append(["del", r.choice(IN + HID + OUT)])
        elif x < 0.28:
            ops.append(["refresh"])
        else:
            ops.append(["ref", refs(r, rootname), r.choice(["values", "values", "values", "all", "match", "file", "save", "rand", "comb", "cyc", "var", "variant", "param", "jinja", "names"])])
    return {"root": rootname, "layout": layout, "ops": ops, "list_seed": r.getrandbits(16), "how": r.choice(["path", "str", "rel", "dotted", "map", "two", "slash"]), "seed": r.getrandbits(16)}


def run(s, ctx):
    import json
    import sys
    import warnings
    from pathlib import Path
    from dynamicprompts.enums import SamplingMethod
    from dynamicprompts.generators import CombinatorialPromptGenerator, JinjaGenerator, RandomPromptGenerator
    from dynamicprompts.sampling_context import SamplingContext
    from dynamicprompts.wildcards import WildcardManager
    warnings.simplefilter("ignore")
    out = ctx.scratch + "/o/m"
    root = os.path.join(out, s["root"])
    os.makedirs(root)
    roots = [root]
    if s["how"] == "two":
        roots.append(os.path.join(out, "second"))
        os.makedirs(roots[1])
        with open(roots[1] + "/extra.txt", "w") as f:
            f.write("IN-extra\n")

    def where(p):
        return "OUT" if p.startswith("../") else "HID" if p in HID else "IN"

    def put(p):
        q = os.path.normpath(os.path.join(root, p))
        if any(q == x or q.startswith(x + "/") for x in roots) and p.startswith("../"):
            return  # "../.root/a.txt" when the root is called .root
        os.makedirs(os.path.dirname(q), exist_ok=True)
        tag = f"{where(p)}-{p.replace('/', '-').replace('.', '')}"
        with open(q, "w") as f:
            if q.endswith(".txt"):
                f.write(tag + "\n")
            else:
                json.dump({"k": [tag], "k1": [tag + "1"]}, f)
        return q, tag

    baits = {}

    def do(op):
        if op[0] == "put":
            x = put(op[1])
            if x and where(op[1]) != "IN":
                with open(x[0]) as f:
                    baits[x[0]] = f.read()
        else:
            q = os.path.normpath(os.path.join(root, op[1]))
            baits.pop(q, None)
            if os.path.isfile(q):
                os.unlink(q)

    for p in s["layout"]:
        do(["put", p])
    fs = simfs.SimFS(ctx.scratch, list_seed=s["list_seed"])
    fs.deny_outside_writes = True
    os.chdir(out)
    home = os.environ.get("HOME")
    os.environ["HOME"] = out
    allowed = [os.path.realpath(x) for x in roots]
    lib = tuple(os.path.realpath(x) for x in {sys.prefix, sys.base_prefix, os.path.dirname(os.__file__), PRODUCT, "/repo"})
    with fs:
        how = s["how"]
        if how in ("map", "two"):
            wm = WildcardManager(root_map={"": [Path(x) for x in roots], "pre": [Path(root)]} if how == "map" else {"": [Path(x) for x in roots]})
        else:
            wm = WildcardManager({"path": Path(root), "str": root, "rel": Path(s["root"]), "dotted": Path(root) / ".." / s["root"], "slash": root + "/"}[how])
        rg, cg, jg = RandomPromptGenerator(wm, seed=s["seed"]), CombinatorialPromptGenerator(wm), JinjaGenerator(wm)
        cc = SamplingContext(SamplingMethod.CYCLICAL, wm)
        for op in s["ops"]:
            if op[0] in ("put", "del"):
                simfs.current = None
                do(op)
                simfs.current = fs
                ctx.fault("file-" + op[0])
                continue
            if op[0] == "refresh":
                wm.clear_cache()
                continue
            ref, kind = op[1].replace("<OUT>", out).replace("<ROOT>", root), op[2]
            mark, omark = len(fs.ops), len(fs.outside)
            tmpl_ok = not any(c in ref for c in "{}|$#\x00 \\\u2024%?[]~") and "__" not in ref
            if kind in ("rand", "comb", "cyc", "var", "variant", "param", "jinja") and not tmpl_ok:
                kind = "values"
            vals = []
            if kind == "values":
                st, v = ctx.call(lambda: list(wm.get_values(ref)))
            elif kind == "all":
                st, v = ctx.call(wm.get_all_values, "__" + ref + "__")
            elif kind == "match":
                st, v = ctx.call(lambda: [x for c in wm.match_collections(ref) for x in c.get_values()])
            elif kind == "names":
                st, v = ctx.call(wm.get_collection_names)
                if st == "ok":
                    bad = [n for n in v if any(part.startswith(".") and part not in ("..",) for part in n.split("/")[:-1]) or ".." in n.split("/")]
                    ctx.check(not bad, "hidden-listed", lambda: f"listed collections {bad}")
                    v = []
            elif kind in ("file", "save"):
                def f():
                    h = wm.get_file(ref)
                    vs = list(h.get_values())
                    if kind == "save" and hasattr(h, "write_text"):
                        t = h.read_text()
                        h.write_text(t)
                    return vs
                st, v = ctx.call(f)
            elif kind == "rand":
                st, v = ctx.call(rg.generate, f"__{ref}__", 3)
            elif kind == "comb":
                st, v = ctx.call(cg.generate, f"pre __{ref}__", 20)
            elif kind == "cyc":
                st, v = ctx.call(lambda: [str(x) for x in cc.sample_prompts(f"__{ref}__", 3)])
            elif kind == "var":
                st, v = ctx.call(rg.generate, "${w=" + ref + "}__${w}__", 3)
            elif kind == "variant":
                st, v = ctx.call(rg.generate, "__{" + ref + "|nosuch}__", 6)
            elif kind == "param":
                st, v = ctx.call(cg.generate, f"{{2$$__{ref}(z=1)__}}", 6)
            else:
                st, v = ctx.call(jg.generate, "{% for x in wildcard('" + ref + "') %}{{x}} {% endfor %}", 1)
            hostile = ref.lstrip("/\\").startswith((".", out.lstrip("/"))) or ".." in ref or os.path.isabs(ref)
            if hostile:
                ctx.fault("hostile-reference")
                if fs.ops:
                    ctx.nontrivial = True
            shown = type(v).__name__ if st == "err" else sorted(str(x).replace(ctx.scratch.lstrip("/"), "<scratch>") for x in v)
            ctx.log(op[1], kind, st, shown)
            ctx.sig(op, st, shown)
            what = f"reference {op[1]!r} ({kind})"
            for o, rel in fs.ops[mark:]:
                p = os.path.normpath(os.path.join(ctx.scratch, rel))
                rp = os.path.realpath(p)
                inside = next((a for a in allowed if rp == a or rp.startswith(a + "/")), None)
                ctx.check(inside, "escaped", lambda: f"{what} made the library {o} {rel}, outside its roots")
                parts = os.path.relpath(rp, inside).split("/")[:-1 if o not in ("scandir",) else None]
                hid = [x for x in parts if x.startswith(".") and x != "."]
                ctx.check(not hid, "hidden", lambda: f"{what} made the library {o} {rel}, in a hidden directory")
                ctx.probe("accesses-checked")
            for o, p in fs.outside[omark:]:
                if o == "stat" or p.startswith(lib):
                    continue
                ctx.fail("escaped", f"{what} made the library {o} {p}, outside its roots")
            if st == "ok":
                for x in v:
                    t = str(x)
                    if "OUT-" in t or "HID-" in t:
                        ctx.fail("leaked", f"{what} returned {t!r}")
                    if "IN-" in t:
                        ctx.probe("inside-values")
            simfs.current = None
            for p, t in baits.items():
                with open(p) as f:
                    ctx.check(f.read() == t, "overwritten", lambda: f"{what} changed {p}")
            simfs.current = fs
    if home:
        os.environ["HOME"] = home


def simplify(s):
    if s["how"] != "path":
        yield {**s, "how": "path"}
    if s["root"] != "root":
        yield {**s, "root": "root"}
