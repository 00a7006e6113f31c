"""C08: saving a wildcard file is all-or-nothing, whatever fails and wherever it crashes."""
import os
import random

from sim import disklib as dl, simfs
from sim.props_common import *  # noqa
from sim.props_common import setup  # noqa

RUNS = {"quick": 8000, "thorough": 500000}
LEVEL = "fault_enumeration"
SHRINK = ["saves", "others"]
RULE = ("one run = a library on the simulated disk and one to four saves, each with at most one fault: an error, short write, process crash or power "
        "loss before or after a chosen file-system call (indices cycle over all calls from run to run), or text that cannot be encoded; besides, "
        "the target is inspected before every file-system call of every save (every process-crash point); non-trivial: a fault fired; distinct by "
        "(contents, fault, outcome)")
COMPONENTS = {"real": ["WildcardTextFile", "wildcard manager", "Python's text and buffered I/O"],
              "stub": ["raw writes, opens, renames and syncs (fault-injecting, over a scratch directory)", "power-loss model of the page cache and directory journal"]}
ASSUMPTIONS = ["after power loss, synced data and an ordered prefix of directory operations survive; unsynced writes survive in any combination"]
KINDS = ["ENOSPC", "EIO", "EDQUOT", "EROFS", "EMFILE", "EACCES", "short", "crash", "crash-after", "power", "power-after", "ENOSPC", "crash", "power"]


def text(r):
    x = r.random()
    if x < 0.1:
        return ""
    n = r.choice([1, 3, 8]) if x < 0.75 else r.choice([600, 3000])
    lines = [r.choice(dl.WORDS) + r.choice(["", " é", " 猫", " # not a comment", ""]) + (str(q) if n > 100 else "") for q in range(n)]
    if x < 0.3:  # characters that only some functions take for line ends
        lines[0] += r.choice("\x0b\x0c\x1c\x1d\x85\u2028\u2029\u00a0") + "x"
    return "\n".join(lines) + r.choice(["\n", "", "\n\n# end\n"])


def gen(r, tier, i):
    saves = []
    for k in range(r.choice([1, 1, 2, 3, 4])):
        f = None
        if r.random() < 0.9:
            f = [i // 3 % 9 if k == 0 else r.randrange(10), r.choice(KINDS)]
        saves.append({"text": text(r) if r.random() > 0.06 else "bad \ud800 text\n", "fault": f, "prime": r.random() < 0.6, "fresh": r.random() < 0.3, "crashseed": r.getrandbits(16)})
    others = [r.choice(["sib.txt", "p.json", "sub/q.txt"]) for _ in range(r.randint(0, 2))]
    return {"name": r.choice(["t", "d/t", "d.x/t.u"]), "old": text(r), "saves": saves, "others": sorted(set(others)), "link": r.random() < 0.1, "enc": r.choice(["utf-8"] * 4 + ["utf-16", "latin-1"]),
            "noend": r.random() < 0.1}


def values(text):
    return [x.strip() for x in text.replace("\r\n", "\n").replace("\r", "\n").split("\n") if x.strip() and not x.strip().startswith("#")]


def run(s, ctx):
    from pathlib import Path
    from dynamicprompts.wildcards import WildcardManager
    from dynamicprompts.wildcards.collection import WildcardTextFile
    root = ctx.scratch + "/r"
    os.makedirs(root)
    name, enc = s["name"], s["enc"]
    if enc == "latin-1":
        s["old"] = s["old"].replace("猫", "c").replace("\u2028", " ").replace("\u2029", " ")
    path = os.path.join(root, name + ".txt")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    real = path
    if s["link"]:
        os.makedirs(ctx.scratch + "/r/linked", exist_ok=True)
        real = ctx.scratch + "/r/linked/target.dat"
        os.symlink(real, path)
    with open(real, "wb") as f:
        f.write(s["old"].encode(enc))
    for o in s["others"]:
        p = os.path.join(root, o)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write('{"k": ["v"]}' if o.endswith("json") else "sibling\n")
    wm = WildcardManager(Path(root))
    names = sorted(wm.get_collection_names())

    def disk(p=None):
        try:
            with open(p or path, "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def handle(m=None):
        return (m or wm).get_file(name) if enc == "utf-8" else WildcardTextFile(Path(path), encoding=enc)

    def show(b):
        return None if b is None else f"{b[:60]!r}{'...' if len(b) > 60 else ''} ({len(b)} bytes)"

    h = handle()
    cur = s["old"].encode(enc)
    for sv in s["saves"]:
        if sv["prime"]:
            h.get_values()
        if sv["fresh"]:
            h = handle()
        t = sv["text"]
        try:
            new = t.encode(enc)
        except UnicodeEncodeError:
            new = None
        if new is not None and enc == "utf-16":
            new = t.encode("utf-16")
        ok = {cur} | ({new} if new is not None else set())
        fs = simfs.SimFS(root, journal=True, on_fault=lambda k, op, rel: (ctx.fault(f"{k}-on-{op}"), setattr(ctx, "nontrivial", True)))
        if new is None:
            ctx.fault("unencodable-text")
            ctx.nontrivial = True
        if sv["fault"]:
            fs.plan = [{"n": sv["fault"][0], "kind": sv["fault"][1]}]
        crash = False
        bad = []

        def inspect(n, op, p):
            simfs.current = None
            try:
                d = disk()
                if d not in ok:
                    bad.append((n, op, d))
            finally:
                simfs.current = fs
            ctx.probe("crash-points-inspected")
        fs.before_op = inspect
        with fs:
            try:
                st, v = ctx.call(h.write_text, t)
            except simfs.SimCrash:
                crash, st, v = True, "crash", None
        ctx.probe("ops", fs.n)
        ctx.log("save", len(t), st, type(v).__name__, [(k, op) for k, op, _ in fs.fired], [op for op, _ in fs.ops])
        ctx.sig(len(t), st, [(k, op) for k, op, _ in fs.fired], s["link"], enc, sv["prime"])
        what = f"saving {show(new)} over {show(cur)} with {fs.fired!r}"
        if bad:
            n, op, d = bad[0]
            ctx.fail("torn-if-crash", f"{what}: if the process dies before file-system call #{n} ({op}), the file holds {show(d)}")
        d = disk()
        if crash and fs.power:
            st2 = simfs.power_loss(fs.before, fs.journal, random.Random(sv["crashseed"]))
            d = st2.get(real)
            ctx.check(d in ok, "torn-by-power-loss", lambda: f"{what}: after the power loss the file holds {show(d)}")
            # restart on that disk
            for p in simfs.snapshot(root):
                if not os.path.islink(p):
                    os.unlink(p)
            for p, b in st2.items():
                if os.path.islink(p):
                    continue
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(b)
            ctx.probe("power-loss-restart")
        ctx.check(d in ok, "torn", lambda: f"{what} ({st}): the file now holds {show(d)}")
        if st == "ok":
            ctx.check(new is not None and d == new, "lost", lambda: f"{what}: returned, but the file holds {show(d)}")
        elif st == "err":
            ctx.check(isinstance(v, (OSError, UnicodeError)), "wrong-error", lambda: f"{what}: raised {type(v).__name__}: {v}")
            ctx.check(fs.fired or new is None, "spurious-error", lambda: f"{what}: raised {type(v).__name__}: {v}")
        if crash:
            wm = WildcardManager(Path(root))
            h = handle()
            ctx.probe("restart")
        cur = d

        def agree(hh, who):
            got = ctx.must("get_values", hh.get_values)
            exp = values(cur.decode(enc))
            ctx.check(list(got) == exp, "disagrees-with-disk", lambda: f"{what} ({st}): {who} reads {list(got)[:6]!r}, the disk has {exp[:6]!r}")
            got = ctx.must("read_text", hh.read_text)
            exp = cur.decode(enc).replace("\r\n", "\n").replace("\r", "\n")
            ctx.check(got == exp, "disagrees-with-disk", lambda: f"{what} ({st}): {who} read_text gives {got[:80]!r}")
        agree(h, "the same collection")
        m2 = WildcardManager(Path(root))
        now = sorted(m2.get_collection_names())
        ctx.check(now == names, "stray-wildcard", lambda: f"{what} ({st}): collections are now {now}, were {names}")
        agree(handle(m2), "a fresh collection")
        if st != "ok" and new is not None:
            # the fault is gone: a retry has to succeed
            ctx.must("retry", h.write_text, t)
            d = disk()
            ctx.check(d == new, "retry-failed", lambda: f"{what} ({st}): after a retry the file holds {show(d)}")
            cur = d
            agree(h, "the same collection after a retry")


def simplify(s):
    for k, v in (("link", False), ("enc", "utf-8"), ("old", "ash\n"), ("name", "t")):
        if s[k] != v:
            yield {**s, k: v}
    for i, sv in enumerate(s["saves"]):
        for k, v in (("prime", False), ("fresh", False), ("fault", None), ("text", "elm\n")):
            if sv[k] != v:
                yield {**s, "saves": s["saves"][:i] + [{**sv, k: v}] + s["saves"][i + 1:]}
