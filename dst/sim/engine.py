"""Seeded search over simulated runs: fork-per-run workers, minimiser, replay, evidence."""
import copy
import gc
import hashlib
import importlib
import json
import os
import random
import select
import shutil
import signal
import sys
import time
import traceback

from . import boot, mon

VERIF = os.path.realpath(os.path.join(os.path.dirname(__file__), "..", ".."))


class Violation(Exception):
    def __init__(self, kind, detail):
        super().__init__(f"{kind}: {detail}")
        self.kind, self.detail = kind, detail


class Ctx:
    """What one simulated run may use, and what it reports."""

    def __init__(self, scratch, tier):
        self.scratch = scratch
        self.tier = tier
        self.h = hashlib.sha256()
        self.faults = {}
        self.probes = {}
        self.simtime = 0.0
        self.nontrivial = False
        self.sig_parts = []
        self.events = 0
        self.trace = []
        self.keep_trace = False
        self.patch_scenario = {}

    def log(self, *xs):
        """Append to the event log (only its digest is kept unless replaying)."""
        self.events += 1
        s = repr(xs).replace(self.scratch, "<scratch>")
        self.h.update(s.encode("utf-8", "backslashreplace") + b"\n")
        if self.keep_trace:
            self.trace.append(s)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def sig(self, *xs):
        self.sig_parts.append(repr(xs))

    def fail(self, kind, detail):
        raise Violation(kind, detail)

    def check(self, cond, kind, detail):
        if not cond:
            raise Violation(kind, detail() if callable(detail) else detail)

    def call(self, fn, *a, budget=20_000_000, **k):
        """Call into the product; returns ("ok", value) or ("err", exception).
        Exceeding the step budget is a violation by itself (no progress)."""
        S = mon.Steps
        old = (S.n, S.limit)
        S.n, S.limit = 0, budget
        try:
            return ("ok", fn(*a, **k))
        except mon.StepBudgetExceeded:
            raise Violation("no-progress", f"call did not finish within {budget} steps: {getattr(fn, '__qualname__', fn)} {str(a)[:300]}")
        except Violation:
            raise
        except Exception as e:
            return ("err", e)
        finally:
            used = S.n
            S.n, S.limit = old[0] + used, old[1]

    def must(self, what, fn, *a, **k):
        """A call that has to succeed."""
        st, v = self.call(fn, *a, **k)
        if st == "err":
            raise Violation("unexpected-error", f"{what}: {type(v).__name__}: {v}")
        return v


def derive(pid, seed, i):
    return int.from_bytes(hashlib.sha256(f"{pid}/{seed}/{i}".encode()).digest()[:8], "big")


def load_prop(pid):
    return importlib.import_module(f"props.{pid.lower()}")


# ---------------------------------------------------------------------------------
# one run, in a forked child
# ---------------------------------------------------------------------------------
def _child_run(prop, scn, scratch, tier, keep_trace):
    ctx = Ctx(scratch, tier)
    ctx.keep_trace = keep_trace
    res = {"viol": None, "err": None}
    os.makedirs(scratch)
    gc.disable()
    boot.set_entropy(scn.get("entropy", 7))
    boot.reset_globals()
    mon.Steps.n, mon.Steps.limit = 0, None
    try:
        prop.run(copy.deepcopy(scn), ctx)
    except Violation as v:
        res["viol"] = {"kind": v.kind, "detail": v.detail.replace(scratch, "<scratch>")[:4000]}
    except mon.StepBudgetExceeded:
        res["viol"] = {"kind": "no-progress", "detail": "step budget exceeded"}
    except BaseException as e:
        tb, inside = e.__traceback__, False
        while tb is not None:
            inside = inside or tb.tb_frame.f_code.co_filename.startswith(boot.product_dir())
            tb = tb.tb_next
        if inside and isinstance(e, Exception):  # raised through the product's own code, where no failure was to be expected
            res["viol"] = {"kind": "unexpected-error", "detail": traceback.format_exc().replace(scratch, "<scratch>")[-3000:]}
        else:
            res["err"] = traceback.format_exc()[-4000:]
    ctx.log("end", res["viol"])
    res.update(
        digest=ctx.h.hexdigest(), faults=ctx.faults, probes=ctx.probes, simtime=ctx.simtime,
        nontrivial=ctx.nontrivial, events=ctx.events, steps=mon.Steps.n,
        sig=hashlib.sha256("|".join(ctx.sig_parts).encode("utf-8", "backslashreplace")).hexdigest()[:16],
        patch=ctx.patch_scenario,
    )
    if keep_trace:
        res["trace"] = ctx.trace[-400:]
    return res


_seq = 0


def run_scenario(prop, scn, base, tier, wall=120.0, keep_trace=False):
    """Fork, run, collect.  Kills the child when it exceeds the wall limit."""
    global _seq
    _seq += 1
    # a fixed-length, run-independent name keeps path lengths equal
    scratch = os.path.join(base, "r")
    shutil.rmtree(scratch, ignore_errors=True)
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            res = _child_run(prop, scn, scratch, tier, keep_trace)
            data = json.dumps(res, default=str).encode()
            with os.fdopen(w, "wb", closefd=False) as f:
                f.write(data)
        except BrokenPipeError:
            code = 4
        except BaseException:
            code = 3
            try:
                os.write(2, traceback.format_exc().encode())
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    deadline = time.monotonic() + wall
    killed = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            killed = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if rl:
            d = os.read(r, 1 << 20)
            if not d:
                break
            buf += d
    os.close(r)
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    if killed:
        return {"viol": {"kind": "no-progress", "detail": f"the run did not end within {wall:.0f} s (hang outside counted steps)"},
                "err": None, "digest": "killed", "faults": {}, "probes": {}, "simtime": 0, "nontrivial": True,
                "events": 0, "steps": 0, "sig": "killed", "patch": {}, "wallkill": True}
    if not buf:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT):
            return {"viol": {"kind": "interpreter-crash", "detail": f"signal {os.WTERMSIG(status)}"}, "err": None,
                    "digest": "crash", "faults": {}, "probes": {}, "simtime": 0, "nontrivial": True, "events": 0,
                    "steps": 0, "sig": "crash", "patch": {}}
        return {"viol": None, "err": f"child ended without a result, status {status}", "digest": "", "faults": {},
                "probes": {}, "simtime": 0, "nontrivial": False, "events": 0, "steps": 0, "sig": "", "patch": {}}
    return json.loads(buf)


def make_scenario(prop, pid, seed, i, tier):
    rng = random.Random(derive(pid, seed, i))
    scn = prop.gen(rng, tier, i)
    scn.setdefault("entropy", rng.getrandbits(32))
    return json.loads(json.dumps(scn))  # exactly what a replay file would contain


# ---------------------------------------------------------------------------------
# worker process
# ---------------------------------------------------------------------------------
def worker(prop, pid, seed, tier, k, nw, nruns, base, wfd, stop_at):
    out = os.fdopen(wfd, "w", buffering=1)
    agg = {"runs": 0, "nontrivial": 0, "events": 0, "steps": 0, "simtime": 0.0, "faults": {}, "probes": {}, "sigs": set()}
    mybase = os.path.join(base, f"w{k:02d}")
    os.makedirs(mybase)
    try:
        for i in range(k, nruns, nw):
            if time.time() > stop_at:
                break
            scn = make_scenario(prop, pid, seed, i, tier)
            res = run_scenario(prop, scn, mybase, tier)
            agg["runs"] += 1
            for f in ("events", "steps", "simtime"):
                agg[f] += res[f]
            for d in ("faults", "probes"):
                for n, c in res[d].items():
                    agg[d][n] = agg[d].get(n, 0) + c
            if res["nontrivial"]:
                agg["nontrivial"] += 1
                agg["sigs"].add(res["sig"])
            if res["err"]:
                out.write(json.dumps({"t": "err", "i": i, "err": res["err"]}) + "\n")
            if res["viol"]:
                out.write(json.dumps({"t": "viol", "i": i, "viol": res["viol"], "digest": res["digest"], "patch": res["patch"], "wallkill": res.get("wallkill", False)}) + "\n")
            elif i < 400:
                out.write(json.dumps({"t": "dig", "i": i, "digest": res["digest"]}) + "\n")
    except BaseException:
        out.write(json.dumps({"t": "err", "i": -1, "err": traceback.format_exc()[-3000:]}) + "\n")
    agg["sigs"] = sorted(agg["sigs"])
    out.write(json.dumps({"t": "agg", **agg}) + "\n")
    out.close()


# ---------------------------------------------------------------------------------
# minimiser
# ---------------------------------------------------------------------------------
def _resolve(scn, pattern):
    """Yield concrete paths (tuples) of lists matching a dotted pattern with '*'."""
    def rec(node, parts, path):
        if not parts:
            if isinstance(node, list):
                yield path
            return
        p, rest = parts[0], parts[1:]
        if p == "*":
            keys = range(len(node)) if isinstance(node, list) else list(node) if isinstance(node, dict) else ()
            for q in keys:
                yield from rec(node[q], rest, path + (q,))
        elif isinstance(node, dict) and p in node:
            yield from rec(node[p], rest, path + (p,))
        elif isinstance(node, list) and p.isdigit() and int(p) < len(node):
            yield from rec(node[int(p)], rest, path + (int(p),))
    yield from rec(scn, pattern.split("."), ())


def _get(scn, path):
    for p in path:
        scn = scn[p]
    return scn


def _with(scn, path, val):
    scn = copy.deepcopy(scn)
    tgt = _get(scn, path[:-1])
    tgt[path[-1]] = val
    return scn


def minimise(prop, scn, viol, base, tier, limit_s, wall):
    """Greedy ddmin over the scenario's declared lists, then property-specific steps."""
    end = time.time() + limit_s
    tries = 0

    def fails(c):
        nonlocal tries
        tries += 1
        try:
            r = run_scenario(prop, c, base, tier, wall=wall)
        except Exception:
            return None
        if r["err"]:
            return None
        return r if r["viol"] and r["viol"]["kind"] == viol["kind"] else None

    best = scn
    changed = True
    while changed and time.time() < end:
        changed = False
        for pat in getattr(prop, "SHRINK", []):
            for path in list(_resolve(best, pat)):
                try:
                    lst = _get(best, path)
                except (KeyError, IndexError):
                    continue
                n = max(1, len(lst) // 2)
                while lst and time.time() < end:
                    i = 0
                    hit = False
                    while i < len(lst) and time.time() < end:
                        cand = _with(best, path, lst[:i] + lst[i + n:])
                        if fails(cand):
                            best, lst, changed, hit = cand, _get(cand, path), True, True
                        else:
                            i += n
                    if n == 1:
                        break
                    n = max(1, n // 2)
        if hasattr(prop, "simplify"):
            again = True
            while again and time.time() < end:
                again = False
                for cand in prop.simplify(best):
                    if time.time() > end:
                        break
                    if cand != best and fails(cand):
                        best, again, changed = cand, True, True
                        break
    return best, tries


# ---------------------------------------------------------------------------------
# known findings
# ---------------------------------------------------------------------------------
def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    d = json.load(open(p))
    return [k for k in d.get("known", []) if k["property"] == pid]


def is_known(known, viol):
    for k in known:
        if k.get("kind") == viol["kind"] and k.get("detail_contains", "\0") in viol["detail"]:
            return k
    return None


# ---------------------------------------------------------------------------------
# the check
# ---------------------------------------------------------------------------------
def check(pid, seed, tier, nworkers, base, nruns=None, wall_cap=None):
    t0 = time.time()
    prop = load_prop(pid)
    known = known_findings(pid)
    if nruns is None:
        nruns = prop.RUNS[tier]
    if wall_cap is None:
        wall_cap = 420 if tier == "quick" else 3 * 3600
    print(f"# {pid} tier={tier} seed={seed} runs={nruns} workers={nworkers}", flush=True)
    if hasattr(prop, "setup"):
        prop.setup()
    gc.collect()
    gc.freeze()
    procs = {}
    for k in range(nworkers):
        r, w = os.pipe()
        sys.stdout.flush()
        p = os.fork()
        if p == 0:
            try:
                os.setpgid(0, 0)
                os.close(r)
                for rr in procs:
                    os.close(rr)
                worker(prop, pid, seed, tier, k, nworkers, nruns, base, w, t0 + wall_cap)
            finally:
                os._exit(0)
        os.close(w)
        procs[r] = [p, b""]
    viols, errs, digs, aggs, knowns = [], [], {}, [], {}
    stop_deadline = None
    open_fds = dict(procs)
    while open_fds:
        to = 1.0
        rl, _, _ = select.select(list(open_fds), [], [], to)
        for fd in rl:
            d = os.read(fd, 1 << 16)
            if not d:
                os.close(fd)
                del open_fds[fd]
                continue
            procs[fd][1] += d
            *lines, procs[fd][1] = procs[fd][1].split(b"\n")
            for ln in lines:
                m = json.loads(ln)
                if m["t"] == "viol":
                    kf = is_known(known, m["viol"])
                    if kf:
                        knowns[kf["id"]] = knowns.get(kf["id"], 0) + 1
                    else:
                        viols.append(m)
                        if stop_deadline is None:
                            stop_deadline = time.time() + 1.5
                elif m["t"] == "err":
                    errs.append(m)
                elif m["t"] == "dig":
                    digs[m["i"]] = m["digest"]
                elif m["t"] == "agg":
                    aggs.append(m)
        if stop_deadline and time.time() > stop_deadline:
            break
    for fd, (p, _) in procs.items():
        try:
            if viols:
                os.killpg(p, signal.SIGKILL)
            os.waitpid(p, 0)
        except (ProcessLookupError, ChildProcessError):
            pass
    explore_s = time.time() - t0
    for kf in known:
        print(f"KNOWN-FINDING: property={pid} {kf['what']}", flush=True)
    rc = 0
    replay_path = None
    if viols:
        m = min(viols, key=lambda m: m["i"])
        rc, replay_path = report(prop, pid, seed, tier, m, base)
    elif errs:
        print(f"HARNESS-ERROR run={errs[0]['i']}\n{errs[0]['err']}", file=sys.stderr, flush=True)
        rc = 2
    det = None
    if rc == 0 and digs:
        det = determinism(pid, seed, tier, digs, base, prop)
        if det["mismatches"]:
            print(f"# note: {len(det['mismatches'])} of {det['runs']} runs differ under another PYTHONHASHSEED: {det['mismatches'][:5]}", flush=True)
            if getattr(prop, "HASHSEED_VIOLATION", False):
                rc = report_hash(prop, pid, seed, tier, det["mismatches"][0])
                viols.append(det["mismatches"][0])
    ev = evidence(prop, pid, seed, tier, aggs, viols, explore_s, time.time() - t0, det, knowns, nworkers)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    c = ev["coverage"]
    print(f"# {pid}: {c['evaluations']} runs, {c['distinct_nontrivial']} distinct non-trivial, {ev['wall_s']:.1f} s, rc={rc}", flush=True)
    return rc


def report(prop, pid, seed, tier, m, base):
    scn = make_scenario(prop, pid, seed, m["i"], tier)
    sbase = os.path.join(base, "shrink")
    os.makedirs(sbase, exist_ok=True)
    wall = 12.0 if m.get("wallkill") else 60.0
    first = run_scenario(prop, scn, sbase, tier, wall=wall)
    viol = first["viol"] or m["viol"]
    explicit = copy.deepcopy(scn)
    explicit.update(first.get("patch") or {})  # e.g. the recorded schedule, made explicit
    cand = scn
    if first["viol"] and explicit != scn:
        r = run_scenario(prop, explicit, sbase, tier, wall=wall)
        if r["viol"] and r["viol"]["kind"] == viol["kind"]:
            cand = explicit
    best, tries = minimise(prop, cand, viol, sbase, tier, 45 if tier == "quick" else 240, wall)
    final = run_scenario(prop, best, sbase, tier, wall=wall, keep_trace=True)
    if not final["viol"]:
        best, final = scn, run_scenario(prop, scn, sbase, tier, wall=wall, keep_trace=True)
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{seed}-{m['i']}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "verif_seed": seed, "tier": tier, "run": m["i"], "hashseed": os.environ.get("PYTHONHASHSEED"),
                   "violation": final["viol"] or viol, "digest": final["digest"], "minimise_tries": tries,
                   "scenario": best, "original_scenario": scn, "trace": final.get("trace")}, f, indent=1, default=str)
    v = final["viol"] or viol
    print(f"violation {v['kind']}: {v['detail']}", flush=True)
    # replay in a fresh process
    import subprocess
    rp = subprocess.run([sys.executable, "-B", os.path.join(VERIF, "dst", "main.py"), "replay", path],
                        capture_output=True, text=True)
    same = f"reproduced digest={final['digest']}" in rp.stdout
    print(f"# replay in a fresh process: {'reproduced exactly' if same else 'rc=%d %s' % (rp.returncode, rp.stdout[-300:] + rp.stderr[-300:])}", flush=True)
    print(f"VIOLATION property={pid} replay={path}", flush=True)
    return 1, path


def replay(path, base):
    d = json.load(open(path))
    if d.get("mode") == "hashseed":
        return replay_hash(path, d)
    prop = load_prop(d["property"])
    if hasattr(prop, "setup"):
        prop.setup()
    gc.collect()
    gc.freeze()
    b = os.path.join(base, "replay")
    os.makedirs(b, exist_ok=True)
    res = run_scenario(prop, d["scenario"], b, d["tier"], wall=60.0, keep_trace=True)
    for t in (res.get("trace") or [])[-60:]:
        print("  ", t[:300])
    if res["err"]:
        print(res["err"], file=sys.stderr)
        return 2
    if res["viol"]:
        print(f"violation {res['viol']['kind']}: {res['viol']['detail']}")
        print(f"reproduced digest={res['digest']}")
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("the replay did not violate the property on this tree")
    return 0


def digests(pid, seed, tier, idx, base):
    prop = load_prop(pid)
    if hasattr(prop, "setup"):
        prop.setup()
    gc.collect()
    gc.freeze()
    b = os.path.join(base, "dig")
    os.makedirs(b, exist_ok=True)
    for i in idx:
        scn = make_scenario(prop, pid, seed, i, tier)
        print(json.dumps({"i": i, "digest": run_scenario(prop, scn, b, tier)["digest"]}), flush=True)
    return 0


def determinism(pid, seed, tier, digs, base, prop):
    """Re-execute a sample of the runs in a fresh interpreter with another hash seed and in
    another order, and compare complete event-log digests."""
    import subprocess
    n = getattr(prop, "DET_SAMPLE", 24) if tier == "quick" else 400
    idx = sorted(digs)[:n][::-1]
    k = 1 if len(idx) <= 24 else 8
    env = dict(os.environ, PYTHONHASHSEED="4242")
    ps = [subprocess.Popen([sys.executable, "-B", os.path.join(VERIF, "dst", "main.py"), "digests", pid, str(seed), tier, json.dumps(idx[j::k])],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env) for j in range(k)]
    got = {}
    end = time.time() + 300
    note = None
    for p in ps:
        try:
            out, _ = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.terminate()
            out, note = "", "timed out"
        for ln in out.splitlines():
            if ln.startswith("{"):
                m = json.loads(ln)
                got[m["i"]] = m["digest"]
    mism = sorted(i for i in got if got[i] != digs[i])
    return {"runs": len(got), "hashseed": 4242, "mismatches": mism, **({"note": note} if note else {})}


def report_hash(prop, pid, seed, tier, i):
    """Same scenario, different outcome under another hash seed, where that itself is the violation."""
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{seed}-{i}-hash.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "verif_seed": seed, "tier": tier, "run": i, "mode": "hashseed", "pair": ["0", "4242"],
                   "scenario": make_scenario(prop, pid, seed, i, tier)}, f, indent=1)
    print(f"violation hash-dependent: run {i} behaves differently under PYTHONHASHSEED=0 and 4242", flush=True)
    print(f"VIOLATION property={pid} replay={path}", flush=True)
    return 1


def replay_hash(path, d):
    import subprocess
    outs = []
    for h in d["pair"]:
        p = subprocess.run([sys.executable, "-B", os.path.join(VERIF, "dst", "main.py"), "trace", path], capture_output=True, text=True,
                           env=dict(os.environ, PYTHONHASHSEED=h))
        outs.append(p.stdout)
    if outs[0] == outs[1]:
        print("the replay did not violate the property on this tree")
        return 0
    for a, b in zip(outs[0].splitlines(), outs[1].splitlines()):
        if a != b:
            print(f"PYTHONHASHSEED={d['pair'][0]}: {a[:400]}\nPYTHONHASHSEED={d['pair'][1]}: {b[:400]}")
            break
    print("violation hash-dependent: reproduced")
    print(f"VIOLATION property={d['property']} replay={path}")
    return 1


def trace(path, base):
    d = json.load(open(path))
    prop = load_prop(d["property"])
    if hasattr(prop, "setup"):
        prop.setup()
    b = os.path.join(base, "trace")
    os.makedirs(b, exist_ok=True)
    for t in run_scenario(prop, d["scenario"], b, d["tier"], keep_trace=True).get("trace") or []:
        print(t)
    return 0


def evidence(prop, pid, seed, tier, aggs, viols, explore_s, wall_s, det, knowns, nworkers):
    runs = sum(a["runs"] for a in aggs)
    sigs = set()
    faults, probes = {}, {}
    for a in aggs:
        sigs.update(a["sigs"])
        for n, c in a["faults"].items():
            faults[n] = faults.get(n, 0) + c
        for n, c in a["probes"].items():
            probes[n] = probes.get(n, 0) + c
    samples = [make_scenario(prop, pid, seed, i, tier) for i in range(2)]
    return {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(prop, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(sigs),
            "nontrivial_runs": sum(a["nontrivial"] for a in aggs),
            "rule": prop.RULE,
            "samples": samples,
            "runs_per_hour": int(runs / max(explore_s, 1e-3) * 3600),
            "seeds": f"one per run: sha256({pid}/{seed}/i), i < {prop.RUNS[tier]}",
            "simulated_steps": sum(a["steps"] for a in aggs),
            "logged_events": sum(a["events"] for a in aggs),
            "simulated_time_s": round(sum(a["simtime"] for a in aggs), 3),
            "faults_injected": dict(sorted(faults.items())),
            "probes": dict(sorted(probes.items())),
            "components": prop.COMPONENTS,
            "determinism_recheck": det,
            "known_findings_seen": knowns,
            "workers": nworkers,
        },
        "assumptions": getattr(prop, "ASSUMPTIONS", []),
        "wall_s": round(wall_s, 2),
        "violations": len(viols),
    }
