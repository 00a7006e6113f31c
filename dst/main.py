#!/usr/bin/env python3
"""Entry point: main.py check ID | replay FILE | digests ID SEED TIER JSON | one ID RUN"""
import os
import sys

HERE = os.path.dirname(os.path.realpath(__file__))
if not os.environ.get("DST_READY"):
    import tempfile
    env = dict(os.environ)
    env["DST_READY"] = "1"
    env.setdefault("PYTHONHASHSEED", "0")
    base = tempfile.mkdtemp(prefix="dst-")
    env["DST_BASE"] = base
    env["PYTHONPYCACHEPREFIX"] = os.path.join(base, "pyc")
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONPATH"] = ""
    env["LC_ALL"] = "C.UTF-8"
    env["PYTHONUTF8"] = "1"
    env["TZ"] = "UTC"
    import shutil
    import subprocess
    import signal
    p = subprocess.Popen([sys.executable, "-B", os.path.realpath(__file__), *sys.argv[1:]], env=env)
    rc = 2
    signal.signal(signal.SIGTERM, lambda *_: p.terminate())
    try:
        rc = p.wait()
    except KeyboardInterrupt:
        p.kill()
    finally:
        shutil.rmtree(base, ignore_errors=True)
    sys.exit(rc if rc >= 0 else 2)

sys.path.insert(0, HERE)
os.environ.pop("DST_READY")
base = os.environ["DST_BASE"]
from sim import boot  # noqa: E402  (must be first: installs the seams)

PRODUCT = boot.import_product()
from sim import engine, mon  # noqa: E402

mon.install_steps(PRODUCT)
cmd, args = sys.argv[1], sys.argv[2:]
seed = int(os.environ.get("VERIF_SEED", "1"))
tier = os.environ.get("VERIF_TIER", "quick")
if tier not in ("quick", "thorough"):
    tier = "quick"
rc = 2
try:
    if cmd == "check":
        if len(args) > 1:
            tier = args[1]
        nw = int(os.environ.get("DST_WORKERS", os.cpu_count() or 4))
        n = os.environ.get("DST_RUNS")
        rc = engine.check(args[0], seed, tier, max(1, min(nw, 32)), base, nruns=int(n) if n else None)
    elif cmd == "replay":
        rc = engine.replay(args[0], base)
    elif cmd == "setup":
        print("product:", PRODUCT)
        rc = 0
    elif cmd == "trace":
        rc = engine.trace(args[0], base)
    elif cmd == "digests":
        import json
        rc = engine.digests(args[0], int(args[1]), args[2], json.loads(args[3]), base)
    elif cmd == "one":
        prop = engine.load_prop(args[0])
        if hasattr(prop, "setup"):
            prop.setup()
        import json
        scn = engine.make_scenario(prop, args[0], seed, int(args[1]), tier)
        print(json.dumps(scn, indent=1, ensure_ascii=False))
        os.makedirs(base + "/one")
        print(json.dumps(engine.run_scenario(prop, scn, base + "/one", tier, keep_trace=True), indent=1, ensure_ascii=False))
        rc = 0
except BaseException:
    import traceback
    traceback.print_exc()
    rc = 2
sys.stdout.flush()
os._exit(rc)
