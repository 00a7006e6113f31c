#!/usr/bin/env python3
"""Build seeded/<id>/ from the bug descriptions in tools/bugs/*.py and confirm them.

usage: plant.py [ID...]   (in a scratch copy: applies the edit, writes patch.diff, runs the demo with and without)
A bug file defines: PROP, NEEDS, BREAKS, EDITS = [(file under src/dynamicprompts, old, new), ...], DEMO = python text."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

V = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
B = os.path.join(V, "tools", "bugs")
ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(B) if f.endswith(".py"))
for i in ids:
    m = runpy.run_path(os.path.join(B, i + ".py"))
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        w = os.path.join(tmp, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
        open(os.path.join(d, "demo.py"), "w").write(m["DEMO"].lstrip())
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n# cwd: the repository\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": m["PROP"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        demo = lambda: subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=w, capture_output=True, text=True, timeout=300)
        a = demo()
        for f, old, new in m["EDITS"]:
            p = os.path.join(w, "src/dynamicprompts", f)
            s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        foreign = []
        for f, old, new in m["EDITS"]:
            rel = "src/dynamicprompts/" + f
            base = subprocess.run(["git", "-C", w, "show", "10b4aa6:" + rel], capture_output=True, text=True).stdout.splitlines()
            d1 = subprocess.run(["git", "-C", w, "diff", "-U0", "--", rel], capture_output=True, text=True).stdout.splitlines()
            foreign += [x for x in d1 if x.startswith("-") and not x.startswith("---") and x[1:].strip() and x[1:] not in base]
        if foreign:
            print("   note: changes lines that are not the original's:", foreign[:3])
        b = demo()
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=w, capture_output=True, text=True,
                           env={**os.environ, "PYTHONPATH": w + "/src", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "HF_HUB_OFFLINE": "1"})
        tail = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:]
        ok = a.returncode == 0 and b.returncode != 0 and t.returncode == 0
        print(i, m["PROP"], "OK" if ok else "BAD", f"demo clean={a.returncode} patched={b.returncode} tests: {tail}")
        if not ok:
            print("   ", a.stdout[-300:], a.stderr[-300:], "|", b.stdout[-300:], b.stderr[-300:])
            print("   ", "\n".join(x for x in t.stdout.splitlines() if x.startswith(("FAILED", "ERROR")))[:1500])
    finally:
        shutil.rmtree(tmp)
