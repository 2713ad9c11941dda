"""Helper to write seeded/<id>: used as  plant(id, prop, [(file, old, new), ...], demo, needs, breaks)."""

import json
import os
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO_SH = """#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= RAY_ADDRESS=local RAY_USAGE_STATS_ENABLED=0
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""


def plant(id, prop, edits, demo, needs, breaks):
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory(prefix="plant", dir="/tmp") as w:
        diff = ""
        byfile = {}
        for f, old, new in edits:
            byfile.setdefault(f, []).append((old, new))
        for f, pairs in byfile.items():
            src = subprocess.run(["git", "-C", "/repo", "show", f"HEAD:{f}"], capture_output=True, text=True, check=True).stdout
            out = src
            for old, new in pairs:
                assert out.count(old) == 1, (id, f, out.count(old), old)
                out = out.replace(old, new)
            a, b = os.path.join(w, "a", f), os.path.join(w, "b", f)
            for p, text in ((a, src), (b, out)):
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w").write(text)
            r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", f"a/{f}", f"b/{f}"], cwd=w, capture_output=True, text=True)
            diff += r.stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
    open(os.path.join(d, "demo.py"), "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    subprocess.run(["git", "-C", "/repo", "apply", "--check", os.path.join(d, "patch.diff")], check=True)
    print("planted", id)
