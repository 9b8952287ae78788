"""mk(id, prop, file, [(old, new), ...], demo_py, needs, breaks): write seeded/<id>/ from an edit of the committed file."""
import json
import os
import subprocess
import tempfile

BASE = "/verif/seeded"


def mk(id, prop, file, edits, demo, needs, breaks):
    d = os.path.join(BASE, id)
    os.makedirs(d, exist_ok=True)
    if not isinstance(file, list):
        edits = [(file, o, n) for o, n in edits]
    files = sorted({f for f, _, _ in edits})
    diff = ""
    for f in files:
        src = subprocess.run(["git", "-C", "/repo", "show", f"HEAD:openptv_python/{f}"], capture_output=True, text=True, check=True).stdout
        new = src
        for g, o, n in edits:
            if g == f:
                assert new.count(o) == 1, (id, f, new.count(o), o)
                new = new.replace(o, n)
        with tempfile.TemporaryDirectory() as t:
            for nm, s in (("a", src), ("b", new)):
                p = os.path.join(t, nm, "openptv_python")
                os.makedirs(p)
                with open(os.path.join(p, f), "w") as h:
                    h.write(s)
            r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, capture_output=True, text=True).stdout
            diff += "\n".join(ln for ln in r.split("\n") if not ln.startswith("index "))
    with open(os.path.join(d, "patch.diff"), "w") as h:
        h.write(diff)
    with open(os.path.join(d, "demo.py"), "w") as h:
        h.write(demo.lstrip("\n"))
    with open(os.path.join(d, "demo.sh"), "w") as h:
        h.write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 NUMBA_CACHE_DIR=$(mktemp -d /tmp/demo-XXXXXX)\n'
                'PYTHONPATH="$PWD" /opt/venv/bin/python "$D/demo.py"\nr=$?\nrm -rf "$NUMBA_CACHE_DIR"\nexit $r\n')
    with open(os.path.join(d, "meta.json"), "w") as h:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, h, indent=1)
        h.write("\n")
