"""plant(): write seeded/ID from replacements in /repo's files (in memory; /repo is not touched)"""
import difflib
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def plant(id_, prop, edits, needs, breaks, demo):
    patch = ""
    files = {}
    for f, old, new, *nth in edits:      # nth: which of several occurrences
        s = files.get(f) or open("/repo/" + f).read()
        if nth:
            parts = s.split(old)
            assert len(parts) > nth[0] + 1, (id_, f, len(parts))
            files[f] = old.join(parts[:nth[0] + 1]) + new + old.join(parts[nth[0] + 1:])
        else:
            assert s.count(old) == 1, (id_, f, s.count(old), old)
            files[f] = s.replace(old, new)
    for f, s in files.items():
        a = open("/repo/" + f).read()
        base = subprocess.run(["git", "-C", "/repo", "show", "ca7dade:" + f], stdout=subprocess.PIPE, text=True).stdout
        lines = list(difflib.unified_diff(a.splitlines(True), s.splitlines(True), "a/" + f, "b/" + f))
        for l in lines[2:]:
            if l[0] == "-" and l[1:].strip() and l[1:] not in base.splitlines(True):
                print("WARNING: %s changes a line that is not original: %r" % (id_, l))
        patch += "".join(lines)
    d = os.path.join(V, "seeded", id_)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.sh", "w").write(SH)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(demo.lstrip("\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
