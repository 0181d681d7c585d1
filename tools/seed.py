#!/usr/bin/env python3
"""Confirm planted bugs in scratch copies:  seed.py [--notest] [--check C01,C02] [--all] [ID ...]

For each seeded/ID: a copy of /repo under /tmp, demo there (expects 0), patch, build
the extensions, demo (expects nonzero), the stable tests, and the property's check (or
the ones of --check) with PV_REPO pointing at the copy.  /repo is only read."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
           MPLBACKEND="Agg", PYTHONHASHSEED="0", PIP_NO_INDEX="1",
           PATH="/opt/venv/bin:" + os.environ["PATH"])
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def run(cmd, cwd, timeout=900, **env):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, shell=isinstance(cmd, str))
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace")


def one(id_, test=True, checks=None):
    top = "/tmp/seedwork/" + id_
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    tree, demo, work = top + "/repo", top + "/demo", top + "/work"
    src = os.path.join(V, "seeded", id_)
    out = {"id": id_}
    try:
        subprocess.check_call(["cp", "-a", "/repo", tree])
        shutil.copytree(src, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        rc, o = run(["bash", demo + "/demo.sh"], tree, 300)
        out["demo0"] = rc
        if rc:
            out["demo0_out"] = o[-1500:]
        rc, o = run(["git", "apply", src + "/patch.diff"], tree)
        if rc:
            out["apply"] = o
            return out
        ch = run("git diff --name-only", tree)[1]
        if ".pyx" in ch:
            b = open("/opt/vp/build_repo.py").read().replace('REPO = "/repo"', 'REPO = "%s"' % tree)
            open(top + "/build.py", "w").write(b)
            rc, o = run(["/opt/venv/bin/python", "-W", "ignore", top + "/build.py"], tree)
            out["build"] = rc
        rc, o = run(["bash", demo + "/demo.sh"], tree, 300)
        out["demo1"] = rc
        out["demo1_out"] = o[-300:]
        if test:
            rep = top + "/junit.xml"
            run("python -m pytest -q -p no:cacheprovider -n 8 --timeout=600 --disable-warnings --tb=short "
                "--continue-on-collection-errors --doctest-glob='*.rst' -o junit_family=xunit2 "
                "--junitxml=%s pystruct doc" % rep, tree, 1800)
            run(["/usr/bin/python3", "/opt/vp/results.py", top + "/t.json", "junit:" + rep], tree)
            got = set(json.load(open(top + "/t.json"))["passed"])
            out["lost"] = sorted(set(BASE) - got)
        meta = json.load(open(src + "/meta.json"))
        for c in (checks or [meta["property"]]):
            rc, o = run(["python3", V + "/bin/check.py", c], V, 900, PV_REPO=tree, PV_WORKROOT=work,
                        PV_EVIDENCE=work, VERIF_SEED="1", VERIF_TIER="quick")
            out[c] = rc
            out[c + "_out"] = "\n".join(o.splitlines()[:4])[:700] if rc else o[-200:]
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return out


if __name__ == "__main__":
    a = sys.argv[1:]
    test = "--notest" not in a
    checks = None
    if "--check" in a:
        i = a.index("--check")
        checks = a[i + 1].split(",")
        del a[i:i + 2]
    ids = [x for x in a if not x.startswith("--")]
    if "--all" in a:
        ids = sorted(os.listdir(os.path.join(V, "seeded")))
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(lambda i: one(i, test, checks), ids):
            keys = [k for k in r if not k.endswith("_out") and k != "id"]
            print(r["id"], {k: r[k] for k in keys})
            good = r.get("demo0") == 0 and r.get("demo1", 0) != 0 and not r.get("lost")
            if not good or "-v" in a:
                print("   ", {k: r[k] for k in r if k.endswith("_out")})
            for k in r:
                if k.endswith("_out") and k[0] == "C" and r[k[:-4]] != 1:
                    print("   MISSED", k, r[k])
            sys.stdout.flush()
