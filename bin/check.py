#!/usr/bin/env python3
"""Run the check of one property:  check.py ID   (VERIF_SEED, VERIF_TIER)

1. private build of /repo's working tree,
2. TLC model-checks the design modules of the property (exhaustively, within
   the bounds of the configuration),
3. the driver runs the real code and records traces,
4. TLC decides which recorded steps are steps of the specification.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, os.path.join(VERIF, "harness"))
from checks import CHECKS   # noqa: E402

ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1",
           OMP_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONWARNINGS="ignore",
           PYTHONHASHSEED="0")


class Machinery(Exception):
    pass


def tlc(spec_dir, module, cfg, env=None, workers=4, timeout=800, extra=(), heap="6g"):
    meta = tempfile.mkdtemp(prefix="tlc_", dir=spec_dir)
    cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC", "-Xss64m", "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg, *extra, module + ".tla"]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=spec_dir, env=env or ENV, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        out, rc = p.stdout.decode("utf8", "replace"), p.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b"").decode("utf8", "replace"), -1
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left", out)
    gen, dist = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    return {"rc": rc, "out": out, "generated": gen, "distinct": dist, "s": time.time() - t0,
            "finished": "Model checking completed" in out and bool(m) and m[-1][2] == "0"}


def load_known():
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                known.append(m.groups())
    return known


def main(pid):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    conf = CHECKS[pid]
    t0 = time.time()
    work = os.path.join(os.environ.get("PV_WORKROOT") or os.path.join(VERIF, ".work"), pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    spec_dir = os.path.join(work, "spec")
    shutil.copytree(SPEC, spec_dir)
    tree = os.path.join(work, "tree")
    os.makedirs(tree)
    violations, design_res = [], []

    # 2. design checks, in the background
    def design():
        for item in conf.get("design", []):
            module, cfg = item[0], item[1]
            if len(item) > 2 and item[2] == "thorough" and tier != "thorough":
                continue
            r = tlc(spec_dir, module, cfg + ".cfg", workers=3 if tier == "quick" else 4, timeout=780)
            r["name"] = cfg
            design_res.append(r)
    th = threading.Thread(target=design)
    th.start()

    # 1. build
    p = subprocess.run([PY, os.path.join(VERIF, "harness", "scratch.py"), tree], env=ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        sys.stdout.write(p.stdout.decode("utf8", "replace")[-3000:])
        raise Machinery("the tree does not build")

    # 3. record
    trace = os.path.join(work, "trace.ndjson")
    known = [k for k in load_known() if k[0] == pid]
    hit, results = {}, []

    # 4. validate
    def validate(tmod, lines):
        """TLC decides the recorded traces of one trace specification"""
        path = os.path.join(work, "trace_%s.ndjson" % tmod)
        with open(path, "w") as f:
            for d in lines:
                f.write(json.dumps(d, separators=(",", ":")) + "\n")
        res = tlc(spec_dir, tmod, tmod + ".cfg", env=dict(ENV, TRACE=path), workers=8,
                  timeout=max(60, (800 if tier == "quick" else 840) - (time.time() - t0)), heap="12g")
        results.append(res)
        with open(os.path.join(work, "tlc_%s.out" % tmod), "w") as f:
            f.write(res["out"])
        bad = {}
        for m in re.finditer(r'<<"BAD", (\d+), (\d+), ({.*?})>>', res["out"], re.S):
            bad.setdefault((int(m.group(1)), int(m.group(2))), re.sub(r"\s+", " ", m.group(3)))
        for (t, l), clauses in sorted(bad.items()):
            d = lines[t - 1]
            e = d["evs"][l - 1]
            key = d.get("key", "")
            k = [x for x in known if x[1] == key]
            if k and key:
                hit[key] = k[0][2]
                continue
            rp = os.path.join(work, "replay_%s_%d_%d.json" % (tmod, t, l))
            if len(violations) < 40:
                with open(rp, "w") as f:
                    json.dump({"property": pid, "seed": seed, "tier": tier, "spec": tmod, "trace": d,
                               "failing_step": l, "clauses": clauses}, f, indent=1)
            violations.append((clauses, "%s %s" % (d.get("id"), e.get("ev")), rp))
        expected = sum(len(d["evs"]) + 1 for d in lines)
        if not res["finished"]:
            if re.search(r"(?:TLC threw|Attempted to|evaluating|In applying|The first argument|not in the domain)", res["out"]):
                violations.append(("trace-outside-spec", "a recorded step is outside the domain of the specification",
                                   os.path.join(work, "tlc_%s.out" % tmod)))
            else:
                sys.stdout.write(res["out"][-3000:])
                raise Machinery("trace validation did not finish")
        elif res["distinct"] != expected and not bad and not conf.get("branching"):
            raise Machinery("trace validation explored %d states, expected %d" % (res["distinct"], expected))

    env = dict(ENV, PYTHONPATH=tree + ":" + os.path.join(VERIF, "harness"),
               PV_TREE=tree, PV_SEED=str(seed), PV_TIER=tier, PV_EFFORT=str(conf.get("effort", 1)), PV_OUT=trace, PV_WORK=work,
               PV_SPEC=spec_dir, HOME=work, JOBLIB_TEMP_FOLDER=work, TMPDIR=work)
    log = os.path.join(work, "driver.log")
    limit = 560 if tier == "quick" else 700
    with open(log, "wb") as f:
        try:
            rc = subprocess.run([PY, os.path.join(VERIF, "harness", "run_driver.py"), pid],
                                env=env, cwd=work, stdout=f, stderr=subprocess.STDOUT,
                                timeout=limit).returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
    if rc == "timeout":
        violations.append(("driver-hang", "the code under test did not finish in %d s" % limit, log))
    elif isinstance(rc, int) and rc < 0:
        violations.append(("crash", "the interpreter died with signal %d" % -rc, log))
    elif rc != 0:
        sys.stdout.write(open(log, errors="replace").read()[-4000:])
        raise Machinery("driver failed (%s)" % rc)

    traces, events = 0, 0
    kinds = {}
    samples = []
    if os.path.exists(trace) and os.path.getsize(trace):
        lines = []
        for line in open(trace):
            try:
                lines.append(json.loads(line))
            except ValueError:
                continue                      # cut off by a crash
        for d in lines:
            traces += 1
            events += len(d["evs"])
            for e in d["evs"]:
                kinds[e["ev"]] = kinds.get(e["ev"], 0) + 1
        step = max(1, len(lines) // 3)
        samples = [json.dumps(d)[:1500] for d in lines[::step][:3]]
        groups = {}
        for d in lines:
            groups.setdefault(d.get("mod") or conf.get("trace", "TraceModels"), []).append(d)
        for tmod, part in sorted(groups.items()):
            validate(tmod, part)
    elif not violations:
        raise Machinery("no trace recorded")
    missing = [k for k in conf.get("need", []) if not kinds.get(k)]
    if missing and not violations:
        raise Machinery("no events of kind %s were recorded" % missing)

    th.join()
    for r in design_res:
        if not r["finished"]:
            sys.stdout.write(r["out"][-3000:])
            raise Machinery("design check %s failed" % r["name"])

    for key, what in sorted(hit.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    for clauses, what, rp in violations[:12]:
        print("VIOLATION property=%s replay=%s  %s %s" % (pid, rp, clauses, what))
    if len(violations) > 12:
        print("... and %d more" % (len(violations) - 12))
    states = sum(r["distinct"] for r in design_res) + sum(r["distinct"] for r in results)
    trans = sum(r["generated"] for r in design_res) + sum(r["generated"] for r in results)
    cov = {"states": states, "transitions": trans, "traces_validated_against_impl": traces,
           "samples": samples, "events": events, "events_by_kind": kinds,
           "design": [{"config": r["name"], "distinct": r["distinct"], "generated": r["generated"],
                       "exhaustive": r["finished"], "s": round(r["s"], 1)} for r in design_res],
           "trace_states": sum(r["distinct"] for r in results),
           "known_findings_seen": sorted(hit)}
    evidence = os.environ.get("PV_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evidence, exist_ok=True)
    with open(os.path.join(evidence, pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
                   "coverage": cov, "assumptions": conf.get("assumptions", []),
                   "wall_s": round(time.time() - t0, 2), "violations": len(violations)}, f, indent=1)
    shutil.rmtree(tree, ignore_errors=True)
    if not violations:
        shutil.rmtree(work, ignore_errors=True)
    print("%s: %s; %d traces, %d events, %d design states, %.1f s" % (
        pid, "VIOLATED" if violations else "ok", traces, events,
        sum(r["distinct"] for r in design_res), time.time() - t0))
    return 1 if violations else 0


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1]))
    except Machinery as e:
        print("ERROR: %s" % e)
        sys.exit(2)
