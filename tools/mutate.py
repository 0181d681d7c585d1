#!/usr/bin/env python3
"""Mutation campaign over /repo's Python sources, in scratch copies:

  mutate.py [--n N] [--seed S] [--jobs J] [--out FILE] [--files a.py,b.py]

Takes N of the small changes of the operators below at random, runs the quick checks
the file belongs to against each until one reports a violation, and writes one JSON line
per mutant.  The survivors are for reading: a change that breaks no property, or a gap."""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PV_REPO", "/repo")
P = "pystruct/"
MODELS = ["C01", "C02", "C03", "C05", "C06", "C20", "C04", "C08", "C18", "C24", "C19"]
FILES = {
    P + "inference/inference_methods.py": ["C03", "C04", "C19", "C06", "C20"],
    P + "inference/maxprod.py": ["C03", "C04", "C06"],
    P + "inference/linear_programming.py": ["C04", "C03", "C19"],
    P + "inference/common.py": ["C03", "C04", "C08", "C20"],
    P + "models/base.py": MODELS + ["C07", "C12"],
    P + "models/crf.py": MODELS, P + "models/graph_crf.py": MODELS, P + "models/chain_crf.py": MODELS,
    P + "models/grid_crf.py": MODELS, P + "models/edge_feature_graph_crf.py": MODELS,
    P + "models/latent_graph_crf.py": MODELS + ["C15"], P + "models/latent_grid_crf.py": MODELS + ["C15"],
    P + "models/latent_node_crf.py": MODELS + ["C15"], P + "models/multilabel_svm.py": MODELS,
    P + "models/unstructured_svm.py": MODELS + ["C07"],
    P + "models/typed_crf.py": ["C18", "C19", "C20", "C01", "C02", "C03", "C06", "C05"],
    P + "models/node_type_edge_feature_graph_crf.py": ["C18", "C19", "C20", "C01", "C02", "C03", "C06", "C05", "C04"],
    P + "learners/ssvm.py": ["C07", "C10", "C20", "C21", "C16", "C22", "C15", "C17"],
    P + "learners/n_slack_ssvm.py": ["C09", "C10", "C16", "C21", "C22", "C17", "C07", "C20", "C15"],
    P + "learners/one_slack_ssvm.py": ["C09", "C10", "C11", "C16", "C21", "C22", "C17", "C07", "C20", "C15"],
    P + "learners/structured_perceptron.py": ["C12", "C21", "C16", "C17", "C22", "C07", "C20"],
    P + "learners/subgradient_ssvm.py": ["C13", "C21", "C16", "C17", "C22", "C07", "C20"],
    P + "learners/frankwolfe_ssvm.py": ["C14", "C21", "C16", "C17", "C22", "C20"],
    P + "learners/latent_structured_svm.py": ["C15", "C21", "C16", "C17", "C22", "C20", "C07"],
    P + "learners/subgradient_latent_ssvm.py": ["C15", "C13", "C21", "C16", "C17", "C22", "C20", "C07"],
    P + "utils/inference.py": ["C07", "C02", "C09", "C10", "C01"],
    P + "utils/logging.py": ["C17"], P + "utils/graph.py": ["C24", "C01"],
    P + "utils/graph_functions.py": ["C03", "C04"],
    P + "utils/plotting.py": ["C21"], P + "plot_learning.py": ["C21"],
    P + "datasets/synthetic_grids.py": ["C23"], P + "datasets/dataset_loaders.py": ["C23"],
    P + "analyse_utils.py": ["C21"],
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
       ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
NAMES = {"min": "max", "max": "min", "argmax": "argmin", "maximum": "minimum", "minimum": "maximum",
         "zeros": "ones", "any": "all", "all": "any", "hstack": "vstack"}


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    tree = ast.parse(src)
    lines = src.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l))

    def pos(l, c):
        return off[l - 1] + len(lines[l - 1].encode()[:c].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def seg(n):
        a, b = span(n)
        return src[a:b]

    out = []

    def add(n, text, kind):
        a, b = span(n)
        new = src[:a] + text + src[b:]
        try:
            ast.parse(new)
        except SyntaxError:
            return
        if new != src:
            out.append((path, n.lineno, kind, seg(n), text, new))

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise):
            skip |= set(ast.walk(n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("print", "warn"):
            skip |= set(ast.walk(n))
        if isinstance(n, ast.If) and "verbose" in ast.dump(n.test):
            skip |= set(ast.walk(n))
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, "%s %s %s" % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant):
            add(n, "(%s) %s (%s)" % (seg(n.left), BIN[type(n.op)], seg(n.right)), "bin")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, op.join("(%s)" % seg(v) for v in n.values), "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, "(%s)" % seg(n.operand), "neg")
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float) and abs(n.value) <= 10:
            add(n, repr(n.value + 1), "const")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, repr(not n.value), "const")
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add(n.test, "(not (%s))" % seg(n.test), "cond")
            if isinstance(n, ast.If):
                add(n.test, "False", "cond")
        elif isinstance(n, ast.AugAssign):
            add(n, "pass", "del")
            t = seg(n)
            for a, b in (("+=", "-="), ("-=", "+="), ("+=", "="), ("*=", "/="), ("/=", "*=")):
                if a in t:
                    add(n, t.replace(a, b, 1), "aug")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", "del")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, "pass", "del")
        elif isinstance(n, ast.Attribute) and n.attr in NAMES:
            add(n, seg(n.value) + "." + NAMES[n.attr], "name")
        elif isinstance(n, ast.Attribute) and n.attr == "T":
            add(n, seg(n.value), "name")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
            add(n, seg(n.func.value), "copy")
        elif isinstance(n, (ast.Break, ast.Continue)):
            add(n, "pass", "del")
    return out


def main():
    a = argparse.ArgumentParser()
    a.add_argument("--n", type=int, default=100)
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--jobs", type=int, default=4)
    a.add_argument("--out", default="/tmp/mm/out.jsonl")
    a.add_argument("--files", default="")
    a = a.parse_args()
    rng = random.Random(a.seed)
    files = [f for f in FILES if os.path.exists(os.path.join(REPO, f)) and (not a.files or any(s in f for s in a.files.split(",")))]
    ms = [m for f in files for m in mutants(f)]
    print(len(ms), "mutants in", len(files), "files", flush=True)
    rng.shuffle(ms)
    seen = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            seen.add((d["file"], d["line"], d["old"], d["new"]))
    ms = [m for m in ms if (m[0], m[1], m[3], m[4]) not in seen][:a.n]
    free = Queue()
    for j in range(a.jobs):
        d = "/tmp/mm/w%d" % j
        shutil.rmtree(d, ignore_errors=True)
        subprocess.check_call(["cp", "-a", REPO, d])
        free.put(d)
    out = open(a.out, "a")

    def one(m):
        path, line, kind, old, new, text = m
        d = free.get()
        res = dict(file=path, line=line, kind=kind, old=old, new=new, caught=None, rc={})
        try:
            f = os.path.join(d, path)
            open(f, "w").write(text)
            for c in FILES[path]:
                try:
                    p = subprocess.run(["python3", V + "/bin/check.py", c], cwd=V, timeout=300,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                       env=dict(os.environ, PV_REPO=d, PV_WORKROOT=d + "_w", PV_EVIDENCE=d + "_w",
                                                VERIF_SEED="1", VERIF_TIER="quick"))
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    rc = 124
                res["rc"][c] = rc
                if rc:
                    res["caught"] = c
                    break
        finally:
            shutil.copy(os.path.join(REPO, path), os.path.join(d, path))
            free.put(d)
        out.write(json.dumps(res) + "\n")
        out.flush()

    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, ms))


if __name__ == "__main__":
    main()
