"""run TLC from a driver: behaviours of a specification to replay into the code"""
import os
import re
import shutil
import subprocess
import tempfile

SPEC = os.environ.get("PV_SPEC") or os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def tlc(module, cfg=None, extra=(), timeout=300, env=None):
    meta = tempfile.mkdtemp(prefix="tlcd_", dir=os.environ.get("PV_WORK"))
    try:
        p = subprocess.run(["java", "-Xmx4g", "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC", "-workers", "2",
                            "-metadir", meta, "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg",
                            *extra, module + ".tla"], cwd=SPEC, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, env=env)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout.decode("utf8", "replace")
    if "Model checking completed" not in out and "-simulate" not in extra:
        raise RuntimeError("TLC: " + out[-2000:])
    return out


def parse(text):
    """a printed TLA+ value (numbers, strings, booleans, tuples, sets, records)"""
    pos = [0]

    def ws():
        while pos[0] < len(text) and text[pos[0]].isspace():
            pos[0] += 1

    def val():
        ws()
        if text.startswith("<<", pos[0]):
            return seq("<<", ">>")
        c = text[pos[0]]
        if c == "{":
            return seq("{", "}")
        if c == "[":
            pos[0] += 1
            d = {}
            while True:
                ws()
                if text[pos[0]] == "]":
                    pos[0] += 1
                    return d
                m = re.compile(r"(\w+)\s*\|->").match(text, pos[0])
                pos[0] = m.end()
                d[m.group(1)] = val()
                ws()
                if text[pos[0]] == ",":
                    pos[0] += 1
        if c == '"':
            e = text.index('"', pos[0] + 1)
            s = text[pos[0] + 1:e]
            pos[0] = e + 1
            return s
        m = re.compile(r"-?\d+|TRUE|FALSE|\w+").match(text, pos[0])
        pos[0] = m.end()
        s = m.group(0)
        return s == "TRUE" if s in ("TRUE", "FALSE") else int(s) if re.match(r"-?\d", s) else s

    def seq(o, c):
        pos[0] += len(o)
        out = []
        while True:
            ws()
            if text.startswith(c, pos[0]):
                pos[0] += len(c)
                return out
            out.append(val())
            ws()
            if text[pos[0]] == ",":
                pos[0] += 1
    return val()


def prints(out, tag):
    """the distinct tuples <<tag, ...>> TLC printed"""
    got, seen = [], set()
    for m in re.finditer(r'^<<"%s",' % tag, out, re.M):
        depth, i = 0, m.start()
        while True:
            two = out[i:i + 2]
            if two == "<<":
                depth, i = depth + 1, i + 2
            elif two == ">>":
                depth, i = depth - 1, i + 2
                if depth == 0:
                    break
            else:
                i += 1
        s = re.sub(r"\s+", " ", out[m.start():i])
        if s not in seen:
            seen.add(s)
            got.append(parse(s))
    return sorted(got, key=repr)
