"""Build a private copy of /repo's working tree: scratch.py DEST.

Copies /repo/pystruct to DEST/pystruct and provides its two Cython
extensions: the ones in /repo are reused when build.sh made them from the
sources now in the tree, otherwise they are compiled here.  /repo is only read.
Run with the interpreter the code runs under.
"""
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig

import Cython
import numpy

REPO = os.environ.get("PV_REPO", "/repo")
EXTS = [("src/utils.pyx", "pystruct/models/utils"),
        ("pystruct/inference/_viterbi.pyx", "pystruct/inference/_viterbi")]
SUFFIX = sysconfig.get_config_var("EXT_SUFFIX")


def main(dest):
    shutil.copytree(os.path.join(REPO, "pystruct"), os.path.join(dest, "pystruct"),
                    ignore=shutil.ignore_patterns("*.so", "__pycache__", "tests", "*.c"))
    procs = []
    for pyx, target in EXTS:
        src = os.path.join(REPO, pyx)
        data = open(src, "rb").read()
        so = os.path.join(REPO, target) + SUFFIX
        stamp = os.path.join(REPO, "build", "vp", os.path.basename(target) + ".stamp")
        key = "%s %s %s %s " % (sys.version, Cython.__version__, numpy.__version__, pyx)
        digest = hashlib.sha256(key.encode() + data).hexdigest()
        out = os.path.join(dest, target) + SUFFIX
        if os.path.exists(so) and os.path.exists(stamp):
            blob = open(so, "rb").read()
            if open(stamp).read() == digest + " " + hashlib.sha256(blob).hexdigest():
                with open(out, "wb") as f:
                    f.write(blob)
                continue
        base = os.path.join(dest, os.path.basename(target))
        shutil.copy(src, base + ".pyx")
        cmd = ("%s -m cython -2 -o %s.c %s.pyx && gcc -shared -fPIC -pthread -O2 -fwrapv -w"
               " -I%s -I%s %s.c -o %s" % (sys.executable, base, base,
                                          sysconfig.get_paths()["include"],
                                          numpy.get_include(), base, out))
        procs.append(subprocess.Popen(["bash", "-c", cmd]))
    return max([p.wait() for p in procs] or [0])


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
