#!/usr/bin/env python3
"""mutate.py SPEC.py: runs checks on scratch copies with single edits.

The spec defines M, a list of (file, old, new, [checks]); a mutant counts as
caught when one of its checks reports a violation."""
import subprocess, sys, os, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

ns = {}
exec(open(sys.argv[1]).read(), ns)
M = ns["M"]
pick = [int(x) for x in sys.argv[2:]]


def one(k):
    f, old, new, checks = M[k]
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        t = os.path.join(d, "r")
        shutil.copytree(os.environ.get("AM_REPO", "/repo"), t, symlinks=True)
        p = os.path.join(t, f)
        s = open(p).read()
        if old not in s:
            return "%d NOT FOUND %r" % (k, old)
        open(p, "w").write(s.replace(old, new, 1))
        out = []
        for c in checks:
            r = subprocess.run(["timeout", "900", "python3", "vp/run.py", "check", c],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, VP_REPO=t))
            l = r.stdout.strip().split("\n")
            if r.returncode == 1:
                out.append("%s caught: %s" % (c, l[0][:110]))
                break
            out.append("%s exit %d %s" % (c, r.returncode, l[0][:160] if r.returncode else ""))
        ok = "caught" in out[-1]
        return "%s %d %s: %s" % ("ok    " if ok else "MISSED", k, ("%s:%d %s" % (f, old.count("\n"), old.split("\n")[-2].strip()) if len(old) > 1000 else repr(new)[:70]), " | ".join(out))
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, pick or range(len(M))):
        print(r, flush=True)
