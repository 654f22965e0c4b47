#!/usr/bin/env python3
"""automut.py OUT [-j N] [-k every] [-s seed] FILE...: mechanical edits of source files.

Each edit that compiles and passes the existing tests is given to the checks of
its file; OUT gets a line for every one (dead: does not compile or fails the
tests, caught, MISSED).  Lines already in OUT are not done again."""
import os, random, re, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("AM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

MAP = [
    ("mem/slice", "C13 C14 C26 C25"), ("mem/simple", "C13 C26"), ("mem/", "C13 C14 C26"),
    ("kern/task/hev-task-call", "C29 C02 C28"), ("kern/task/hev-task-exec", "C01 C02 C28"),
    ("kern/task/hev-task-stack", "C28 C02 C26 C27"),
    ("kern/task/hev-task.c", "C01 C03 C04 C05 C06 C12 C02 C27"),
    ("kern/aide", "C24 C25 C27 C30"), ("kern/sync/hev-task-mutex", "C07 C08 C30"),
    ("kern/sync", "C08 C07 C30"), ("channel-select", "C11 C10 C26 C30"), ("channel", "C09 C10 C11 C27 C26 C30"),
    ("kern/time", "C05 C03 C08 C27 C26 C30"), ("kern/io", "C06 C05 C27 C30"),
    ("system-schedule", "C01 C03 C04 C06 C05 C12 C25 C02 C30"), ("kern/core", "C01 C27 C25 C26 C03"),
    ("object", "C23 C25"), ("debugger", "C28"), ("stack-detector", "C28 C31 C25 C27"),
    ("cio/socket", "C21 C23 C22 C27 C26"), ("cio/fd", "C21 C23 C22 C26"),
    ("cio/buffer", "C21 C22 C23 C27 C26"), ("cio/null", "C21 C22 C23 C26"),
    ("cio/base", "C21 C22 C23 C26 C30"), ("lib/list", "C09 C10 C11 C24 C13 C25"),
    ("dns-proxy", "C24 C27 C25 C30"), ("dns", "C24"), ("rbtree", "C01 C04 C05 C03"),
    ("io/poll", "C20 C30"), ("io/pipe", "C19"), ("io/socket", "C16 C17 C19"),
    ("io/buffer", "C15 C18 C22"), ("io/basic", "C16 C18 C19 C17 C30"),
]


def checks(f):
    for k, v in MAP:
        if k in f:
            return v.split()
    return []


OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
       (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
       (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "),
       (r" \+= ", " = "), (r" -= ", " += "), (r"\+\+", "--"), (r"--", "++"),
       (r" & ", " | "), (r" \| ", " & "), (r"= 0;", "= 1;"), (r"= 1;", "= 0;"),
       (r"return -1;", "return 0;"), (r"return 0;", "return -1;"), (r"= NULL;", "= (void *)1;"),
       (r"return -2;", "return -1;"), (r"next", "prev"), (r"prev", "next"),
       (r"left", "right"), (r"right", "left"), (r"_tail", "_head"), (r"ACQUIRE", "RELAXED"),
       (r"RELEASE", "RELAXED"), (r"ACQ_REL", "RELAXED"), (r"SEQ_CST", "RELAXED")]


def mutants(path):
    src = open(path).read().split("\n")
    depth = 0
    for n, l in enumerate(src):
        s = l.strip()
        if not s or s.startswith(("#", "*", "/*", "//")):
            continue
        depth_before = depth
        depth += l.count("{") - l.count("}")
        if depth_before == 0:
            continue
        decl = re.match(r"(static |const |struct |unsigned |int |char |void |size_t |ssize_t |Hev\w+ [\w*]|uint\w+ |socklen_t )", s)
        # a statement that ends on this line and starts on it
        prev = src[n - 1].strip()
        starts = prev == "" or prev.endswith((";", "{", "}", ":", ")", "else", "do", "*/"))
        if s.endswith(";") and starts and not decl and not re.match(r"(return|break|goto|continue|case|default|\}|for|while)", s):
            yield n, l, re.match(r"\s*", l).group(0) + ";", "drop"
        if s in ("break;", "continue;"):
            yield n, l, re.match(r"\s*", l).group(0) + ";", "drop"
        m = re.match(r"(\s*(?:\} )?(?:else )?if \()(.*)(\)(?: \{)?)$", l)
        if m:
            yield n, l, m.group(1) + "0 && (" + m.group(2) + ")" + m.group(3), "never"
            yield n, l, m.group(1) + "1 || (" + m.group(2) + ")" + m.group(3), "always"
        for a, b in OPS:
            for k in re.finditer(a, l):
                new = l[:k.start()] + b + l[k.end():]
                if "->" in new and new.count("->") != l.count("->"):
                    continue
                if "- >" in new or "+>" in new or ("->" in l[max(0, k.start() - 1):k.end() + 1] and a in ("--",)):
                    continue
                yield n, l, new, a


lock = threading.Lock()
tests = threading.Lock()


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(job, out):
    key, path, n, new = job
    d = tempfile.mkdtemp(prefix="am.", dir="/tmp")
    t = os.path.join(d, "r")
    try:
        shutil.copytree(REPO, t, symlinks=True)
        p = os.path.join(t, path)
        src = open(p).read().split("\n")
        src[n] = new
        open(p, "w").write("\n".join(src))
        shutil.rmtree(os.path.join(t, "_build", "bin"), ignore_errors=True)
        names = [x[:-2] for x in sorted(os.listdir(os.path.join(t, "tests"))) if x.endswith(".c")]
        mk = ["make", "-k", "-j4", "CC=gcc", "BINDIR=_build/bin", "BUILDDIR=_build/static"]
        r = run(mk + ["static"], cwd=t)
        if r.returncode:
            return "dead build"
        r = run(mk + ["_build/bin/test-" + x for x in names], cwd=t)
        if r.returncode:
            return "dead build"
        with tests:
            for x in names:
                if x == "task-dns":
                    continue
                r = run(["timeout", "-k", "2", "5", "_build/bin/test-" + x], cwd=t, stdin=subprocess.DEVNULL)
                if r.returncode:
                    return "dead test " + x
        res = []
        # a part of the cases first
        for c, scale in [(c, "0.2") for c in checks(path)] + [(c, "1") for c in checks(path)]:
            try:
                r = run(["timeout", "-k", "5", "600", "python3", VERIF + "/vp/run.py", "check", c],
                        env=dict(os.environ, VP_REPO=t, VP_SCALE=scale), cwd=VERIF)
            except Exception as e:
                return "ERROR " + str(e)
            l = r.stdout.strip().split("\n")
            if r.returncode == 1:
                return "caught %s %s %s" % (c, scale, l[0][:100])
            if r.returncode and scale == "1":
                res.append("%s:exit%d %s" % (c, r.returncode, l[-1][:100]))
        return "MISSED " + " ".join(res)
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]
    out = a.pop(0)
    jn, every, shuffle = 2, 1, False
    while a and a[0].startswith("-"):
        o = a.pop(0)
        if o == "-j":
            jn = int(a.pop(0))
        elif o == "-k":
            every = int(a.pop(0))
        elif o == "-s":
            random.seed(int(a.pop(0)))
            shuffle = True
    done = set()
    if os.path.exists(out):
        for l in open(out):
            done.add(l.split("\t")[0])
    jobs = []
    for f in a:
        for i, (n, old, new, op) in enumerate(mutants(os.path.join(REPO, f))):
            key = "%s:%d#%d" % (f, n + 1, i)
            if i % every == 0 and key not in done and new != old:
                jobs.append((key, f, n, new))
    if shuffle:
        random.shuffle(jobs)
    print(len(jobs), "edits", flush=True)
    if jn == 0:
        return

    def go(j):
        r = one(j, out)
        with lock:
            open(out, "a").write("%s\t%s\t%s\n" % (j[0], r, j[3].strip()))

    with ThreadPoolExecutor(jn) as ex:
        list(ex.map(go, jobs))


main()
