#!/usr/bin/env python3
"""Builds the drivers from /repo's working tree, runs the jobs of one property,
decides, and writes evidence.

  run.py check <id>     decide one property (VERIF_SEED, VERIF_TIER)
  run.py setup          build everything the checks use
  run.py replay <file>  run a recorded violation again
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, HERE)
from checks import CHECKS, LEVELS  # noqa: E402

NCPU = min(8, os.cpu_count() or 1)

CONF = {
    "ENABLE_STACK_OVERFLOW_DETECTION": "",
    "ENABLE_MEMALLOC_SLICE": "",
    "ENABLE_IO_SPLICE_SYSCALL": "",
    "CONFIG_STACK_BACKEND": "STACK_MMAP",
    "CONFIG_STACK_OVERFLOW_DETECTION": "1",
    "CONFIG_MEMALLOC_SLICE_ALIGN": "64",
    "CONFIG_MEMALLOC_SLICE_MAX_SIZE": "4096",
    "CONFIG_MEMALLOC_SLICE_MAX_COUNT": "1000",
    "CONFIG_SCHED_CLOCK": "CLOCK_NONE",
}

BASE = ["-g", "-U_FORTIFY_SOURCE", "-pthread", "-Wno-error", "-w"]
UB = ("-fsanitize=bounds,signed-integer-overflow,shift,null,vla-bound,"
      "integer-divide-by-zero,unreachable,return,bool,enum")
ASAN = ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address", UB,
        "-fno-sanitize-recover=all", "-mllvm", "-asan-stack=0"]
# Without function entries and exits the detector keeps no shadow call stack,
# which switching between tasks would get out of step.
TSAN = ["-O1", "-fno-omit-frame-pointer", "-fsanitize=thread",
        "-mllvm", "-tsan-instrument-func-entry-exit=0"]
VARIANTS = {
    # name: (compiler, flags, config changes (None removes), force-included)
    "prod": ("gcc", ["-O3"], {}, None),
    "nosplice": ("gcc", ["-O2"], {"ENABLE_IO_SPLICE_SYSCALL": None}, None),
    "heap": ("gcc", ["-O2"], {"CONFIG_STACK_BACKEND": "STACK_HEAP",
                              "ENABLE_STACK_OVERFLOW_DETECTION": None}, None),
    "heaptags": ("gcc", ["-O2"], {"CONFIG_STACK_BACKEND": "STACK_HEAP",
                                  "CONFIG_STACK_OVERFLOW_DETECTION": "2"}, None),
    "clock": ("gcc", ["-O2"], {"CONFIG_SCHED_CLOCK": "CLOCK_MONOTONIC"}, None),
    "simple": ("gcc", ["-O2"], {"ENABLE_MEMALLOC_SLICE": None}, None),
    "asan": ("clang", ASAN, {"ENABLE_MEMALLOC_SLICE": None}, None),
    "asanslice": ("clang", ASAN, {}, None),
    "asanns": ("clang", ASAN, {"ENABLE_MEMALLOC_SLICE": None,
                               "ENABLE_IO_SPLICE_SYSCALL": None}, None),
    "tsan": ("clang", TSAN, {"ENABLE_MEMALLOC_SLICE": None}, "tsan_jmp.h"),
    "tsanslice": ("clang", TSAN, {}, "tsan_jmp.h"),
}

WRAPS = """malloc calloc realloc free mmap munmap mprotect epoll_create epoll_create1
epoll_ctl epoll_wait epoll_pwait clock_gettime timerfd_create timerfd_settime read write readv
writev recv send recvfrom sendto recvmsg sendmsg splice accept accept4 connect poll
close open openat creat dup dup2 dup3 pipe pipe2 socket socketpair fcntl ioctl
sigaltstack sigaction pthread_create pthread_setspecific pthread_key_create getaddrinfo getnameinfo""".split()

TSAN_WRAPS = ["__tsan_atomic%d_%s" % (b, o) for b in (8, 32, 64) for o in
              ("load store exchange fetch_add fetch_sub fetch_and fetch_or "
               "compare_exchange_strong compare_exchange_weak "
               "compare_exchange_val").split()] + ["__tsan_atomic_thread_fence"]

SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=77:detect_leaks=0:abort_on_error=0:"
                    "detect_stack_use_after_return=0:handle_segv=0:handle_sigbus=0:"
                    "handle_abort=0:allocator_may_return_null=1:use_sigaltstack=0:"
                    "handle_sigill=0:handle_sigfpe=0:max_allocation_size_mb=1024:"
                    "quarantine_size_mb=64:print_legend=0:symbolize=1:color=never",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77",
    "TSAN_OPTIONS": "exitcode=77:atexit_sleep_ms=0:halt_on_error=1:report_signal_unsafe=0:color=never:"
                    "second_deadlock_stack=0:detect_deadlocks=0:history_size=4",
}


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


def repo_sources():
    srcs, hdrs = [], []
    for root, _, files in sorted(os.walk(os.path.join(REPO, "src"))):
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith((".c", ".S")):
                srcs.append(p)
            elif f.endswith((".h", ".s", ".inc")):
                hdrs.append(p)
    for root, _, files in sorted(os.walk(os.path.join(REPO, "include"))):
        for f in sorted(files):
            hdrs.append(os.path.join(root, f))
    return srcs, hdrs


def fhash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b"\0")
        try:
            with open(p, "rb") as f:
                h.update(f.read())
        except OSError:
            h.update(b"?")
        h.update(b"\0")
    return h.hexdigest()[:24]


class Builder:
    def __init__(self):
        self.srcs, self.hdrs = repo_sources()
        self.hdr_key = fhash(self.hdrs)
        self.vp_hdrs = [os.path.join(HERE, f) for f in sorted(os.listdir(HERE))
                        if f.endswith(".h")]
        self.vp_key = fhash(self.vp_hdrs)
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)

    def flags(self, variant, harness, plain=False):
        cc, fl, conf, inc = VARIANTS[variant]
        c = dict(CONF)
        for k, v in conf.items():
            if v is None:
                c.pop(k, None)
            else:
                c[k] = v
        defs = ["-D%s%s" % (k, "=" + v if v else "") for k, v in sorted(c.items())]
        if plain:
            fl = [f for f in fl if f not in ("-fsanitize=thread", "-mllvm") and
                  not f.startswith("-tsan")]
        out = [cc] + BASE + fl + defs + ["-I" + os.path.join(REPO, "include")]
        if harness:
            out += ["-I" + HERE, "-DVP_VARIANT=\"%s\"" % variant]
        else:
            out += ["-I" + os.path.join(REPO, "src")]
            if inc:
                out += ["-include", os.path.join(HERE, inc)]
        return out

    def obj_cmd(self, variant, src, harness):
        # our own monitors are invisible to the race detector
        plain = harness and variant.startswith("tsan") and \
            not os.path.basename(src).startswith("d_")
        fl = self.flags(variant, harness, plain)
        if src.endswith(".S"):
            fl = [f for f in fl]
            if "-include" in fl:
                i = fl.index("-include")
                del fl[i:i + 2]
        extra = " ".join(fl) + self.hdr_key + (self.vp_key if harness or
                                                VARIANTS[variant][3] else "")
        key = fhash([src], extra)
        obj = os.path.join(BUILD, "obj", key + ".o")
        return obj, fl + ["-c", src, "-o"]

    @staticmethod
    def compile(obj, cmd):
        if os.path.exists(obj):
            os.utime(obj)
            return None
        tmp = "%s.%d.%d.tmp" % (obj, os.getpid(), threading.get_ident())
        r = sh(cmd + [tmp])
        if r.returncode != 0:
            return "%s\n%s" % (" ".join(cmd), r.stdout)
        os.rename(tmp, obj)
        return None

    def build(self, wanted):
        """wanted: set of (driver, variant) -> {(driver, variant): exe}"""
        objs = {}
        todo = {}
        for drv, var in sorted(wanted):
            lst = []
            for s in self.srcs:
                o, c = self.obj_cmd(var, s, False)
                lst.append(o)
                todo[o] = c
            harness = ["vp.c", "vpw.c", "vpsig.c", drv + ".c"]
            if VARIANTS[var][3]:
                harness += ["tsan_jmp.c", "tsan_fence.c"]
            for h in harness:
                o, c = self.obj_cmd(var, os.path.join(HERE, h), True)
                lst.append(o)
                todo[o] = c
            objs[(drv, var)] = lst
        with cf.ThreadPoolExecutor(NCPU) as ex:
            errs = [e for e in ex.map(lambda kv: self.compile(*kv), todo.items()) if e]
        if errs:
            raise CheckError("build failed:\n" + "\n".join(errs)[:6000])
        exes = {}

        def link(item):
            (drv, var), lst = item
            cc, fl, _, _ = VARIANTS[var]
            san = [f for f in fl if f.startswith("-fsanitize")]
            wraps = ["-Wl," + ",".join("--wrap=" + w for w in WRAPS +
                                     (TSAN_WRAPS if VARIANTS[var][3] else []))]
            cmd = [cc, "-g", "-pthread"] + san + lst + wraps + ["-ldl", "-lm"]
            key = hashlib.sha256(" ".join(cmd).encode()).hexdigest()[:24]
            exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (drv, var, key))
            if not os.path.exists(exe):
                tmp = "%s.%d.tmp" % (exe, os.getpid())
                r = sh(cmd + ["-o", tmp])
                if r.returncode != 0:
                    return item[0], None, r.stdout
                os.rename(tmp, exe)
            else:
                os.utime(exe)
            return item[0], exe, None

        with cf.ThreadPoolExecutor(NCPU) as ex:
            for k, exe, err in ex.map(link, objs.items()):
                if err:
                    raise CheckError("link failed (%s): %s" % (k, err[-4000:]))
                exes[k] = exe
        return exes

    @staticmethod
    def prune(days=0.5):
        now = time.time()
        for d in ("obj", "bin"):
            p = os.path.join(BUILD, d)
            fs = [os.path.join(p, f) for f in os.listdir(p)]
            if len(fs) < 1500:
                continue
            for f in fs:
                try:
                    if now - os.stat(f).st_mtime > days * 86400:
                        os.unlink(f)
                except OSError:
                    pass


# ---------------------------------------------------------------------------
# running

CASE_CPU_S = 40.0     # processor time one case may use before it counts as stuck
CASE_WALL_S = 120.0   # wall time without progress before it counts as stuck


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_NOFILE, (1024, 4096))
    os.setpgid(0, 0)


def cpu_time(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            s = f.read()
        p = s[s.rindex(")") + 2:].split()
        return (int(p[11]) + int(p[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, ValueError):
        return 0.0


def kill_group(pr):
    try:
        os.killpg(pr.pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        pr.kill()
    except OSError:
        pass


class Stop:
    flag = False


def run_chunk(job, exe, seed, first, count, tier, tmp, idx, extra=()):
    out = os.path.join(tmp, "out%s" % idx)
    prog = os.path.join(tmp, "prog%s" % idx)
    log = os.path.join(tmp, "log%s" % idx)
    with open(prog, "wb") as f:
        f.write(b"\0" * 64)
    cmd = [exe, "--work", job["work"], "--seed", str(seed), "--first", str(first),
           "--count", str(count), "--out", out, "--progress", prog,
           "--thorough", "1" if tier == "thorough" else "0",
           "--level", str(job.get("level", 1)), "--param", str(job.get("param", 0)),
           "--signals", str(job.get("signals", 0))]
    env = dict(os.environ)
    env.update(SAN_ENV)
    env["TMPDIR"] = tmp
    env["VP_TMP"] = tmp
    stuck = None
    with open(log, "wb") as lf:
        pr = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=lf,
                              stderr=subprocess.STDOUT, env=env, cwd=tmp,
                              preexec_fn=limits)
        last, last_cpu, last_wall = None, 0.0, time.time()
        delay = 0.005
        while True:
            try:
                pr.wait(delay)
                break
            except subprocess.TimeoutExpired:
                delay = min(0.25, delay * 1.5)
            if Stop.flag:
                kill_group(pr)
                pr.wait()
                return {"kind": "stopped"}
            with open(prog, "rb") as f:
                cur = f.read(24)
            cpu, now = cpu_time(pr.pid), time.time()
            if cur != last:
                last, last_cpu, last_wall = cur, cpu, now
            elif cpu - last_cpu > CASE_CPU_S * job.get("slow", 1):
                stuck = "uses the processor without finishing"
            elif now - last_wall > CASE_WALL_S * job.get("slow", 1):
                stuck = "makes no progress"
            if stuck:
                kill_group(pr)
                pr.wait()
                break
    kill_group(pr)  # strays of the same group
    with open(prog, "rb") as f:
        case = struct.unpack("<Q", f.read(8))[0]
    with open(log, errors="replace") as f:
        text = f.read()
    base = {"job": job, "exe": exe, "cmd": cmd, "case": case, "first": first,
            "count": count, "log": text[-20000:], "seed": seed}
    if stuck:
        return dict(base, kind="stuck", key="stuck", detail="case %d %s" % (case, stuck))
    rc = pr.returncode
    m = re.search(r"^VPFAIL key=(\S+) work=(\S+) case=(\d+) (.*)$", text, re.M)
    if m:
        return dict(base, kind="violation", key=m.group(1), case=int(m.group(3)),
                    detail=m.group(4))
    m = re.search(r"^VPBROKEN (.*)$", text, re.M)
    if m:
        return dict(base, kind="broken", detail=m.group(1))
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): (\S+)|"
                  r"WARNING: (ThreadSanitizer): ([^\n(]+)|"
                  r"(runtime error): ([^\n]+)", text)
    if m:
        g = [x for x in m.groups() if x]
        fn = re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?([A-Za-z_]\w*)[^\n]*/repo/src", text)
        what = re.sub(r"\W+", "-", g[1].strip())[:60]
        return dict(base, kind="violation", key="sanitizer-" + what,
                    detail="%s: %s in %s" % (g[0], g[1].strip(), ",".join(fn[:4]) or "?"))
    if rc < 0:
        name = signal.Signals(-rc).name
        return dict(base, kind="violation", key="crash-" + name,
                    detail="died by %s" % name)
    if rc != 0:
        return dict(base, kind="broken", detail="exit status %d: %s" % (rc, text[-800:]))
    try:
        with open(out) as f:
            st = json.load(f)
        with open(out + ".hash", "rb") as f:
            hs = f.read()
    except (OSError, ValueError) as e:
        return dict(base, kind="broken", detail="no result: %s %s" % (e, text[-500:]))
    os.unlink(out)
    os.unlink(out + ".hash")
    return {"kind": "ok", "job": job, "stats": st, "hash": hs}


def known_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) match=/(.*?)/ (.*)$", line)
            if m:
                out.append((m.group(1), m.group(2), m.group(3), m.group(4)))
    return out


def match_known(known, prop, r):
    for kp, kk, rx, what in known:
        if kp == prop and re.fullmatch(kk, r["key"]) and \
                re.search(rx, "work=%s %s" % (r["job"]["work"], r["detail"])):
            return what
    return None


def write_replay(prop, r, seed, tier):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    name = re.sub(r"[^\w.-]+", "_", "%s-%s-%s-%d.json" % (prop, r["job"]["work"],
                                                         r["key"], r["case"]))
    p = os.path.join(d, name)
    with open(p, "w") as f:
        json.dump({"property": prop, "job": r["job"], "seed": seed, "tier": tier,
                   "case": r["case"], "first": r["first"], "count": r["count"],
                   "key": r["key"],
                   "detail": r["detail"], "log": r["log"]}, f, indent=1)
    return p


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    spec = CHECKS[prop]
    only = os.environ.get("VP_ONLY")
    jobs = [j for j in spec["jobs"] if not only or re.search(only, j["work"] + "@" + j["variant"])]
    scale = float(os.environ.get("VP_SCALE", "1"))
    ev_path = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    exes = Builder().build({(j["driver"], j["variant"]) for j in
                            jobs + spec.get("solo", [])})
    t_build = time.time() - t0
    known = known_findings()
    tmp = tempfile.mkdtemp(prefix="vp-%s-" % prop)
    os.chmod(tmp, 0o700)
    results = []
    violation = None
    knowns = set()
    broken = None
    foreign = n_broken = 0
    keys = spec.get("keys")
    solo = set()

    def mine(r):
        return (not keys or re.match(keys, r["key"])) and r["key"] not in solo

    try:
        # what already fails without the circumstances the property is about
        # is not its violation
        for n, j in enumerate(spec.get("solo", [])):
            sub = os.path.join(tmp, "solo%d" % n)
            os.makedirs(sub, exist_ok=True)
            first, end = 0, j["quick"]
            while first < end and len(solo) < 20:
                r = run_chunk(j, exes[(j["driver"], j["variant"])], seed, first,
                              end - first, tier, sub, "solo%d" % n)
                if r["kind"] not in ("violation", "stuck"):
                    break
                solo.add(r["key"])
                first = max(r["case"] + 1, first + 1)
        chunks = []
        for n, j in enumerate(jobs):
            total = j["thorough"] if tier == "thorough" else j["quick"]
            total = max(1, int(total * scale)) if j.get("scalable", True) else total
            size = j.get("chunk") or max(1, -(-total // (NCPU * (4 if keys else 1))))
            size = min(size, 200000)
            for i, first in enumerate(range(0, total, size)):
                chunks.append((j, n * 100000000 + first, min(size, total - first),
                               "%d-%d" % (n, i)))
        chunks.sort(key=lambda c: -c[0].get("weight", 1))
        cv = threading.Lock()

        def one(j, exe, first, count, sub, idx):
            r = run_chunk(j, exe, seed, first, count, tier, sub, idx)
            if r["kind"] == "stuck":
                # inconclusive: once more, alone, from that case
                r2 = run_chunk(j, exe, seed, r["case"], 1, tier, sub, idx + "r")
                if r2["kind"] == "ok":
                    r2 = run_chunk(j, exe, seed, first, count, tier, sub, idx + "s")
                if r2["kind"] == "stuck":
                    r2["kind"] = "violation"
                r = r2
            if r["kind"] == "violation" and j.get("signals"):
                # the same without signals: what fails there, too, is not
                # about them
                calm = run_chunk(dict(j, signals=0), exe, seed, first, count, tier,
                                 sub, idx + "q")
                if calm["kind"] in ("violation", "stuck") and calm["key"] == r["key"]:
                    with cv:
                        solo.add(r["key"])
            return r

        def work(c):
            nonlocal violation, broken, foreign, n_broken
            j, first, count, idx = c
            exe = exes[(j["driver"], j["variant"])]
            end, tries = first + count, 0
            while first < end and not Stop.flag:
                sub = os.path.join(tmp, idx)
                os.makedirs(sub, exist_ok=True)
                r = one(j, exe, first, end - first, sub, idx)
                shutil.rmtree(sub, ignore_errors=True)
                with cv:
                    if r["kind"] == "ok":
                        results.append(r)
                    elif r["kind"] == "violation":
                        what = match_known(known, prop, r)
                        if what:
                            knowns.add((r["key"], what))
                        elif not mine(r):
                            # some other property's business: go on behind it
                            foreign += 1
                            tries += 1
                            if tries < 8 and foreign < 200:
                                first = r["case"] + 1
                                continue
                        elif violation is None:
                            violation = r
                            Stop.flag = True
                    elif r["kind"] == "broken":
                        broken = broken or r
                        n_broken += 1
                        if n_broken > 20:
                            Stop.flag = True
                return

        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(work, chunks))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    for key, what in sorted(knowns):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, what, key))

    events, samples, per_job = {}, [], {}
    distinct, cases = set(), 0
    for r in results:
        st = r["stats"]
        cases += st["cases"]
        for k, v in st["events"].items():
            events[k] = events.get(k, 0) + v
        nm = "%s@%s" % (r["job"]["work"], r["job"]["variant"])
        salt = hashlib.md5(nm.encode()).digest()[:2]
        pj = per_job.setdefault(nm, {"cases": 0, "distinct": set(), "samples": []})
        pj["cases"] += st["cases"]
        for i in range(0, len(r["hash"]), 8):
            pj["distinct"].add(r["hash"][i:i + 8])
            distinct.add(r["hash"][i:i + 8] + salt[:0])
        if len(pj["samples"]) < 2:
            pj["samples"] += st["samples"][:2 - len(pj["samples"])]
    for nm in sorted(per_job):
        samples += per_job[nm]["samples"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVELS.get(prop, "exploration"),
        "coverage": {
            "evaluations": cases,
            "distinct_nontrivial": len(distinct),
            "rule": spec["rule"],
            "samples": samples[:16],
            "observed_events": events,
            "workloads": {nm: {"cases": pj["cases"], "distinct": len(pj["distinct"])}
                          for nm, pj in sorted(per_job.items())},
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    if foreign:
        ev["coverage"]["cases_ended_by_other_failures"] = foreign
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    if violation:
        p = write_replay(prop, violation, seed, tier)
        print("%s: %s@%s case %d: %s" % (violation["key"], violation["job"]["work"],
                                          violation["job"]["variant"], violation["case"],
                                          violation["detail"]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if broken:
        print("CHECK-ERROR property=%s %s@%s case %s: %s" % (
            prop, broken["job"]["work"], broken["job"]["variant"], broken.get("case"),
            broken["detail"]))
        return 2
    # a run that observed nothing decides nothing
    if not only:
        missing = [e for e in spec.get("require", []) if not events.get(e)]
        if missing or not distinct or not cases:
            print("CHECK-ERROR property=%s nothing observed: %s" % (prop, missing))
            return 2
    print("HELD property=%s tier=%s seed=%d cases=%d distinct=%d wall=%.1fs (build %.1fs)" % (
        prop, tier, seed, cases, len(distinct), time.time() - t0, t_build))
    return 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    j = d["job"]
    exes = Builder().build({(j["driver"], j["variant"])})
    exe = exes[(j["driver"], j["variant"])]
    tmp = tempfile.mkdtemp(prefix="vp-replay-")
    try:
        r = run_chunk(j, exe, d["seed"], d["case"], 1, d["tier"], tmp, "a")
        if r["kind"] == "ok":
            # may depend on earlier cases of the same process
            r = run_chunk(j, exe, d["seed"], d["first"], d["count"], d["tier"], tmp, "b")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print(r.get("log", "")[-6000:])
    if r["kind"] in ("violation", "stuck"):
        print("%s: case %d: %s" % (r["key"], r["case"], r["detail"]))
        return 1
    print(r["kind"], r.get("detail", ""))
    return 0 if r["kind"] == "ok" else 2


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "check":
        return check(sys.argv[2])
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        want = set()
        for spec in CHECKS.values():
            want |= {(j["driver"], j["variant"]) for j in
                     spec["jobs"] + spec.get("solo", [])}
        b = Builder()
        b.build(want)
        b.prune()
        print("built %d programs" % len(want))
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK-ERROR %s" % e)
        sys.exit(2)
