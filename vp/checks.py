"""Which workloads decide which property."""

from meta import META

def J(driver, variant, work, quick, thorough=None, **kw):
    d = {"driver": driver, "variant": variant, "work": work, "quick": quick,
         "thorough": thorough if thorough is not None else quick * 20}
    d.update(kw)
    return d

LEVELS = {"C27": "fault_enumeration"}

CHECKS = {
    "C01": {
        "jobs": [J("d_sched", "prod", "life", 8000), J("d_sched", "asan", "life", 2000),
                 J("d_sched", "clock", "life", 1000)],
    },
    "C03": {
        "jobs": [J("d_sched", "prod", "wake", 8000), J("d_sched", "asan", "wake", 2000),
                 J("d_sched", "clock", "wake", 1000)],
    },
    "C04": {
        "jobs": [J("d_sched", "prod", "fair", 8000), J("d_sched", "asan", "fair", 2000),
                 J("d_sched", "prod", "long", 8, 40, chunk=1)],
    },
    "C12": {
        "jobs": [J("d_sched", "prod", "join", 8000), J("d_sched", "asan", "join", 2000),
                 J("d_sched", "clock", "join", 1000)],
    },

    "C02": {
        "jobs": [J("d_ctx", "prod", "ctx", 8000), J("d_ctx", "asan", "ctx", 2000), J("d_ctx", "heap", "ctx", 2000),
                 J("d_ctx", "heaptags", "ctx", 1000), J("d_ctx", "clock", "ctx", 1000)],
    },
    "C28": {
        "jobs": [J("d_ctx", "prod", "stack", 4000), J("d_ctx", "prod", "overflow", 800)],
    },
    "C31": {
        "jobs": [J("d_ctx", "prod", "faults", 6000)],
    },
    "C29": {
        "jobs": [J("d_ctx", "prod", "call", 8000), J("d_ctx", "asan", "call", 2000)],
    },

    "C05": {
        "jobs": [J("d_time", "prod", "sleep", 20000), J("d_time", "asan", "sleep", 4000), J("d_time", "prod", "real", 200),
                 J("d_time", "clock", "sleep", 2000)],
    },
    "C06": {
        "jobs": [J("d_fd", "prod", "fd", 20000), J("d_fd", "asan", "fd", 4000), J("d_fd", "prod", "burst", 2000)],
    },
    "C07": {
        "jobs": [J("d_sync", "prod", "mutex", 20000), J("d_sync", "asan", "mutex", 4000)],
    },
    "C08": {
        "jobs": [J("d_sync", "prod", "cond", 20000), J("d_sync", "asan", "cond", 4000)],
    },
    "C09": {
        "jobs": [J("d_chan", "prod", "data", 20000), J("d_chan", "asan", "data", 5000), J("d_chan", "prod", "huge", 32, 64),
                 J("d_chan", "prod", "count", 60), J("d_chan", "asan", "count", 20)],
    },
    "C10": {
        "jobs": [J("d_chan", "prod", "destroy", 20000), J("d_chan", "asan", "destroy", 5000), J("d_chan", "simple", "destroy", 10000)],
    },
    "C11": {
        "jobs": [J("d_chan", "prod", "select", 20000), J("d_chan", "asan", "select", 5000)],
    },
    "C13": {
        "jobs": [J("d_mem", "prod", "mem", 6000), J("d_mem", "simple", "mem", 2000), J("d_mem", "asanslice", "mem", 1000, param=1)],
    },
    "C14": {
        "jobs": [J("d_mem", "prod", "cache", 3000), J("d_mem", "asanslice", "cache", 300)],
    },
    "C15": {
        "jobs": [J("d_buf", "prod", "buf", 10000), J("d_buf", "simple", "buf", 4000, param=1), J("d_buf", "asan", "buf", 3000), J("d_buf", "prod", "small", 30000), J("d_buf", "prod", "huge", 100)],
    },
    "C16": {
        "jobs": [J("d_io", "prod", "stream", 10000), J("d_io", "asan", "stream", 2000), J("d_io", "prod", "conn", 500)],
    },
    "C17": {
        "jobs": [J("d_io", "prod", "sock", 10000), J("d_io", "asan", "sock", 2000), J("d_io", "prod", "dgram", 2000)],
    },
    "C18": {
        "jobs": [J("d_spl", "prod", "splice", 4000), J("d_spl", "nosplice", "splice", 4000), J("d_spl", "asan", "splice", 500, param=1), J("d_spl", "asanns", "splice", 500, param=1)],
    },
    "C19": {
        "jobs": [J("d_open", "prod", "create", 2000), J("d_open", "nosplice", "create", 500), J("d_open", "prod", "fail", 144)],
    },
    "C20": {
        "jobs": [J("d_poll", "prod", "poll", 20000), J("d_poll", "asan", "poll", 3000)],
    },
    "C21": {
        "jobs": [J("d_cio", "prod", "chain", 10000), J("d_cio", "asan", "chain", 2000), J("d_cio", "prod", "dgram", 3000), J("d_cio", "asan", "dgram", 500),
                 J("d_cio", "prod", "odd", 1000), J("d_cio", "asan", "odd", 200)],
    },
    "C22": {
        "jobs": [J("d_cio", "prod", "splice", 4000), J("d_cio", "nosplice", "splice", 1000), J("d_cio", "asan", "splice", 1000, param=1)],
    },
    "C23": {
        "jobs": [J("d_cio", "prod", "object", 8000), J("d_cio", "asan", "object", 3000),
                 J("d_mt", "tsan", "shared", 600), J("d_mt", "prod", "shared", 600)],
    },
    "C24": {
        "jobs": [J("d_dns", "prod", "one", 800), J("d_dns", "asan", "one", 400),
                 J("d_dns", "prod", "threads", 200, chunk=1),
                 J("d_dns", "asan", "threads", 100, chunk=1),
                 J("d_dns", "tsan", "threads", 100, chunk=1),
                 J("d_dns", "prod", "real", 400), J("d_dns", "asan", "real", 100)],
    },
    "C25": {
        "jobs": [J("d_mt", "prod", "mt", 1500, chunk=1, param=1),
                 J("d_mt", "asan", "mt", 600, chunk=1),
                 J("d_mt", "tsan", "mt", 1500, chunk=1),
                 J("d_mt", "tsanslice", "mt", 1500, chunk=1),
                 J("d_mt", "tsan", "shared", 600), J("d_mt", "prod", "shared", 600)],
        "solo": [J("d_mt", "prod", "solo", 400), J("d_mt", "tsan", "solo", 200)],
    },
    "C26": {
        "keys": "sanitizer|crash|leak|fd-leak|unmap|double-close|overrun",
        "jobs": [J("d_mix", "prod", "mix", 20000), J("d_mix", "asan", "mix", 20000),
                 J("d_mix", "asanslice", "mix", 8000), J("d_mix", "heap", "mix", 4000),
                 J("d_mix", "simple", "mix", 4000), J("d_mix", "nosplice", "mix", 4000),
                 J("d_mix", "asanns", "mix", 4000), J("d_mix", "clock", "mix", 2000),
                 J("d_mix", "heaptags", "mix", 2000),
                 J("d_mix", "prod", "real", 400), J("d_mix", "asan", "real", 200)] +
                [J(d, "asan", w, 1500) for d, w in
                 [("d_buf", "buf"), ("d_chan", "data"), ("d_chan", "destroy"),
                  ("d_chan", "select"), ("d_cio", "chain"), ("d_cio", "dgram"),
                  ("d_cio", "object"), ("d_cio", "splice"), ("d_ctx", "call"),
                  ("d_ctx", "ctx"), ("d_fd", "fd"), ("d_io", "sock"),
                  ("d_io", "stream"), ("d_poll", "poll"), ("d_sched", "fair"),
                  ("d_sched", "join"), ("d_sched", "life"), ("d_sched", "wake"),
                  ("d_spl", "splice"), ("d_sync", "cond"), ("d_sync", "mutex"),
                  ("d_time", "sleep")]] +
                [J("d_mem", "asanslice", "mem", 1500), J("d_mem", "asanslice", "cache", 500),
                 J("d_dns", "asan", "one", 200)],
    },
    "C27": {
        "jobs": [J("d_fault", v, "setup", 1100) for v in
                 ("prod", "asan", "simple", "heap", "nosplice", "asanslice")] +
                [J("d_fault", v, "lookup", 96, chunk=1) for v in ("prod", "asan", "simple")],
    },
}

CHECKS["C30"] = {
    "jobs": [J("d_idle", "prod", "idle", 1200, 24000), J("d_idle", "nosplice", "idle", 300, 6000),
             J("d_idle", "simple", "idle", 150, 3000)],
}

CHECKS["C32"] = {
    "jobs": [J(d, "prod", w, n, signals=30) for d, w, n in
             [("d_mix", "mix", 4000), ("d_mix", "real", 200), ("d_sched", "life", 3000), ("d_sched", "wake", 3000),
              ("d_sched", "join", 3000), ("d_sched", "fair", 3000), ("d_time", "sleep", 4000), ("d_time", "real", 100),
              ("d_fd", "fd", 4000), ("d_sync", "mutex", 4000), ("d_sync", "cond", 4000),
              ("d_chan", "data", 4000), ("d_chan", "destroy", 4000), ("d_chan", "select", 4000),
              ("d_ctx", "ctx", 2000), ("d_ctx", "call", 2000),
              ("d_io", "stream", 2000), ("d_io", "conn", 200), ("d_io", "sock", 2000), ("d_spl", "splice", 1000),
              ("d_poll", "poll", 2000), ("d_cio", "chain", 1000), ("d_cio", "splice", 500),
              ("d_dns", "one", 200), ("d_dns", "real", 100)]] +
            [J("d_mix", "asan", "mix", 2000, signals=30), J("d_mix", "heap", "mix", 1000, signals=30),
             J("d_spl", "nosplice", "splice", 500, signals=30)] +
            [J("d_mt", "prod", "mt", 300, chunk=1, param=1, signals=30),
             J("d_dns", "prod", "threads", 100, chunk=1, signals=30)],
}

# the cheap ones explore more in the quick tier
MORE = {"C01": 4, "C02": 6, "C03": 8, "C04": 4, "C05": 6, "C06": 4, "C07": 10, "C08": 8,
        "C09": 6, "C10": 6, "C11": 6, "C12": 4, "C13": 2, "C14": 4, "C15": 8, "C16": 5,
        "C17": 5, "C18": 4, "C19": 4, "C20": 6, "C21": 2, "C23": 4, "C24": 3, "C28": 5,
        "C29": 4}

for _id, _c in CHECKS.items():
    for _j in _c["jobs"]:
        if _j["work"] not in ("huge", "long"):
            _j["quick"] *= MORE.get(_id, 1)
            _j["thorough"] = max(_j["thorough"], 3 * _j["quick"])
    _c["rule"], _c["require"], _c["assumptions"] = META[_id]
