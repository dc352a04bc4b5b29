import conc
LEVEL = "model_checking"
W = ["gettimeofday", "time"]
LAST = 2932896  # 9999-12-31
SIZE = {"1123": 30, "2822": 32, "utc": 30}


def instant(rng):
    r = rng.random()
    if r < .25:
        return rng.randrange(LAST + 1), rng.choice([0, 1, 59, 60, 3599, 3600, 43199, 43200, 86399, rng.randrange(86400)])
    if r < .5:  # around year ends, leap days and month ends
        y = rng.choice([1970, 1972, 1999, 2000, 2001, 2024, 2037, 2038, 2099, 2100, 2101, 2400, 9999, rng.randrange(1970, 9999)])
        d = 365 * (y - 1970) + (y - 1) // 4 - (y - 1) // 100 + (y - 1) // 400 - 477
        return min(LAST, max(0, d + rng.choice([-1, 0, 1, 30, 31, 58, 59, 60, 364, 365, rng.randrange(366)]))), rng.choice([0, 86399, rng.randrange(86400)])
    if r < .6:
        k = rng.choice([2 ** 31, 2 ** 32, 2 ** 31 - 1, 2 ** 33, 0, 1]) + rng.randrange(-2, 3) * rng.choice([1, 3600])
        return max(0, k) // 86400, max(0, k) % 86400
    return 19000 + rng.randrange(4000), rng.randrange(86400)


def script(rng, i):
    ev = []
    d, s = instant(rng)
    for _ in range(rng.randrange(10, 30)):
        r = rng.random()
        if r < .35:
            d, s = instant(rng)
        elif r < .6:
            s = min(86399, max(0, s + rng.choice([-1, 1, 1, 60, 3600])))
        tz = rng.choice([0, 0, 8, rng.randrange(-12, 13)])
        us = rng.choice([0, 999, 1000, 999999, rng.randrange(10 ** 6)])
        op = rng.choice(["date", "str", "cur", "cur", "cur", "cur", "ms", "rfc", "zone", "init", "cleanup"])
        e = {"op": op, "d": d, "s": s}
        if op in ("date", "str", "cur"):
            e["tz"] = tz
        if op in ("str", "cur"):
            e.update(us=us, file=rng.random() < .5)
        if op == "ms":
            e.update(us=us, perf=rng.randrange(2))
        if op == "rfc":
            k = rng.choice(sorted(SIZE))
            n = rng.choice([SIZE[k], SIZE[k], SIZE[k] + 1, 64, SIZE[k] - 1, 0, 5])
            e.update(kind=k, size=n, small=n < SIZE[k])
            if rng.random() < .05:
                e.update(null=1, small=True)
        if op == "zone":
            m = rng.choice([0, 60, -60, 480, 330, 345, -210, 720, -720, 840, rng.randrange(-720, 840)])
            e.update(zone="XYZ%s%d:%02d" % ("-" if m >= 0 else "+", abs(m) // 60, abs(m) % 60), offset=m * 60)
            e["d"] = max(1, d)
        ev.append(e)
    return {"cfg": {"k": i}, "ev": ev}


def threads(rng):
    d, base = 19000 + rng.randrange(4000), rng.randrange(80000)
    tzs = rng.choice([[0], [8], [0, 8], [-3, 8, 0]])
    T = []
    for _ in range(rng.choice([2, 2, 3])):
        T.append([{"d": d, "s": base + rng.choice([0, 0, 1, 1, 2, 3600]), "us": rng.choice([0, 1000, 999999, rng.randrange(10 ** 6)]), "tz": rng.choice(tzs), "file": 1 if rng.random() < .15 else 0}
                  for _ in range(rng.choice([1, 2, 2, 3]))])
    return {"t": T}


def check(ctx):
    exe = ctx.driver("h_time.c", "asan", wraps=W)
    ctx.mc("MC_Time", "CONSTANT From = 0\nCONSTANT Count = %d\nINIT Init\nNEXT Next\nINVARIANT Steps\nINVARIANT Epoch\nCHECK_DEADLOCK FALSE\n" % ctx.n(60000, 146100), "calendar rule day by day", coverage=False)
    step, runs = 25000, []
    end = LAST + 1
    for a in range(0, end, step):
        tz = ctx.rng.choice([0, 0, 8, -7, 12, -12])
        s = ctx.rng.choice([0, 43200, 86399, ctx.rng.randrange(86400)])
        runs.append({"cfg": {"k": a}, "ev": [{"op": "days", "d": a, "to": min(a + step - 1, LAST), "s": s, "tz": tz}]})
    for tz in range(-12, 13):
        ds = {ctx.rng.choice([0, 1, 59, 11015, 11016, 24855, 24856, 49710, 49711]), ctx.rng.randrange(LAST), 59 + 365 * ctx.rng.randrange(60)}
        for d in sorted(ds):
            runs.append({"cfg": {"k": d}, "ev": [{"op": "secs", "d": d, "tz": tz}]})
    runs.append({"cfg": {"k": 0}, "ev": [{"op": "secs", "d": 0, "tz": tz} for tz in range(-12, 13)]})
    ctx.conform(exe, "Trace_Time", runs, "every day; every second of sampled days in every zone", run_timeout=120)
    rnd = [script(ctx.rng, i) for i in range(ctx.n(1500, 15000))]
    ctx.conform(exe, "Trace_Time", rnd, "instants, texts, cache and clock in any order")
    cexe = conc.build(ctx, "h_timec.c")
    pairs = conc.explore(ctx, cexe, [threads(ctx.rng) for _ in range(ctx.n(16, 60))], ctx.n(150, 800), ctx.n(120, 1000), depth2=ctx.n(80, 800), label="cache")
    conc.conform(ctx, cexe, "Trace_Time", pairs, "threads sharing the cache")
    ctx.assumptions += ["instants from 1970-01-01 to 9999-12-31, whole-hour offsets from -12 to 12", "C locale; zones without daylight saving time", "the system clock is replaced by a stand-in"]
