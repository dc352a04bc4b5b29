import conc
LEVEL = "model_checking"
DATA_KINDS = ["t", "t", "t", "p", "z", "z", "m"]


def gen(rng, deep):
    nrec = 0
    recs = []
    qs = rng.choice([2, 2, 2, 3, 4])
    big = rng.random() < .45                          # records that fill the queue
    lim = rng.choice([0, 0, 63, 64, 65, 80, 100, 128, 200, 500] if not big else [0, 0, 700, 1000, 1500, 100])
    keep = rng.randrange(2)
    huge = rng.random() < .35                         # records beyond the initial buffers
    if huge:
        qs = rng.choice([2, 16, 32])

    def rec(h):
        n = rng.choice([0, 1, 2, 10, 31, 62, 63, 64, 65, 79, 99, 100, rng.randrange(1, 130)]) if not big else \
            rng.choice([rng.randrange(300, 900), rng.randrange(300, 900), 1024, 2020, 1000, 990, rng.randrange(1, 60), rng.randrange(1900, 2100), rng.choice([2049, 2500, 4090, 4200, 6000, 8200]) if huge else 500, rng.choice([2049, 2500, 4090, 4200, 6000, 8200]) if huge else 600])
        recs.append({"len": n, "k": rng.choice(DATA_KINDS)})
        return {"op": "log", "h": h, "id": len(recs)}

    def ops(h, k):
        o = []
        for _ in range(k):
            o.append(rec(h))
            x = rng.random()
            if x < .08:
                o.append({"op": "quiet"})
            elif x < .16:
                o.append({"op": "sleep", "ms": rng.choice([1, 2, 5])})
            elif x < .2:
                o[-1]["fa"] = rng.choice([1, 1, 2])
        return o
    folder = "fl/" + rng.choice(["a", "a/b", "x y/z.d/q", "a/b/c/d"])
    main = []
    for ses in range(rng.choice([1, 1, 2, 3]) if not deep else rng.choice([1, 2, 3])):
        hs = [0] if rng.random() < .75 else [0, 1]
        par = rng.random() < .45
        for h in hs:
            i = {"op": "init", "h": h, "lim": lim, "qs": qs, "keep": keep, "lock": 1 if par else rng.randrange(2), "bs": rng.randrange(2) if rng.random() < .3 else 0, "tail": rng.randrange(2)}
            x = rng.random()
            if x < .12 and h == hs[0]:
                main.append(dict(i, **rng.choice([{"qs": 0}, {"qs": 1}, {"short": 1}, {"null": 1}, {"fa": 1}, {"fa": 2}, {"fa": 3}, {"fa": 4}, {"fa": 5}, {"fa": 6}, {"ft": 1}])))
                if main[-1].get("fa") or main[-1].get("ft"):
                    main.append({"op": "deinit", "h": h})
            main.append(i)
        if par:
            p = []
            for w in range(rng.choice([2, 2, 3])):
                o = ops(rng.choice(hs), rng.choice([1, 2, 3]))
                p.append({"me": w + 1, "ops": [x for x in o if x["op"] != "quiet"]})
            main.append({"op": "par", "p": p})
        else:
            for h in hs:
                main += ops(h, rng.choice([1, 2, 3, 4, 6]))
        if rng.random() < .75:
            main.append({"op": "quiet"})
        for h in rng.sample(hs, len(hs)):
            main.append({"op": "deinit", "h": h})
        if rng.random() < .2:
            main.append({"op": "again"})
        if rng.random() < .5:
            main.append({"op": "look"})
    main.append({"op": "look"})
    return {"folder": folder, "recs": recs, "main": main, "tstep": rng.choice([0, 0, 1000, 1000000]), "mem": rng.choice([0, 1])}


def project(t):
    ev = t["ev"]
    out, last = [], {}
    for e in ev:
        if e["op"] == "log":
            o = dict(e, code=-1)                      # a call that does not return
            o.pop("i")
            last[e["t"]] = o
            out.append(o)
        elif e["op"] == "logret":
            last[e["t"]]["code"] = e["code"]
            out.append({"op": "logret", "t": e["t"]})
        else:
            out.append(e)
    return {"cfg": {"c": 0}, "ev": out}


def check(ctx):
    q = ctx.quick()
    for keep, n, ses in (("TRUE", 5, 2), ("FALSE", 4, 1)) if q else (("TRUE", 7, 2), ("FALSE", 7, 2), ("TRUE", 6, 3)):
        ctx.mc("MC_FileLogger", "CONSTANT Keep = %s\nCONSTANT MaxRec = %d\nCONSTANT Sessions = %d\nSPECIFICATION MSpec\nINVARIANT MInv\nPROPERTY Returns\nPROPERTY Drains\nCHECK_DEADLOCK FALSE\n" % (keep, n, ses), "2 callers, %d records, %d sessions, keep %s" % (n, ses, keep))
    exe = conc.build(ctx, "h_flog.c")
    pairs = conc.explore(ctx, exe, [gen(ctx.rng, not q) for _ in range(ctx.n(140, 900))], ctx.n(25, 120), ctx.n(30, 150), depth2=ctx.n(15, 80), label="logging sessions", extra_sched={"wall": 10})
    conc.conform(ctx, exe, "Trace_FileLogger", pairs, "logging sessions", project=project)
    ctx.assumptions += ["records are text (stored up to the first NUL byte), records of no byte leave no trace", "several loggers alive at the same time use different prefixes",
                        "the file system does not fail; what is in the files is read after the logger was deinitialised", "callers use the configured lock when several of them log at once"]
