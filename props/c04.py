LEVEL = "model_checking"
SEQ = "INIT MCInit\nNEXT MCNext\nVIEW View\nINVARIANT Inv\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"


def script(rng, i, deep):
    req = rng.choice([4, 5, 8, 15, 16, 17, 31, 32, 64, 100, 128])
    cap = 4
    while cap < req:
        cap *= 2
    ev = [{"op": "create", "req": req, "lock": rng.randrange(2)}]
    if rng.random() < .1:
        ev.append({"op": "stream", "chunk": cap, "times": rng.randrange(1, 9)})
    kept = 0
    for _ in range(rng.randrange(15, 300 if deep else 90)):
        k = rng.random()
        if k < .45:
            n = rng.choice([1, 2, cap, cap - 1, cap // 2, rng.randrange(1, cap + 1), rng.randrange(1, cap + 1), max(1, cap - kept)])
            ev.append({"op": "write", "data": [rng.randrange(256) for _ in range(n)]})
            kept = min(cap, kept + n)
        else:
            b = rng.choice([0, 1, kept, kept, kept + 1, max(0, kept - 1), rng.randrange(kept + 1), rng.randrange(kept + 1), cap, cap + 1,
                            cap + rng.randrange(cap + 1), 2 * cap + rng.randrange(cap), 5 * cap + 3, -1, -rng.randrange(1, cap)])
            if k < .65:
                ev.append({"op": "avail", "back": b})
            else:
                n = max(1, rng.choice([1, b, b + 1, b - 1, rng.randrange(1, cap + 2), b // 2]))
                ev.append({"op": "read", "back": b, "n": n})
                if 0 <= b <= kept and n <= b:
                    kept = b - n
    return {"cfg": {"k": i}, "ev": ev}


def large(rng, req):
    cap = 4
    while cap < req:
        cap *= 2
    ev = [{"op": "create", "req": req, "lock": 0}]
    for j in range(9):
        n = rng.choice([cap, cap - 1, 65536, 65537, 3000, rng.randrange(1, cap)])
        n = min(n, cap)
        ev.append({"op": "write", "data": [(i * 5 + j * 17 + (i >> 8)) % 256 for i in range(n)]})
        ev += [{"op": "avail", "back": b} for b in (cap, cap + 1, 65536, 65537, 70000)]
        b = rng.choice([n, n, max(1, n - 5), 65536, cap + 3])
        ev.append({"op": "read", "back": b, "n": max(1, rng.choice([b, b - 1, b // 2, min(b, 65536)]))})
    return {"cfg": {"k": 1}, "ev": ev}


def check(ctx):
    exe = ctx.driver("h_autocover.c", "asan")
    tests = ctx.mc("MC_AutoCover", "CONSTANT MaxCap = %d\nPROPERTY Newest\n" % ctx.n(8, 16) + SEQ, "cap<=%d" % ctx.n(8, 16), emit=True)
    ctx.replay_tests(exe, tests, "all transitions of the small model")
    runs = [script(ctx.rng, i, not ctx.quick()) for i in range(ctx.n(1500, 15000))]
    ctx.conform(exe, "Trace_AutoCover", runs, "random histories")
    fast = ctx.driver("h_autocover.c", "plain")
    big = []
    for cap, less in ((65536, 1), (32768, 2), (16384, 1)):
        r = script(ctx.rng, 0, False)
        c = {"op": "create", "req": cap, "lock": 0}
        ev = [c, {"op": "stream", "chunk": cap, "times": 2 ** 32 // cap - less}]
        for _ in range(60):
            if ctx.rng.random() < .5:
                ev.append({"op": "write", "data": [ctx.rng.randrange(256) for _ in range(ctx.rng.choice([7, 900, 1500]))]})
            else:
                b = ctx.rng.choice([3, 900, cap, cap - 1, cap + 1, cap + 500])
                ev.append({"op": "avail", "back": b})
                if ctx.rng.random() < .3:
                    ev.append({"op": "read", "back": ctx.rng.choice([20, 1000]), "n": 11})
        big.append({"cfg": {"k": 0}, "ev": ev})
        if cap == 16384:
            for _ in range(30):
                big[-1]["ev"] += [{"op": "write", "data": [ctx.rng.randrange(256) for _ in range(3000)]}, {"op": "avail", "back": cap}, {"op": "avail", "back": 2900}]
    ctx.conform(fast, "Trace_AutoCover", big, "positions across 2^32", run_timeout=120)
    ctx.conform(fast, "Trace_AutoCover", [large(ctx.rng, c) for c in (65536, 65537, 131072, 70000)], "buffers larger than 64 KiB", run_timeout=120)
    ctx.assumptions += ["capacities up to 128 in random histories, up to 128 KiB in the large ones", "single thread (locking is C26)", "positions less than 2^31 away from the write end"]
