LEVEL = "model_checking"
SEQ = "INIT MCInit\nNEXT MCNext\nVIEW View\nINVARIANT Inv\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"


def script(rng, i, deep):
    rec = rng.choice([1, 2, 3, 4, 5, 7, 8, 12, 13, 16, 20, 31, 32, 33, rng.randrange(1, 80)])
    mx = rng.choice([1, 2, 3, 4, 7, 8, 9, 16, rng.randrange(1, 40)])
    if rng.random() < .05:
        rec, mx = rng.choice([(0, 4), (4, 0), (0, 0), (1, 1), (3, 9), (27, 1)])
    ev = [{"op": "create", "rec": rec, "max": mx}]
    if rec * mx < 28:
        return {"cfg": {"k": i}, "ev": ev}
    bias = .3 + .4 * rng.random()
    for _ in range(rng.randrange(20, 300 if deep else 90)):
        k = rng.random()
        if k < .93:
            ev.append({"op": "push", "data": [rng.randrange(256) for _ in range(rec)]} if rng.random() < bias else {"op": "pop"})
        elif k < .95:
            ev.append({"op": "popnull"})
        elif k < .98:
            ev.append({"op": "clear"})
        else:
            ev += [{"op": "destroy"}, dict(ev[0])]
        if rng.random() < .05:
            bias = .3 + .4 * rng.random()
    return {"cfg": {"k": i}, "ev": ev}


def large(rng, rec, mx):
    ev = [{"op": "create", "rec": rec, "max": mx}]
    f = 0
    for j in range(5):
        n = rng.choice([mx, mx, mx + 5, mx // 2, 65536, 65537, 256, 257])
        ev.append({"op": "fill", "n": n, "from": f})
        f += n
        ev.append({"op": "drain", "n": rng.choice([n, n // 2, n - 1, 65535, 255])})
    for d in range(2):
        ev += [{"op": "push", "data": [(i * 7 + i // 256 + d) % 256 for i in range(rec)]}, {"op": "pop"}]
    ev.append({"op": "drain", "n": mx + 9})
    return {"cfg": {"k": 1}, "ev": ev}


def check(ctx):
    exe = ctx.driver("h_fixedq.c", "asan", wraps=["malloc", "calloc"])
    tests = ctx.mc("MC_FixedQueue", "CONSTANT Recs = {1,2,3,4,5,7,8,11,16}\nCONSTANT Maxs = {1,2,3,4,5,8,%s}\nPROPERTY Fifo\n" % ctx.n("9", "9,16,17,30") + SEQ, "records 1..16 bytes", emit=True)
    ctx.replay_tests(exe, tests, "all transitions of the small model")
    runs = [script(ctx.rng, i, not ctx.quick()) for i in range(ctx.n(1500, 15000))]
    ctx.conform(exe, "Trace_FixedQueue", runs, "random histories")
    far = [large(ctx.rng, r, m) for r, m in ((1, 131100), (1, 70000), (3, 40000), (300, 9), (256, 300), (257, 17), (65535, 3), (65536, 4), (70000, 2), (2, 66000))]
    ctx.conform(ctx.driver("h_fixedq.c", "plain", wraps=["malloc", "calloc"]), "Trace_FixedQueue", far, "many and large records", run_timeout=120)
    ctx.assumptions += ["records up to 80 bytes in random histories, up to 70000 bytes or 131100 records in the large ones", "single thread (C02, C08 cover concurrency)", "record size times capacity below 2^32"]
