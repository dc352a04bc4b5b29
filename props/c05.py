LEVEL = "model_checking"
SEQ = "INIT MCInit\nNEXT MCNext\nVIEW View\nINVARIANT Inv\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"


def script(rng, i, deep):
    req = rng.choice([28, 29, 31, 32, 33, 39, 40, 41, 56, 57, 88, 100, 152, 153, 280, rng.randrange(28, 600)])
    ev = [{"op": "create", "req": req}]
    cap = 4
    while cap * 2 <= req - 24:
        cap *= 2
    q = []
    used = 0
    bias = rng.random()
    for _ in range(rng.randrange(20, 300 if deep else 90)):
        k = rng.random()
        free = cap - used
        if k < .3 + .25 * bias:
            n = rng.choice([1, 2, 3, free - 4, free - 3, free - 5, cap - 4, cap, rng.randrange(1, cap + 1), rng.randrange(1, max(2, cap // 4)), rng.randrange(1, max(2, cap // 4)), 0])
            n = max(0, n)
            ev.append({"op": "push", "data": [rng.randrange(256) for _ in range(n)]})
            if n and n + 4 <= free:
                q.append(n)
                used += n + 4
        elif k < .95:
            f = q[0] if q else rng.randrange(5)
            n = rng.choice([f, f, f, f + 1, f + 50, max(0, f - 1), 0, f // 2])
            ev.append({"op": "pop", "n": n})
            if q and n >= f:
                used -= 4 + q.pop(0)
        elif k < .96:
            ev.append({"op": "clear"})
            q, used = [], 0
        elif k < .97:
            ev.append({"op": "pushhuge", "less": rng.randrange(8)})
        elif k < .99:
            ev.append({"op": "nulls"})
        else:
            ev += [{"op": "destroy"}, dict(ev[0])]
            q, used = [], 0
    return {"cfg": {"k": i}, "ev": ev}


def large(rng, req):
    """messages and queues beyond 16 bits"""
    cap = 4
    while cap * 2 <= req - 24:
        cap *= 2
    ev = [{"op": "create", "req": req}]
    q, used = [], 0
    for j in range(16):
        free = cap - used
        n = rng.choice([free - 4, free - 3, 65531, 65532, 65533, 65535, 65536, 65537, 70000, 300, 40000, rng.randrange(1, cap)])
        if rng.random() < .6 and n > 0:
            ev.append({"op": "push", "data": [(i * 5 + j * 17 + (i >> 8)) % 256 for i in range(n)]})
            if n + 4 <= free:
                q.append(n)
                used += n + 4
        elif q:
            n = rng.choice([q[0], q[0], q[0] + 1, q[0] - 1, q[0] % 65536])
            ev.append({"op": "pop", "n": n})
            if n >= q[0]:
                used -= 4 + q.pop(0)
    ev += [{"op": "pop", "n": 140000}] * (len(q) + 1)
    return {"cfg": {"k": 1}, "ev": ev}


def check(ctx):
    exe = ctx.driver("h_msgq.c", "asan", wraps=["malloc", "calloc"])
    tests = ctx.mc("MC_MsgQueue", "CONSTANT Reqs = {28, 32, 40%s}\nCONSTANT MaxLen = %d\nPROPERTY Whole\n" % (ctx.n("", ", 56"), ctx.n(13, 14)) + SEQ, "capacity 4, 8, 16", emit=True)
    ctx.replay_tests(exe, tests, "all transitions of the small model")
    runs = [script(ctx.rng, i, not ctx.quick()) for i in range(ctx.n(1500, 15000))]
    runs += [{"cfg": {"k": 0}, "ev": [{"op": "create", "req": r}]} for r in range(0, 28)]
    ctx.conform(exe, "Trace_MsgQueue", runs, "random histories")
    ctx.conform(ctx.driver("h_msgq.c", "plain", wraps=["malloc", "calloc"]), "Trace_MsgQueue", [large(ctx.rng, 24 + 131072 + k) for k in range(ctx.n(5, 20))], "queues and messages larger than 64 KiB", run_timeout=120)
    ctx.assumptions += ["queues up to 512 bytes in random histories, 128 KiB in the large ones", "single thread (C02, C07 cover concurrency)"]
