LEVEL = "model_checking"
SEQ = "INIT MCInit\nNEXT MCNext\nVIEW View\nINVARIANT Inv\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"


def script(rng, i, deep):
    ev = []
    mode = rng.choice(["alloc", "mem"])
    size = rng.choice([3, 4, 5, 7, 8, 9, 16, 17, 33, 64, 100, 127, 128, rng.randrange(3, 300)])
    if rng.random() < .08:
        ev.append({"op": "create", "mode": mode, "req": rng.randrange(0, 3) if mode == "alloc" else rng.randrange(0, 43)})
    else:
        ev.append({"op": "create", "mode": mode, "req": size + (40 if mode == "mem" else 0)})
    if ev[0]["req"] < (3 if mode == "alloc" else 43):
        return {"cfg": {"k": i}, "ev": ev}
    used = 0
    bias = rng.random()
    for _ in range(rng.randrange(20, 400 if deep else 120)):
        k = rng.random()
        n = rng.choice([0, 1, 2, size - 2, size - 1, size, size + 1, size // 2, rng.randrange(size + 2), rng.randrange(size + 2),
                        max(0, size - 1 - used), max(0, size - used), used, used + 1, max(0, used - 1)])
        if k < .25 + .3 * bias:
            ev.append({"op": "write", "data": [rng.randrange(256) for _ in range(n)]})
            if n <= size - 1 - used:
                used += n
        elif k < .8:
            ev.append({"op": rng.choice(["read", "read", "discard"]), "n": n})
            if n <= used:
                used -= n
        elif k < .96:
            ev.append({"op": "peek", "n": n})
        elif k < .99:
            ev.append({"op": "clear"})
            used = 0
        else:
            ev += [{"op": "destroy"}, dict(ev[0])]
            used = 0
    return {"cfg": {"k": i}, "ev": ev}


def large(rng, size):
    """sizes and amounts beyond 16 bits"""
    ev = [{"op": "create", "mode": "alloc", "req": size}]
    used = 0
    for j in range(8):
        room = size - 1 - used
        n = rng.choice([room, room + 1, rng.randrange(room + 1), min(room, 65536), max(0, room - 1), room * 2 // 3])
        k = rng.randrange(251)
        ev.append({"op": "write", "data": [(i * 7 + k + (i >> 8)) % 256 for i in range(n)]})
        if n <= room:
            used += n
        m = rng.choice([used, rng.randrange(used + 1), min(used, 65536), max(0, used - 1), used + 1])
        if j % 2:
            ev.append({"op": "peek", "n": m})
        ev.append({"op": rng.choice(["read", "read", "discard"]), "n": m})
        if m <= used:
            used -= m
    ev.append({"op": "read", "n": used})
    return {"cfg": {"k": 1}, "ev": ev}


def check(ctx):
    exe = ctx.driver("h_ringbuf.c", "asan", wraps=["malloc", "calloc"])
    tests = ctx.mc("MC_RingBuf", "CONSTANT MaxSize = %d\nPROPERTY AllOrNothing\n" % ctx.n(8, 14) + SEQ, "size<=%d" % ctx.n(8, 14), emit=True)
    ctx.replay_tests(exe, tests, "all transitions of the small model")
    runs = [script(ctx.rng, i, not ctx.quick()) for i in range(ctx.n(1500, 15000))]
    ctx.conform(exe, "Trace_RingBuf", runs, "random histories")
    far = [large(ctx.rng, s) for s in [65535, 65536, 65537, 70001, 140000] + ([] if ctx.quick() else [rng_ for rng_ in (131073, 200000, 262144, 99999)])]
    ctx.conform(ctx.driver("h_ringbuf.c", "plain", wraps=["malloc", "calloc"]), "Trace_RingBuf", far, "buffers larger than 64 KiB", run_timeout=120)
    ctx.assumptions += ["sizes up to 300 in random histories, up to 256 KiB in the large ones", "single thread"]
