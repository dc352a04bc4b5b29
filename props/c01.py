import random
LEVEL = "model_checking"
SEQ = "INIT MCInit\nNEXT MCNext\nVIEW View\nINVARIANT Inv\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"


def script(rng, i, deep):
    ev = []
    if rng.random() < 0.5:
        req = rng.choice([3, 4, 5, 7, 8, 15, 16, 17, 31, 33, 64, 100, 128, rng.randrange(3, 300)])
        ev.append({"op": "create", "mode": "alloc", "req": req})
        cap = 4
        while cap < req:
            cap *= 2
    else:
        req = rng.choice([36, 37, 40, 41, 47, 48, 49, 64, 65, 95, 96, 97, 160, rng.randrange(36, 400), rng.randrange(0, 36)])
        ev.append({"op": "create", "mode": "mem", "req": req})
        if req < 44:
            return {"cfg": {"k": i}, "ev": ev}
        cap = 4
        while cap * 2 <= req - 32:
            cap *= 2
    used = 0
    bias = rng.random()
    for _ in range(rng.randrange(20, 120 if not deep else 400)):
        k = rng.random()
        size = rng.choice([0, 1, 2, cap - 1, cap, cap + 1, cap // 2, rng.randrange(cap + 2), rng.randrange(cap + 2), max(0, cap - used), used, max(0, used - 1), used + 1, 2 * cap + 3])
        if k < 0.25 + 0.3 * bias:
            ev.append({"op": "write", "data": [rng.randrange(256) for _ in range(size)]})
            used = min(cap, used + size)
        elif k < 0.8:
            ev.append({"op": rng.choice(["read", "read", "discard"]), "n": size})
            used = max(0, used - size)
        elif k < 0.97:
            ev.append({"op": "peek", "n": size})
        else:
            ev.append({"op": "clear"})
            used = 0
    return {"cfg": {"k": i}, "ev": ev}


def wrap4g(rng, cap, back):
    """bring the 32-bit positions just before 2^32, then work across the wrap"""
    ev = [{"op": "create", "mode": "alloc", "req": cap}]
    total = 2 ** 32 - back
    chunk = cap
    ev.append({"op": "stream", "chunk": chunk, "times": total // chunk})
    if total % chunk:
        ev.append({"op": "stream", "chunk": total % chunk, "times": 1})
    for j in range(40):
        n = rng.randrange(1, min(cap, 24))
        ev.append({"op": "write", "data": [rng.randrange(256) for _ in range(n)]})
        if j % 3 == 0:
            ev.append({"op": "peek", "n": rng.randrange(1, 40)})
        ev.append({"op": rng.choice(["read", "read", "discard"]), "n": rng.randrange(1, 40)})
    # filled across the wrap
    ev.append({"op": "read", "n": cap})
    ev.append({"op": "write", "data": [7] * 10})
    ev.append({"op": "read", "n": 3})
    return {"cfg": {"k": 0}, "ev": ev}


def large(rng, cap, steps):
    """capacities and amounts beyond 16 bits: wraps at the far end of a big ring"""
    ev = [{"op": "create", "mode": "alloc", "req": cap}]
    used = 0
    for j in range(steps):
        room = cap - used
        n = rng.choice([room, room + 1, rng.randrange(room + 1), min(room, 65536), min(room, 65537), max(0, room - 1)])
        k = rng.randrange(251)
        ev.append({"op": "write", "data": [(i * 7 + k + (i >> 8)) % 256 for i in range(n)]})
        used = min(cap, used + n)
        m = rng.choice([used, rng.randrange(used + 1), min(used, 65535), min(used, 65536), max(0, used - 1)])
        if j % 2:
            ev.append({"op": "peek", "n": m})
        ev.append({"op": rng.choice(["read", "read", "discard"]), "n": m})
        used -= m
    ev.append({"op": "read", "n": cap})
    return {"cfg": {"k": 1}, "ev": ev}


def check(ctx):
    exe = ctx.driver("h_ringbuffer.c", "asan", wraps=["malloc", "calloc"])
    tests = ctx.mc("MC_RingBuffer", "CONSTANT MaxCap = %d\nPROPERTY Fifo\n" % ctx.n(8, 16) + SEQ, "cap<=%d" % ctx.n(8, 16), emit=True)
    ctx.replay_tests(exe, tests, "all transitions of the small model")
    runs = [script(ctx.rng, i, not ctx.quick()) for i in range(ctx.n(1200, 12000))]
    fast = ctx.driver("h_ringbuffer.c", "plain", wraps=["malloc", "calloc"])
    ctx.conform(exe, "Trace_RingBuffer", runs, "random histories")
    big = [wrap4g(ctx.rng, c, b) for c, b in ([(65536, 11), (4096, 4096 * 3 + 5), (65536, 65536), (32768, 1), (65536, 30), (8192, 100)])]
    ctx.conform(fast, "Trace_RingBuffer", big, "positions across 2^32", run_timeout=120)
    far = [large(ctx.rng, c, 8) for c in (70000, 131072, 65536, 140000)] + ([] if ctx.quick() else [large(ctx.rng, 1 << 18, 12) for _ in range(6)])
    ctx.conform(fast, "Trace_RingBuffer", far, "rings larger than 64 KiB", run_timeout=120)
    ctx.assumptions += ["capacities up to 400 in the random histories, 64 to 256 KiB in the large ones; 4 GiB streams at 4-64 KiB capacities",
                        "single thread (concurrent use is C02)"]
