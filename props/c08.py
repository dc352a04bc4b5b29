import conc
from c07 import mcfg
LEVEL = "model_checking"


def scen(rng, i):
    n = rng.randrange(1, 7)
    prog = []
    npush = 0
    for k in range(n):
        r = rng.random()
        if r < .72:
            prog.append({"op": "push", "len": rng.choice([0, 1, 8, 100, 1023, 1024])})
            npush += 1
        elif r < .9:
            prog.append({"op": "clear"})
        else:
            prog.append({"op": rng.choice(["idle", "yield"])})
    if rng.random() < .8:
        prog.append({"op": "idle"})
    prog.append({"op": "destroy"})
    cb = []
    for k in range(npush):
        b = {}
        if rng.random() < .1:
            b["ret"] = rng.choice([1, -1])
        if rng.random() < .15:
            b["ms"] = 2
        cb.append(b)
    return {"kind": "records", "faults": False, "size": rng.choice([2, 2, 3, 4, 5]), "cb": cb, "prog": prog}


def fixed_scens():
    p = {"op": "push", "len": 4}
    I, D, C = {"op": "idle"}, {"op": "destroy"}, {"op": "clear"}
    B = {"kind": "records", "faults": False}
    return [dict(B, size=4, cb=[], prog=[p, p, p, I, D]),
            dict(B, size=2, cb=[], prog=[p, p, p, p, I, D]),
            dict(B, size=4, cb=[], prog=[p, p, C, p, I, D]),
            dict(B, size=4, cb=[], prog=[p, C, p, C, p, I, p, I, D]),
            dict(B, size=4, cb=[], prog=[C, p, I, C, C, p, p, I, D]),
            dict(B, size=4, cb=[{"ret": 1}], prog=[p, p, I, p, D]),
            dict(B, size=4, cb=[], prog=[D]), dict(B, size=4, cb=[], prog=[p, D]), dict(B, size=3, cb=[], prog=[p, p, C, D]),
            dict(B, size=3, cb=[{"ms": 3}], prog=[p, p, {"op": "sleep", "ms": 1}, C, p, I, D])]


def check(ctx):
    ctx.mc("MC_MsgHandler", mcfg("records", ctx.n(4, 5), 2, (1, 2, 3), (0,)), "record queue, %d pushes, 2 clears" % ctx.n(4, 5), timeout=600)
    ctx.mc("MC_MsgHandler", mcfg("records", 3, 1, (2,), (0,), "TRUE"), "with allocation failures", timeout=600)
    exe = conc.build(ctx, "h_mqh.c", defs=("-DFIXED",))
    sc = fixed_scens() + [scen(ctx.rng, i) for i in range(ctx.n(25, 150))]
    pairs = conc.explore(ctx, exe, sc, ctx.n(300, 1200), ctx.n(200, 1500), depth2=ctx.n(120, 1500), label="push/clear/dispatch/destroy")
    # long histories: more messages than a byte or a short can count, then clears among them
    long = []
    for n in (250, 254, 255, 256, 300, 65500, 65534, 65535, 65536, 66000):
        pi = [{"op": "push", "len": 3}, {"op": "idle"}]
        tail = [{"op": "clear"}] + pi * 5 + [{"op": "push", "len": 9}, {"op": "clear"}, {"op": "push", "len": 6}, {"op": "idle"}] + pi * 3 + [{"op": "destroy"}]
        long.append({"kind": "records", "faults": False, "size": 40, "cb": [], "prog": [{"op": "burst", "n": n, "batch": 16}] + tail})
    pairs += conc.explore(ctx, exe, long, ctx.n(2, 10), ctx.n(6, 20), label="long histories", prios=(1,))
    f = [dict(s, faults=True, **x) for s in fixed_scens()[:4] for x in ({"fa": 1}, {"fa": 2}, {"fa": 3}, {"fa": 4}, {"ft": 1})]
    pairs += conc.explore(ctx, exe, f, ctx.n(10, 100), ctx.n(10, 100), label="allocation/thread failures")
    conc.conform(ctx, exe, "Trace_MsgHandler", pairs, "schedules of the real handler")
    ctx.assumptions += ["one producer at a time, which also calls clear (documented: callers lock otherwise)", "sequentially consistent interleavings at instrumented accesses"]
