import conc
LEVEL = "model_checking"
MC = "SPECIFICATION Spec\nINVARIANT InvAll\nPROPERTY ComesToRest\nPROPERTY ClearWins\nPROPERTY NoTakeOfCleared\nCHECK_DEADLOCK FALSE\n"


def mcfg(kind, npush, ncl, caps, lens, faults="FALSE"):
    return "CONSTANTS\nKind = \"%s\"\nNPush = %d\nNClear = %d\nCaps = {%s}\nLens = {%s}\nFaults = %s\n" % (
        kind, npush, ncl, ",".join(map(str, caps)), ",".join(map(str, lens)), faults) + MC


def scen(rng, i):
    size = rng.choice([72, 80, 96, 120, 152, 160, 280, 300])
    cap = 4
    while cap * 2 <= size - 24:
        cap *= 2
    n = rng.randrange(1, 6)
    prog = []
    for k in range(n):
        prog.append({"op": "push", "len": rng.choice([0, 0, 1, 3, 4, 7, 10, 12, cap - 20, cap - 21, cap - 19, cap // 2 - 20, cap // 2 - 19, cap // 2 - 22, rng.randrange(0, cap)])})
        if rng.random() < .15:
            prog.append({"op": "idle"})
        elif rng.random() < .15:
            prog.append({"op": "yield"})
    for p in prog:
        if p["op"] == "push":
            p["len"] = max(0, p["len"])
    if rng.random() < .75:
        prog.append({"op": "idle"})
    prog.append({"op": "destroy"})
    cb = []
    for k in range(n):
        b = {}
        if rng.random() < .12:
            b["ret"] = rng.choice([1, -1, 7])
        if rng.random() < .2:
            b["ms"] = rng.choice([1, 5])
        cb.append(b)
    if rng.random() < .2 and n >= 1:
        # messages posted from the callback: the worker is the only producer then
        prog = [{"op": "push", "len": rng.randrange(0, 12)}, {"op": "idle"}, {"op": "destroy"}]
        cb = [{"push": [rng.randrange(0, 8) for _ in range(rng.randrange(1, 3))]}, {"push": [rng.randrange(0, 8)]}, {}, {}]
    return {"kind": "bytes", "faults": False, "size": size, "cb": cb, "prog": prog}


def fixed_scens():
    P = lambda *l: [{"op": "push", "len": x} for x in l]
    I, D = [{"op": "idle"}], [{"op": "destroy"}]
    B = {"kind": "bytes", "faults": False}
    out = [dict(B, size=96, cb=[], prog=P(5, 5, 5) + I + D),
           dict(B, size=96, cb=[{"ret": 1}], prog=P(1, 2, 3) + I + P(1) + D),
           dict(B, size=96, cb=[], prog=D),
           dict(B, size=96, cb=[], prog=P(3) + D),
           dict(B, size=88, cb=[], prog=P(44, 43, 0, 20) + I + P(44) + I + D)]
    # payloads larger than the worker's initial buffer, and growing twice
    out.append(dict(B, size=33000, cb=[], prog=P(5000, 10, 9000) + I + P(4079, 4080, 4081) + I + D))
    out.append(dict(B, size=33000, cb=[], prog=P(4080) + I + P(16300, 0) + I + D))
    return out


def check(ctx):
    ctx.mc("MC_MsgHandler", mcfg("bytes", ctx.n(4, 5), 0, (14, 16), (0, 1, 5)), "byte queue, %d pushes" % ctx.n(4, 5), timeout=600)
    ctx.mc("MC_MsgHandler", mcfg("bytes", 3, 0, (14,), (0, 5), "TRUE"), "with allocation failures", timeout=600)
    exe = conc.build(ctx, "h_mqh.c")
    sc = fixed_scens()[:5] + [scen(ctx.rng, i) for i in range(ctx.n(25, 150))]
    pairs = conc.explore(ctx, exe, sc, ctx.n(300, 1200), ctx.n(200, 1500), depth2=ctx.n(120, 1500), label="push/dispatch/destroy")
    pairs += conc.explore(ctx, exe, fixed_scens()[5:], ctx.n(60, 600), ctx.n(60, 500), label="large messages")
    long = [{"kind": "bytes", "faults": False, "size": z, "cb": [], "prog": [{"op": "burst", "n": n, "batch": b}] + scen(ctx.rng, 0)["prog"]}
            for n, b, z in ((300, 1, 96), (40000, 4, 300), (66000, 30, 4200))]
    for s in long:
        s["prog"] = [dict(e, len=min(e["len"], 12)) if e["op"] == "push" else e for e in s["prog"]]
    pairs += conc.explore(ctx, exe, long, ctx.n(2, 10), ctx.n(6, 20), label="long histories", prios=(1,))
    f = []
    for s in fixed_scens()[:5] + fixed_scens()[6:]:
        for fa in range(1, 9):
            f.append(dict(s, faults=True, fa=fa))
        f.append(dict(s, faults=True, ft=1))
    pairs += conc.explore(ctx, exe, f, ctx.n(20, 100), ctx.n(20, 100), label="allocation/thread failures")
    conc.conform(ctx, exe, "Trace_MsgHandler", pairs, "schedules of the real handler")
    ctx.assumptions += ["one producer at a time (documented: callers lock otherwise)", "sequentially consistent interleavings at instrumented accesses, up to 3 forced preemptions plus random/PCT schedules"]
