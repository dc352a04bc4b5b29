import conc
LEVEL = "model_checking"


def mcfg(kind, caps, np, nc, sizes):
    return "CONSTANTS\nKind = \"%s\"\nCaps = {%s}\nNP = %d\nNC = %d\nSizes = {%s}\nINIT MCInit\nNEXT MCNext\nINVARIANT Inv\nINVARIANT Conserved\nCHECK_DEADLOCK FALSE\n" % (
        kind, ",".join(map(str, caps)), np, nc, ",".join(map(str, sizes)))


def q(rng):
    return {"op": rng.choice(["ar", "aw", "empty", "full"])}


def ring(rng):
    size = rng.choice([4, 4, 8, 8, 16])
    p = [{"op": "write", "n": rng.choice([0, 1, 2, size - 1, size, size + 1, rng.randrange(1, size + 2)])} if rng.random() < .85 else q(rng) for _ in range(rng.randrange(1, 5))]
    c = [{"op": rng.choice(["read", "read", "peek", "discard"]), "n": rng.choice([1, 2, size, size - 1, rng.randrange(0, size + 2)])} if rng.random() < .85 else q(rng) for _ in range(rng.randrange(1, 6))]
    return {"kind": "ring", "size": size, "base": rng.randrange(0, 2 * size), "p": p, "c": c, "drain": [{"op": "ar"}, {"op": "read", "n": size + 1}, {"op": "read", "n": 1}]}


def msg(rng):
    cap = rng.choice([16, 32])
    p = [{"op": "push", "n": rng.choice([1, 2, 4, 5, 8, cap - 4, cap - 3, rng.randrange(1, cap)])} if rng.random() < .85 else {"op": rng.choice(["ar", "aw"])} for _ in range(rng.randrange(1, 5))]
    c = [{"op": "pop", "n": rng.choice([2, 8, 40, 40])} if rng.random() < .75 else {"op": rng.choice(["ar", "aw", "next"])} for _ in range(rng.randrange(1, 7))]
    return {"kind": "msg", "size": 24 + cap, "base": rng.randrange(0, 12), "p": p, "c": c, "drain": [{"op": "pop", "n": 40}] * 6 + [{"op": "ar"}]}


def fixed(rng):
    rec = rng.choice([1, 3, 4, 5, 7])
    n = rng.choice([2, 3, 4])
    # enough room for the control block and one record
    size = max(n, (24 + 4 * rec) // rec + 1)
    p = [{"op": "push", "n": rec} if rng.random() < .85 else q(rng) for _ in range(rng.randrange(1, 5))]
    c = [{"op": "pop", "n": rec} if rng.random() < .85 else q(rng) for _ in range(rng.randrange(1, 6))]
    return {"kind": "fixed", "size": size, "rec": rec, "base": rng.randrange(0, 10), "p": p, "c": c, "drain": [{"op": "pop", "n": rec}] * 6}


def check(ctx):
    a = ctx.n(3, 4)
    ctx.mc("MC_Spsc", mcfg("ring", (2, 3), a, a, (1, 2)), "ring, %d calls per side" % a, timeout=600)
    ctx.mc("MC_Spsc", mcfg("msg", (10, 12), a, a, (1, 3)), "message queue", timeout=600)
    ctx.mc("MC_Spsc", mcfg("fixed", (1, 2), a, a, (1,)), "record queue", timeout=600)
    exe = conc.build(ctx, "h_spsc.c")
    k = ctx.n(18, 80)
    pairs = []
    for f in (ring, msg, fixed):
        pairs += conc.explore(ctx, exe, [f(ctx.rng) for _ in range(k)], ctx.n(250, 1000), ctx.n(150, 1200), depth2=ctx.n(150, 1500), label=f.__name__)
    conc.conform(ctx, exe, "Trace_Spsc", pairs, "interleavings of producer and consumer")
    ctx.assumptions += ["sequentially consistent memory (the library uses no barriers; hardware reordering is outside this check)",
                        "one producer and one consumer thread, capacities 2..32"]
