LEVEL = "model_checking"


def two(v):
    return [v >> 16, v & 65535]


def script(rng, i):
    ev = []
    for _ in range(20):
        k = rng.randrange(32)
        v = rng.choice([rng.randrange(2 ** 32), rng.randrange(1 << (k + 1)), (1 << k) + rng.choice([-1, 0, 1]), 2 ** 32 - 1 - rng.randrange(3)])
        ev.append({"op": "one", "v": two(v % 2 ** 32)})
    keys = []
    for _ in range(rng.randrange(5, 25)):
        f = rng.choice(["string", "string", "string", "naive", "integer", "pointer"])
        old = [k for g, k in keys if g == f]
        if old and rng.random() < .7:
            k = rng.choice(old)
        elif f == "string":
            k = [rng.choice([rng.randrange(1, 256), rng.randrange(97, 100)]) for _ in range(rng.choice([0, 1, 2, 3, 7, 8, 9, 30, 200]))]
        else:
            k = [rng.choice([0, 1, 255, rng.randrange(256)]) for _ in range(8)]
        keys.append((f, k))
        e = {"op": "hash", "f": f, "key": k}
        if f == "string":
            e["off"] = rng.randrange(17)
        ev.append(e)
    return {"cfg": {"k": i}, "ev": ev}


def check(ctx):
    exe = ctx.driver("h_int.c", "asan")
    ctx.mc("MC_IntHelpers", "INIT Init\nNEXT Next\nINVARIANT Laws\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n", "laws around every power of two")
    plain = ctx.driver("h_int.c", "plain")
    parts = 8
    st = 2 ** 32 // parts
    sweeps = [{"cfg": {"k": 0}, "ev": [{"op": "sweep", "f": f, "from": two(p * st), "to": two((p + 1) * st - 1)} for f in ("up", "down", "pow")]} for p in range(parts)]
    ctx.conform(plain, "Trace_IntHelpers", sweeps, "all 2^32 values", run_timeout=240)
    ctx.conform(exe, "Trace_IntHelpers", [script(ctx.rng, i) for i in range(ctx.n(600, 6000))], "single values and hash keys")
    ctx.assumptions += ["rounding up above 2^31 has no representable answer and is left open", "hash functions are required to be functions of the hashed value only; their values and distribution are not prescribed"]
