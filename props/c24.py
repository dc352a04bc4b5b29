LEVEL = "model_checking"
W = ["malloc", "calloc", "realloc", "free", "strdup", "strndup"]
CFG = "INIT MCInit\nNEXT MCNext\nVIEW View\nINVARIANT Laws\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"


def script(rng, i, deep):
    L = rng.choice([3, 6, 12, 40] + ([200] if deep else []))
    alpha = rng.choice([[97], [97, 98], [97, 98, 99], [97, 66, 44, 59, 32], list(range(1, 256)), [65, 90, 91, 64, 96, 97, 122, 123, 195, 223]])
    t = lambda m=None: [rng.choice(alpha) for _ in range(rng.randrange(0, (m or L) + 1))]
    ev = []
    for _ in range(rng.randrange(6, 20)):
        op = rng.choice(["cpy", "cat", "replace", "replace", "split", "split", "trim", "trim", "utf8", "utf8n", "hex", "upper", "lower", "icmp", "nicmp", "fmtlen"])
        s = t()
        if op == "cpy":
            e = {"src": s, "size": rng.choice([0, 1, 2, len(s), len(s) + 1, len(s) + 2, rng.randrange(L + 9)])}
        elif op == "cat":
            d = t()
            e = {"src": s, "dst": d, "size": rng.choice([0, 1, len(d), len(d) + 1, len(d) + 2, len(s) + len(d), len(s) + len(d) + 1, len(s) + len(d) + 2, rng.randrange(L + 9)])}
        elif op == "replace":
            p = t(rng.choice([1, 2, 3, 5])) if rng.random() < .7 or not s else s[(a := rng.randrange(len(s))):a + rng.choice([1, 2, 3, 9])]
            r = t(rng.choice([1, 3, 8]))
            if rng.random() < .3:
                r = p + t(2)
            e = {"s": s * rng.choice([1, 1, 3]), "pat": p, "rep": r}
            if rng.random() < .04:
                e["fail"] = 1
        elif op == "split":
            d = [rng.choice(alpha) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            e = {"s": s, "delim": d, "max": rng.choice([0, 1, 2, 5, L + 5, L + 5])}
        elif op == "trim":
            e = {"s": s, "cset": [rng.choice(alpha) for _ in range(rng.choice([0, 1, 1, 2, 3]))]}
        elif op in ("utf8", "utf8n"):
            s = list("".join(rng.choice(["a", "é", "€", "𝄞", "中"]) for _ in range(rng.randrange(L))).encode()) if rng.random() < .6 else s
            e = {"s": s}
            if op == "utf8n":
                e["max"] = rng.choice([0, 1, 2, len(s), max(0, len(s) - 1), len(s) + 1, len(s) + 50])
        elif op == "hex":
            s = [rng.randrange(256) for _ in range(rng.randrange(L + 1))]
            e = {"data": s, "cap": rng.choice([0, 1, 2, 3, 3 * len(s) - 1, 3 * len(s), 3 * len(s) + 1, 3 * len(s) + 2, rng.randrange(3 * len(s) + 40), rng.randrange(30)])}
            e["cap"] = max(0, e["cap"])
        elif op in ("icmp", "nicmp"):
            r = [b ^ 32 if rng.random() < .3 and (97 <= b <= 122 or 65 <= b <= 90) else b for b in s] + t(1)
            e = {"s": s, "r": r}
            if op == "nicmp":
                e["max"] = rng.randrange(L + 2)
        elif op == "fmtlen":
            e = {"s": s, "n": rng.randrange(10 ** 9)}
        else:
            e = {"s": s}
        ev.append(dict(e, op=op))
    return {"cfg": {"k": i}, "ev": ev}


def long(rng, i):
    """texts longer than 8 or 16 bits can count, as repeated blocks"""
    T = rng.choice([255, 256, 257, 300, 65535, 65536, 65537, 70000, rng.randrange(300, 70000)])
    b = [rng.choice([97, 98, 99, 65, 90, 200]) for _ in range(rng.choice([1, 3, 10]))]
    k = T // len(b) + 1
    n = len(b) * k
    u = list("".join(rng.choice(["a", "é", "€", "𝄞"]) for _ in range(rng.choice([1, 4]))).encode())
    x = [120] + b
    w = b + [44]
    ev = [{"op": "cpy", "src": b, "size": z} for z in (n, n + 1, n + 9, T)] + [{"op": "cat", "src": b, "dst": [100] * 5, "size": z} for z in (n + 5, n + 6, T + 1)]
    ev += [{"op": "replace", "s": x, "pat": [120], "rep": r} for r in ([], [121, 121, 121], [121])] + [{"op": "split", "s": w, "delim": [44], "max": z} for z in (k, k + 5, k - 1)]
    ev += [{"op": "trim", "s": b, "cset": b}, {"op": "trim", "s": b, "cset": [44]}, {"op": "utf8", "s": u}, {"op": "utf8n", "s": u, "max": len(u) * (k - 1)}, {"op": "hex", "data": b, "cap": 3 * n + 1}, {"op": "hex", "data": b, "cap": 2 * n + 99}, {"op": "upper", "s": b}, {"op": "lower", "s": b}]
    return {"cfg": {"k": i}, "ev": [dict(e, times=k) for e in rng.sample(ev, 10 if i % 8 else len(ev))]}


def check(ctx):
    exe = ctx.driver("h_str.c", "asan", wraps=W)
    tests = ctx.mc("MC_Strings", "CONSTANT N = %d\nCONSTANT M = %d\n" % ctx.n((4, 3), (6, 4)) + CFG, "all short inputs; laws of the functions", emit=True)
    ctx.replay_tests(exe, tests, "all short inputs")
    runs = [script(ctx.rng, i, not ctx.quick()) for i in range(ctx.n(1500, 15000))]
    ctx.conform(exe, "Trace_Strings", runs, "random inputs", run_timeout=10)
    ctx.conform(ctx.driver("h_str.c", "plain", wraps=W), "Trace_Strings", [long(ctx.rng, i) for i in range(ctx.n(10, 60))], "long texts", run_timeout=60)
    ctx.assumptions += ["case conversion and comparison in the C locale", "an empty replacement pattern occurs nowhere", "inputs are valid C strings of the lengths generated"]
