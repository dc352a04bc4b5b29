import conc
LEVEL = "model_checking"
E0 = {"op": "create"}


def gen_map(rng, deep):
    oid = [0]
    grow = rng.random() < .35      # the table grows while other threads look keys up
    nk = rng.choice([1, 2, 2, 3])
    kinds = rng.choice([["put", "put", "get", "remove"], ["put", "put", "remove", "foreach"], ["put", "clear", "get", "foreach"], ["put", "put", "get", "remove", "foreach", "clear", "size"], ["put", "size", "remove", "clear"]])

    def op(k=None):
        k = k or rng.choice(kinds)
        e = {"op": k, "k": rng.randrange(nk)}
        if k == "put":
            oid[0] += 1
            e["ko"] = oid[0]
            e["v"] = oid[0]
        elif k == "foreach":
            e["stop"] = rng.choice([0, 0, 0, 1])
            e["rm"] = []
        return e
    big = grow or rng.random() < .2
    if big:
        nk = 9
        kinds = kinds + ["put"]
    if grow:
        kinds = rng.choice([["get", "put"], ["remove", "get", "put"], ["put", "foreach", "get"]])
    pre = [op("put") for _ in range(rng.choice([0, 1, 2, 4 if big else 2]) if not grow else rng.choice([1, 3, 3, 6]))]
    for i, e in enumerate(pre):
        e["k"] = i % nk
    thr = [[op() for _ in range(rng.choice([1, 2, 2, 3]))] for _ in range(rng.choice([2, 2, 3]))]
    if grow:
        n = len(pre)
        for i, p in enumerate(thr):
            for e in p:
                e["k"] = rng.randrange(n, 9) if e["op"] == "put" and rng.random() < .8 else rng.randrange(n)
        thr[0][0] = dict(op("put"), k=n)
    post = [op("foreach"), op("size")] + [{"op": "get", "k": k} for k in range(nk)] + [{"op": "free"}]
    post[0]["stop"] = 0
    return {"c": "map", "hash": "id" if grow else rng.choice(["id", "id", "mod2", "const"]), "cap": 1 if grow else rng.choice([0, 1, 4]), "kfree": rng.randrange(2), "vfree": rng.randrange(2), "pre": pre, "thr": thr, "post": post,
            "fail": rng.choice([0, 0, 0, 1, 2])}


def gen_pool(rng, deep):
    mn = rng.choice([8, 16])
    slots = rng.choice([2, 3, 4])

    def op():
        k = rng.choice(["malloc", "malloc", "malloc", "free", "free", "realloc", "resize", "maxmem", "freemem"])
        e = {"op": k}
        if k in ("malloc", "free", "realloc", "resize"):
            e["slot"] = rng.randrange(slots * 2)
        if k == "malloc":
            e["n"] = rng.choice([1, 8, 9, 16, 17, 32, 40, 64])
            e["zero_"] = rng.randrange(2)
        elif k in ("realloc", "resize"):
            e["n"] = rng.choice([8, 16, 32, 64, 128])
        return e
    pre = [op() for _ in range(rng.choice([0, 2, 4]))]
    thr = [[op() for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([2, 2, 3]))]
    if rng.random() < .5:          # blocks that grow while other threads take and give back blocks
        pre = [{"op": "malloc", "slot": i, "n": rng.choice([8, 16, 32]), "zero_": 0} for i in range(rng.choice([2, 3, 4]))]
        thr = [[{"op": k, "slot": i, "n": rng.choice([16, 32, 64]), "zero_": rng.randrange(2)} for k in rng.sample(["realloc", rng.choice(["free", "realloc", "malloc"]), "malloc"], rng.choice([1, 2, 3]))] for i in range(rng.choice([2, 3]))]
        thr[0][0] = {"op": "realloc", "slot": 0, "n": 64}
        return {"c": "pool", "size": rng.choice([200, 300, 500]), "min": mn, "pre": pre, "thr": thr, "post": [{"op": "state"}] + [{"op": "free", "slot": s} for s in range(24)] + [{"op": "state"}]}
    # a slot belongs to one thread, except for blocks made beforehand
    for i, p in enumerate(thr):
        for e in p:
            if "slot" in e and rng.random() < .8:
                e["slot"] = slots * 2 + i * 3 + rng.randrange(2)
            elif e["op"] == "malloc":
                e["slot"] = slots * 2 + i * 3 + rng.randrange(2)
    post = [{"op": "state"}] + [{"op": "free", "slot": s} for s in range(24)] + [{"op": "state"}]
    return {"c": "pool", "size": mn * 9 * rng.choice([1, 2, 3]) // 8 * 8 + rng.choice([0, 5, 70]), "min": mn, "pre": pre, "thr": thr, "post": post}


def gen_cover(rng, deep):
    cap = rng.choice([4, 8, 8])
    c = [0]
    tot = 0

    def w(n):
        c[0] += n
        return {"op": "write", "data": [(c[0] + i) % 200 + 1 for i in range(n)]}
    pre = [w(rng.randrange(1, cap)) for _ in range(rng.choice([0, 1, 2]))]
    tot = sum(len(e["data"]) for e in pre)

    def rd():
        # a read gives back what follows the last byte taken, so position and length matter
        return {"op": "read", "pos": max(0, tot + rng.randrange(-cap - 1, cap)), "n": rng.randrange(1, cap)} if rng.random() < .75 else {"op": "avail", "pos": max(0, tot + rng.randrange(-cap - 1, cap))}
    thr = [[(w(rng.randrange(1, cap)) if rng.random() < (.8 if i == 0 else .3) else rd()) for _ in range(rng.choice([1, 2, 3]))] for i in range(rng.choice([2, 2, 3]))]
    tot += sum(len(e["data"]) for p in thr for e in p if e["op"] == "write")
    post = [{"op": "avail", "pos": tot - k} for k in range(min(tot, cap + 2) + 1)] + [{"op": "read", "pos": max(0, tot - k), "n": 1} for k in range(min(tot, cap), 0, -1)]
    return {"c": "cover", "req": cap, "pre": pre, "thr": thr, "post": post}


def gen_tracker(rng, deep):
    def op(s):
        k = rng.choice(["malloc", "malloc", "calloc", "strdup", "free", "free", "realloc", "report", "report"])
        e = {"op": k}
        if k != "report":
            e["slot"] = s
        if k in ("malloc", "calloc", "strdup", "realloc"):
            e["n"] = rng.randrange(1, 12) if k != "realloc" or rng.random() < .8 else 3000
            o = rng.choice([0, 1, 2, 3])
            e["org"] = o
            e["line"] = rng.randrange(1, 1000) if o else -1
        return e
    pre = [op(s) for s in range(rng.choice([0, 2, 4]))]
    thr = [[op(rng.choice([s, 6 + i, 12 + i])) for s in [rng.randrange(4) for _ in range(rng.choice([1, 2, 3]))]] for i in range(rng.choice([2, 2, 3]))]
    for i, p in enumerate(thr):
        for e in p:
            if e.get("slot", 9) < 4 and e["op"] in ("malloc", "calloc", "strdup"):
                e["slot"] = 6 + i
    post = [{"op": "report"}] + [{"op": "free", "slot": s} for s in range(24)] + [{"op": "report"}]
    return {"c": "tracker", "pre": pre, "thr": thr, "post": post}


MOD = {"map": ("LinMap", gen_map), "pool": ("LinPool", gen_pool), "cover": ("LinCover", gen_cover), "tracker": ("LinTracker", gen_tracker)}


def outcomes(c):
    """every kind of call with every outcome, each followed by further calls of two threads"""
    out = []
    if c == "pool":
        M = lambda s, n: {"op": "malloc", "slot": s, "n": n, "zero_": 0}
        X = lambda k, s, n: {"op": k, "slot": s, "n": n}
        st = [{"op": "state"}] + [{"op": "free", "slot": s} for s in range(24)] + [{"op": "state"}]
        for one in (X("realloc", 0, 128), X("realloc", 0, 8), X("realloc", 0, 16), X("realloc", 0, 12), X("realloc", 0, 0), X("resize", 0, 128), X("resize", 0, 8), X("resize", 0, 3),
                    M(5, 128), M(5, 0), M(5, 8), dict(M(5, 64), zero_=1), {"op": "free", "slot": 1}, {"op": "maxmem"}, {"op": "freemem"}):
            two = [{"op": "freemem"}, {"op": "maxmem"}, M(9, 8)]
            out.append({"c": "pool", "size": 100, "min": 8, "pre": [M(0, 8), M(1, 16), M(2, 32)], "thr": [[one, M(6, 8), {"op": "free", "slot": 6}], two], "post": st})
            out.append({"c": "pool", "size": 100, "min": 8, "pre": [M(0, 8), M(1, 8), M(2, 16), M(3, 32), M(4, 16), M(7, 8)], "thr": [[one, {"op": "free", "slot": 2}], two], "post": st})
    elif c == "map":
        n = [0]

        def put(k):
            n[0] += 1
            return {"op": "put", "k": k, "ko": n[0], "v": n[0]}
        for fail in (0, 1, 2):
            for h in ("id", "const"):
                for mk in (lambda: put(0), lambda: put(4), lambda: {"op": "get", "k": 0}, lambda: {"op": "get", "k": 5}, lambda: {"op": "remove", "k": 1}, lambda: {"op": "remove", "k": 5},
                           lambda: {"op": "foreach", "stop": 0, "rm": []}, lambda: {"op": "foreach", "stop": 1, "rm": []}, lambda: {"op": "clear"}, lambda: {"op": "size"}):
                    n[0] = 0
                    pre = [put(k) for k in range(4)]
                    out.append({"c": "map", "hash": h, "cap": 1, "kfree": 1, "vfree": 1, "pre": pre, "thr": [[mk(), {"op": "get", "k": 2}], [{"op": "get", "k": 3}, put(6)]],
                                "post": [{"op": "foreach", "stop": 0, "rm": []}, {"op": "size"}, {"op": "free"}], "fail": fail})
    elif c == "cover":
        W = lambda n: {"op": "write", "data": list(range(1, n + 1))}
        for one in ({"op": "read", "pos": 0, "n": 2}, {"op": "read", "pos": 9, "n": 9}, {"op": "read", "pos": 8, "n": 2}, {"op": "read", "pos": 99, "n": 1}, {"op": "avail", "pos": 0}, {"op": "avail", "pos": 10}, {"op": "avail", "pos": 90}, W(8), W(1)):
            out.append({"c": "cover", "req": 8, "pre": [W(6), W(6)], "thr": [[one, W(2)], [{"op": "avail", "pos": 9}]], "post": [{"op": "avail", "pos": 12}, {"op": "avail", "pos": 14}]})
    else:
        A = lambda k, s, n, o=1: {"op": k, "slot": s, "n": n, "org": o, "line": 7 if o else -1}
        for one in (A("realloc", 0, 3000), A("realloc", 0, 2), A("malloc", 4, 5), A("calloc", 4, 5), A("strdup", 4, 5), {"op": "free", "slot": 1}, {"op": "report"}):
            out.append({"c": "tracker", "pre": [A("malloc", 0, 8), A("malloc", 1, 9, 0)], "thr": [[one, A("malloc", 6, 4)], [{"op": "report"}, A("strdup", 12, 6)]],
                        "post": [{"op": "report"}] + [{"op": "free", "slot": s} for s in range(24)] + [{"op": "report"}]})
    return out


def subops(c, cfg, e, r):
    """the operations of the specification that one call stands for, with their results"""
    if r.get("skip"):
        return []
    if c == "tracker":
        if e["op"] == "report":
            return [dict(e, **{k: r[k] for k in ("rep", "total")})]
        rec = {"n": e.get("n", 0), "exact": e["op"] != "realloc", "org": e.get("org", 0), "line": e.get("line", -1)}
        if e["op"] == "free":
            return [{"op": "del", "p": r["old"]}]
        if e["op"] == "realloc":
            if r["p"] == 0:
                return []
            if r["p"] == r["old"]:
                return [{"op": "stay", "p": r["p"]}]
            return [dict(rec, op="add", p=r["p"]), {"op": "del", "p": r["old"]}]
        return [dict(rec, op="add", p=r["p"])] if r["p"] else []
    x = dict(e)
    x.update({k: v for k, v in r.items() if k not in ("op", "t", "i")})
    if c == "map" and e["op"] == "put":
        x["failed"] = 1 if cfg.get("fail") and r["failed"] else 0
    return [x]


def project(t):
    cfg, ev = t["cfg"], t["ev"]
    c = cfg["c"]
    progs = {0: cfg["pre"], 9: cfg["post"]}
    progs.update({i + 1: p for i, p in enumerate(cfg["thr"])})
    rets = {(e["t"], e["i"]): e for e in ev if e["op"] == "ret"}
    out = []
    if c == "map":
        out += [{"op": "call", "t": 90, "es": [{"op": "create", "failed": 0, "kfree": bool(cfg["kfree"]), "vfree": bool(cfg["vfree"]), "ok": True}]}, {"op": "ret", "t": 90}]
    elif c == "pool":
        out += [{"op": "call", "t": 90, "es": [{"op": "init", "size": cfg["size"], "min": cfg["min"], "ret": 0}]}, {"op": "ret", "t": 90}]
    elif c == "cover":
        out += [{"op": "call", "t": 90, "es": [{"op": "create", "req": cfg["req"], "ok": True}]}, {"op": "ret", "t": 90}]
    for e in ev:
        if e["op"] == "call":
            r = rets.get((e["t"], e["i"]))
            out.append({"op": "call", "t": e["t"], "es": subops(c, cfg, progs[e["t"]][e["i"]], r) if r else []})
        elif e["op"] == "ret":
            out.append({"op": "ret", "t": e["t"]})
        else:
            out.append(e)
    return {"cfg": {"c": c}, "ev": out}


def check(ctx):
    q = ctx.quick()
    for what, consts in (("2 threads", "CONSTANT Thread = {t1, t2}\nCONSTANT Key = {k1, k2}\nCONSTANT MaxOps = 3\n"),) if q else (
            ("2 threads", "CONSTANT Thread = {t1, t2}\nCONSTANT Key = {k1, k2}\nCONSTANT MaxOps = 5\n"), ("3 threads", "CONSTANT Thread = {t1, t2, t3}\nCONSTANT Key = {k1}\nCONSTANT MaxOps = 4\n")):
        ctx.mc("MC_Locked", consts + "SPECIFICATION Spec\nINVARIANT Inv\nPROPERTY Atomic\nPROPERTY Returns\nCHECK_DEADLOCK FALSE\n", "locked container, " + what)
    exe = conc.build(ctx, "h_lin.c")
    for c, (mod, gen) in MOD.items():
        n = ctx.n({"map": 26, "pool": 24, "cover": 18, "tracker": 16}[c], 150)
        pairs = conc.explore(ctx, exe, [gen(ctx.rng, not q) for _ in range(n)], ctx.n(120, 1000), ctx.n(110, 800), depth2=ctx.n(60, 600), label=c)
        pairs += conc.explore(ctx, exe, outcomes(c), ctx.n(12, 200), ctx.n(6, 100), label=c + ", every outcome", prios=(0, 1))
        conc.conform(ctx, exe, "Trace_" + mod, pairs, c, project=project)
    ctx.assumptions += ["the lock functions provide mutual exclusion (a mutex)", "callbacks do not call back into the same container", "a block or key is given to one operation at a time by its owner",
                        "allocation_tracker_init/uninit/reset are not called while other threads allocate", "a growing lcu_realloc under the tracker may show as an allocation followed by a release"]
