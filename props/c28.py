import conc
LEVEL = "model_checking"
TY = ["normal", "recursive", "error"]


def gen(rng, deep):
    main, prog = [{"op": "nulls"}] if rng.random() < .2 else [], []
    kinds = {}                                   # slot -> kind
    nslot = rng.choice([1, 2, 2, 3])
    for s in range(nslot):
        k = rng.choice(["m", "m", "r", "r", "s"])
        if rng.random() < .1:
            f = rng.choice(["mem", "sys"])
            main.append({"op": {"m": "minit", "r": "rinit", "s": "sinit"}[k], "s": s, "fault": f, "ty": "normal", "n": 1})
            if rng.random() < .4:                # use what could not be made
                main.append({"op": {"m": "lock", "r": rng.choice(["rdlock", "wrlock"]), "s": "wait"}[k], "s": s})
        if k == "m":
            ty = rng.choice(TY)
            kinds[s] = ("m", ty)
            main.append({"op": "minit", "s": s, "ty": ty, "fault": ""})
        elif k == "r":
            kinds[s] = ("r", "")
            main.append({"op": "rinit", "s": s, "fault": ""})
        else:
            n = rng.choice([0, 1, 1, 2]) if rng.random() < .88 else rng.choice([127, 128, 255, 256, 300, 32767, 65535, 65536, (1 << 20) + 3, 1 << 24])
            kinds[s] = ("s", n)
            main.append({"op": "sinit", "s": s, "n": n, "fault": ""})
    risky = rng.random() < .3                    # programs that may get stuck

    def body(me, budget, depth=0, low=0, held=()):
        ops = []
        while budget > 0:
            x = rng.random()
            s = rng.randrange(nslot)
            k, ty = kinds[s]
            budget -= 1
            if x < .06:
                ops.append({"op": rng.choice(["gettid", "getname", "gettid"])})
                continue
            if x < .09:
                ops.append({"op": "setname", "name": [rng.randrange(97, 123) for _ in range(rng.choice([1, 5, 15, 16, 30]))]})
                ops.append({"op": "getname"})
                continue
            if k == "s":
                if x < .45 and (risky or True):
                    ops.append({"op": "wait", "s": s})
                    if rng.random() < .6:
                        ops.append({"op": "post", "s": s})
                elif x < .8:
                    ops.append({"op": "post", "s": s})
                else:
                    ops.append({"op": "value", "s": s})
                continue
            if s < low and not risky:
                continue
            if k == "m":
                if s in held and ty == "normal" and not (risky and rng.random() < .2):
                    continue
                if s in held and ty == "error":
                    ops.append({"op": "lock", "s": s})          # refused
                    continue
                if ty != "normal" and s not in held and x < .15:
                    ops.append({"op": "unlock", "s": s})        # not the owner: refused
                    continue
                inner = body(me, rng.randrange(0, 3), depth + 1, s + 1 if ty != "recursive" else s, tuple(held) + (s,)) if depth < 2 else []
                if rng.random() < .1:
                    inner = inner + [{"op": "mdestroy", "s": s}]    # refused while it is held
                ops += [{"op": "lock", "s": s}] + inner + [{"op": "unlock", "s": s}]
            else:
                if s in held:
                    continue
                inner = body(me, rng.randrange(0, 3), depth + 1, s + 1, tuple(held) + (s,)) if depth < 2 else []
                ops += [{"op": rng.choice(["rdlock", "rdlock", "wrlock"]), "s": s}] + inner + [{"op": "rwunlock", "s": s}]
        return ops
    nt = rng.choice([2, 2, 3]) if rng.random() < .95 else 1
    args = rng.sample(range(16), nt)
    creates = []
    for j in range(1, nt + 1):
        ops = body(j, rng.choice([1, 2, 3]))
        if rng.random() < .06:
            ops.append({"op": "join", "j": j, "want": 1})           # itself: refused
        prog.append({"ops": ops, "res": rng.randrange(1, 64), "exit": 1 if rng.random() < .2 else 0})
        name = [rng.randrange(97, 123) for _ in range(rng.choice([0, 3, 15, 15, 20]))]
        attr = 1 if rng.random() < .5 else 0
        c = {"op": "create", "j": j, "arg": args[j - 1], "name": name if attr else [], "attr": attr, "fault": ""}
        if rng.random() < .1:
            creates.append(dict(c, fault=rng.choice(["mem", "sys"])))
        creates.append(c)
    # one program may create the next one
    nested = nt >= 2 and rng.random() < .25
    if nested:
        last = [c for c in creates if c["j"] == nt and c["fault"] == ""][0]
        creates = [c for c in creates if c["j"] != nt]
        prog[0]["ops"].insert(rng.randrange(len(prog[0]["ops"]) + 1) if not any(o["op"] in ("lock", "rdlock", "wrlock", "join") for o in prog[0]["ops"]) else 0, last)
        if rng.random() < .5:
            prog[0]["ops"].append({"op": "join", "j": nt, "want": rng.randrange(2)})
            nested = "joined"
    creates.sort(key=lambda c: c["fault"] == "")           # the injected failures before anything runs
    main += creates + body(0, rng.choice([0, 0, 1, 2]))
    main += [{"op": "join", "j": j, "want": 1 if rng.random() < .8 else 0} for j in range(1, nt + 1) if not (nested == "joined" and j == nt)]
    if rng.random() < .3:
        main.append({"op": "join", "j": 1, "want": 1})              # there is nothing to join any more
    for s in range(nslot):
        main.append({"op": {"m": "mdestroy", "r": "rdestroy", "s": "sdestroy"}[kinds[s][0]], "s": s})
        if rng.random() < .3:
            main.append({"op": rng.choice({"m": ["lock", "unlock", "mdestroy"], "r": ["rdlock", "wrlock", "rwunlock", "rdestroy"], "s": ["wait", "post", "value", "sdestroy"]}[kinds[s][0]]), "s": s})
    return {"main": main, "prog": prog}


def readers(n):
    """n readers that wait for each other while they hold the lock: they must all be inside together"""
    main = [{"op": "rinit", "s": 0, "fault": ""}] + [{"op": "sinit", "s": i, "n": 0, "fault": ""} for i in range(1, n + 1)]
    prog = []
    for j in range(1, n + 1):
        ops = [{"op": "rdlock", "s": 0}] + [{"op": "post", "s": k} for k in range(1, n + 1) if k != j] + [{"op": "wait", "s": j}] * (n - 1) + [{"op": "rwunlock", "s": 0}]
        if j == 1:
            ops += [{"op": "wrlock", "s": 0}, {"op": "rwunlock", "s": 0}]
        prog.append({"ops": ops, "res": j, "exit": 0})
    main += [{"op": "create", "j": j, "arg": j, "name": [], "attr": 0, "fault": ""} for j in range(1, n + 1)]
    main += [{"op": "join", "j": j, "want": 1} for j in range(1, n + 1)]
    main += [{"op": "rdestroy", "s": 0}] + [{"op": "sdestroy", "s": i} for i in range(1, n + 1)]
    return {"main": main, "prog": prog}


def project(t):
    cfg, ev = t["cfg"], t["ev"]
    progs = {0: cfg["main"]}
    progs.update({i + 1: p["ops"] for i, p in enumerate(cfg["prog"])})
    rets = {(e["t"], e["i"]): e for e in ev if e["op"] == "ret"}
    tid = {}
    out = []
    for e in ev:
        if e["op"] == "call":
            o = dict(progs[e["t"]][e["i"]])
            r = {k: v for k, v in rets.get((e["t"], e["i"]), {}).items() if k not in ("op", "t", "i")}
            if "tid" in r:
                o["tid"] = tid.setdefault(r.pop("tid"), len(tid) + 1)    # only equality matters
            out.append({"op": "call", "t": e["t"], "e": o, "r": r or {"none": 0}})
        elif e["op"] == "ret":
            out.append({"op": "ret", "t": e["t"]})
        else:
            out.append(e)
    return {"cfg": {"c": 0}, "ev": out}


def check(ctx):
    q = ctx.quick()
    for n, mx, sem in ((2, 5, 1),) if q else ((2, 7, 1), (3, 5, 1), (3, 4, 2)):
        ctx.mc("MC_PortThread", "CONSTANT N = %d\nCONSTANT Max = %d\nCONSTANT Sem = %d\nSPECIFICATION Spec\nINVARIANT Inv\nINVARIANT Excl\nINVARIANT NeverStuck\nPROPERTY AllJoined\nCHECK_DEADLOCK FALSE\n" % (n, mx, sem), "%d threads, %d acquisitions" % (n, mx))
    exe = conc.build(ctx, "h_pthr.c")
    pairs = conc.explore(ctx, exe, [readers(2), readers(3)] + [gen(ctx.rng, not q) for _ in range(ctx.n(110, 700))], ctx.n(40, 200), ctx.n(40, 200), depth2=ctx.n(20, 100), label="programs")
    conc.conform(ctx, exe, "Trace_PortThread", pairs, "programs over every primitive", project=project)
    ctx.assumptions += ["objects are not destroyed while another thread is about to use them", "read-write locks are unlocked by a holder only, and a thread does not ask for a write lock while it holds the lock",
                        "the pthread implementation underneath is the scheduler's (POSIX semantics); thread names of more than 15 bytes given at creation are not covered"]
