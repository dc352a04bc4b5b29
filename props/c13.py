LEVEL = "model_checking"
W = ["malloc", "calloc", "realloc", "free", "strdup", "strndup"]
CFG = "INIT MCInit\nNEXT MCNext\nVIEW View\nINVARIANT Inv\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
REPLY = ("failed", "kf", "vf", "seen")


def strip(t):
    return {"cfg": t["cfg"], "ev": [{k: v for k, v in e.items() if k not in REPLY} for e in t["ev"]]}


def script(rng, i, deep):
    def create():
        return {"op": "create", "cap": rng.choice([0, 0, 1, 2, 3, 5, 11, 12, 13, 100]), "hash": rng.choice(["const", "mod2", "mod4", "neg", "bytes", "id", "id", "neg"]),
                "kfree": rng.random() < .8, "vfree": rng.random() < .8, "lock": rng.random() < .5}
    ev = [create()]
    nk = rng.choice([1, 2, 3, 5, 8, 16, 40, 150])
    have = set()
    nxt = 1
    grow = rng.random()
    if rng.random() < .3:   # fill, look everything up, drain
        ks = list(range(nk))
        rng.shuffle(ks)
        for k in ks:
            ev.append({"op": "put", "k": k, "ko": nxt, "v": nxt + 1})
            nxt += 2
        ev += [{"op": "get", "k": k} for k in ks]
        rng.shuffle(ks)
        for k in ks:
            ev += [{"op": "remove", "k": k}] + ([{"op": "get", "k": rng.randrange(nk)}] if rng.random() < .5 else [])
    for _ in range(rng.randrange(15, 300 if deep else 110)):
        r = rng.random()
        k = rng.randrange(nk) if rng.random() < .5 or not have else rng.choice(sorted(have))
        if r < .2 + .4 * grow:
            if rng.random() < .3:
                k = rng.randrange(nk)
            e = {"op": "put", "k": k, "ko": nxt, "v": 0 if rng.random() < .1 else nxt + 1}
            nxt += 2
            if rng.random() < .06:
                e["fail"] = rng.choice([1, 1, 2, 2, -1])
            else:
                have.add(k)
            ev.append(e)
        elif r < .7:
            ev.append({"op": "get", "k": k})
        elif r < .86:
            ev.append({"op": "remove", "k": k})
            have.discard(k)
        elif r < .97:
            st = rng.choice([0, 0, 1, 2, rng.randrange(0, nk + 2)])
            rm = []
            if rng.random() < .4:
                rm = [x for x in range(nk) if rng.random() < rng.choice([.2, .5, 1])]
                have -= set(rm)
            ev.append({"op": "foreach", "stop": st, "rm": rm})
        elif r < .98:
            ev.append({"op": "nullmap"})
        elif r < .99:
            ev.append({"op": "clear"})
            have = set()
        else:
            ev += [{"op": "free"}, create()]
            have = set()
        if rng.random() < .05:
            grow = rng.random()
    ev += [{"op": "get", "k": k} for k in range(min(nk, 20))]
    return {"cfg": {"k": i}, "ev": ev}


def check(ctx):
    exe = ctx.driver("h_hashmap.c", "asan", wraps=W)
    tests = ctx.mc("MC_HashMap", "CONSTANT NKeys = 3\nCONSTANT MaxLen = %d\n" % ctx.n(6, 8) + CFG, "3 keys", emit=True)
    keep = ctx.rng.sample(tests, min(len(tests), ctx.n(4000, 40000)))
    ctx.conform(exe, "Trace_HashMap", [strip(t) for t in keep], "histories of the small model")
    runs = [script(ctx.rng, i, not ctx.quick()) for i in range(ctx.n(800, 10000))]
    ctx.conform(exe, "Trace_HashMap", runs, "random histories")
    ctx.assumptions += ["up to 150 distinct keys per map in random histories", "single thread (locking across threads is C26)",
                        "a stored value object is never stored a second time"]
