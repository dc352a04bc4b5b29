LEVEL = "model_checking"
W = ["malloc", "calloc", "realloc", "free", "strdup", "strndup"]
CFG = "INIT MCInit\nNEXT MCNext\nVIEW View\nINVARIANT Inv\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"


def script(rng, i, deep):
    ev = []
    on = False
    live, orphan = {}, set()     # id -> (tracked, requested size)
    smashed = None
    forks = 0

    def add(op, **k):
        ev.append(dict({"op": op, "org": 0, "line": -1, "fail": 0, "fill": rng.randrange(1, 256), "via": 0}, **k))

    def org():
        v = rng.choice([0, 1, 1, 1])
        return {"via": v, "org": rng.randrange(0, 4) if v == 1 else 0, "line": rng.randrange(0, 100000) if v == 1 else -1}
    if rng.random() < .75:
        add("init")
        on = True
    big = rng.random() < .06
    for _ in range(rng.randrange(10, 200 if deep else 70) if not big else 12):
        r = rng.random() if not big else rng.choice([.1, .5, .5, .5, .5, .6])
        i_ = rng.randrange(1, 12)
        fail = 1 if rng.random() < .04 else 0
        if smashed is not None:
            k = rng.random()
            if k < .5:
                add("tryfree", id=smashed if rng.random() < .7 else i_)
            elif k < .7:
                add("tryreport")
            add("mend", id=smashed)
            smashed = None
            continue
        mine = [x for x in live if live[x][0] == on]
        if r < .35 and i_ not in live and i_ not in orphan:
            n = rng.choice([0, 1, 2, 7, 8, 9, rng.randrange(0, 60)])
            k = rng.randrange(7)
            if rng.random() < .03:
                add("malloc", id=i_, n=-rng.choice([1, 2, 8, 9, 16, 17, 100]), **org())
            elif rng.random() < .03:
                add("calloc", id=i_, c=0, s=0, huge=rng.randrange(1, 6), **org())
            elif k < 2:
                o = org()
                if rng.random() < .2:
                    o = {"via": 2}
                add("malloc", id=i_, n=n, **dict(o, fail=fail))
            elif k < 4:
                o = org()
                c = rng.randrange(0, 8)
                s = rng.randrange(0, 8)
                if rng.random() < .2:
                    o = {"via": 2}
                add("calloc", id=i_, c=c, s=s, huge=0, **dict(o, fail=fail))
                n = c * s
            elif k == 4:
                n = rng.randrange(0, 30)
                add("strdup", id=i_, str=[rng.randrange(1, 256) for _ in range(n)], **dict(org(), fail=fail))
                n += 1
            elif k == 5:
                st = [rng.randrange(1, 256) for _ in range(n)]
                m = rng.choice([0, n, n + 1, rng.randrange(n + 5), 1000])
                add("strndup", id=i_, str=st, n=m, unterm=1 if m <= n and rng.random() < .5 else 0, **dict(org(), fail=fail))
                n = min(m, n) + 1
            else:
                if rng.random() < .1:
                    n = 0
                add("realloc", id=i_, n=n, **dict(org(), fail=fail))
                if rng.random() < .1:
                    ev[-1]["n"] = -rng.choice([1, 2, 16, 2000, 2048, 2060])
                if n == 0:
                    fail = 1
            if ev[-1].get("n", 0) >= 0 and not ev[-1].get("huge") and not fail:
                live[i_] = (on, n)
        elif r < .55 and mine:
            x = rng.choice(mine)
            if rng.random() < .5:
                n = rng.choice([0, 1, live[x][1], live[x][1] + 1, max(1, live[x][1] - 1), rng.randrange(1, 80), 2100 if rng.random() < .1 else 5])
                if big:
                    n = rng.choice([live[x][1] + rng.choice([1, 500, 1500, 2040, 2048, 2049]), rng.randrange(1, 5000)])
                add("realloc", id=x, n=n, **dict(org(), fail=fail if n else 0))
                if n == 0:
                    del live[x]
                elif not fail:
                    live[x] = (on, n)
                elif n <= live[x][1]:
                    live[x] = (on, n)      # may or may not have needed memory; n bytes are usable either way
            else:
                add("free", id=x, via=rng.choice([0, 1, 2]))
                del live[x]
        elif r < .7 and live:
            x = rng.choice(sorted(live))
            if rng.random() < .5 and live[x][1]:
                add("write", id=x, data=[rng.randrange(256) for _ in range(rng.randrange(0, live[x][1] + 1))])
            else:
                add("read", id=x)
        elif r < .8 and on:
            t = [x for x in live if live[x][0]]
            if t and rng.random() < .6:
                smashed = rng.choice(t)
                add("smash", id=smashed, side=rng.choice(["before", "after"]), at=rng.randrange(8), x=rng.choice([1, 32, 128, 255]))
            elif forks < 6:
                forks += 1
                add("tryfree", id=i_)
        elif r < .83:
            add("init")
            on = True
        elif r < .87 and on and not any(v[0] for v in live.values()):
            add("uninit")
            on = False
        elif r < .88:
            add("reset")
            if on:
                for x in [x for x in live if live[x][0]]:
                    orphan.add(x)
                    del live[x]
        elif r < .9:
            add("nulls")
    return {"cfg": {"k": i}, "ev": ev}


def check(ctx):
    exe = ctx.driver("h_tracker.c", "asan", wraps=W)
    tests = ctx.mc("MC_Tracker", "CONSTANT MaxLen = %d\n" % ctx.n(6, 8) + CFG, "two blocks", emit=True)
    keep = ctx.rng.sample(tests, min(len(tests), ctx.n(3000, 30000)))
    runs = [{"cfg": t["cfg"], "ev": [{k: v for k, v in e.items() if k not in ("rep", "total")} for e in t["ev"]]} for t in keep]
    ctx.conform(exe, "Trace_Tracker", runs, "histories of the small model")
    runs = [script(ctx.rng, i, not ctx.quick()) for i in range(ctx.n(900, 10000))]
    ctx.conform(exe, "Trace_Tracker", runs, "random histories")
    runs = []
    for n, s in ((257, 3), (1025, 5), (3000, 1), (ctx.n(20000, 70000), 2), (40, 5000), (3, 70000)):
        ev = script(ctx.rng, 0, False)["ev"][:6]
        ev = [e for e in ev if e["op"] in ("malloc", "calloc", "strdup", "read") or e["op"] == "write"]
        ev = [{"op": "init", "org": 0, "line": -1, "fail": 0, "fill": 1, "via": 0}] + [e for e in ev if e["op"] not in ("read", "write")]
        one = dict(ev[0], op="many", n=n, s=s)
        runs.append({"cfg": {"k": n}, "ev": ev + [dict(one, via=1, org=1, line=7), dict(one, n=n // 2 + 1)]})
        runs.append({"cfg": {"k": n + 1}, "ev": [dict(one, n=n // 2 + 1)] + ev + [one, one]})
    ctx.conform(exe, "Trace_Tracker", runs, "many blocks at once")
    runs = []
    for n in (255, 256, 257, 4000, 32768, 65530, 65536, 66000):
        z = {"org": 1, "line": 5, "fail": 0, "fill": ctx.rng.randrange(1, 256), "via": 1}
        m = ctx.rng.choice([n - 1, n + 1, n + 300])
        a = ctx.rng.choice([dict(z, op="malloc", id=3, n=n), dict(z, op="calloc", id=3, c=n, s=1, huge=0), dict(z, op="realloc", id=3, n=n)])
        runs.append({"cfg": {"k": n}, "ev": [dict(z, op="init", via=0), dict(z, op="malloc", id=1, n=7), a, dict(z, op="realloc", id=3, n=m, fill=9), dict(z, op="smash", id=3, side=ctx.rng.choice(["before", "after"]), at=ctx.rng.randrange(8), x=1),
                                             dict(z, op="tryfree", id=3), dict(z, op="mend", id=3), dict(z, op="read", id=3), dict(z, op="free", id=3), dict(z, op="read", id=1), dict(z, op="free", id=1), dict(z, op="uninit", via=0)]})
    ctx.conform(exe, "Trace_Tracker", runs, "large blocks", procs=4)
    ctx.assumptions += ["single blocks up to 66300 bytes, up to %d blocks at once" % ctx.n(20000, 70000), "the tracker's own bookkeeping allocations succeed", "tracking is not switched off while tracked blocks are live",
                        "guard damage changes one byte", "single thread (C26)"]
