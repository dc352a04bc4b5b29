import conc
LEVEL = "model_checking"
SEQ = "INIT MCInit\nNEXT MCNext\nVIEW View\nINVARIANT Inv\nINVARIANT Exact\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
W = ["malloc", "calloc", "realloc", "free", "strdup", "strndup", "gettimeofday", "portable_thread_gettid", "freopen"]
PRINTABLE = [b for b in range(1, 256) if b != 0]


def text(rng, n):
    if rng.random() < .5:
        return [rng.choice([32, 37, 97, 98, 115, 37, 100, 10, 110]) for _ in range(n)]
    return [rng.choice(PRINTABLE) for _ in range(n)]


def script(rng, i, deep):
    ev = [{"op": "defaults"}]
    if rng.random() < .6:
        ev.append({"op": "init"})
    plain = i % 3 == 0
    for _ in range(rng.randrange(8, 60 if deep else 25)):
        k = rng.random()
        clk = {"d": rng.choice([0, 11016, 19723, 20000, rng.randrange(25000)]), "s": rng.choice([0, 86399, 43200, rng.randrange(86400)]), "us": rng.choice([0, 999, 999999, rng.randrange(1000000)]),
               "thr": rng.choice([1, 12, 99999, 100000, 100003, 4194303, 2147483647, rng.randrange(1, 70000)])}
        if k < .35:
            o = rng.choice(["min", "up", "target", "target", "format", "format", "flush", "tz", "cb", "tag", "tag"])
            if o == "tag":
                e = {"op": "tag", "tag": text(rng, rng.choice([0, 1, 7, 8, 9, 21, 22, 23, 24, 25, 40]))}
                if rng.random() < .1:
                    del e["tag"]
            else:
                v = {"min": [0, 1, 1, 2, 3, 5, 6, -1, 100], "up": [0, 1, 3, 4, 5], "target": [0, 2, 4, 8, 12, 14, 12, -1, 1, 16], "format": [0, 2, 4, 6, 8, 10, 12, 14, 14, -1, 1, 16, 7],
                     "flush": [0, 1, 2], "tz": [-13, -12, -1, 0, 5, 8, 12, 13], "cb": [0, 1, 2, 3]}[o]
                e = {"op": o, "v": rng.choice(v)}
            ev.append(e)
        elif k < .41:
            ev.append({"op": rng.choice(["init", "cleanup"])})
        elif k < .43:
            ev.append({"op": "tofile", "s": rng.randrange(2), "file": rng.choice(["f1", "f2", "", "f1"])})
        elif k < .46:
            ev.append({"op": "back", "s": rng.randrange(2)})
        elif k < .48:
            ev.append({"op": "smin", "v": rng.choice([0, 1, 2, 3, 4, 5, 6, -1])})
        elif k < .54:
            e = {"op": "slog", "lev": rng.randrange(1, 6), "style": rng.randrange(2), "tag": text(rng, rng.randrange(1, 30)), "msg": text(rng, rng.choice([0, 5, 300, 900]))}
            ev.append(e)
        elif k < .57:
            ev.append({"op": "shex", "lev": rng.randrange(1, 6), "tag": text(rng, 4), "data": [rng.randrange(256) for _ in range(rng.choice([0, 1, 10, 84, 85, 86, 200, 255, 256, 257, 1000]))]})
        elif k < .62:
            e = {"op": "hex", "style": rng.randrange(2), "lev": rng.randrange(1, 6), "data": [rng.randrange(256) for _ in range(rng.choice([0, 1, 10, 100, 169, 170, 171, 172, 255, 256, 257, 400, 1500]))]}
            if rng.random() < .6:
                e["tag"] = text(rng, rng.choice([0, 3, 30]))
            ev.append(dict(e, **clk))
        else:
            st = rng.choice([0, 0, 0, 1, 2, 3, 4, 5])
            lev = rng.randrange(1, 6) if st >= 2 or rng.random() < .8 else rng.choice([0, 6, 7])
            n = rng.choice([0, 1, 10, 40, 100, 450, 455, 459, 460, 470, 480, 500, 505, 509, 510, 511, 512, 513, 514, 600, 1500]) if rng.random() < .6 else rng.randrange(0, 700)
            if rng.random() < .04:
                n = rng.choice([1022, 1023, 1024, 1025, 2047, 2048, 2049, 4000, 4095, 4096, 4097, 8191, 8192, 8193])
            if rng.random() < .01:
                n = rng.choice([20000, 20000, 32767, 65535, 65536, 70000])
            e = {"op": "print", "lev": lev, "style": st, "msg": text(rng, n)}
            if rng.random() < .7:
                e["tag"] = text(rng, rng.choice([0, 1, 5, 7, 8, 9, 15, 21, 22, 23, 24, 25, 60]))
            if st in (0, 1) and rng.random() < .5:
                ln = rng.choice([1, 5, 30, 63, 100, 399]) if rng.random() < .9 else rng.choice([430, 440, 460, 500, 511, 700])
                e["func"] = [rng.choice([97, 95, 102, 48]) for _ in range(ln)]
                e["line"] = rng.choice([0, 1, 9, 10, 123, 99999, 2147483647, -1])
            if st == 1:
                e["n"] = rng.choice([0, 7, 12345])
                e["ch"] = rng.choice([65, 37, 255])
            if n > 400 and rng.random() < .15 and not plain:
                e["fail"] = rng.choice([1, -1, 2])
            ev.append(dict(e, **clk))
    return {"cfg": {"k": i}, "ev": ev}


def threads(rng):
    st = {}
    if rng.random() < .7:
        st["target"] = rng.choice([4, 8, 12, 12])
    if rng.random() < .4:
        st["min"] = rng.choice([0, 1, 3, 5])
    if rng.random() < .7:
        st["format"] = rng.choice([0, 0, 2, 4, 8, 14])
    if rng.random() < .3:
        st["up"] = rng.choice([3, 4])
    if rng.random() < .3:
        st["tag"] = [97] * rng.choice([1, 9, 22])
    if rng.random() < .3:
        st["flush"] = 1
    T = []
    kind = rng.choice(["min", "min", "target", "format", "tag", "up", "user", "mix", "none"])
    for i in range(rng.choice([1, 2, 2])):
        p = []
        for k in range(rng.choice([1, 1, 2, 3])):
            e = {"op": "print", "lev": rng.randrange(1, 6), "msg": [65 + i, 48 + k] + [rng.choice([97, 98])] * rng.choice([0, 1, 8, 20, 530 if rng.random() < .3 else 2]),
                 "d": 100 + i, "s": rng.choice([0, 3600, 50000]), "us": rng.choice([0, 999999])}
            if rng.random() < .5:
                e["tag"] = [116] * rng.choice([1, 8, 23])
            p.append(e)
        T.append(p)
    if kind != "none":
        p = []
        for k in range(rng.choice([1, 2, 2, 3])):
            w = kind if kind != "mix" else rng.choice(["min", "target", "format", "tag", "up", "user"])
            if w == "tag":
                p.append({"op": "set", "what": "tag", "tag": rng.choice([[98] * 22, [99], [100] * 12])})
            else:
                p.append({"op": "set", "what": w, "v": rng.choice({"min": [0, 1, 3, 5, 5, 0], "target": [0, 4, 8, 12], "format": [0, 2, 4, 8, 14], "up": [0, 3, 5], "user": [0, 1, 2]}[w])})
        T.append(p)
    if rng.random() < .25:
        T.append([{"op": "nest"}])
    return {"set": st, "thr": T}


def check(ctx):
    exe = ctx.driver("h_xlog.c", "asan", wraps=tuple(W), extra=("h_slog.c",))
    q = ctx.quick()
    tests = ctx.mc("MC_Xlog", "CONSTANT MaxLen = %d\nCONSTANT Mins = {0, 3, 5}\nCONSTANT Targets = {0, 4, 8, 12}\nCONSTANT Formats = {0, 4, 14}\n" % (4 if q else 6) + SEQ, "short setting histories, every call", emit=True)
    keep = ctx.rng.sample(tests, min(len(tests), ctx.n(12000, 80000)))
    ctx.replay_tests(exe, keep, "all transitions of the small model" if len(keep) == len(tests) else "sampled transitions of the small model")
    runs = [script(ctx.rng, i, not q) for i in range(ctx.n(1500, 15000))]
    ctx.conform(exe, "Trace_Xlog", runs, "random histories")
    for what, k in (("loggers and a setter", (2, 1)),) if q else (("loggers and a setter", (2, 1)), ("one logger, two setters", (1, 2))):
        cfg = "CONSTANT Logger = {%s}\nCONSTANT Setter = {%s}\nCONSTANT Mins = {0, 5}\nSPECIFICATION Spec\nINVARIANT Inv\nINVARIANT Bounded\nPROPERTY Returns\nCHECK_DEADLOCK FALSE\n" % (
            ", ".join(map(str, range(1, k[0] + 1))), ", ".join(map(str, range(4, 4 + k[1]))))
        ctx.mc("MC_XlogConc", cfg, what)
    cexe = ctx.driver("h_xlogc.c", "sched", wraps=tuple(conc.WRAPS) + ("portable_thread_gettid",), extra=("csched.c",), defs=("-DDRV_NO_MAIN", "-DDRV_WRAP_ALLOC"))
    pairs = conc.explore(ctx, cexe, [threads(ctx.rng) for _ in range(ctx.n(24, 120))], ctx.n(120, 800), ctx.n(120, 800), depth2=ctx.n(80, 600), label="threads")
    conc.conform(ctx, cexe, "Trace_XlogConc", pairs, "threads logging and changing settings")
    ctx.assumptions += ["messages and tags are C strings (no zero byte)", "a function name of more than 400 bytes may be cut", "the redirection target can be opened", "the user callback does not log"]
