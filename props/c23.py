LEVEL = "model_checking"
W = ["malloc", "calloc", "realloc", "free", "strdup", "strndup", "vasprintf", "asprintf"]
SEQ = "INIT MCInit\nNEXT MCNext\nVIEW View\nINVARIANT Inv\nACTION_CONSTRAINT Emit\nPROPERTY AppendOnly\nCHECK_DEADLOCK FALSE\n"
FM = ["%s", "%d", "%s=%d;", "%*s|", "%-*s|", "%.*s", "%0*d", "%%%c", "%s%s", "", "lit"]


def script(rng, i, deep):
    cap = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 127, 128, 129, 500])
    room = cap if cap >= 2 else 128
    ev = [{"op": "create", "cap": cap, "fail": rng.choice([1, 2]) if rng.random() < .02 else 0}]
    if ev[0]["fail"]:
        return {"cfg": {"k": i}, "ev": ev}
    n = 0
    txt = lambda m: [rng.choice([rng.randrange(1, 256), rng.randrange(97, 123)]) for _ in range(m)]

    def amount():
        # aim at the capacity of the current and of the next buffer sizes
        c = room
        while c <= n + 1:
            c *= 2
        m = rng.choice([rng.randrange(1, 9), rng.randrange(1, 9), c - n - 2, c - n - 1, c - n, c - n + 1, 2 * c - n - 1, 2 * c - n, rng.randrange(0, 300)])
        return max(0, min(m, 1500 if deep else 600))
    for _ in range(rng.randrange(3, 40 if deep else 22)):
        if n > (6000 if deep else 1200):
            ev.append({"op": "clear"})
            n = 0
        r = rng.random()
        f = rng.choice([1, -1]) if rng.random() < .06 else 0
        if r < .15:
            e = {"op": "char", "c": rng.randrange(1, 256)}
            m = 1
        elif r < .4:
            m = amount()
            e = {"op": "str", "s": txt(m)}
        elif r < .6:
            m = amount()
            e = {"op": "nstr", "s": txt(m), "max": rng.choice([-1, m, m + 1, m + 700, max(m - 1, 0), rng.randrange(0, m + 2), 1])}
        elif r < .88:
            m = amount()
            e = {"op": "fmt", "f": rng.choice(FM), "s": txt(m), "n": rng.choice([0, 1, 65, 9999, rng.randrange(33, 10 ** 9)]), "w": rng.choice([0, 1, 5, 40, 130, m, m + 1]),
                 "lit": [x for x in txt(m) if x != 37] or [97]}
            if e["f"] == "%%%c":
                e["n"] = rng.randrange(1, 256)
            if e["f"] == "%d" and rng.random() < .4:
                e["n"] = -e["n"]
            m = 2 * m
        elif r < .91:
            e, m = {"op": "fmtbad"}, 0
        elif r < .94:
            e, m = {"op": "null", "which": rng.randrange(4)}, 0
        elif r < .98:
            e, m = {"op": "clear"}, -n
        else:
            ev += [{"op": "destroy"}, dict(ev[0])]
            n = 0
            continue
        if f and e["op"] in ("char", "str", "nstr", "fmt"):
            e["fail"] = f
        ev.append(e)
        n += m
    ev.append({"op": "destroy"})
    return {"cfg": {"k": i}, "ev": ev}


def large(rng, cap):
    """texts longer than 16 bits can count"""
    txt = lambda m: [97 + (i * 7 + i // 256) % 26 for i in range(m)]
    ev = [{"op": "create", "cap": cap, "fail": 0}]
    for m in rng.sample([65533, 65534, 65535, 65536, 70000, 33000, 40000, 255, 256, 1], 5):
        ev.append(rng.choice([{"op": "str", "s": txt(m)}, {"op": "nstr", "s": txt(m), "max": rng.choice([-1, m, m - 1, 65536, 65535])}, {"op": "fmt", "f": "%s=%d;", "s": txt(m), "n": 12, "w": 0, "lit": [97]}]))
        ev.append(rng.choice([{"op": "char", "c": 65}, {"op": "str", "s": txt(3)}, {"op": "str", "s": txt(500)}]))
    ev += [{"op": "clear"}, {"op": "str", "s": txt(70000)}, {"op": "char", "c": 66}, {"op": "destroy"}]
    return {"cfg": {"k": 1}, "ev": ev}


def check(ctx):
    exe = ctx.driver("h_sb.c", "asan", wraps=W)
    tests = ctx.mc("MC_StringBuilder", "CONSTANT MaxLen = %d\nCONSTANT Caps = {0,1,2,3,4,5,8,9%s}\n" % ctx.n((20, ""), (150, ",16,31,64")) + SEQ, "every length from every initial size", emit=True)
    ctx.replay_tests(exe, tests, "all transitions of the small model")
    runs = [script(ctx.rng, i, not ctx.quick()) for i in range(ctx.n(1000, 10000))]
    ctx.conform(exe, "Trace_StringBuilder", runs, "random histories")
    ctx.conform(ctx.driver("h_sb.c", "plain", wraps=W), "Trace_StringBuilder", [large(ctx.rng, c) for c in (0, 16, 65535, 65536, 70000, 131072)], "texts longer than 64 KiB", run_timeout=60)
    ctx.assumptions += ["appended text contains no zero byte and does not alias the builder's own buffer"]
