LEVEL = "model_checking"
W = ["malloc", "calloc", "realloc", "free", "strdup", "strndup"]
SEQ = "INIT MCInit\nNEXT MCNext\nVIEW View\nINVARIANT Inv\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"


def script(rng, i, deep):
    es = rng.choice([1, 2, 3, 4, 4, 5, 7, 8, 12, 16, 24, 33, 100])
    ev = [{"op": "create", "es": es, "cap": rng.choice([-1, -1, 0, 1, 3, 4, 5, 6, 9, 16, 17, 40]), "fail": 1 if rng.random() < .03 else 0}]
    if ev[0]["fail"]:
        return {"cfg": {"k": i}, "ev": ev}
    n = 0
    for _ in range(rng.randrange(5, 140 if deep else 60)):
        r = rng.random()
        b = lambda m: [rng.randrange(256) for _ in range(m)]
        if r < .65:
            e = {"op": "value", "data": b(4)} if es <= 4 and rng.random() < .5 else {"op": "append", "data": b(es)}
            if rng.random() < .08:
                e["fail"] = rng.choice([1, -1])
            else:
                n += 1
            ev.append(e)
        elif r < .85:
            if rng.random() < .9 and n:
                ev.append({"op": "at", "i": rng.randrange(n)})
            else:
                ev.append({"op": "at", "i": n + rng.choice([0, 0, 1, 5])}) if i % 6 == 0 else None
        elif r < .97 and n:
            ev.append({"op": "set", "i": rng.randrange(n), "data": b(es)})
        elif r > .99:
            ev += [{"op": "free"}, dict(ev[0])]
            n = 0
    # (a refused append makes n an over-estimate: keep only indices that are certainly inside)
    lo, out = 0, []
    for e in ev:
        if e is None:
            continue
        if e["op"] in ("create", "free"):
            lo = 0
        elif e["op"] in ("append", "value"):
            lo += 0 if e.get("fail") else 1
        elif e["op"] == "set" and e["i"] >= lo:
            continue
        out.append(e)
    return {"cfg": {"k": i}, "ev": out}


def large(rng, es, n, cap):
    b = lambda k: [(i * 11 + k + i // 256) % 256 for i in range(es)]
    ev = [{"op": "create", "es": es, "cap": cap, "fail": 0}, {"op": "append", "data": b(3)}, {"op": "fill", "n": n}, {"op": "append", "data": b(4)}, {"op": "at", "i": n + 1}, {"op": "at", "i": n}, {"op": "at", "i": 0},
          {"op": "set", "i": n + 1, "data": b(5)}, {"op": "set", "i": n // 2, "data": b(6)}, {"op": "at", "i": min(n, 256)}, {"op": "at", "i": n + 2}, {"op": "append", "data": b(7)}, {"op": "at", "i": n + 2}, {"op": "free"}]
    return {"cfg": {"k": 1}, "ev": ev}


def check(ctx):
    exe = ctx.driver("h_array.c", "asan", wraps=W)
    tests = ctx.mc("MC_Array", "CONSTANT MaxLen = %d\nCONSTANT Sizes = {1,2,3,4,5,8%s}\nPROPERTY Preserved\n" % ctx.n((18, ""), (40, ",16,31")) + SEQ, "growth from every initial capacity", emit=True)
    ctx.replay_tests(exe, tests, "all transitions of the small model")
    runs = [script(ctx.rng, i, not ctx.quick()) for i in range(ctx.n(1200, 12000))]
    ctx.conform(exe, "Trace_Array", runs, "random histories")
    far = [large(ctx.rng, es, n, c) for es, n, c in ((1, 65533, -1), (1, 70000, 4), (2, 65536, 3), (4, 300, 255), (4, 300, 256), (255, 20, -1), (256, 20, -1), (257, 9, 5), (300, 40, 4), (65535, 5, 4), (65536, 4, 4), (70000, 3, 4), (3, 300, 70000), (1, 66000, 65536))]
    ctx.conform(ctx.driver("h_array.c", "plain", wraps=W), "Trace_Array", far, "many and large elements", run_timeout=60)
    ctx.assumptions += ["element size times count below 2^32", "the source of an append is not inside the array itself", "the index check is observed in the debug build the tests use"]
