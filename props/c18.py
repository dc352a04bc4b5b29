import ini_gen as g
LEVEL = "model_checking"


def check(ctx):
    exe = ctx.driver("h_ini.c", "asan", wraps=g.W)
    tests = ctx.mc("MC_Ini", "CONSTANT TextLen_ = 1\nCONSTANT MaxLen = %d\n" % ctx.n(4, 5) + g.CFG, "short histories", emit=True)
    tests = [t for t in tests if t["ev"][0]["op"] == "create"]
    keep = ctx.rng.sample(tests, min(len(tests), ctx.n(6000, 60000)))
    runs = []
    for t in keep:
        ev = [{k: v for k, v in e.items() if k != "r"} for e in t["ev"]]
        for e in ev:
            if e.pop("failed", 0):
                e["fail"] = ctx.rng.choice([1, 2, 3, 4])
        runs.append({"cfg": t["cfg"], "ev": ev + [{"op": "each", "stop": 0}, {"op": "destroy"}]})
    ctx.conform(exe, "Trace_Ini", runs, "histories of the small model")
    runs = [g.history(ctx.rng, i, not ctx.quick()) for i in range(ctx.n(900, 9000))]
    ctx.conform(exe, "Trace_Ini", runs, "random histories")
    ctx.assumptions += ["section and key names of up to 63 bytes, values of up to 255 bytes", "memory failures are injected in put only"]
