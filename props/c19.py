import ini_gen as g
LEVEL = "model_checking"


def check(ctx):
    exe = ctx.driver("h_ini.c", "asan", wraps=g.W)
    tests = ctx.mc("MC_Ini", "CONSTANT TextLen_ = %d\nCONSTANT MaxLen = 2\n" % ctx.n(4, 5) + g.CFG, "texts over {a,=,[,],;,space,LF}", emit=True)
    tests = [t for t in tests if t["ev"][0]["op"] != "create"]
    keep = ctx.rng.sample(tests, min(len(tests), ctx.n(5000, 60000)))
    tail = [{"op": "dump"}, {"op": "save"}, {"op": "destroy"}]
    runs = [{"cfg": t["cfg"], "ev": [{"op": "ispath", "str": t["ev"][0]["str"]}] + t["ev"] + tail} for t in keep]
    ctx.conform(exe, "Trace_Ini", runs, "texts of the small model")
    runs = [g.parsing(ctx.rng, i, not ctx.quick()) for i in range(ctx.n(900, 9000))]
    tr = ctx.conform(exe, "Trace_Ini", runs, "random texts")
    # what was dumped and saved is read back
    back = []
    for t in tr:
        if t and t["ev"][-1]["op"] == "destroy":
            d = [e for e in t["ev"] if e["op"] == "dump"][0]
            if isinstance(d.get("str"), list):
                back.append({"cfg": t["cfg"], "ev": [{"op": ctx.rng.choice(["parse", "load"]), "str": d["str"]}, {"op": "each", "stop": 0}, {"op": "dump"}, {"op": "destroy"}]})
    ctx.conform(exe, "Trace_Ini", back, "dumped texts read back")
    hist = [g.history(ctx.rng, i, False) for i in range(ctx.n(250, 2500))]
    for h in hist:
        h["ev"] = [e for e in h["ev"] if e["op"] in ("create", "put", "delkey", "delsec", "destroy")]
        h["ev"][-1:] = [{"op": o, **({"size": ctx.rng.choice([50, 200, 1000, 5000, 20000])} if o == "dumpmem" else {})} for o in ("dump", "dumpmem", "save", "destroy")]
    tr = ctx.conform(exe, "Trace_Ini", hist, "documents dumped and saved")
    back = []
    for t in tr:
        s = [e["str"] for e in t["ev"] if e["op"] == "dump" and isinstance(e.get("str"), list)] if t else []
        if s:
            back.append({"cfg": t["cfg"], "ev": [{"op": ctx.rng.choice(["parse", "load"]), "str": s[-1]}, {"op": "each", "stop": 0}, {"op": "dump"}, {"op": "destroy"}]})
    ctx.conform(exe, "Trace_Ini", back, "dumped documents read back")
    ctx.assumptions += ["section and key names of up to 63 bytes, values of up to 255 bytes, lines end with LF or CRLF"]
