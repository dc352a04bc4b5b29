LEVEL = "model_checking"
W = ["malloc", "calloc", "realloc", "free", "strdup", "strndup", "vasprintf", "asprintf"]
CFG = "INIT MCInit\nNEXT MCNext\nVIEW View\nINVARIANT MCInv\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"


def by(s):
    return list(s.encode("latin1"))


def number(rng):
    k = rng.random()
    if k < .3:
        return str(rng.choice([0, 1, -1, 5, -17, 2147483647, -2147483648, 2147483648, -2147483649, 4294967295, 4294967296, 4294967297,
                               2**63 - 1, -2**63, 2**63, -2**63 - 1, 10**19, 10**25, rng.randrange(-10**9, 10**9), rng.randrange(-10**18, 10**18)]))
    if k < .4:
        return rng.choice(["0x%x" % rng.randrange(1 << 28), "0X%X" % rng.randrange(1 << 20), "0%o" % rng.randrange(1 << 24), "-0x1f", "+7", "  12", "\t-3", "00", "-0", "08", "0x", "0x1g"])
    if k < .6:
        v = rng.choice([0.0, 1.5, -2.25, 1024.0009765625, 123456.75, rng.randrange(-10**6, 10**6) / 1024.0, float(rng.randrange(10**14))])
        return "%.10f" % v
    if k < .8:
        return str(rng.randrange(0, 10**6))
    return rng.choice(["", "abc", "12z", "-", "+", "=", "1=", "z", "1 2", "12 ", "true", "=5"])


def script(rng, i, deep):
    delim = rng.choice([";", ";", ";", ",", "&", "|", " ", "\n", "x"])
    keys = rng.choice([["a", "b"], ["k%d" % j for j in range(rng.choice([3, 10, 60]))], ["a", "A", "aa", "a b", "\xe9", "key"]])
    dirty = rng.random() < .2

    def key():
        k = rng.choice(keys)
        if dirty and rng.random() < .2:
            k = k + rng.choice(["=", delim, "=" + delim, ""])
        return k.replace("x", "y") if delim == "x" and not dirty else k.replace(" ", "_") if delim == " " and not dirty else k

    def val():
        v = rng.choice([number(rng), number(rng), "v" * rng.randrange(0, 8), "v=1", "=", "".join(chr(rng.randrange(1, 256)) for _ in range(rng.randrange(0, 20)))])
        return v if dirty else v.replace(delim, "_")

    def text():
        t = []
        for _ in range(rng.randrange(0, 14)):
            t.append(rng.choice([key() + "=" + val(), key() + "=" + val(), key(), key() + "=", "=" + val(), "", "=", key() + "==" + val()]))
        return delim.join(t)

    def create():
        d = {"delim": ord(delim), "two": rng.randrange(2), "nulld": rng.randrange(2)}
        return dict(d, op="create") if rng.random() < .4 else dict(d, op="createstr", str=by(text()))
    ev = [create()]
    for _ in range(rng.randrange(5, 120 if deep else 45)):
        r = rng.random()
        k = by(key())
        if r < .25:
            e = {"op": "add", "key": k, "val": by(val())}
            if rng.random() < .12:
                e["fail"] = rng.choice([1, 2, 3, 4, -1])
            ev.append(e)
        elif r < .29:
            ev.append({"op": "addlong", "key": k, "txt": by(str(rng.choice([0, -1, 2**63 - 1, -2**63, rng.randrange(-2**40, 2**40)])))})
        elif r < .33:
            ev.append({"op": "addint", "key": k, "txt": by(str(rng.choice([0, -1, 2**31 - 1, -2**31, rng.randrange(-2**20, 2**20)])))})
        elif r < .37:
            v = rng.choice([0.0, 1.5, -2.25, 1e15, 2.0**70, 2.0**100, -2.0**110, 2.0**120, 2.0**300, rng.randrange(-10**6, 10**6) / 1024.0])
            ev.append({"op": "adddouble", "key": k, "txt": by("%.10f" % v)})
            if abs(v * 1024) < 2**24:
                ev += [{"op": "addfloat", "key": by("flt"), "txt": by("%.10f" % v)}, {"op": "getfloat", "key": by("flt")}]
        elif r < .43:
            ev.append({"op": "del", "key": k})
        elif r < .5:
            ev.append({"op": "has", "key": k})
        elif r < .65:
            ev.append({"op": "getstr", "key": k, "size": rng.choice([0, 1, 2, 5, 12, 20, 100, 400])})
        elif r < .85:
            ev.append({"op": rng.choice(["getlong", "getint", "getdouble"]), "key": k})
        elif r < .98:
            ev.append({"op": "tostr"})
        else:
            ev += [{"op": "destroy"}, create()]
    ev += [{"op": "tostr"}, {"op": "destroy"}]
    for _ in range(rng.choice([0, 0, 1, 6])):
        # creation that runs out of memory somewhere
        ev += [dict(create(), fail=rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 20, -1])), {"op": "destroy"}]
    return {"cfg": {"k": i}, "ev": ev}


def many(rng, n, i):
    """Many keys: the table behind the map grows, or cannot grow for want of memory."""
    by = lambda x: [ord(c) for c in x]
    name = lambda k: by("key%d" % k)
    ev = [{"op": "create", "delim": 59, "two": 0, "nulld": 1}] if i % 2 else [{"op": "createstr", "delim": 59, "two": 0, "nulld": 1, "str": by(";".join("key%d=%d" % (k, k) for k in range(0, n, 3)))}]
    bad = rng.random()
    for k in range(n):
        e = {"op": "add", "key": name(k), "val": by("v%d" % (k % 10))}
        if rng.random() < bad:
            e["fail"] = rng.choice([1, 2, 3, 4, 4, 4, 4])
        ev.append(e)
        if rng.random() < .2:
            ev.append({"op": "getstr", "key": name(rng.randrange(k + 1)), "size": 20})
        if rng.random() < .1:
            ev.append({"op": "del", "key": name(rng.randrange(k + 1))})
    ev += [{"op": "getstr", "key": name(k), "size": 20} for k in range(n)] + [{"op": "tostr"}, {"op": "destroy"}]
    return {"cfg": {"k": i}, "ev": ev}


def check(ctx):
    exe = ctx.driver("h_strparams.c", "asan", wraps=W)
    tests = ctx.mc("MC_StrParams", "CONSTANT TextLen_ = %d\nCONSTANT MaxLen = %d\n" % ctx.n((5, 4), (6, 5)) + CFG, "texts over {a,b,=,;} and short histories", emit=True)
    full = [t for t in tests if t["ev"][0]["op"] == "create" or len(t["ev"]) > 1]
    keep = ctx.rng.sample(full, min(len(full), ctx.n(5000, 60000)))
    runs = [{"cfg": t["cfg"], "ev": [{k: v for k, v in e.items() if k not in ("failed",) and not (k == "str" and e["op"] == "tostr")} for e in t["ev"]] + [{"op": "tostr"}, {"op": "destroy"}]} for t in keep]
    ctx.conform(exe, "Trace_StrParams", runs, "histories and texts of the small model")
    runs = [script(ctx.rng, i, not ctx.quick()) for i in range(ctx.n(900, 10000))]
    ctx.conform(exe, "Trace_StrParams", runs, "random histories")
    ctx.conform(exe, "Trace_StrParams", [many(ctx.rng, ctx.rng.choice([12, 13, 14, 25, 26, 40, 60] + ctx.n([], [100, 200])), i) for i in range(ctx.n(60, 400))], "many keys, growth of the table with and without memory")
    ctx.assumptions += ["the delimiter is one character", "decimal, octal and hexadecimal integers and decimal fractions; other floating-point spellings are only checked for accept/refuse",
                        "memory failures are injected in creation and in add_str only"]
