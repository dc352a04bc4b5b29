LEVEL = "model_checking"
CFG = "INIT MCInit\nNEXT MCNext\nVIEW View\nINVARIANT Laws\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
import base64 as b64
PL = [ord(c) for c in "azAZ09.-*_"]


def script(rng, i, deep):
    ev = []
    L = rng.choice([4, 12, 60] + ([500] if deep else [150]))
    by = lambda m=None: [rng.choice([rng.randrange(256), rng.randrange(256), 0, 255, 32, 43, 37, 97]) for _ in range(rng.randrange(0, (m or L) + 1))]
    for _ in range(rng.randrange(4, 12)):
        op = rng.choice(["b64enc", "b64enc", "b64dec", "b64dec", "urlenc", "urlenc", "urldec", "urldec"])
        if op == "b64enc":
            e = {"data": by()}
        elif op == "b64dec":
            s = list(b64.b64encode(bytes(by())))
            if rng.random() < .5 and s:
                for _ in range(rng.randrange(1, 3)):
                    if s:
                        j = rng.randrange(len(s))
                        r = rng.random()
                        if r < .4:
                            del s[j:]
                        elif r < .7:
                            s[j] = rng.randrange(1, 256)
                        else:
                            s.insert(j, rng.choice([61, 10, 45, 95, 65]))
            e = {"s": s}
        elif op == "urlenc":
            d = by()
            n = sum(1 if b in b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.-*_ " else 3 for b in d)
            e = {"data": d, "cap": rng.choice([0, 1, 2, n - 1, n, n + 1, n + 1, n + 2, 3 * len(d) + 1, rng.randrange(n + 9)])}
            e["cap"] = max(0, e["cap"])
        else:
            s, n = [], 0
            for _ in range(rng.randrange(L)):
                r = rng.random()
                s += rng.choice([[rng.choice(PL)], [43], list(b"%%%02X" % rng.randrange(256)), list(b"%%%02x" % rng.randrange(256))]) if r < .97 else rng.choice([[37], [37, 52], [37, 103, 49], [37, 49, 47], [rng.randrange(1, 256)]])
                n += 1
            if rng.random() < .2:
                s += rng.choice([[37], [37, 52]])
            e = {"s": s, "cap": max(0, rng.choice([0, 1, 2, n, n + 1, n + 2, len(s) + 1, len(s) + 1, rng.randrange(n + 5)]))}
            if rng.random() < .2:
                e["nolast"] = 1
        ev.append(dict(e, op=op))
    return {"cfg": {"k": i}, "ev": ev}


def long(rng, i):
    """inputs and outputs longer than 16 bits can count, as repeated blocks"""
    by = lambda m: [rng.choice([rng.randrange(256), 0, 255, 32, 97]) for _ in range(m)]
    T = rng.choice([255, 256, 257, 65535, 65536, 65537, 70000, rng.randrange(300, 70000)])
    b = by(rng.choice([3, 6, 30]))
    ev = [{"op": "b64enc", "data": b, "times": T // len(b) + 1}, {"op": "b64dec", "s": list(b64.b64encode(bytes(b))), "times": T // len(b) + 1}]
    d = by(rng.choice([1, 5, 20]))
    k = T // len(d) + 1
    n = k * sum(1 if x in b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.-*_ " else 3 for x in d)
    ev += [{"op": "urlenc", "data": d, "times": k, "cap": c} for c in (n, n + 1, n + 5)]
    s = []
    for x in d:
        s += rng.choice([[rng.choice(PL)], [43], list(b"%%%02X" % x)])
    ev += [{"op": "urldec", "s": s, "times": k, "cap": c} for c in (len(d) * k + 1, len(s) * k + 1)]
    return {"cfg": {"k": i}, "ev": ev}


def check(ctx):
    exe = ctx.driver("h_codec.c", "asan")
    tests = ctx.mc("MC_Codec", "CONSTANT N = %d\nCONSTANT Bytes = {0,1,2,3,15,16,63,64,127,128,129,191,192,240,252,255%s}\n" % ctx.n((3, ""), (4, ",4,7,8,31,32,33,65,66,100,170,200,207,208,248,250,254")) + CFG, "all short inputs; inverse laws", emit=True)
    ctx.replay_tests(exe, tests, "all short inputs")
    runs = [script(ctx.rng, i, not ctx.quick()) for i in range(ctx.n(1200, 12000))]
    ctx.conform(exe, "Trace_Codec", runs, "random inputs")
    ctx.conform(ctx.driver("h_codec.c", "plain"), "Trace_Codec", [long(ctx.rng, i) for i in range(ctx.n(12, 60))], "long inputs")
    ctx.assumptions += ["inputs below 2^31 bytes", "base64 input of fewer than two bytes may be refused"]
