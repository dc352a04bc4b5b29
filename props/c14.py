LEVEL = "model_checking"
W = ["malloc", "calloc", "realloc", "free", "strdup", "strndup"]
SEQ = "INIT MCInit\nNEXT MCNext\nVIEW View\nINVARIANT Inv\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"


def script(rng, i, deep):
    ev = [{"op": "create", "cb": rng.random() < .7, "fail": 0}]
    dup = rng.random() < .5
    n = rng.choice([1, 2, 3, 6, 20, 200])
    cur = []
    for _ in range(rng.randrange(10, 300 if deep else 90)):
        r = rng.random()
        x = rng.randrange(1, n + 1)
        fail = 1 if rng.random() < .05 else 0
        if r < .4:
            if not dup and x in cur:
                free = [y for y in range(1, n + 1) if y not in cur]
                if not free:
                    continue
                x = rng.choice(free)
            if rng.random() < .03:
                x = 0
            k = rng.random()
            if k < .45:
                ev.append({"op": "append", "x": x, "fail": fail})
                if x and not fail:
                    cur.append(x)
            elif k < .75:
                ev.append({"op": "prepend", "x": x, "fail": fail})
                if x and not fail:
                    cur.insert(0, x)
            else:
                p = rng.choice([0, len(cur), rng.randrange(len(cur) + 1)])
                ev.append({"op": "insert", "pos": p, "x": x, "fail": fail})
                if p and x and not fail:
                    cur.insert(p, x)
        elif r < .6:
            if cur and rng.random() < .85:
                x = rng.choice([cur[0], cur[-1], rng.choice(cur)])
            ev.append({"op": "remove", "x": x if rng.random() < .98 else 0})
            if x in cur and ev[-1]["x"]:
                cur.remove(x)
        elif r < .7:
            ev.append({"op": "contains", "x": rng.randrange(n + 2)})
        elif r < .95:
            m = "plain"
            e = {"op": "foreach", "mode": m, "stop": rng.choice([0, 0, 1, 2, len(cur), len(cur) + 1, rng.randrange(len(cur) + 2)])}
            if not dup and rng.random() < .5:
                e["mode"] = "rm"
                e["stop"] = 0
                e["rm"] = [y for y in set(cur) if rng.random() < rng.choice([.2, .5, 1])]
                cur = [y for y in cur if y not in e["rm"]]
            elif dup and cur and rng.random() < .3:
                e["mode"] = "pre"
                e["at"] = rng.randrange(1, len(cur) + 1)
                e["x"] = x
                if not e["stop"] or e["at"] <= e["stop"]:
                    cur.insert(0, x)
            ev.append(e)
        elif r < .97:
            ev.append({"op": "clear"})
            cur = []
        elif r < .98:
            ev.append({"op": "nulls"})
        else:
            ev += [{"op": "free"}, {"op": "create", "cb": True, "fail": 0}]
            cur = []
    return {"cfg": {"k": i}, "ev": ev}


def large(rng, n):
    """more elements than 8 or 16 bits count"""
    ev = [{"op": "create", "cb": True, "fail": 0}, {"op": "fill", "n": n, "front_": rng.randrange(2)}, {"op": "append", "x": 4001, "fail": 0}, {"op": "prepend", "x": 4002, "fail": 0},
          {"op": "insert", "pos": rng.choice([n, n + 2, 1, 255, 256]), "x": 4003, "fail": 0}, {"op": "remove", "x": 4001}, {"op": "remove", "x": 4003}, {"op": "remove", "x": 4005}, {"op": "contains", "x": 4002},
          {"op": "foreach", "mode": "plain", "stop": rng.choice([0, n, n + 1, n - 1])}, {"op": "fill", "n": 3, "front_": 0}, {"op": "remove", "x": min(n, 4000)}]
    ev += [{"op": "clear"}, {"op": "append", "x": 1, "fail": 0}, {"op": "free"}] if rng.random() < .5 else [{"op": "free"}]
    return {"cfg": {"k": 1}, "ev": ev}


def check(ctx):
    exe = ctx.driver("h_list.c", "asan", wraps=W)
    tests = ctx.mc("MC_List", "CONSTANT N = 3\nCONSTANT MaxLen = %d\n" % ctx.n(5, 6) + SEQ, "sequences over 3 elements", emit=True)
    ctx.replay_tests(exe, tests, "all transitions of the small model")
    runs = [script(ctx.rng, i, not ctx.quick()) for i in range(ctx.n(1500, 15000))]
    ctx.conform(exe, "Trace_List", runs, "random histories")
    ctx.conform(ctx.driver("h_list.c", "plain", wraps=W), "Trace_List", [large(ctx.rng, n) for n in (254, 255, 256, 300, 65534, 65535, 65536, 70000)], "long lists", run_timeout=60)
    ctx.assumptions += ["lists of up to 200 elements in random histories, 70000 in the long ones", "a foreach callback changes the list only by removing the visited element or prepending"]
