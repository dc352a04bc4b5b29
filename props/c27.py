LEVEL = "model_checking"
W = ["malloc", "calloc", "realloc", "free", "strdup", "strndup", "vasprintf", "asprintf", "read", "write", "mkdir", "fread"]
SEQ = "INIT MCInit\nNEXT MCNext\nVIEW View\nINVARIANT Inv\nACTION_CONSTRAINT Emit\nCONSTRAINT Bound\nPROPERTY Stays\nCHECK_DEADLOCK FALSE\n"
NAMES = ["a", "b", "ab", "c.txt", "...", ".a", "..b", "a b", "x%sy", "%n", "name-of-%d", "A", "_", "n" * 100]


class World:
    """what the script generator believes exists (only to aim well)"""
    def __init__(self):
        self.n = {(): "d"}

    def dirs(self):
        return [q for q, k in self.n.items() if k == "d"]

    def files(self):
        return [q for q, k in self.n.items() if k == "f"]


def spell(rng, q):
    p = []
    for x in q:
        r = rng.random()
        if r < .04:
            p.append(".")
        if r > .97 and p:
            p.append("")
        p.append(x)
    return p or ["."]


def content(rng, deep, text=False):
    k = rng.random()
    if k < .1:
        return []
    if text or k < .4:
        b = []
        for _ in range(rng.randrange(1, 8)):
            n = rng.choice([0, 0, 1, 2, 5, 30, 1021, 1022, 1023, 1024, 1025, 2046, 2047, 2500]) if rng.random() < .25 else rng.randrange(0, 12)
            line = [rng.choice([97, 98, 9, 32, 35, 13, 255, 200, 11]) for _ in range(n)]
            if n > 3 and rng.random() < .7:
                line[0] = 97
            b += line + ([13] if rng.random() < .25 else []) + [10]
        return b[:-1] if rng.random() < .4 else b
    n = rng.choice([1, 2, 255, 256, 4095, 4096, 4097, rng.randrange(1, 200)])
    return [rng.choice([0, 10, 13, 26, 255, rng.randrange(256)]) for _ in range(n)]


def pattern(rng, n):
    if rng.random() < .4:
        return []
    return [rng.choice([1, 2, 3, max(1, n // 2), max(1, n - 1), n, n + 1, 0, -1] + [max(1, n // 3)] * 6) for _ in range(rng.randrange(1, 6))]


def script(rng, i, deep):
    w, ev = World(), []
    for _ in range(rng.randrange(6, 22)):
        r = rng.random()
        anyp = lambda: rng.choice(list(w.n)) + ((rng.choice(NAMES),) if rng.random() < .5 else ())
        if r < .22:
            q = rng.choice(list(w.n)) + tuple(rng.choice(NAMES[:8]) for _ in range(rng.randrange(0, 4)))
            if any(w.n.get(q[:j]) == "s" for j in range(len(q) + 1)):
                continue
            e = {"op": "mkdirs", "p": spell(rng, q), "trail": rng.random() < .8, "plen": 0, "fail": rng.choice([0] * 8 + [1, 2, 3]), "race": rng.choice([0] * 6 + [1, 2])}
            if rng.random() < .2:
                e["abs"] = 1
            if rng.random() < .12:  # around the length limit
                t = rng.choice([254, 255, 256, 257, 258, 300])
                k = rng.choice([1, 2, 3, 5])
                p, left = [], t - 1
                for j in range(k):
                    m = left if j == k - 1 else max(1, left // (k - j))
                    p.append(chr(99 + j) * m)
                    left -= m + 1
                    if left < 1:
                        break
                e.update(p=p, trail=True, abs=0, fail=0)
            ev.append(e)
            ok = True
            for j in range(1, len(q) + (1 if e["trail"] else 0)):
                if w.n.get(q[:j], "d") != "d":
                    ok = False
                if ok and e["p"] and not e["fail"] and e["p"][0] in (q[:1] or (".",)):
                    w.n[q[:j]] = "d"
            ev.append({"op": "tree"})
        elif r < .36:
            d = rng.choice(w.dirs())
            q = d + (rng.choice(NAMES),)
            if w.n.get(q, "f") != "f":
                continue
            b = content(rng, deep)
            pat = pattern(rng, len(b))
            # only files below directories that surely exist: put the directories first
            for j in range(1, len(q)):
                ev.append({"op": "put", "p": list(q[:j]), "kind": "d", "data": []})
            ev.append({"op": "write", "p": spell(rng, q), "data": b, "app": rng.random() < .3, "pat": pat})
            w.n[q] = "f"
        elif r < .46 and w.files():
            q = rng.choice(w.files())
            m = rng.choice([0, 1, 2, 5, 100, 4096, 5000, 9000])
            ev.append({"op": "read", "p": spell(rng, q), "off": rng.choice([0, 0, 1, 10, 4095, 4096, 9999]), "max": m, "pat": pattern(rng, m)})
        elif r < .58:
            q = rng.choice(w.files()) if w.files() and rng.random() < .75 else anyp()
            if w.n.get(q) == "s":
                continue
            ev.append({"op": "readall", "p": spell(rng, q), "fault": rng.choice([0] * 7 + [1, 2]) if w.n.get(q) == "f" else 0})
        elif r < .64:
            q = anyp()
            ev.append({"op": rng.choice(["size", "access"]), "p": spell(rng, q), "seek": rng.choice([0, 1, 5])})
        elif r < .74:
            d = rng.choice(w.dirs())
            q = d + (rng.choice(["t1", "t2"]),)
            for j in range(1, len(q)):
                ev.append({"op": "put", "p": list(q[:j]), "kind": "d", "data": []})
            ev.append({"op": "put", "p": list(q), "kind": "f", "data": [x for x in content(rng, deep, True) if x]})
            w.n[q] = "f"
            ev.append({"op": "readtxt", "p": spell(rng, q), "stop": rng.choice([0, 0, 1, 2, 3]), "code": rng.choice([1, -1, 7])})
            if rng.random() < .2:
                ev.append({"op": "readtxt", "p": spell(rng, rng.choice(w.dirs())), "stop": 0, "code": 1})
        elif r < .9:
            d = rng.choice(w.dirs())
            for j in range(1, len(d) + 1):
                ev.append({"op": "put", "p": list(d[:j]), "kind": "d", "data": []})
            for _ in range(rng.randrange(0, 7)):
                q = d + (rng.choice(NAMES),)
                if q in w.n or any(x["p"][-1:] == [q[-1]] for x in ev if "p" in x):
                    continue
                k = rng.choice(["f", "f", "d", "d", "s"] + (["x"] if rng.random() < .3 else []))
                ev.append({"op": "put", "p": list(q), "kind": k, "data": [7] * rng.randrange(0, 9) if k == "f" else []})
                w.n[q] = k
            if rng.random() < .03:
                for k in range(rng.choice([64, 300])):
                    ev.append({"op": "put", "p": list(d) + ["m%03d" % k], "kind": "f", "data": []})
            sp = spell(rng, d)
            ev.append({"op": "iter", "p": sp, "trail": rng.random() < .2, "stop": rng.choice([0, 0, 0, 1, 2, 3]), "code": rng.choice([1, -1])})
            if rng.random() < .15:
                ev.append({"op": "iter", "p": spell(rng, rng.choice(w.files()) if w.files() else ("nothing here",)), "trail": False, "stop": 0, "code": 1})
        elif r < .97:
            n = rng.choice([0, 1, 2, 3, 4, 8, 30])
            s = [rng.choice([97, 98, 47, 32, 92 if rng.random() < .3 else 97, 255]) for _ in range(n)]
            s += [32] * rng.choice([0, 0, 0, 1, 2]) + rng.choice([[], [], [47], [92]])
            ev.append({"op": "slash", "s": s, "size": len(s) + rng.choice([1, 1, 2, 2, 3, 10])})
        else:
            q = rng.choice([x for x in w.n if x] or [None])
            if q and w.n[q] == "f":
                ev.append({"op": "rm", "p": list(q)})
                del w.n[q]
    ev.append({"op": "tree"})
    return fix({"cfg": {"k": i}, "ev": ev})


def large(rng, i):
    """files beyond 64 KiB, moved in parts"""
    n = rng.choice([32767, 32768, 65535, 65536, 65537, 66000, 70001])
    b = [rng.randrange(256) for _ in range(256)]
    b = (b * (n // 256 + 1))[:n]
    p = lambda: rng.choice([[], [], [n // 2], [n - 1, 1], [40000, 40000], [1, n], [n // 3] * 4, [65536], [33000, -1]])
    ev = [{"op": "write", "p": ["a"], "data": b, "app": False, "pat": p()}, {"op": "size", "p": ["a"], "seek": 0},
          {"op": "read", "p": ["a"], "off": rng.choice([0, 1, 65535]), "max": rng.choice([n, 65536, 70000]), "pat": p()},
          {"op": "write", "p": ["a"], "data": b[:70], "app": True, "pat": []}, {"op": "readall", "p": ["a"], "fault": 0}, {"op": "tree"}]
    return fix({"cfg": {"k": i}, "ev": ev})


def fix(run):
    """drop what the situation does not allow (puts onto other kinds, reads of what is no file)"""
    fs, out = {(): "d"}, []
    for e in run["ev"]:
        q = tuple(x for x in e.get("p", ()) if x not in ("", "."))
        pd = all(fs.get(q[:j]) == "d" for j in range(len(q)))
        if e["op"] in ("put", "write"):
            kind = e.get("kind", "f")
            if not q or not pd or (fs.get(q) is not None and not (kind == fs[q] == "f")):
                continue
            fs[q] = kind
        elif e["op"] == "read" and fs.get(q) != "f" or e["op"] == "rm" and fs.get(q) != "f":
            continue
        elif e["op"] == "rm":
            del fs[q]
        elif e["op"] == "readall" and e["fault"] and fs.get(q) != "f":
            continue
        elif e["op"] == "mkdirs":
            n = len(e["p"])
            ok, k = len("/".join(e["p"])) + e["trail"] + (40 if e.get("abs") else 0) <= 256, 0
            if e.get("abs") and 150 < len("/".join(e["p"])):
                continue
            for j in range(1, n + (1 if e["trail"] else 0)):
                c = tuple(x for x in e["p"][:j] if x not in ("", "."))
                if not ok or fs.get(c) == "d":
                    continue
                k += 1
                if fs.get(c) == "s":
                    ok = None
                elif c in fs or max(map(len, c)) > 255 or k == e["fail"]:
                    ok = False
                else:
                    fs[c] = "d"
            if ok is None:
                continue
        elif e["op"] in ("readall", "readtxt", "size", "access", "iter") and any(fs.get(q[:j]) == "s" for j in range(len(q) + (e["op"] in ("readtxt", "iter", "readall")))):
            continue
        out.append(e)
    run["ev"] = out
    return run


def check(ctx):
    exe = ctx.driver("h_file.c", "asan", wraps=W)
    tests = ctx.mc("MC_FileSys", "CONSTANT Depth = %d\n" % ctx.n(2, 3) + SEQ, "two names, three levels, all operations", emit=True)
    if len(tests) > 60000:
        tests = ctx.rng.sample(tests, 60000)
    ctx.replay_tests(exe, [t for t in tests if not any(e["i"]["op"] == "readall" and e["i"]["fault"] == 0 and e["o"].get("len", 1) == 0 for e in t["ev"])], "all transitions of the small model")
    runs = [script(ctx.rng, i, not ctx.quick()) for i in range(ctx.n(1500, 12000))]
    runs += [{"cfg": {"k": 0}, "ev": [{"op": "big", "extra": x}]} for x in ctx.n([0], [0, 5])]
    ctx.conform(exe, "Trace_FileSys", runs, "random histories")
    ctx.conform(exe, "Trace_FileSys", [large(ctx.rng, i) for i in range(ctx.n(8, 40))], "files beyond 64 KiB")
    ctx.assumptions += ["POSIX paths without '..' and backslashes (append_slash excepted); files up to 70 kB, one of 2 GiB", "the file system itself behaves"]
