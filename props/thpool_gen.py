"""Scenarios for the thread pool under the controlled scheduler (C09, C10, C11)."""
CONSTS = "CONSTANT Pools = {0,1,2}\n"


def A(j, p=0):
    return {"op": "add", "j": j, "p": p}


def I(n, p=0):
    return {"op": "init", "n": n, "p": p}


def op(o, p=0, **k):
    return dict({"op": o, "p": p}, **k)


SP = lambda k: {"op": "spawn", "k": k}
JO = lambda k: {"op": "join", "k": k}
W, D, ID, AD, P, R, Q = op("wait"), op("destroy"), op("idle"), op("alldone"), op("pause"), op("resume"), op("working")


def S(jobs, main, *thr):
    return {"jobs": jobs, "thr": list(thr), "main": main}


def mcfg(jobs, waits, sizes, subs, pause):
    return ("CONSTANTS\nPools = {0}\nNJobs = %d\nNWaits = %d\nSizes = {%s}\nSubs = %s\nWithPause = %s\nSPECIFICATION Spec\nINVARIANT Inv\nINVARIANT Once\n"
            "INVARIANT EndedRan\nINVARIANT InOrder\nPROPERTY WaitMeansDone\nPROPERTY ComesToRest\nCHECK_DEADLOCK FALSE\n"
            % (jobs, waits, ",".join(map(str, sizes)), subs and "TRUE" or "FALSE", pause and "TRUE" or "FALSE"))


def jobs09(rng, n):
    js = []
    for j in range(n):
        b = {"y": rng.choice([0, 1, 1, 2, 4])}
        if rng.random() < .12:
            b["ms"] = rng.choice([1, 3])
        js.append(b)
    return js


def scen09(rng):
    n = rng.randrange(1, 7)
    js = jobs09(rng, n)
    size = rng.choice([1, 1, 2, 2, 3])
    ids = list(range(n))
    subs = []
    top = []
    for j in ids:
        if top and rng.random() < .25:
            js[rng.choice(top)].setdefault("sub", []).append(j)
        else:
            top.append(j)
    k = rng.choice([0, 0, 1, 2])
    parts = [[] for _ in range(k + 1)]
    for j in top:
        parts[rng.randrange(k + 1)].append(A(j))
        if rng.random() < .2:
            parts[rng.randrange(k + 1)].append({"op": "yield", "n": 2})
    if rng.random() < .2:
        parts[0].append({"op": "addnull"})
    main = [I(size)] + [SP(t) for t in range(k)] + parts[0] + [JO(t) for t in range(k)]
    if rng.random() < .3:
        main += [ID, A(len(js))] if len(js) < 7 else []
        if len(main) and main[-1].get("j") == len(js):
            js.append({"y": 1})
    main += [AD, ID] if rng.random() < .8 else [AD]
    return S(js, main + [D], *parts[1:])


def fixed09():
    n = {"y": 1}
    return [S([n], [I(1), A(0), AD, D]), S([n, n], [I(2), A(0), A(1), AD, D]), S([n, n, n], [I(1), A(0), A(1), A(2), AD, D]),
            S([{"need": 1}, n], [I(2), A(0), A(1), AD, D]), S([{"need": 2}, {"need": 2}, n], [I(3), A(0), A(1), A(2), AD, D]),
            S([{"y": 2, "sub": [1, 2]}, n, n], [I(1), A(0), AD, D]), S([{"need": 1, "sub": [2]}, n, n], [I(2), A(0), A(1), AD, D]),
            S([{"sub": [1], "need": 1}, n], [I(2), A(0), op("yield", n=3), A(1), AD, D]) if False else S([{"sub": [1]}, {"sub": [2]}, n], [I(2), A(0), AD, D]),
            S([n, n], [I(2), SP(0), A(0), JO(0), AD, ID, D], [A(1)]), S([n, n, n], [I(2), SP(0), SP(1), A(0), JO(0), JO(1), AD, D], [A(1)], [A(2)]),
            S([n, n], [I(1), A(0), ID, A(1), AD, ID, D]), S([{"need": 1}, n], [I(2), A(0), op("yield", n=5), A(1), AD, ID, D]),
            S([], [I(0), D]), S([], [I(2), {"op": "addnull"}, D])]


def scen10(rng):
    s = scen09(rng)
    m = [x for x in s["main"] if x["op"] not in ("alldone", "destroy", "idle")]
    thr = s["thr"]
    out = []
    for x in m:
        out.append(x)
        if x["op"] == "add" and rng.random() < .3:
            out.append(W)
        if rng.random() < .2 and x["op"] != "init":
            out.append(Q)
    # extra waiting threads
    k0 = len(thr)
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        thr.append([W] if rng.random() < .7 else [{"op": "yield", "n": 2}, W, Q])
    ins = out.index(next(x for x in out if x["op"] == "init")) + 1
    for k in range(k0, len(thr)):
        out.insert(rng.randrange(ins, len(out) + 1), SP(k))
    out.append(W)
    out += [JO(k) for k in range(k0, len(thr))]
    # joins of submitters may precede their spawn after the shuffling above only for new ones
    return dict(s, main=out + [ID, D], thr=thr)


def fixed10():
    n = {"y": 1}
    return [S([n], [I(1), A(0), W, D]), S([n, n], [I(2), A(0), A(1), W, ID, D]), S([], [I(2), W, D]), S([n, n], [I(1), A(0), W, A(1), W, D]),
            S([n, n], [I(2), A(0), SP(0), W, JO(0), D], [W]), S([n, n], [I(1), A(0), SP(0), SP(1), A(1), W, JO(0), JO(1), D], [W], [W]),
            S([{"y": 2, "sub": [1]}, n], [I(1), A(0), W, AD, D]), S([{"y": 2, "sub": [1]}, {"sub": [2]}, n], [I(2), A(0), SP(0), W, JO(0), AD, D], [W]),
            S([n, n, n], [I(2), SP(0), A(0), W, A(1), W, JO(0), D], [A(2), W]), S([{"y": 3}, {"y": 3}], [I(2), A(0), A(1), SP(0), W, Q, JO(0), D], [Q, W, Q]),
            S([n, n, n], [I(3), A(0), A(1), A(2), Q, Q, W, Q, ID, D]), S([{"y": 1}, {"y": 6}], [I(2), A(0), A(1), W, D])]


def scen11(rng):
    k = rng.random()
    n = rng.randrange(1, 5)
    js = jobs09(rng, n)
    size = rng.choice([1, 2, 2, 3])
    if k < .4:   # destroy at an awkward moment: jobs queued or running
        m = [I(size)] + [A(j) for j in range(n)]
        if rng.random() < .5:
            m.append({"op": "yield", "n": rng.randrange(1, 8)})
        if rng.random() < .3:
            js[0]["sub"] = [n]
            js.append({"y": 1})
        return S(js, m + [D])
    if k < .75:  # pause and resume
        m = [I(size)]
        cut = sorted(rng.randrange(n + 1) for _ in range(2))
        m += [A(j) for j in range(cut[0])] + ([{"op": "yield", "n": rng.randrange(1, 6)}] if rng.random() < .5 else []) + [P]
        m += [A(j) for j in range(cut[0], cut[1])] + ([{"op": "sleep", "ms": rng.choice([10, 1500])}] if rng.random() < .4 else []) + ([Q] if rng.random() < .3 else [])
        m += [R] + [A(j) for j in range(cut[1], n)]
        if rng.random() < .4:
            m += [P, R]
        if rng.random() < .3:
            js[0]["sub"] = [n]
            js.append({"y": 1})
        return S(js, m + [rng.choice([W, AD]), AD, D])
    # several pools
    m = [I(size, 0), I(rng.choice([1, 2]), 1)]
    for j in range(n):
        m.append(A(j, rng.randrange(2)))
    i = rng.randrange(3)
    if i == 0:
        m += [D, op("alldone", 1), op("destroy", 1)]
    elif i == 1:
        js.append({"y": 1})
        m += [op("destroy", 1), A(n, 0), W, AD, D]
    else:
        js.append({"y": 1})
        m += [P, I(1, 2), A(n, 2), op("wait", 2), R, W, op("alldone", 1), op("destroy", 2), D, op("destroy", 1)]
    return S(js, m)


def fixed11():
    n = {"y": 1}
    long = {"y": 4}
    return [S([], [I(1), D]), S([], [I(2), D]), S([], [I(3), D]), S([n], [I(1), A(0), D]), S([n, n, n], [I(1), A(0), A(1), A(2), D]), S([n, n], [I(2), A(0), A(1), AD, D]),
            S([{"y": 2, "ms": 1500}, n], [I(1), A(0), op("yield", n=6), D]), S([{"ms": 1500}, {"ms": 2500}], [I(2), A(0), A(1), op("yield", n=6), D]),
            S([long, n], [I(1), A(0), P, R, A(1), AD, D]), S([long, n], [I(1), A(0), P, A(1), R, W, D]), S([n, n], [I(2), P, A(0), A(1), R, W, D]),
            S([long, n, n], [I(2), A(0), A(1), P, R, P, R, A(2), W, D]), S([{"y": 2, "sub": [1]}, n], [I(1), A(0), P, R, AD, D]),
            S([{"y": 2, "sub": [2]}, n, n], [I(2), A(0), P, A(1), R, AD, D]),
            S([long, n], [I(1), A(0), P, I(1, 1), A(1, 1), op("wait", 1), R, W, D, op("destroy", 1)]),
            S([long, n], [I(1), I(1, 1), A(0), A(1, 1), D, op("alldone", 1), op("destroy", 1)]),
            S([n, n], [I(1), I(2, 1), op("destroy", 1), A(0), A(1), W, D])]


def failing(rng):
    """creation without enough memory or threads; submissions without memory"""
    n = rng.randrange(1, 5)
    js = jobs09(rng, n)
    m = [I(rng.choice([1, 2]))]
    for j in range(n):
        m.append(dict(A(j), **({"fail": 1} if rng.random() < .4 else {})))
    if rng.random() < .3:
        js[0]["sub"] = [n]
        js.append({"y": 1})
    size = rng.choice([1, 2, 3])
    t = dict(op("tryinit", 2), n=size, **({"fa": rng.randrange(1, 4 + size + 1)} if rng.random() < .6 else {"ft": rng.randrange(1, size + 2)}))
    k = rng.randrange(3)
    m = [dict(t, alone=1)] + m if k == 0 else m + [t] if k == 1 else m
    return S(js, m + [rng.choice([W, AD]), AD, D])


def failing_all():
    return [S([], [dict(op("tryinit", 2), n=n, alone=1, **{k: x}), I(1), D]) for n in (0, 1, 2, 3) for k, top in (("fa", 3 + n), ("ft", n)) for x in range(1, top + 1)]


def long_runs():
    """one worker held by job 0 while a long queue builds up behind it; then everything runs once, in order"""
    out = []
    for n in (300, 40000, 70000):
        out.append(dict(S([{"gate": 1, "y": 0}, {"n": n}, {"y": 1}], [I(1), A(0), A(1), A(2), W, AD, ID, D]), nomem=1))
        out.append(dict(S([{"y": 0}, {"n": n}, {"y": 1}], [I(1), A(1), A(0), AD, W, A(2), W, D]), nomem=1))
    return out


LONG = {"max": 4000000, "fair": 100000000, "wall": 120}
