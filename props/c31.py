LEVEL = "model_checking"
W = ["malloc", "calloc", "realloc", "free", "strdup", "strndup", "vasprintf", "asprintf"]
KINDS = ["ring", "rbuf", "cover", "msgq", "fixq", "map", "list", "array", "sb", "params", "ini", "mutex", "rwlock", "sem"]
MEM = ["ringmem", "rbufmem"]
ONCE = ["replace", "readall", "readtxt", "size", "mkdirs", "iterate", "reader", "inifile", "inibad", "url"]
OWN = "CONSTANT Owning = {%s}\n" % ",".join('"%s"' % k for k in KINDS)


def script(rng):
    ev, live = [], {}

    def add(op, **k):
        ev.append(dict({"op": op, "id": 0, "seed": rng.randrange(1 << 30), "fail": 0}, **k))
    few = rng.sample(KINDS + MEM, rng.choice([1, 2, 3, 16]))
    for _ in range(rng.randrange(8, 50)):
        r = rng.random()
        fail = rng.choice([1, 1, 2, 3, 4, 5, 6, 8]) if rng.random() < .2 else 0
        if r < .25 or not live:
            i = rng.randrange(1, 12)
            if i in live:
                continue
            k = rng.choice(few)
            add("create", id=i, kind=k, n=rng.choice([0, 1, 2, 5, 8, rng.randrange(40), 300, 5000] if k != "map" else [0, 1, 7]), fail=fail)
            live[i] = k
            if fail:
                # whether it failed is not known here: it is asked again without a failure under another name
                del live[i]
                ev[-1]["maybe"] = 1
        elif r < .7:
            i = rng.choice(list(live))
            add("use", id=i, kind=live[i], fail=fail, reps=rng.choice([1, 1, 3, 10, 40]))
        elif r < .77:
            i = rng.choice(list(live))
            add("clear", id=i, kind=live[i])
        elif r < .87:
            add("once", what=rng.choice(ONCE), fail=fail)
        else:
            i = rng.choice(list(live))
            add("destroy", id=i, kind=live.pop(i))
    for i in sorted(live, key=lambda _: rng.random()):
        add("destroy", id=i, kind=live[i])
    out = []
    for e in ev:
        out.append(e)
        if e.pop("maybe", 0):
            # a destroy of whatever is there (nothing, if the creation failed)
            out.append(dict(e, op="undo", fail=0))
    out.append({"op": "end"})
    return {"cfg": {"k": 0}, "ev": out}


def check(ctx):
    exe = ctx.driver("h_own.c", "asan", wraps=W)
    tests = []
    for k in KINDS + MEM:
        tests += ctx.mc("MC_Lifecycle", OWN + 'CONSTANTS MaxLen = %d\nKinds = {"%s"}\nINIT MCInit\nNEXT MCNext\nVIEW View\nINVARIANT Inv\nINVARIANT NoOwnerNothing\nINVARIANT Owned\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n' % (ctx.n(6, 8), k),
                        "two objects of kind " + k, emit=True)
    runs = []
    for t in (tests if len(tests) < ctx.n(4000, 40000) else ctx.rng.sample(tests, ctx.n(4000, 40000))):
        ev, live = [], {}
        for e in t["ev"]:
            d = {"op": e["op"], "id": e["id"], "kind": e["kind"], "seed": ctx.rng.randrange(1 << 30), "n": ctx.rng.randrange(60) if e["kind"] != "map" else 7, "reps": 3, "fail": e.get("fail", 0)}
            if e["op"] == "once":
                d["what"] = ctx.rng.choice(ONCE)
            if e["op"] == "create" and not d["fail"]:
                live[e["id"]] = e["kind"]
            if e["op"] == "destroy":
                live.pop(e["id"])
            ev.append(d)
        ev += [{"op": "destroy", "id": i, "kind": k, "seed": 1, "fail": 0} for i, k in live.items()] + [{"op": "end"}]
        runs.append({"cfg": {"k": 0}, "ev": ev})
    ctx.conform(exe, "Trace_Lifecycle", runs, "histories of the small model", consts=OWN)
    ctx.conform(exe, "Trace_Lifecycle", [script(ctx.rng) for _ in range(ctx.n(2500, 20000))], "random histories over every component", consts=OWN)
    ctx.assumptions += ["heap blocks and descriptors are counted; threads and components with worker threads are counted by C07-C11, C20, C21 and C29"]
