LEVEL = "model_checking"
W = ["malloc", "calloc", "realloc", "free", "strdup", "strndup", "vasprintf", "asprintf", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_rwlock_init", "pthread_rwlock_destroy", "gettimeofday"]
SEQ = "INIT MCInit\nNEXT MCNext\nVIEW View\nINVARIANT Inv\nINVARIANT Exact\nACTION_CONSTRAINT Emit\nCONSTRAINT Bound\nCHECK_DEADLOCK FALSE\n"


def script(rng, i):
    ev, bias = [], rng.choice([.3, .5, .7])
    direct = rng.random() < .4
    for _ in range(rng.randrange(3, 40)):
        r = rng.random()
        if r < .6:
            ev.append({"op": "init", "fail": rng.choice([0] * 9 + [1, 2, 3, 4])} if rng.random() < bias else {"op": "cleanup"})
        elif r < .75:
            ev.append({"op": "use"})
        elif r < .85:
            ev.append({"op": "choose", "lv": rng.randrange(0, 6), "tg": rng.choice([0, 4, 8, 10]), "fm": rng.choice([0, 2, 4, 6, 8, 14])})
        elif direct:
            ev.append({"op": rng.choice(["xinit", "xcleanup", "tinit", "tcleanup"]), "fail": 0})
            if ev[-1]["op"] == "xinit" and rng.random() < .2:
                ev[-1]["fail"] = 1
    return {"cfg": {"k": i}, "ev": ev}


def check(ctx):
    exe = ctx.driver("h_global.c", "asan", wraps=W)
    for d in ("FALSE", "TRUE"):
        tests = ctx.mc("MC_Global", "CONSTANT Max = %d\nCONSTANT Direct = %s\n" % (ctx.n(4, 8), d) + SEQ, "direct calls of the modules: " + d, emit=True)
        ctx.replay_tests(exe, tests, "all transitions")
    runs = [script(ctx.rng, i) for i in range(ctx.n(1500, 20000))]
    # many nested initialisations
    k = ctx.n(300, 3000)
    runs.append({"cfg": {"k": 0}, "ev": [{"op": "init"}] * k + [{"op": "use"}] + [{"op": "cleanup"}] * (k - 1) + [{"op": "use"}] + [{"op": "cleanup"}] * 2 + [{"op": "use"}, {"op": "init"}, {"op": "use"}, {"op": "cleanup"}]})
    ctx.conform(exe, "Trace_Global", runs, "random histories")
    ctx.assumptions += ["the calls come one after another (the counter is documented for one caller)"]
