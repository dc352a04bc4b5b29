LEVEL = "model_checking"
CFG = "INIT MCInit\nNEXT MCNext\nVIEW View\nINVARIANT MCInv\nCHECK_DEADLOCK FALSE\n"


def script(rng, i, deep, big=False):
    mn = rng.choice([1, 4, 8, 8, 8, 16, 16, 24, 32, 64])
    atom = 8
    while atom < mn:
        atom *= 2
    nb = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64, 100])
    if big:
        nb = rng.choice([127, 128, 129, 255, 256, 257, 300, 1000, 4097, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 70000, 100000, 131073, 150000])
    size = nb * (atom + 1) + rng.randrange(0, atom + 1)
    if rng.random() < .03:
        size = rng.choice([0, -1, -8])
    if rng.random() < .03:
        mn = rng.choice([0, -1])
    ev = [{"op": "init", "size": size, "min": mn, "lock": rng.randrange(2)}]
    style = rng.random()
    if big:
        # long blocks, so that the far end of the pool is reached
        for j in range(40, 60):
            ev.append({"op": "malloc", "id": j, "n": max(1, rng.randrange(1, max(2, nb // 4)) * atom - rng.randrange(2)), "zero_": rng.randrange(2)})
        order = list(range(40, 60))
        rng.shuffle(order)
        ev += [{"op": "free", "id": j} for j in order[:rng.randrange(21)]]
    live = set()
    for _ in range(rng.randrange(20, 300 if deep else 40 if big else 100)):
        k = rng.random()
        small = rng.choice([1, atom, atom - 1, atom + 1, 2 * atom, 3 * atom, 4 * atom, rng.randrange(1, 6 * atom), rng.randrange(1, max(2, nb * atom))])
        if style < .3:
            small = rng.choice([1, atom, atom, 2 * atom])
        idn = rng.randrange(20)
        if k < .5:
            n = small if rng.random() < .95 else rng.choice([0, -1, -2 ** 31, 2 ** 30, 2 ** 30 + 1, 2 ** 31 - 1, nb * atom])
            ev.append({"op": "malloc", "id": idn, "n": n, "zero_": rng.randrange(2)})
            live.add(idn)
        elif k < .8:
            if live and rng.random() < .9:
                idn = rng.choice(sorted(live))
            live.discard(idn)
            ev.append({"op": "free", "id": idn})
        elif k < .93:
            p = 1
            while p < small:
                p *= 2
            ev.append({"op": "realloc", "id": rng.choice(sorted(live)) if live else idn, "n": p if rng.random() < .9 else rng.choice([0, -4, 3, 24, 2 ** 30])})
        elif k < .95:
            ev.append({"op": "resize", "id": idn, "n": rng.choice([1, 8, 16, 32, 64, 3, 0, -8])})
        elif k < .97:
            ev.append({"op": "roundup", "n": rng.choice([0, 1, 8, 9, small, 2 ** 30, 2 ** 30 + 1, -5])})
        elif k < .98:
            ev.append({"op": "nulls"})
        else:   # give everything back, the pool must be as fresh
            for j in sorted(live):
                ev.append({"op": "free", "id": j})
            live = set()
            ev.append({"op": "malloc", "id": 30, "n": max(1, nb * atom // 2)})
            ev.append({"op": "free", "id": 30})
    return {"cfg": {"k": i}, "ev": ev}


def check(ctx):
    exe = ctx.driver("h_mplite.c", "asan")
    scripts = ctx.mc("MC_Mplite", "CONSTANT Atoms = {1,2,3,%s}\nCONSTANT Ids = {1,2,3%s}\n" % ctx.n(("5", ""), ("5,6,7", ",4")) + CFG + "ACTION_CONSTRAINT Emit\n", "pools of 1-7 atoms", emit=True)
    ctx.mc("MC_Mplite", "CONSTANT Atoms = {4,7,8%s}\nCONSTANT Ids = {1,2,3%s}\n" % ctx.n(("", ""), (",6", ",4")) + CFG, "pools up to 8 atoms (model only)")
    keep = ctx.rng.sample(scripts, min(len(scripts), ctx.n(4000, 20000)))
    runs = [{"cfg": t["cfg"], "ev": [{k: v for k, v in e.items() if k != "off"} for e in t["ev"]]} for t in keep]
    ctx.conform(exe, "Trace_Mplite", runs, "histories of the small model")
    runs = [script(ctx.rng, i, not ctx.quick()) for i in range(ctx.n(900, 9000))]
    ctx.conform(exe, "Trace_Mplite", runs, "random histories")
    ctx.conform(exe, "Trace_Mplite", [script(ctx.rng, i, False, True) for i in range(ctx.n(120, 1200))], "pools of up to 150000 atoms")
    ctx.assumptions += ["pools up to 150000 atoms", "single thread (locking is C26)", "total bytes of all allocations below 2^31"]
