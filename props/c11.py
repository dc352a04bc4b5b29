import conc
from thpool_gen import *
LEVEL = "model_checking"


def check(ctx):
    ctx.mc("MC_ThreadPool", mcfg(ctx.n(3, 4), 1, (1, 2), False, True), "%d jobs, pause, destroy" % ctx.n(3, 4), timeout=800)
    exe = conc.build(ctx, "h_thpool.c")
    sc = fixed11() + [scen11(ctx.rng) for _ in range(ctx.n(40, 250))]
    pairs = conc.explore(ctx, exe, failing_all() + [failing(ctx.rng) for _ in range(ctx.n(20, 120))], ctx.n(60, 500), ctx.n(60, 500), depth2=ctx.n(30, 300), spur=True, label="creation and submission without memory or threads")
    pairs += conc.explore(ctx, exe, sc, ctx.n(350, 1500), ctx.n(250, 1500), depth2=ctx.n(150, 1500), spur=True, label="pause/destroy")
    conc.conform(ctx, exe, "Trace_ThreadPool", pairs, "schedules of the real pool", consts=CONSTS)
    ctx.assumptions += ["sequentially consistent interleavings at instrumented accesses", "a pause signal is delivered before the paused thread performs its next instrumented access",
                        "memory or threads run out in creation and submission only"]
