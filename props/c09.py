import conc
from thpool_gen import *
LEVEL = "model_checking"


def check(ctx):
    ctx.mc("MC_ThreadPool", mcfg(ctx.n(4, 5), 0, (1, 2), True, False), "%d jobs, jobs submit jobs" % ctx.n(4, 5), timeout=800)
    exe = conc.build(ctx, "h_thpool.c")
    sc = fixed09() + [scen09(ctx.rng) for _ in range(ctx.n(40, 250))]
    pairs = conc.explore(ctx, exe, sc, ctx.n(350, 1500), ctx.n(250, 1500), depth2=ctx.n(150, 1500), spur=True, label="submit/execute")
    pairs += conc.explore(ctx, exe, long_runs(), ctx.n(2, 10), ctx.n(2, 10), label="long queues", prios=(1,), extra_sched=LONG)
    conc.conform(ctx, exe, "Trace_ThreadPool", pairs, "schedules of the real pool", consts=CONSTS)
    ctx.assumptions += ["sequentially consistent interleavings at instrumented accesses", "up to 3 workers, 7 jobs, 3 submitting threads"]
