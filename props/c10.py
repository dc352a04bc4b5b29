import conc
from thpool_gen import *
LEVEL = "model_checking"


def check(ctx):
    ctx.mc("MC_ThreadPool", mcfg(3, 2, (1, 2), True, False), "3 jobs, 2 waits", timeout=800)
    if not ctx.quick():
        ctx.mc("MC_ThreadPool", mcfg(4, 2, (1, 2), False, False), "4 jobs, 2 waits", timeout=800)
    exe = conc.build(ctx, "h_thpool.c")
    sc = fixed10() + [scen10(ctx.rng) for _ in range(ctx.n(40, 250))]
    pairs = conc.explore(ctx, exe, sc, ctx.n(350, 1500), ctx.n(250, 1500), depth2=ctx.n(150, 1500), spur=True, label="wait/query")
    pairs += conc.explore(ctx, exe, long_runs(), ctx.n(2, 10), ctx.n(2, 10), label="long queues", prios=(1,), extra_sched=LONG)
    conc.conform(ctx, exe, "Trace_ThreadPool", pairs, "schedules of the real pool", consts=CONSTS)
    ctx.assumptions += ["sequentially consistent interleavings at instrumented accesses", "up to 3 workers, 7 jobs, 4 waiting threads"]
