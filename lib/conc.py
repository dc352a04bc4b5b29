"""Running the library under the controlled scheduler (harness/csched.c)."""
import concurrent.futures as cf
import json, os, random, subprocess, time, itertools
from vlib import CheckError, NCPU

WRAPS = """malloc calloc realloc free strdup strndup memcpy memmove memset
pthread_create pthread_join pthread_detach pthread_exit pthread_kill pthread_once
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_timedlock pthread_mutex_unlock
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast
pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock
pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_unlock
sem_init sem_destroy sem_wait sem_trywait sem_timedwait sem_post sem_getvalue
pthread_sigmask sigaction signal sched_yield sleep usleep nanosleep clock_nanosleep time gettimeofday clock_gettime""".split()


def build(ctx, src, defs=(), libdefs=()):
    return ctx.driver(src, "sched", wraps=tuple(WRAPS), extra=("csched.c",), defs=("-DDRV_NO_MAIN", "-DDRV_WRAP_ALLOC") + tuple(defs), libdefs=libdefs)


def run_jobs(ctx, exe, jobs, procs=None, env=None):
    """jobs: [{cfg, sched, grp}] -> [(trace events or None for duplicate, points, steps)]"""
    procs = min(procs or NCPU, max(1, len(jobs)))
    res = [None] * len(jobs)

    def worker(w):
        idx = list(range(w, len(jobs), procs))
        if not idx:
            return
        tag = "%s-%d-%d" % (os.path.basename(exe), w, int(time.time() * 1e6) % 10**10)
        inp = os.path.join(ctx.work, "j-" + tag)
        out = os.path.join(ctx.work, "o-" + tag)
        sd = os.path.join(ctx.work, "s-" + tag)
        os.makedirs(sd, exist_ok=True)
        with open(inp, "w") as f:
            for i in idx:
                f.write(json.dumps(jobs[i], separators=(",", ":")) + "\n")
        e = dict(os.environ, DRV_OUT=out, DRV_SCRATCH=sd, TZ="UTC")
        if env:
            e.update(env)
        with open(inp, "rb") as fi:
            p = subprocess.run([exe], stdin=fi, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=e, cwd=sd, timeout=850)
        k = None
        firsts = {}
        end = False
        with open(out, "rb") as f:
            for line in f:
                if line.startswith(b"#R"):
                    _, a, pt, st, dup = line.split()
                    k = idx[int(a)]
                    d = int(dup)
                    res[k] = [None if d < 0 else ("dup", idx[d]), int(pt), int(st)]
                    if d == -2:
                        ctx.cov["schedules_skipped_after_hangs"] = ctx.cov.get("schedules_skipped_after_hangs", 0) + 1
                elif line.startswith(b"["):
                    try:
                        res[k][0] = json.loads(line)
                    except ValueError:
                        raise CheckError("unreadable trace: %r" % line[-1500:])
                elif line.startswith(b"#END"):
                    end = True
        if not end:
            raise CheckError("scheduler driver %s ended early (rc=%s)" % (exe, p.returncode))
        for fn in (inp, out):
            os.unlink(fn)
    with cf.ThreadPoolExecutor(procs) as ex:
        list(ex.map(worker, range(procs)))
    ctx.cov["runs_executed"] += len(jobs)
    return res


def explore(ctx, exe, scenarios, n_enum, n_rand, depth2=0, prios=(0, 1, 2), spur=False, env=None, label="", extra_sched=None):
    """For every scenario: non-preemptive baselines, one forced preemption at every
    scheduling point (n_enum at most), pairs of preemptions (depth2), and n_rand
    random / PCT schedules.  Returns [(job, trace)] with distinct traces."""
    rng = ctx.rng
    xs = extra_sched or {}
    base = []
    for g, sc in enumerate(scenarios):
        for pr in prios:
            base.append({"cfg": sc, "grp": g, "sched": dict({"k": "enum", "prio": pr, "seed": rng.randrange(1 << 30), "pre": []}, **xs)})
    r0 = run_jobs(ctx, exe, base, env=env)
    jobs = []
    for j, r in zip(base, r0):
        K = max(1, r[1])
        ks = [(k, t) for k in range(K) for t in (0, 1)]
        if len(ks) > n_enum:
            ks = rng.sample(ks, n_enum)
        for k, t in ks:
            jobs.append({"cfg": j["cfg"], "grp": j["grp"], "sched": dict(j["sched"], pre=[[k, t]])})
        for _ in range(depth2):
            k1 = rng.randrange(K)
            pre = [[k1, rng.randrange(3)], [min(K + 20, k1 + int(rng.expovariate(1 / 20.0)) + 1) if rng.random() < .7 else rng.randrange(K), rng.randrange(3)]]
            if rng.random() < .4:
                pre.append([rng.randrange(K + 10), rng.randrange(3)])
            jobs.append({"cfg": j["cfg"], "grp": j["grp"], "sched": dict(j["sched"], pre=pre)})
    for g, sc in enumerate(scenarios):
        K = max(r[1] for j, r in zip(base, r0) if j["grp"] == g)
        for i in range(n_rand):
            if i % 3 == 2:
                s = {"k": "pct", "seed": rng.randrange(1 << 30), "d": rng.choice([1, 2, 3, 4]), "K": K}
            else:
                s = {"k": "rand", "seed": rng.randrange(1 << 30), "ps": rng.choice([50, 150, 300, 500, 800]),
                     "pm": rng.choice([0, 2, 10, 30, 100, 300]), "pt": rng.choice([0, 0, 20, 100]), "spur": rng.choice([0, 0, 50]) if spur else 0}
            jobs.append({"cfg": sc, "grp": g, "sched": dict(s, **xs)})
    rng.shuffle(jobs)
    r1 = run_jobs(ctx, exe, jobs, env=env)
    out = []
    for j, r in zip(base + jobs, r0 + r1):
        if isinstance(r[0], list):
            out.append((j, r[0]))
    tot = len(base) + len(jobs)
    ctx.cov["schedules"] = ctx.cov.get("schedules", 0) + tot
    ctx.log("%s: %d scenarios, %d schedules, %d distinct traces" % (label, len(scenarios), tot, len(out)))
    return out


def conform(ctx, exe, module, pairs, label="", consts="", env=None, known=None, project=None):
    """Validate traces with TLC; a rejection is repeated (same schedule) before it is reported."""
    traces = [{"cfg": j["cfg"], "ev": t} for j, t in pairs]
    if project:
        traces = [project(t) for t in traces]
    rej = ctx.validate(module, traces, what=label, consts=consts)
    rej = ctx.filter_known(rej, traces, known)
    for i, l in rej[:8]:
        job = pairs[i][0]
        r = run_jobs(ctx, exe, [job], procs=1, env=env)[0]
        t2 = {"cfg": job["cfg"], "ev": r[0]}
        if project:
            t2 = project(t2)
        c0 = dict(ctx.cov)
        rr = ctx.validate(module, [t2], what=label + " (repeat)", shards=1, consts=consts)
        ctx.cov.update({k: c0[k] for k in ("traces_validated_against_impl", "events_validated", "distinct_traces")})
        rr = ctx.filter_known(rr, [t2], known)
        if rr:
            l = rr[0][1]
            ctx.violation("schedule of the real code rejected by %s (%s)" % (module, label),
                          {"kind": "schedule", "module": module, "exe": os.path.basename(exe), "job": job, "trace": t2["ev"],
                           "matched": l, "first_rejected": t2["ev"][l] if l < len(t2["ev"]) else None})
            return
    if rej:
        ctx.notes.append("unrepeatable rejections ignored: %s" % (rej[:5],))
