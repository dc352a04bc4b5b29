"""Orchestration shared by all checks: build the library from /repo's working
tree, run harness drivers, model check the TLA+ specifications with TLC,
replay specification behaviours into the code and validate recorded traces
against the specification."""
import concurrent.futures as cf
import glob, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(2, min(8, os.cpu_count() or 4))


def brief(x):
    """samples in the evidence file: long sequences and texts cut"""
    if isinstance(x, dict):
        return {k: brief(v) for k, v in x.items()}
    if isinstance(x, list):
        return [brief(v) for v in x[:40]] + (["... %d more" % (len(x) - 40)] if len(x) > 40 else [])
    if isinstance(x, str) and len(x) > 300:
        return x[:300] + "..."
    return x


class CheckError(Exception):
    """The check itself failed (not a verdict about the code)."""


BASE = ["-D_GNU_SOURCE", "-D_PLATFORM=linux", "-D_PLATFORM_ABI=x64", "-D_DEBUG",
        "-w", "-fPIC", "-g", "-std=gnu11", "-fno-builtin"]
VARIANTS = {
    "plain": ["-O1"],
    "asan": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    # instrumented for the controlled scheduler; the __tsan_* callbacks are ours (sched.c)
    "sched": ["-O0", "-fsanitize=thread", "-fno-omit-frame-pointer"],
}
LINK = {"plain": [], "asan": ["-fsanitize=address"], "sched": []}


class Ctx:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, pid)))
        self.level = level
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        os.chmod(self.work, 0o755)
        self.libs = {}
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "spec_tests_replayed": 0, "events_validated": 0, "runs_executed": 0,
                    "distinct_traces": 0, "models": [], "actions": {}, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.kf = load_known(pid)
        self.notes = []

    # ------------------------------------------------------------- helpers
    def quick(self):
        return self.tier == "quick"

    def n(self, q, t):
        """tier dependent amount"""
        return q if self.quick() else t

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # --------------------------------------------------------------- build
    def gen_dir(self):
        g = os.path.join(self.work, "generate")
        if not os.path.isdir(g):
            os.makedirs(os.path.join(g, "config"))
            for f in glob.glob(os.path.join(REPO, "inc/config/*.in")):
                txt = open(f, encoding="utf-8", errors="replace").read()
                txt = txt.replace("@PRJ_WIN_PTHREAD_MODE@", "0")
                txt = re.sub(r"@[A-Z_]+@", "1", txt)
                open(os.path.join(g, "config", os.path.basename(f)[:-3]), "w").write(txt)
        return g

    def cc(self, args, what):
        p = subprocess.run(["gcc"] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise CheckError("compiling %s failed:\n%s" % (what, p.stdout.decode(errors="replace")[-4000:]))

    def lib(self, variant, defs=()):
        key = (variant, tuple(defs))
        if key in self.libs:
            return self.libs[key]
        gen = self.gen_dir()
        out = os.path.join(self.work, "lib-%s-%d" % (variant, len(self.libs)))
        os.makedirs(out)
        srcs = sorted(glob.glob(os.path.join(REPO, "src/**/*.c"), recursive=True))
        objs = []

        def one(s):
            o = os.path.join(out, os.path.relpath(s, REPO).replace("/", "_") + ".o")
            self.cc(BASE + VARIANTS[variant] + list(defs) + ["-I" + os.path.join(REPO, "inc"), "-I" + gen, "-c", s, "-o", o], s)
            return o
        with cf.ThreadPoolExecutor(NCPU) as ex:
            objs = list(ex.map(one, srcs))
        self.libs[key] = objs
        return objs

    def driver(self, src, variant, wraps=(), defs=(), extra=(), libdefs=(), ldflags=()):
        objs = self.lib(variant, libdefs)
        gen = self.gen_dir()
        exe = os.path.join(self.work, os.path.basename(src).replace(".c", "") + "-" + variant +
                           hashlib.md5(repr((wraps, defs, extra, libdefs)).encode()).hexdigest()[:6])
        v = [x for x in VARIANTS[variant] if x != "-fsanitize=thread"]
        mine = []
        for s in (src,) + tuple(extra):
            o = exe + "." + os.path.basename(s) + ".o"
            self.cc(["-D_GNU_SOURCE", "-D_DEBUG", "-g", "-std=gnu11", "-fno-builtin", "-w",
                     "-Wno-format-truncation", "-Wno-stringop-truncation", "-Wno-format-zero-length"]
                    + v + list(defs) + ["-I" + os.path.join(REPO, "inc"), "-I" + gen, "-I" + HARN,
                                        "-c", os.path.join(HARN, s), "-o", o], s)
            mine.append(o)
        self.cc(LINK[variant] + mine + objs + ["-Wl,--wrap=" + w for w in wraps] + list(ldflags) +
                ["-lpthread", "-lm", "-ldl", "-o", exe], "link " + src)
        return exe

    # ---------------------------------------------- sequential run execution
    def run_seq(self, exe, runs, run_timeout=20, procs=None, env=None):
        """Runs = list of {cfg, ev:[op records]}.  Returns the traces: the same
        records merged with the results the driver reported.  A crash, abort or
        hang becomes the final event {"op": "crash"} of its run."""
        procs = procs or NCPU
        runs = list(runs)
        chunks = [list(range(i, len(runs), procs)) for i in range(procs)]
        chunks = [c for c in chunks if c]
        traces = [None] * len(runs)
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0"
        e["TZ"] = "UTC"
        if env:
            e.update(env)

        def worker(ci):
            idx = chunks[ci]
            pos = 0
            fails = 0
            while pos < len(idx):
                d = os.path.join(self.work, "cwd-%d-%d" % (ci, os.getpid()))
                os.makedirs(d, exist_ok=True)
                inp = os.path.join(d, "in.ndjson")
                with open(inp, "w") as f:
                    for i in idx[pos:]:
                        f.write(json.dumps(runs[i], separators=(",", ":")) + "\n")
                err = os.path.join(d, "err.txt")
                outp = os.path.join(d, "out.txt")
                sd = os.path.join(d, "scratch")
                shutil.rmtree(sd, ignore_errors=True)
                os.makedirs(sd)
                e2 = dict(e, DRV_OUT=outp, DRV_RUN_TIMEOUT=str(run_timeout), DRV_SCRATCH=sd)
                with open(inp, "rb") as fi, open(err, "wb") as fe:
                    p = subprocess.Popen([exe], stdin=fi, stdout=fe, stderr=fe, cwd=sd, env=e2)
                    try:
                        rc = p.wait(timeout=run_timeout * 4 + 600)
                    except subprocess.TimeoutExpired:
                        p.kill()
                        p.wait()
                        rc = -9
                done = 0
                cur = None
                k = pos - 1
                complete = True
                with open(outp, "rb") as fo:
                    for line in fo:
                        if line.startswith(b"#R"):
                            k += 1
                            cur = {"cfg": runs[idx[k]]["cfg"], "ev": []}
                            traces[idx[k]] = cur
                            complete = False
                        elif line.startswith(b"#E"):
                            complete = True
                        elif line.startswith(b"{") and line.endswith(b"\n"):
                            try:
                                r = json.loads(line)
                            except ValueError:
                                r = {"op": "crash", "why": "bad output"}
                            j = len(cur["ev"])
                            src = runs[idx[k]]["ev"]
                            base = dict(src[j]) if j < len(src) else {}
                            base.update(r)
                            cur["ev"].append(base)
                if rc == 0 and complete:
                    pos = k + 1
                    if pos < len(idx):
                        raise CheckError("driver stopped early: %s" % open(err, errors="replace").read()[-800:])
                    break
                if k < pos:
                    raise CheckError("driver failed before its first run (rc=%s): %s" % (rc, open(err, errors="replace").read()[-1500:]))
                why = open(err, errors="replace").read()
                m = re.search(r"(ERROR: AddressSanitizer.*|Assertion.*|hang in run.*|DRV-FATAL.*)", why)
                if not complete:
                    j = len(cur["ev"])
                    src = runs[idx[k]]["ev"]
                    cur["ev"].append({"op": "crash", "at": src[j] if j < len(src) else {"op": "end"}, "rc": rc,
                                      "why": (m.group(1) if m else why[-300:])[:300]})
                elif rc < 0 or "ERROR: AddressSanitizer" in why:
                    # the run was over, yet it left the process unable to go on
                    cur["ev"].append({"op": "crash", "at": {"op": "after the run"}, "rc": rc, "why": (m.group(1) if m else why[-300:])[:300]})
                elif rc != 0:
                    raise CheckError("driver failed between runs (rc=%s): %s" % (rc, why[-1500:]))
                pos = k + 1
                fails += 60 if "hang in run" in why else 1
                if fails > 200:
                    # enough evidence; mark the rest as unexecuted
                    for i in idx[pos:]:
                        traces[i] = None
                    break
            return True
        with cf.ThreadPoolExecutor(procs) as ex:
            list(ex.map(worker, range(len(chunks))))
        n = sum(1 for t in traces if t)
        self.cov["runs_executed"] += n
        ops = self.cov.setdefault("operations", {})
        for t in traces:
            if t:
                for x in t["ev"]:
                    ops[x["op"]] = ops.get(x["op"], 0) + 1
        return traces

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, workers=1, env=None, simulate=None, timeout=800, heap="3g", extra=(), out=None):
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        cfgp = os.path.join(meta, "m.cfg")
        open(cfgp, "w").write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss32m", "-DTLA-Library=" + SPEC,
               "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-config", cfgp,
               "-noGenerateSpecTE"] + list(extra)
        if simulate:
            cmd += ["-simulate", simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
        cmd += [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        e["_JAVA_OPTIONS"] = e.get("_JAVA_OPTIONS", "") + " -Djava.io.tmpdir=" + meta
        outp = out or os.path.join(meta, "out.txt")
        with open(outp, "wb") as fo:
            p = subprocess.Popen(cmd, stdout=fo, stderr=subprocess.STDOUT, env=e, cwd=meta)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = -9
        return rc, outp, meta

    def mc(self, module, cfg, what="", workers=None, emit=False, timeout=800, heap="6g", count=True, coverage=True):
        """Model check a specification.  Returns the emitted behaviours (emit)."""
        rc, outp, meta = self.tlc(module, cfg, workers=workers or NCPU, timeout=timeout, heap=heap,
                                  extra=["-coverage", "60"] if coverage else [])
        tests = []
        gen = dist = None
        tail = []
        acts = {}
        with open(outp, "r", errors="replace") as f:
            for line in f:
                if line.startswith('"{'):
                    if emit:
                        tests.append(json.loads(json.loads(line)))
                    continue
                m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
                if m:
                    gen, dist = int(m.group(1)), int(m.group(2))
                m = re.match(r"<(\w+) line .* of module (\w+)(?:\s*\([^)]*\))?>: (\d+):(\d+)", line)
                if m:
                    acts[m.group(1)] = int(m.group(4))
                tail.append(line)
                if len(tail) > 400:
                    tail.pop(0)
        if rc != 0 or gen is None:
            raise CheckError("model %s (%s) failed rc=%s:\n%s" % (module, what, rc, "".join(tail)[-3500:]))
        shutil.rmtree(meta, ignore_errors=True)
        if count:
            self.cov["states"] += dist
            self.cov["transitions"] += gen
        self.cov["models"].append({"module": module, "what": what, "distinct_states": dist, "transitions": gen, "tests": len(tests)})
        for a, c in acts.items():
            self.cov["actions"][module + "." + a] = c
        self.log("model %s %s: %d states, %d transitions, %d tests" % (module, what, dist, gen, len(tests)))
        return tests

    def simulate(self, module, cfg, num, depth, what="", timeout=300):
        """Random behaviours of a specification (printed by its Emit constraint)."""
        rc, outp, meta = self.tlc(module, cfg, workers=1, simulate=("num=%d" % num, depth), timeout=timeout)
        tests = []
        tail = []
        with open(outp, "r", errors="replace") as f:
            for line in f:
                if line.startswith('"{'):
                    tests.append(json.loads(json.loads(line)))
                else:
                    tail.append(line)
        if not tests:
            raise CheckError("simulation of %s failed rc=%s:\n%s" % (module, rc, "".join(tail)[-3000:]))
        shutil.rmtree(meta, ignore_errors=True)
        self.log("simulated %s %s: %d behaviours" % (module, what, len(tests)))
        return tests

    def validate(self, module, traces, cfg=None, what="", shards=None, timeout=800, heap="3g", consts=""):
        """Trace validation.  Returns [(index, matched_events)] of rejected traces."""
        live = [(i, t) for i, t in enumerate(traces) if t is not None]
        if not live:
            raise CheckError("no traces to validate for " + module)
        # identical traces are validated once
        uniq = {}
        order = []
        for i, t in live:
            h = hashlib.sha1(json.dumps(t, sort_keys=True).encode()).digest()
            if h not in uniq:
                uniq[h] = []
                order.append((h, t))
            uniq[h].append(i)
        total = sum(len(t["ev"]) + 5 for _, t in order)
        if shards is None:
            shards = max(1, min(NCPU, total // 4000 + 1, len(order)))
        buckets = [[] for _ in range(shards)]
        load = [0] * shards
        for h, t in sorted(order, key=lambda x: -len(x[1]["ev"])):
            b = load.index(min(load))
            buckets[b].append((h, t))
            load[b] += len(t["ev"]) + 5
        cfg = cfg or "INIT TraceInit\nNEXT TraceNext\nCONSTRAINT Progress\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n" + consts

        def one(bi):
            b = buckets[bi]
            fn = os.path.join(self.work, "tr-%d-%d.ndjson" % (bi, int(time.time() * 1e6) % 10**9))
            with open(fn, "w") as f:
                for h, t in b:
                    f.write(json.dumps({"cfg": t["cfg"], "ev": t["ev"]}, separators=(",", ":")) + "\n")
            rc, outp, meta = self.tlc(module, cfg, workers=1, env={"TRACE": fn}, timeout=timeout, heap=heap)
            txt = open(outp, errors="replace").read()
            rej = [(int(a), int(l)) for a, l in re.findall(r'<<"REJECT", (\d+), (\d+)>>', txt)]
            if "ACCEPTED-END" not in txt:
                raise CheckError("trace validation %s failed rc=%s:\n%s" % (module, rc, txt[-3500:]))
            m = re.findall(r"(\d+) states generated, (\d+) distinct states found", txt)
            os.unlink(fn)
            shutil.rmtree(meta, ignore_errors=True)
            res = []
            for a, l in rej:
                for i in uniq[b[a - 1][0]]:
                    res.append((i, l - 1))
            return res, (int(m[-1][0]) if m else 0)
        rejects = []
        st = 0
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for r, s in ex.map(one, range(shards)):
                rejects += r
                st += s
        self.cov["traces_validated_against_impl"] += len(live)
        self.cov["distinct_traces"] += len(order)
        self.cov["events_validated"] += sum(len(t["ev"]) for _, t in live)
        self.cov["trace_states"] = self.cov.get("trace_states", 0) + st
        if len(self.cov["samples"]) < 6:
            t = order[len(order) // 2][1]
            self.cov["samples"].append({"validated_trace": {"cfg": t["cfg"], "ev": t["ev"][:12], "events": len(t["ev"]), "what": what or module}})
        self.log("validated %s %s: %d traces (%d distinct, %d events), %d rejected" %
                 (module, what, len(live), len(order), sum(len(t["ev"]) for _, t in live), len(rejects)))
        return sorted(rejects)

    # -------------------------------------------- specification -> code replay
    def replay_tests(self, exe, tests, what="", known=None, **kw):
        """tests: [{cfg, ev:[{i: op record, o: expected result}]}].  Every behaviour is
        stepped through the real code, results compared with the specification's."""
        runs = [{"cfg": t["cfg"], "ev": [e["i"] for e in t["ev"]]} for t in tests]
        traces = self.run_seq(exe, runs, **kw)
        bad = []
        for i, (t, tr) in enumerate(zip(tests, traces)):
            if tr is None:
                continue
            j = mismatch(t, tr)
            if j is not None:
                bad.append((i, j))
        self.cov["spec_tests_replayed"] += len(tests)
        self.cov["traces_validated_against_impl"] += sum(1 for t in traces if t)
        self.cov["events_validated"] += sum(len(t["ev"]) for t in traces if t)
        if tests and len(self.cov["samples"]) < 6:
            t = tests[len(tests) * 2 // 3]
            self.cov["samples"].append({"spec_behaviour_replayed": {"cfg": t["cfg"], "ev": t["ev"][:8], "what": what}})
        self.log("replayed %s: %d behaviours, %d mismatches" % (what, len(tests), len(bad)))
        if bad:
            # repeat before reporting
            sub = [i for i, _ in bad][:20]
            tr2 = self.run_seq(exe, [runs[i] for i in sub], procs=1, **{k: v for k, v in kw.items() if k != "procs"})
            for i, tr in zip(sub, tr2):
                if tr is None:
                    continue
                j = mismatch(tests[i], tr)
                if j is not None:
                    self.violation("spec behaviour not reproduced by the code (%s)" % what,
                                   {"kind": "replay", "exe": os.path.basename(exe), "test": tests[i], "trace": tr, "at": j,
                                    "expected": tests[i]["ev"][j]["o"] if j < len(tests[i]["ev"]) else None,
                                    "got": tr["ev"][j] if j < len(tr["ev"]) else None})
                    break
            else:
                self.notes.append("unrepeatable replay mismatch ignored: %s" % (bad[:3],))
        return traces

    def conform(self, exe, module, runs, what="", known=None, consts="", **kw):
        """Run the scripts in the real code, validate the recorded traces with TLC."""
        traces = self.run_seq(exe, runs, **kw)
        rej = self.validate(module, traces, what=what, consts=consts)
        rej = self.filter_known(rej, traces, known)
        if rej:
            sub = rej[:10]
            tr2 = self.run_seq(exe, [runs[i] for i, _ in sub], procs=1, **{k: v for k, v in kw.items() if k != "procs"})
            c0 = dict(self.cov)
            rej2 = self.validate(module, tr2, what=what + " (repeat)", shards=1, consts=consts)
            self.cov.update({k: c0[k] for k in ("traces_validated_against_impl", "events_validated", "distinct_traces")})
            rej2 = self.filter_known(rej2, tr2, known)
            if rej2:
                i, l = rej2[0]
                self.violation("recorded trace rejected by %s (%s)" % (module, what),
                               {"kind": "trace", "module": module, "exe": os.path.basename(exe),
                                "run": runs[sub[i][0]], "trace": tr2[i], "matched": l,
                                "first_rejected": tr2[i]["ev"][l] if l < len(tr2[i]["ev"]) else None})
            else:
                self.notes.append("unrepeatable rejection ignored: %s" % (sub[:3],))
        return traces

    def filter_known(self, rej, traces, known):
        if not known:
            return rej
        out = []
        for i, l in rej:
            k = known(traces[i], l)
            if k and any(x["id"] == k for x in self.kf):
                if k not in self.known:
                    self.known.append(k)
            else:
                out.append((i, l))
        return out

    # -------------------------------------------------------------- verdicts
    def violation(self, msg, data):
        d = os.path.join(VERIF, "replays", self.pid)
        os.makedirs(d, exist_ok=True)
        data = dict(data, property=self.pid, message=msg, seed=self.seed, tier=self.tier)
        txt = json.dumps(data, indent=1)
        fn = os.path.join(d, hashlib.sha1(txt.encode()).hexdigest()[:12] + ".json")
        open(fn, "w").write(txt)
        self.violations.append((msg, fn))
        self.log("violation:", msg)
        for k in ("at", "expected", "got", "matched", "first_rejected", "detail"):
            if k in data:
                self.log("   %s: %s" % (k, json.dumps(data[k])[:600]))

    def finish(self):
        cov = self.cov
        cov["samples"] = [brief(s) for s in cov["samples"]] or [{"note": "no sample"}]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        if self.notes:
            cov["notes"] = self.notes
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for x in self.kf:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, x["text"]))
        if self.violations:
            for msg, fn in self.violations[:5]:
                print("VIOLATION property=%s replay=%s" % (self.pid, fn))
            return 1
        self.log("held on everything explored")
        return 0


def mismatch(test, tr):
    for j, e in enumerate(test["ev"]):
        if j >= len(tr["ev"]):
            return j
        g = tr["ev"][j]
        if g.get("op") == "crash":
            return j
        for k, v in e["o"].items():
            if k not in g or g[k] != v:
                return j
    if len(tr["ev"]) > len(test["ev"]):
        return len(test["ev"])
    return None


def load_known(pid):
    """known_findings.txt: 'finding: property=<id> key=<key> <text>' and 'fixed: property=...' lines."""
    out = []
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r"finding: property=(\w+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append({"id": m.group(2), "text": m.group(3)})
    return out
