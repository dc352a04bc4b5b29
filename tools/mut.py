#!/usr/bin/env python3
"""mut.py PID[,PID..] FILE OLD NEW [FILE OLD NEW..]: run checks against a scratch copy of
/repo with a textual change (development aid)."""
import os, shutil, subprocess, sys, tempfile
pids = sys.argv[1].split(",")
d = tempfile.mkdtemp(prefix="mut-")
try:
    for s in ("inc", "src"):
        shutil.copytree(os.environ.get("MUTREPO","/repo")+"/" + s, d + "/" + s)
    a = sys.argv[2:]
    for i in range(0, len(a), 3):
        f, o, n = a[i:i + 3]
        t = open(d + "/" + f).read()
        assert t.count(o) >= 1, ("not found", o)
        open(d + "/" + f, "w").write(t.replace(o, n, 1))
    for p in pids:
        r = subprocess.run([sys.executable, "/verif/check.py", p], env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        tail = [l for l in r.stdout.splitlines() if "violation" in l.lower() or "ERROR" in l or "rejected:" in l or "got" in l or "Error" in l]
        print(p, "rc=%d" % r.returncode, *[t[:260] for t in tail[:5]], sep="\n   ", flush=True)
        if r.returncode not in (0, 1):
            print(r.stdout[-3000:])
finally:
    shutil.rmtree(d)
