#!/usr/bin/env python3
"""seedtest.py [--tests] [--nocheck] ID..: confirm planted bugs in a scratch copy of /repo and run the check."""
import glob, json, os, re, shutil, subprocess, sys, tempfile
fl = [x for x in sys.argv[1:] if x.startswith("--")]
ids = [x for x in sys.argv[1:] if not x.startswith("--")]
if "--all" in fl:
    ids = sorted(os.listdir("/verif/seeded"))
def run(c, **k):
    p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
    return p.returncode, p.stdout
for i in ids:
    s = "/verif/seeded/" + i
    m = json.load(open(s + "/meta.json"))
    d = tempfile.mkdtemp(prefix="seedtest-")
    r = d + "/repo"
    res = []
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", r])
        os.makedirs(r + "/_build/main")
        shutil.copytree("/repo/_build/main/generate", r + "/_build/main/generate")
        sd = d + "/demo"
        shutil.copytree(s, sd, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        rc, o = run(["bash", sd + "/demo.sh"], cwd=r)
        res.append("demo clean rc=%d" % rc + (" BAD " + o[-300:] if rc else ""))
        rc, o = run(["git", "-C", r, "apply", s + "/patch.diff"])
        if rc:
            res.append("APPLY FAILED " + o)
        rc, o = run(["bash", sd + "/demo.sh"], cwd=r)
        res.append("demo bug rc=%d" % rc + ("" if rc else " BAD") + " " + o[-150:].replace("\n", "|"))
        if "--tests" in fl:
            vp = d + "/vp"
            shutil.copytree("/opt/vp", vp)
            for f in glob.glob(vp + "/*.sh") + glob.glob(vp + "/*.py"):
                t = re.sub(r"/repo(?![a-z])", r, open(f).read()).replace("/opt/vp", vp)
                open(f, "w").write(t)
            shutil.rmtree(r + "/_build")
            run(["bash", vp + "/test.sh", d + "/out.json"])
            got = set(json.load(open(d + "/out.json"))["passed"])
            miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - got
            res.append("tests ok" if not miss else "TESTS FAIL %s" % miss)
        if "--nocheck" not in fl:
            rc, o = run([sys.executable, "/verif/check.py", m["property"]], env=dict(os.environ, VERIF_REPO=r))
            v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            res.append("%s check rc=%d %s" % (m["property"], rc, "CAUGHT" if rc == 1 and v else "MISSED"))
    finally:
        shutil.rmtree(d)
    print(i, *res, sep="\n    ", flush=True)
