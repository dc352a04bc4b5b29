#!/usr/bin/env python3
"""mkseed.py ID PROP NEEDS WHAT FILE OLD NEW [FILE OLD NEW..] < demo.c : write seeded/ID/."""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif/seeded/"
i, prop, needs, what = sys.argv[1:5]
a = sys.argv[5:]
d = tempfile.mkdtemp(prefix="seed-")
subprocess.check_call(["git", "clone", "-q", "/repo", d + "/r"])
for k in range(0, len(a), 3):
    f, o, n = a[k:k + 3]
    p = d + "/r/" + f
    t = open(p, newline="").read()
    if "\r\n" in t:
        o, n = o.replace("\r\n", "\n").replace("\n", "\r\n"), n.replace("\r\n", "\n").replace("\n", "\r\n")
    assert t.count(o) == 1, (f, t.count(o), o)
    open(p, "w", newline="").write(t.replace(o, n))
out = V + i
os.makedirs(out, exist_ok=True)
open(out + "/patch.diff", "wb").write(subprocess.check_output(["git", "-C", d + "/r", "diff"]))
demo = sys.stdin.read()
if demo.strip():
    open(out + "/demo.c", "w").write(demo)
sh = '''#!/bin/bash
# run with cwd = the repository after its build; exit 0: behaves, non-zero: broken
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 0
trap 'rm -rf "$d"' EXIT
gcc -D_GNU_SOURCE -D_PLATFORM=linux -D_PLATFORM_ABI=x64 -D_DEBUG -std=gnu11 -g -O1 -w FLAGS -Iinc -I_build/main/generate \\
  "$here/demo.c" $(find src -name '*.c') -o "$d/demo" -lpthread -lm -ldl || exit 2
cd "$d" && ASAN_OPTIONS=detect_leaks=0 timeout 120 "$d/demo"
'''
if not os.path.exists(out + "/demo.sh"):
    open(out + "/demo.sh", "w").write(sh.replace("FLAGS", os.environ.get("FLAGS", "")))
    os.chmod(out + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(out + "/meta.json", "w"), indent=1)
shutil.rmtree(d)
