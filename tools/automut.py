#!/usr/bin/env python3
"""automut.py PID N SEED FILE..: random small mutations of the given source files, each run
against the quick check PID; prints the survivors (development aid)."""
import os, random, re, shutil, subprocess, sys, tempfile
pid, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
files = sys.argv[4:]
only = os.environ.get("ONLY")          # regex of functions/lines to restrict to
rng = random.Random(seed)
SRC = os.environ.get("MUTREPO", "/repo")
def cands(f):
    out = []
    t = open(os.path.join(SRC, f), newline="", errors="replace").read().split("\n")
    skip = 0
    incomment = False
    for i, l in enumerate(t):
        s = l.strip()
        if "/*" in s and "*/" not in s: incomment = True
        if incomment:
            if "*/" in s: incomment = False
            continue
        if re.match(r"#\s*if.*(_WIN32|WINDOWS|_MSC_VER)", s) and "!" not in s: skip += 1; continue
        if skip:
            if re.match(r"#\s*if", s): skip += 1
            elif re.match(r"#\s*endif", s): skip -= 1
            elif re.match(r"#\s*else", s) and skip == 1: skip = 0
            continue
        if s.startswith("//") or s.startswith("*") or s.startswith("#") or not s or re.match(r"(MY_)?(X|S)?LOG[VDIWE]", s) or "printf(stderr" in s or s.startswith("err("):
            continue
        code = l.split("//")[0]
        for pat, reps in ((r"(?<![<>=!\-])<(?![<=])(?=\s)", ["<="]), (r"(?<![<>\-])>(?![>=])(?=\s)", [">="]), (r"<=", ["<"]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
                          (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\+ 1\b", ["+ 2", "+ 0"]), (r"- 1\b", ["- 0", "- 2"]), (r"(?<![+\w])\+ (?=[\w(])", ["- "]), (r"(?<![-\w,(=]) - (?=[\w(])", [" + "]),
                          (r"\+\+", ["--"]), (r"\+=", ["-=", "="]), (r"\bif \((?=[^)]*\))", ["if (!", ]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\breturn 0;", ["return 1;"]), (r"return NULL;", None),
                          (r"\b0U?\b(?!x)", ["1"]), (r"\b1U?\b", ["0", "2"]), (r"\bbreak;", [";"]), (r"\bcontinue;", [";"])):
            if not reps: continue
            for m in re.finditer(pat, code):
                for r in reps:
                    new = l[:m.start()] + r + l[m.end():]
                    if pat.startswith(r"\bif"):
                        # negate the whole condition
                        j = m.end(); d = 1
                        while j < len(l) and d: d += (l[j] == "(") - (l[j] == ")"); j += 1
                        if d: continue
                        new = l[:m.start()] + "if (!(" + l[m.end():j] + ")" + l[j:]
                    out.append((f, i, l, new))
        if re.match(r"[\w\->\.\[\]\(\)\*&]+(\s*[\+\-\|&]?=[^=].*|\(.*\)|\+\+|--);\s*\r?$", s) and not re.match(r"(return|else|do|typedef|struct|const|static|size_t|int|char|uint)", s):
            out.append((f, i, l, re.sub(r"\S.*;", "(void)0;", l)))
    return out
C = []
for f in files: C += cands(f)
if only: C = [c for c in C if re.search(only, c[2])]
lo, hi = os.environ.get("LINES", "0-999999").split("-")
C = [c for c in C if int(lo) <= c[1] + 1 <= int(hi)]
rng.shuffle(C)
k = s = 0
for f, i, old, new in C:
    if k >= n: break
    d = tempfile.mkdtemp(prefix="am-")
    try:
        for x in ("inc", "src"): shutil.copytree(SRC + "/" + x, d + "/" + x)
        p = d + "/" + f
        t = open(p, newline="", errors="replace").read().split("\n"); t[i] = new
        open(p, "w", newline="").write("\n".join(t))
        r = subprocess.run(["gcc", "-fsyntax-only", "-w", "-D_GNU_SOURCE", "-D_PLATFORM=linux", "-std=gnu11", "-I" + d + "/inc", "-I/repo/_build/main/generate", p], capture_output=True) if f.endswith(".c") else None
        r = subprocess.run([sys.executable, "/verif/check.py", pid], env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode not in (0, 1): continue
        k += 1
        if r.returncode == 0:
            s += 1
            print("SURVIVED %s %s:%d\n   - %s\n   + %s" % (pid, f, i + 1, old.strip(), new.strip()), flush=True)
    finally:
        shutil.rmtree(d)
print("DONE %s: %d mutants, %d survived" % (pid, k, s), flush=True)
