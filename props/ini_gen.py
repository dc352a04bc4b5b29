"""INI documents and histories (C18, C19)."""
import re
W = ["malloc", "calloc", "realloc", "free", "strdup", "strndup"]
CFG = "INIT MCInit\nNEXT MCNext\nVIEW View\nINVARIANT MCInv\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"


def by(s):
    return list(s.encode("latin1"))


def case(rng, s):
    return "".join(c.upper() if rng.random() < .5 else c.lower() for c in s) if rng.random() < .5 else s


def number(rng):
    r = rng.random()
    if r < .4:
        return str(rng.choice([0, 1, -1, 5, -17, 2**31 - 1, -2**31, 2**31, -2**31 - 1, 2**32, 2**32 + 1, 2**63 - 1, -2**63, 2**63, -2**63 - 1, 10**25, rng.randrange(-10**18, 10**18)]))
    if r < .55:
        return rng.choice(["0x%x" % rng.randrange(1 << 28), "0%o" % rng.randrange(1 << 24), "-0x1f", "+7", "00", "-0", "08", "0x", "0x1g", "12 3"])
    if r < .75:
        return "%.10f" % rng.choice([0.0, 1.5, -2.25, 1024.0009765625, 123456.75, rng.randrange(-10**6, 10**6) / 1024.0])
    return rng.choice(["true", "False", "YES", "no", "TRUE", "maybe", "z", "-", "on"])


SECS = [["a", "b"], ["net", "Log", "a b", "x" * 49, "y" * 63, "z" * 50], ["s%d" % i for i in range(12)], ["[", "=", "#c", ";", " pad ", "\xe9\xc9", "a;b"]]
KEYS = [["k", "l"], ["key", "Key2", "k k", "p" * 63, "q" * 50], ["k%d" % i for i in range(30)], ["\xe9", "k.1", "a[b]", "a;b", "-"]]


def value(rng, big):
    r = rng.random()
    if r < .5:
        return number(rng)
    if r < .6:
        return "v" * rng.choice([0, 1, 15, 100, 180, 199, 200, 201, 230, 254, 255] if big else [0, 1, 9])
    if r < .7:
        return rng.choice(["a=b", "a:b", "x;y", "#v", "[v]", "a\tb", "a  b", "\xff\xfe", "%s%n", "=", ":"])
    return "".join(chr(rng.choice([rng.randrange(33, 127), 32, rng.randrange(160, 256)])) for _ in range(rng.randrange(0, 30))).strip().replace(" ;", " ,").lstrip(";")


def history(rng, i, deep):
    """a document changed, queried and dumped"""
    secs, keys = rng.choice(SECS), rng.choice(KEYS)
    ev = [{"op": "create"}]
    big = rng.random() < .5

    def sk():
        return {"sec": by(case(rng, rng.choice(secs)) if rng.random() < .97 else ""), "key": by(case(rng, rng.choice(keys)) if rng.random() < .97 else "")}
    for _ in range(rng.randrange(4, 90 if deep else 40)):
        r = rng.random()
        if r < .34:
            e = dict(sk(), op="put", val=by(value(rng, big)))
            if rng.random() < .1:
                e["fail"] = rng.choice([1, 2, 3, 4, 5, -1])
            if rng.random() < .03:
                e["nullv"] = 1
                e["val"] = []
            ev.append(e)
        elif r < .46:
            ev.append(dict(sk(), op="get", size=rng.choice([0, 1, 2, 4, 12, 256, 256])))
        elif r < .60:
            ev.append(dict(sk(), op=rng.choice(["getint", "getlong", "getll", "getdouble", "getfloat", "getbool"])))
        elif r < .64:
            ev.append(dict(sk(), op="has"))
        elif r < .68:
            ev.append({"op": "hassec", "sec": sk()["sec"]})
        elif r < .75:
            ev.append(dict(sk(), op="delkey"))
        elif r < .81:
            ev.append({"op": "delsec", "sec": sk()["sec"]})
        elif r < .88:
            ev.append({"op": "each", "stop": rng.choice([0, 0, 1, 2, 3, 5])})
        elif r < .92:
            ev.append({"op": "dump"})
        elif r < .96:
            ev.append({"op": "dumpmem", "size": rng.choice([0, 1, 10, 64, 100, 200, 400, 1000, 4000, 20000])})
        elif r < .98:
            ev.append({"op": "save"})
        else:
            ev += [{"op": "destroy"}, {"op": "create"}]
    ev += [{"op": "each", "stop": 0}, {"op": "dump"}, {"op": "destroy"}]
    return {"cfg": {"k": i}, "ev": ev}


def text(rng):
    """a document as text, mostly well formed, with every syntactic liberty"""
    nl = rng.choice(["\n", "\r\n", None])
    out = "\xef\xbb\xbf" if rng.random() < .1 else ""
    wild = rng.random() < .25
    secs, keys = rng.choice(SECS[:3]), rng.choice(KEYS)

    def sp():
        return rng.choice(["", "", "", " ", "\t", "  "])
    n = rng.randrange(0, 16)
    started = False
    for j in range(n):
        r = rng.random()
        if (not started and rng.random() < .95) or r < .12:
            l = rng.choice(["", "", " ", "\t"] if not started else ["", "", "", ""]) + "[" + case(rng, rng.choice(secs)) + "]" + rng.choice(["", "", " ", " ; c", "junk", "\t#x"])
            started = True
        elif r < .7:
            l = case(rng, rng.choice(keys)) + sp() + rng.choice("==:") + sp() + value(rng, rng.random() < .3) + rng.choice(["", "", "", " ; comment", "\t;", " ;", "  ", ";nc"])
            if len(l) > 380:
                l = "k=v"
        elif r < .78:
            l = rng.choice([" ", "\t", "   "]) + rng.choice(["cont", "k = v", "; c", "[x]", "more ; c", ""])
        elif r < .86:
            l = rng.choice([";", "#", "; k = v", "#[s]", ";=", "# \xe9"])
        elif r < .93:
            l = rng.choice(["", " ", "\t", case(rng, rng.choice(keys)), case(rng, rng.choice(keys)) + " ; c"])
        elif wild:
            l = rng.choice(["=v", ":", "[", "[x", "[x ;]", "[]", "]", "= = =", "k" + "=" + "v" * rng.choice([370, 379, 380, 381, 382, 400, 800]),
                            "[" + "s" * 20 + "]", "".join(rng.choice("ab=[]:; #\t\r\xe9\x01\x7f") for _ in range(rng.randrange(0, 12)))])
            if "=" in l and len(l) > 300:
                l = "; " + l if rng.random() < .5 else l
        else:
            l = "k=v"
        out += l + (nl or rng.choice(["\n", "\r\n"]) if j < n - 1 or rng.random() < .7 else "")
    return out.replace("\0", "")


def bounded(t):
    """names and values within 63/255 bytes unless the line is rejected anyway"""
    for l in t.split("\n"):
        w = [len(x) for x in re.split("[=:]", l, maxsplit=1)]
        if max(w) > 255 and len(l) < 384 and not l.lstrip().startswith((";", "#")):
            return False
    return True


def parsing(rng, i, deep):
    t = text(rng)
    while not bounded(t):
        t = text(rng)
    ev = [{"op": "ispath", "str": by(t)}, {"op": rng.choice(["parse", "parse", "load"]), "str": by(t)}]
    return {"cfg": {"k": i}, "ev": ev + [{"op": "each", "stop": 0}, {"op": "dump"}, {"op": "save"}, {"op": "dumpmem", "size": 4000}, {"op": "destroy"}]}
