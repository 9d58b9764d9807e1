"""Shrinks a failing program: deletes statements and replaces expressions by
parts of themselves, keeping candidates on which specification and code still
disagree.  A debugging aid; no check depends on it."""
import copy, random, sys
import vp, cconf
from cprog import *


def slots(p):
    """yield (container, key/index, kind) of every statement list element / expression"""
    out = []

    def ex(holder, key):
        n = holder[key]
        out.append((holder, key, "e"))
        k = n["k"]
        for c in ("a", "b", "c"):
            if isinstance(n.get(c), dict) and k in ("un", "par", "deref", "addr", "idx", "cond", "mem", "arrow", "inc"):
                if k in ("addr", "inc", "mem") and c == "a":
                    continue
                ex(n, c)
        if k == "flat":
            for i in range(len(n["es"])):
                ex(n["es"], i)
        if k == "call":
            for i in range(len(n["args"])):
                ex(n["args"], i)

    def lst(ss):
        for i in range(len(ss)):
            out.append((ss, i, "s"))
            st(ss[i])

    def st(n):
        k = n["k"]
        if k == "block": lst(n["ss"])
        elif k == "switch":
            ex(n, "c")
            for c in n["cases"]: lst(c["ss"])
        elif k in ("if", "while", "do", "for"):
            if n.get("c"): ex(n, "c")
            for c in ("a", "b"):
                if n.get(c):
                    out.append((n, c, "b"))
                    st(n[c])
        elif k in ("asg",): ex(n, "e")
        elif k == "decl":
            if n["init"]: ex(n, "init")
        elif k in ("expr", "return"):
            if n["a"]: ex(n, "a")
    for f in p.funcs:
        st(f["body"])
    return out


def cands(p):
    n = len(slots(p))
    for i in range(n):
        q = copy.deepcopy(p)
        h, k, kind = slots(q)[i]
        x = h[k]
        if kind == "s":
            del h[k]
            yield q
            reps = []
            if x["k"] == "block": reps = [x["ss"]]
            elif x["k"] in ("if", "while", "do", "for"):
                reps = [[x["a"]]] + ([[x["b"]]] if x.get("b") else [])
            for r in reps:
                q = copy.deepcopy(p)
                h, k, _ = slots(q)[i]
                h[k:k + 1] = copy.deepcopy(r)
                yield q
        elif kind == "e":
            parts = []
            if x["k"] == "flat":
                parts = list(x["es"])
                for j in range(1, len(x["es"])):
                    parts.append(F(x["es"][:j] + x["es"][j + 1:], x["ops"][:j - 1] + x["ops"][j:]) if len(x["es"]) > 2 else x["es"][0])
            elif x["k"] in ("un", "par"): parts = [x["a"]]
            elif x["k"] == "cond": parts = [x["c"], x["a"], x["b"]]
            if x["k"] not in ("lit", "var"): parts.append(L(1))
            elif x["k"] == "lit" and x["v"] not in (0, 1): parts.append(L(1))
            for y in parts:
                q = copy.deepcopy(p)
                h, k, _ = slots(q)[i]
                h[k] = copy.deepcopy(y)
                yield q
        elif kind == "b":
            h[k] = BLOCK()
            yield q
    used = p.text()
    for i, f in enumerate(p.funcs):
        if f["n"] != "main" and used.count(f["n"] + "(") == 1:
            q = copy.deepcopy(p)
            del q.funcs[i]
            q.decls = [d for d in q.decls if not (d["k"] == "fn" and d["n"] == f["n"])]
            for d in q.decls:
                if d["k"] == "fn":
                    d["i"] = [j + 1 for j, g in enumerate(q.funcs) if g["n"] == d["n"]][0]
            yield q


def fails(cc, ps, variants):
    """indices of ps on which some variant disagrees with the specification"""
    good = []
    for i, p in enumerate(ps):
        good.append(i)
    try:
        exp, bad, _ = cconf.expected(ps, "red")
    except vp.Infra:
        # a candidate may be ill-formed for the specification: bisect
        if len(ps) == 1:
            return []
        h = len(ps) // 2
        return fails(cc, ps[:h], variants) + [h + i for i in fails(cc, ps[h:], variants)]
    d = vp.sub("red")

    def one(i):
        src = "%s/r%d.c" % (d, i)
        open(src, "w").write(ps[i].text())
        for a, o in variants:
            ob = cconf.observe(cc, src, a, o, "red%d%s%s" % (i, a, "".join(o)))
            if ob[0] == "compile" and b"rror" in ob[1].out and b"Unrec" in ob[1].out:
                return None
            if not (ob[0] == "ran" and ob[1] in exp[i]):
                return i
        return None
    return [i for i in vp.pmap(one, sorted(exp)) if i is not None]


def gccfails(cc, ps, variants):
    """as fails(), with gcc standing in for the specification (quick triage)"""
    d = vp.sub("red")

    def one(i):
        src = "%s/r%d.c" % (d, i)
        open(src, "w").write(ps[i].text())
        r = vp.run(["gcc", "-w", "-funsigned-char", "-O0", "-fwrapv", "-fsanitize=undefined,address", "-fno-sanitize=shift,signed-integer-overflow",
                    "-fno-sanitize-recover", "-Wuninitialized", "-Werror=uninitialized", "-o", "%s/r%d.g" % (d, i), src])
        if r.rc != 0:
            return None
        r = vp.run(["%s/r%d.g" % (d, i)], timeout=2)
        if r.timeout or r.rc < 0 or b"ERROR" in r.err or b"runtime error" in r.err:
            return None
        want = (tuple(int(x) for x in r.out.split()), r.rc)
        for a, o in variants:
            ob = cconf.observe(cc, src, a, o, "red%d%s%s" % (i, a, "".join(o)))
            if ob[0] == "compile" and b"Unrec" in ob[1].out:
                return None
            if not (ob[0] == "ran" and ob[1] == want):
                return i
        return None
    return [i for i in vp.pmap(one, range(len(ps))) if i is not None]


def crashes(cc, ps, variants):
    d = vp.sub("red")

    def one(i):
        src = "%s/r%d.c" % (d, i)
        open(src, "w").write(ps[i].text())
        for a, o in variants:
            r = cc.compile(src, "%s/r%d.out" % (d, i), a, o, timeout=5)
            if r.rc == -11 or r.timeout:
                return i
        return None
    return [i for i in vp.pmap(one, range(len(ps))) if i is not None]


def reduce(cc, p, variants, crash_only=False, rounds=60):
    for _ in range(rounds):
        cs = list(cands(p))
        cs.sort(key=lambda q: len(q.text()))
        cur = len(p.text())
        cs = [c for c in cs if len(c.text()) < cur and wellscoped(c)]
        ok = None
        for lo in range(0, len(cs), 60):
            f = (crashes if crash_only is True else gccfails if crash_only == "g" else fails)(cc, cs[lo:lo + 60], variants)
            if f:
                ok = cs[lo + f[0]]
                break
        if ok is None:
            return p
        p = ok
    return p


def wellscoped(p):
    g = {"o"}
    for d in p.decls:
        if d["k"] in ("obj", "fn"): g.add(d["n"])
        if d["k"] == "enum": g |= {n for n, _, _ in d["names"]}

    class Bad(Exception): pass

    def ex(n, s):
        k = n["k"]
        if k in ("var", "call") and n["n"] not in s: raise Bad
        for c in ("a", "b", "c"):
            if isinstance(n.get(c), dict): ex(n[c], s)
        for c in n.get("es", []) + n.get("args", []): ex(c, s)

    def st(n, s):
        k = n["k"]
        if k == "expr" and n["a"] and n["a"]["k"] not in ("call", "inc"): raise Bad
        if k == "block":
            t = set(s)
            for x in n["ss"]: st(x, t)
        elif k == "decl":
            if n["init"]: ex(n["init"], s)
            s.add(n["n"])
        elif k == "asg": ex(n["l"], s); ex(n["e"], s)
        elif k in ("expr", "return"):
            if n["a"]: ex(n["a"], s)
        elif k == "switch":
            ex(n["c"], s)
            t = set(s)
            for c in n["cases"]:
                for x in c["ss"]: st(x, t)
        elif k in ("if", "while", "do", "for"):
            t = set(s)
            if k == "for":
                if n["i"]: st(n["i"], t)
                if n["s"]: st(n["s"], t)
            if n.get("c"): ex(n["c"], t)
            st(n["a"], set(t))
            if n.get("b"): st(n["b"], set(t))
    try:
        for f in p.funcs:
            st(f["body"], g | {x["n"] for x in f["ps"]})
            b = f["body"]["ss"]
            if not b or b[-1]["k"] != "return": return False
    except Bad:
        return False
    return True
