"""The first-phase IR printed by --dump-ir, decoded for IRSem.tla and IRFlow.tla.
Names are resolved as the printed blocks scope them."""
import re

BIN = {"add", "sub", "mul", "div", "mod", "eq", "neq", "gt", "lt", "geq", "leq", "and", "or", "xor", "lshift", "rshift"}
V = r"%([\w.$]+)"
PATS = [(re.compile("^" + p + "$"), o) for p, o in [
    (r"allocat (\w+)(\**) %([\w.]+)(?:\[(\d+)\])?", "allocat"),
    (r"const %s, \$(-?\d+)" % V, "const"),
    (r"%s = \.data \((-?\d+)\)" % V, "data"),
    (r"%s = &\(%s\)" % (V, V), "addr"),
    (r"%s = %s" % (V, V), "assign"),
    (r"br %s, ([\w.]*), ([\w.]*)" % V, "br"),
    (r"j ([\w.]*)", "j"),
    (r"push %s" % V, "push"),
    (r"call @(\w+), (\d+)", "call"),
    (r"retval %s" % V, "retval"),
    (r"ret(?: %s)?" % V, "ret"),
    (r"%s = \(%s\), (-?\d+)" % (V, V), "read"),
    (r"\(%s\) = @(\w+)" % V, "writefn"),
    (r"\(%s\) = %s, (-?\d+)" % (V, V), "write"),
    (r"indirect call @\(%s\)" % V, "icall"),
    (r"neg %s, %s" % (V, V), "neg"),
    (r"%s = (\w+) %s, %s" % (V, V, V), "bin"),
    (r"%s = (not|lnot) %s" % (V, V), "not"),
    (r"(\.[\w.]+)", "label"),
]]


def functions(dump):
    """[(def line, [instruction lines])]"""
    fs = []
    for l in dump.split("\n"):
        if l == "===": break
        if l.startswith("def "): fs.append((l, []))
        elif fs and l.strip(): fs[-1][1].append(l.strip())
    return fs


def decode(dline, lines, globs, sizes, fnnames=None):
    """record for IRSem/IRFlow.  globs: {name: index}, sizes: {type name: bytes}"""
    m = re.match(r"def (\w+)(\**) @(\w+)\((.*)\)$", dline)
    if not m:
        return None
    ret, name, ptxt = m.group(1) + m.group(2), m.group(3), m.group(4)
    ps = []
    for p in filter(None, ptxt.split(", ")):
        q = re.match(r"(\w*)(\**) %(\w*)$", p)
        ps.append((q.group(1), len(q.group(2)), q.group(3)) if q else ("?", 0, p))
    vars_, names = [], []
    scopes = [{}]

    def new(n, k, s):
        vars_.append({"k": k, "s": s})
        names.append(n)
        scopes[-1][n] = len(vars_)
        return len(vars_)

    pids = []
    for t, st, n in ps:
        pids.append(new(n, "v", 4))
    code, decls, bal = [], [], True

    def ref(n, define=False):
        for sc in reversed(scopes):
            if n in sc: return sc[n]
        if n in globs: return -globs[n]
        if n.startswith(".t"):     # temporaries belong to the function
            vars_.append({"k": "v", "s": 4})
            names.append(n)
            scopes[0][n] = len(vars_)
            return len(vars_)
        return 0

    def put(o, d=0, a=0, b=0, v=0, l="", m=""):
        code.append({"o": o, "d": d, "a": a, "b": b, "v": v, "l": l, "m": m})

    for l in lines:
        if l == "{":
            scopes.append({})
            continue
        if l == "}":
            if len(scopes) == 1: bal = False
            else: scopes.pop()
            continue
        for p, o in PATS:
            m = p.match(l)
            if m: break
        else:
            put("?", l=l)
            continue
        g = m.groups()
        if o == "allocat":
            n = int(g[3] or 0)
            el = 4 if g[1] else sizes.get(g[0], 4)
            if not g[2].startswith(".t"): decls.append("%s%s %s[%d]" % (g[0], g[1], g[2], n))
            if g[2].startswith(".t"):
                i = ref(g[2])
            else:
                i = new(g[2], "a" if n or (not g[1] and g[0] in sizes and g[0] not in SCALARS) else "v", n * el if n else max(el, 4) if g[0] in SCALARS else el)
            put(o, d=i)
        elif o == "const": put(o, d=ref(g[0]), v=int(g[1]))
        elif o == "data": put(o, d=ref(g[0]), v=int(g[1]))
        elif o == "addr":
            a = ref(g[1])
            if a > 0 and vars_[a - 1]["k"] == "v": vars_[a - 1]["k"] = "o"
            put(o, d=ref(g[0]), a=a)
        elif o == "assign": put(o, a=ref(g[1]), d=ref(g[0]))
        elif o == "br": put(o, d=ref(g[0]), l=g[1], m=g[2])
        elif o == "j": put(o, l=g[0])
        elif o == "push": put(o, a=ref(g[0]))
        elif o == "call": put(o, l=g[0], v=int(g[1]))
        elif o == "retval": put(o, d=ref(g[0]))
        elif o == "ret": put(o, a=ref(g[0]) if g[0] else 0, v=1 if g[0] else 0)
        elif o == "read": put(o, d=ref(g[0]), a=ref(g[1]), v=int(g[2]))
        elif o == "writefn": put(o, d=ref(g[0]), l=g[1])
        elif o == "write": put(o, d=ref(g[0]), a=ref(g[1]), v=int(g[2]))
        elif o == "icall": put(o, a=ref(g[0]))
        elif o == "neg": put(o, d=ref(g[0]), a=ref(g[1]))
        elif o == "not": put(g[1], d=ref(g[0]), a=ref(g[2]))
        elif o == "label": put(o, l=g[0])
        elif o == "bin":
            if g[1] in BIN: put(g[1], d=ref(g[0]), a=ref(g[2]), b=ref(g[3]))
            else: put("?", l=l)
    if len(scopes) != 1: bal = False
    sig = ret + " " + name + "(" + ", ".join("%s%s %s" % (t, "*" * s, n) for t, s, n in ps) + ")"
    return {"n": name, "ps": pids, "vars": vars_, "code": code, "sig": sig, "decls": decls, "bal": bal, "names": names}


SCALARS = {"int", "char", "_Bool", "bool", "void"}


def types_of(p):
    """{type name: size} and function to print a type as the dump does, for a cprog.Prog"""
    sz = {"int": 4, "char": 1, "_Bool": 1, "void": 0}
    for y in p.types:
        if y["k"] == "struct": sz[y["name"]] = sum(p.size(f["t"]) for f in y["f"])
        if y.get("alias"): sz[y["alias"]] = p.size(y["of"])
    return sz


def tn(p, t):
    """(name, stars, array size)"""
    y = p.types[t - 1]
    if y["k"] == "arr":
        a, s, _ = tn(p, y["to"])
        return a, s, y["n"]
    if y.get("alias"): return y["alias"], 0, 0
    if y["k"] == "ptr":
        a, s, _ = tn(p, y["to"])
        return a, s + 1, 0
    return {"int": "int", "char": "char", "void": "void", "bool": "_Bool", "fn": "int"}.get(y["k"]) or y["name"], 0, 0


def wanted(p, f):
    """signature and declarations of function record f of program p, as the source has them"""
    one = lambda t, n: "%s%s %s" % (tn(p, t)[0], "*" * tn(p, t)[1], n)
    sig = one(f["ret"], f["n"]) + "(" + ", ".join(one(q["t"], q["n"]) for q in f["ps"]) + ")"
    ds = []

    def walk(n):
        if isinstance(n, list):
            for x in n: walk(x)
        elif isinstance(n, dict):
            if n.get("k") == "decl":
                a, s, k = tn(p, n["t"])
                ds.append("%s%s %s[%d]" % (a, "*" * s, n["n"], k))
                return
            for k in ("i", "c", "s", "a", "b", "ss", "cases"):
                if k in n: walk(n[k])
    walk(f["body"])
    return sig, ds


def program(p, dump, data, fuel=20000):
    """record for IRSem of cprog.Prog p"""
    sz = types_of(p)
    globs, gl = {}, []
    for d in p.decls:
        if d["k"] == "obj":
            i = d["init"]
            if isinstance(i, dict):
                if i["k"] != "lit": return None
                i = i["v"]
            y = p.types[d["t"] - 1]
            s = max(4, p.size(d["t"]))
            gl.append({"k": "a" if y["k"] in ("arr", "struct") else "o", "s": s, "i": [] if i is None else [i]})
            globs[d["n"]] = len(gl)
    by = {f["n"]: f for f in p.funcs}
    fns = []
    for dl, ls in functions(dump):
        m = re.search(r"@(\w+)\(", dl)
        if not m or m.group(1) not in by: continue
        r = decode(dl, ls, globs, sz)
        if r is None: return None
        r["wsig"], r["wdecls"] = wanted(p, by[r["n"]])
        r.pop("names")
        fns.append(r)
    ns = [f["n"] for f in fns]
    return {"fns": fns, "glob": gl, "data": list(data), "main": ns.index("main") + 1 if "main" in ns else 1, "fuel": fuel}
