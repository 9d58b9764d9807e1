"""C20: process start, arguments, exit and system calls.  Scripts of calls,
allocations and endings (all short ones enumerated by TLC from Proc.tla, long
ones at random) are performed by a program compiled by shecc; generated programs
make system calls whose arguments the emulator records.  TLC validates all of it."""
import json, os, random, re
import vp

TECHNIQUE = "TLA+ specification of process life and system calls (Proc.tla); TLC enumerates scripts that are performed, and validates recorded runs and system-call traces of emitted executables"
NOTE = "All scripts of 4 steps plus random deep ones, argv of many shapes and frame sizes, main/exit/abort endings, and system calls with 0-6 arguments of every form with and without the library, on both targets; system calls are observed by qemu's strace."

BIG = [("", ""), ("int big[1000];", "big[999] = 1;"), ("int big[16383];", "big[16382] = 1;"), ("int big[16500];", "big[16499] = 1;"),
       ("char big[300000];", "big[299999] = 1;"), ("int big[262144];", "big[262143] = 1;"), ("int big[500];", "big[499] = 1;"), ("int big[900]; int big2[30];", "big2[29] = 1;")]


def rscript(r):
    h, d = [], 0
    for _ in range(r.choice([3, 10, 40, 120])):
        x = r.random()
        if x < 0.5: d += 1; h.append({"op": r.choice(["call", "call", "ptr"]), "n": 0})
        elif x < 0.8 and d: d -= 1; h.append({"op": "leave", "n": 0})
        else: h.append({"op": "alloc", "n": 0})
    if r.random() < 0.05:
        h += [{"op": "call", "n": 0}] * 2500
        d += 2500
    v = r.choice([0, 1, 2, 127, 128, 255, 256, 257, -1, -255, -256, 65536, 70001, r.randint(-2 ** 31 + 1, 2 ** 31 - 1)])
    e = r.choice(["exit", "exit", "abort", "ret"])
    if e == "ret":
        h += [{"op": "leave", "n": 0}] * d
    h.append({"op": e, "n": v if e != "abort" else 0})
    # at most 60 allocations
    k, out = 0, []
    for o in h:
        if o["op"] == "alloc":
            k += 1
            if k > 60:
                continue
        out.append(o)
    return out


def text(h, r):
    t, live = "", 0
    for o in h:
        k = o["op"]
        if k == "call": t += "c" + r.choice("0123")
        elif k == "ptr": t += "p" + r.choice("012")
        elif k == "leave": t += "r"
        elif k == "alloc":
            if live and r.random() < 0.3: t += "f"; live -= 1
            else: t += "a"; live += 1
        elif k == "exit": t += "x%d;" % o["n"]
        elif k == "abort": t += "A"
        else: t += "v%d;" % o["n"]
    return t


def decode(h, argv, res):
    ls = res.out.split(b"\n")
    ev, status = [], res.rc if not res.timeout else -1
    msg = 1 if b"Abnormal program termination" in res.out else 0
    try:
        n = int(ls[0])
        ev.append({"op": "start", "args": [list(bytes.fromhex(x.decode())) for x in ls[1:n + 1]]})
        p = n + 1
    except (ValueError, IndexError):
        ev.append({"op": "crash"})
        p = len(ls)
    for i, l in enumerate(ls[p:]):
        if l[:1] == b"+": ev.append({"op": h[i]["op"] if i < len(h) and h[i]["op"] in ("call", "ptr") else "call", "d": int(l[1:])})
        elif l[:1] == b"-": ev.append({"op": "leave", "d": int(l[1:])})
        elif l in (b"a", b"f"): ev.append({"op": "alloc"})
        elif l == b"x": ev.append({"op": "exit"})
        elif l == b"A": ev.append({"op": "abort"})
        elif l == b"v": ev.append({"op": "ret"})
        elif l in (b"", b"Abnormal program termination"): pass
        else: ev.append({"op": "crash", "text": l[:80].decode("latin-1")})
    ev.append({"op": "end", "status": status, "msg": msg})
    return {"script": [{"op": "start", "args": [list(a) for a in argv]}] + h, "ev": ev}


# ------------------------------------------------------------ system calls
NR = {"arm": {"probe": 249, "getpid": 20, "lseek": 19, "close": 6}, "riscv": {"probe": 18, "getpid": 172, "lseek": None, "close": 57}}
CONST = [0, 1, -1, 2, 7, 255, 256, 1020, 4095, 4096, 4097, -4096, 2047, 2048, -2048, -2049, 65535, 65536, 1048575, 0x12345, 0x7ffffffe, 2147483647, -2147483647, 0x55aa55aa, -286331154, 3840, 0xff000]


def sysprog(r, arch, libc):
    """source, script"""
    nr = NR[arch]
    use = r.randint(2, 14)
    g = [r.choice(CONST) for _ in range(4)]
    loc = [r.choice(CONST) for _ in range(use)]
    arr = [r.choice(CONST) for _ in range(4)]
    lit = lambda v: str(v) if v >= 0 else "(0 - %d)" % -v
    t = "int id(int v)\n{\n    return v;\n}\n"
    for i, v in enumerate(g):
        t += "int g%d;\n" % i
    t += "int nr;\n"
    body, script, results = "", [], 0
    keep = {}
    for i, v in enumerate(g): body += "    g%d = %s;\n" % (i, lit(v))
    body += "    nr = %d;\n" % nr["probe"]
    for i, v in enumerate(arr): body += "    arr[%d] = %s;\n" % (i, lit(v))
    for i, v in enumerate(loc): body += "    l%d = id(%s);\n" % (i, lit(v))
    for _ in range(r.randint(3, 7)):
        if r.random() < 0.35:
            q = r.choice(["getpid", "close", "getpid"])
            a = ", 99" if q == "close" else ""
            body += "    r%d = __syscall(%d%s);\n" % (results % 4, nr[q], a)
            script.append({"op": "sys", "name": q, "args": [{"lit": 99}] if a else []})
            results += 1
            keep[(results - 1) % 4] = results
            continue
        args, want = [], []
        impure = False
        for _ in range(r.randint(0, 6)):
            k = r.choice("llggcaases+i")
            if k == "l": i = r.randrange(use); args.append("l%d" % i); want.append({"lit": loc[i]})
            elif k == "g": i = r.randrange(4); args.append("g%d" % i); want.append({"lit": g[i]})
            elif k == "c": v = r.choice(CONST); args.append(lit(v)); want.append({"lit": v})
            elif k == "a": i = r.randrange(4); args.append("arr[%d]" % i); want.append({"lit": arr[i]})
            elif k == "i" and not impure:
                impure = True
                i = r.randrange(use); args.append("id(l%d)" % i); want.append({"lit": loc[i]})
            elif k == "s" and keep:
                i = r.choice(sorted(keep)); args.append("r%d" % i); want.append({"ref": keep[i]})
            else:
                i = r.randrange(use); args.append("(l%d ^ 0) + 0" % i); want.append({"lit": loc[i]})
        st = ", ".join([r.choice([str(nr["probe"]), "nr"])] + args)
        if r.random() < 0.5:
            body += "    r%d = __syscall(%s);\n" % (results % 4, st)
            keep[results % 4] = results + 1
        else:
            body += "    __syscall(%s);\n" % st
        script.append({"op": "sys", "name": "lookup_dcookie", "args": want})
        results += 1
    chk = " + ".join("l%d" % i for i in range(use))
    v = r.choice([0, 3, 200, 255, 256, 511, -1])
    tot = sum(loc) & 0xffffffff
    tot = tot - (1 << 32) if tot >> 31 else tot
    low = tot == -2 ** 31
    body += "    if (%s != %s)\n        return %d;\n" % (chk, "0 - 2147483647 - 1" if low else lit(tot), (v + 1) & 255)
    decl = "".join("    int l%d;\n" % i for i in range(use)) + "".join("    int r%d = 0;\n" % i for i in range(4)) + "    int arr[4];\n"
    form = r.randrange(3)
    if form == 0 or not libc:
        t += "int main()\n{\n%s%s    return %s;\n}\n" % (decl, body, lit(v))
        script.append({"op": "ret", "n": v})
    elif form == 1:
        t += "int run()\n{\n%s%s    exit(%s);\n    return 0;\n}\nint main()\n{\n    return run();\n}\n" % (decl, body, lit(v))
        script.append({"op": "exit", "n": v})
    else:
        t += "int run()\n{\n%s%s    return 0;\n}\nint main()\n{\n    run();\n}\n" % (decl, body)
        script.append({"op": "ret", "n": 0})
    return t, script


def sysdecode(script, res):
    ev = []
    pidtxt = None
    for l in res.err.decode("latin-1").split("\n"):
        m = re.match(r"^(\d+) (lookup_dcookie|getpid|close)\(([^)]*)\) = (-?\d+|0x[0-9a-f]+)", l)
        if not m:
            continue
        a = [int(x, 0) for x in m.group(3).split(",") if x.strip()]
        ret = int(m.group(4), 0)
        e = re.search(r"= -1 errno=(\d+)", l)
        if e:
            ret = -int(e.group(1))
        ev.append({"op": "sys", "name": m.group(2), "args": [(x & 0xffffffff) - (1 << 32) * ((x >> 31) & 1) for x in a], "ret": ret})
    ev.append({"op": script[-1]["op"]})
    ev.append({"op": "end", "status": res.rc if not res.timeout else -1, "msg": 0})
    return {"script": script, "ev": ev}


def check(chk):
    cc = vp.Compilers()
    r = random.Random("c20-%d" % vp.SEED)
    g = vp.tlc("Proc", cfg="ProcGen", env={"TRACES": ""})
    hist = [x["h"] for x in g.lines]
    n_enum = len(hist)
    if not vp.THOROUGH:
        r.shuffle(hist)
        hist = hist[:1100]
    hist += [rscript(r) for _ in range(3000 if vp.THOROUGH else 200)]
    drv = open(os.path.join(vp.VERIF, "drivers", "proc.c")).read()
    exes = {}
    for i, (decl, use) in enumerate(BIG):
        s = os.path.join(vp.sub("src"), "proc%d.c" % i)
        open(s, "w").write(drv.replace("BIGDECL", "").replace("BIGUSE", use).replace("char *sc;", decl.replace("; ", ";\n") + "\nchar *sc;", 1))
        for a in vp.ARCHS:
            exes[i, a] = os.path.join(vp.sub("exe"), "proc%d-%s" % (i, a))
            q = cc.compile(s, exes[i, a], a)
            if q.rc != 0:
                chk.violation("the process driver is not compiled for %s: %r" % (a, q), {"proc.c": open(s).read()})
                return
    jobs = []
    for i, h in enumerate(hist):
        t = text(h, r)
        extra = []
        for _ in range(r.choice([0, 0, 1, 2, 5, 60])):
            extra.append(bytes(r.choice(b"ab -=\"'\\\n\t\x80\xff%*$09") for _ in range(r.choice([0, 1, 2, 3, 4, 5, 8, 200]))))
        for a in vp.ARCHS:
            jobs.append((h, [t.encode()] + extra, r.randrange(len(BIG)), a))

    def one(j):
        h, ex, b, a = j
        q = vp.run(["env", "-i"] + (["A=b"] if len(ex) % 2 else []) + [vp.QEMU[a], exes[b, a]] + ex)
        return decode(h, [exes[b, a].encode()] + ex, q)
    tr = vp.pmap(one, jobs)
    what = [("script " + j[1][0].decode()[:300] + " on " + j[3], {}) for j in jobs]
    # system calls
    progs = []
    for i in range(600 if vp.THOROUGH else 60):
        for a in vp.ARCHS:
            libc = r.random() < 0.5
            src, script = sysprog(r, a, libc)
            progs.append((i, a, libc, r.random() < 0.5, src, script))

    def two(p):
        i, a, libc, md, src, script = p
        s = os.path.join(vp.sub("src"), "sys%d-%s.c" % (i, a))
        x = os.path.join(vp.sub("exe"), "sys%d-%s" % (i, a))
        open(s, "w").write(src)
        q = cc.compile(s, x, a, ([] if libc else ["--no-libc"]) + (["+m"] if md else []))
        if q.rc != 0:
            return {"script": script, "ev": [{"op": "not compiled", "why": repr(q)}]}
        return sysdecode(script, vp.run([vp.QEMU[a], "-strace", x], timeout=10))
    tr += vp.pmap(two, progs)
    what += [("system calls of a program for %s%s" % (p[1], "" if p[2] else " without the library"), {"prog.c": p[4]}) for p in progs]
    p = os.path.join(vp.sub("traces"), "proc.json")
    json.dump(tr, open(p, "w"))
    t = vp.tlc("Proc", env={"TRACES": p})
    for x in t.lines[:40]:
        k = x["t"] - 1
        chk.violation("%s: recorded step %d %s is not allowed by Proc.tla" % (what[k][0], x["l"], str(tr[k]["ev"][x["l"] - 1])[:400]),
                      dict(what[k][1], **{"trace.json": json.dumps(tr[k]), "proc.c": drv}))
    chk.cov.update(states=g.distinct + t.distinct, transitions=g.states + t.states, traces_validated_against_impl=len(tr),
                   scripts_enumerated_by_tlc=n_enum, recorded_steps=sum(len(x["ev"]) for x in tr), system_call_programs=len(progs),
                   samples=[tr[-1]])
    chk.assumptions += ["qemu-user starts processes and reports system calls (-strace) faithfully"]
