"""C19: file functions.  Every history of five operations over two streams and
two files (enumerated by TLC from FileIO.tla) and long random histories are
performed by the library compiled by shecc on both targets; the recorded
results, buffers and final file contents are validated by TLC."""
import json, os, random
import vp

TECHNIQUE = "TLA+ specification of streams and files (FileIO.tla); TLC enumerates histories that are replayed, and validates the recorded events of the real library"
NOTE = "All histories of 5 operations over 2 streams and 2 files plus long random histories on both targets; every result, fgets buffer and final file content is validated by TLC."


def names(i, h):
    return {x: "h%d_%s" % (i, x) for x in {o["f"] for o in h if o["f"]} | set("ab")}


def rnd(r):
    """a history, its initial files and standard input"""
    data = lambda: bytes(r.choice([10, 10, 0, 255, 65, 66, 128, 13, 26, 127] + [r.randint(0, 255)] * 3) for _ in range(r.choice([0, 1, 2, 5, 30, 90, 200, 300])))
    files = {"a": data(), "b": data(), "e": b"", "long": bytes(65 + i % 26 for i in range(250)) + b"\nlast"}
    stdin = data()
    h, st, made = [], {}, set()
    for _ in range(r.randint(20, 70)):
        free = [s for s in range(1, 7) if s not in st]
        x = r.random()
        if x < 0.15 and free:
            s = r.choice(free)
            ok = [f for f in list(files) + sorted(made) if not any(v == (f, "w") for v in st.values())]
            if r.random() < 0.5 or not ok:
                f = "n%d" % len(made)
                made.add(f)
                st[s] = (f, "w")
                h.append({"op": "w", "s": s, "f": f, "n": 0})
            else:
                f = r.choice(ok)
                st[s] = (f, "r")
                h.append({"op": "r", "s": s, "f": f, "n": 0})
        elif x < 0.22 and st:
            s = r.choice(sorted(st))
            del st[s]
            h.append({"op": "c", "s": s, "f": "", "n": 0})
        else:
            s = r.choice(sorted(st) + [9])
            if s == 9 or st[s][1] == "r":
                for _ in range(r.choice([1, 1, 2, 6])):
                    if r.random() < 0.5:
                        h.append({"op": "g", "s": s, "f": "", "n": 0})
                    else:
                        h.append({"op": "s", "s": s, "f": "", "n": r.choice([1, 2, 3, 10, 40, 128, 256, 300])})
            else:
                for _ in range(r.choice([1, 2, 9])):
                    h.append({"op": "p", "s": s, "f": "", "n": r.choice([0, 10, 255, 128, 127, r.randint(0, 255)])})
    return h, files, stdin


def drain(h):
    """closes what h leaves open and reads back everything written"""
    op = {}
    wr = []
    for o in h:
        if o["op"] in "rw": op[o["s"]] = o["f"]
        if o["op"] == "w": wr.append(o["f"])
        if o["op"] == "c": op.pop(o["s"], None)
    h = h + [{"op": "c", "s": s, "f": "", "n": 0} for s in sorted(op)]
    for f in wr[:3]:
        h += [{"op": "r", "s": 1, "f": f, "n": 0}] + [{"op": "g", "s": 1, "f": "", "n": 0}] * 3 + [{"op": "c", "s": 1, "f": "", "n": 0}]
    return h


def args(h, m):
    a = []
    for o in h:
        a += [o["op"], str(o["s"])]
        if o["op"] in "rw": a.append(m[o["f"]])
        if o["op"] in "ps": a.append(str(o["n"]))
    return a


def decode(h, m, res, d, files, stdin):
    ls = res.out.split(b"\n")
    ev = []
    for i, o in enumerate(h):
        e = dict(o)
        if o["f"]:
            e["f"] = m[o["f"]]
        try:
            w = ls[i].split()
            e["r"] = int(w[0])
            if o["op"] == "s":
                e["buf"] = list(bytes.fromhex(w[1].decode()))
                e["other"] = int(w[2])
            if i + 1 >= len(ls):
                raise IndexError
        except (IndexError, ValueError):
            ev.append({"op": "crash"})
            break
        ev.append(e)
    else:
        for f in sorted({o["f"] for o in h if o["f"]}):
            try:
                b = list(open(os.path.join(d, m[f]), "rb").read())
            except OSError:
                b = [-1]
            ev.append({"op": "final", "f": m[f], "b": b})
    ev.append({"op": "exit", "r": res.rc if not res.timeout else -1})
    fs = {m.get(k, k): [list(v)] for k, v in files.items()}
    for f in {o["f"] for o in h if o["f"]}:
        fs.setdefault(m[f], [])
    fs["stdin"] = [list(stdin)]
    return {"files": fs, "ev": ev}


def check(chk):
    cc = vp.Compilers()
    g = vp.tlc("FileIO", cfg="FileIOGen", env={"TRACES": ""})
    short = [x["h"] for x in g.lines]
    r = random.Random("c19-%d" % vp.SEED)
    r.shuffle(short)
    K = 25
    seed = {"a": bytes([97, 10, 0, 255, 98])}
    runs = []           # (history, name map, files, stdin)
    for c in range(0, min(len(short), 10 ** 9 if vp.THOROUGH else 6000), K):
        h, m, fs = [], {}, {}
        for i, x in enumerate(short[c:c + K]):
            q = drain(x)
            for o in q:
                h.append(dict(o, f=o["f"] and "%s%d" % (o["f"], i)))
                if o["f"]:
                    m["%s%d" % (o["f"], i)] = "h%d_%s" % (i, o["f"])
            if "a%d" % i in m:
                fs["a%d" % i] = seed["a"]
        runs.append((h, m, fs, b""))
    for _ in range(4000 if vp.THOROUGH else 250):
        h, fs, si = rnd(r)
        runs.append((drain(h), {f: "f_" + f for f in set(fs) | {o["f"] for o in h if o["f"]}}, fs, si))
    exes = {}
    drv = os.path.join(vp.VERIF, "drivers", "file.c")
    for a in vp.ARCHS:
        exes[a] = os.path.join(vp.sub("exe"), "file-" + a)
        q = cc.compile(drv, exes[a], a)
        if q.rc != 0:
            chk.violation("the file driver is not compiled for %s: %r" % (a, q))
            return

    def one(j):
        i, a = j
        h, m, fs, si = runs[i]
        d = vp.sub("run/%d-%s" % (i, a))
        for f, b in fs.items():
            with open(os.path.join(d, m[f]), "wb") as o:
                o.write(b)
        q = cc.exe(exes[a], a, args(h, m), cwd=d, stdin=si)
        return decode(h, m, q, d, fs, si)
    jobs = [(i, a) for i in range(len(runs)) for a in vp.ARCHS]
    tr = vp.pmap(one, jobs)
    p = os.path.join(vp.sub("traces"), "file.json")
    json.dump(tr, open(p, "w"))
    t = vp.tlc("FileIO", env={"TRACES": p})
    for x in t.lines[:40]:
        k = x["t"] - 1
        e = tr[k]["ev"][x["l"] - 1]
        chk.violation("history %d on %s: recorded step %d %s is not allowed by FileIO.tla" % (jobs[k][0], jobs[k][1], x["l"], str(e)[:400]),
                      {"args": "\n".join(args(*runs[jobs[k][0]][:2])), "trace.json": json.dumps(tr[k]), "file.c": open(drv).read()})
    chk.cov.update(states=g.distinct + t.distinct, transitions=g.states + t.states, traces_validated_against_impl=len(tr),
                   histories_enumerated_by_tlc=len(short), recorded_steps=sum(len(x["ev"]) for x in tr),
                   samples=[tr[-1]["ev"][:6]])
    # known findings
    for a in vp.ARCHS:
        d = vp.sub("known-" + a)
        open(os.path.join(d, "x"), "wb").write(b"0123456789")
        cc.exe(exes[a], a, ["w", "1", "x", "p", "1", "65", "c", "1"], cwd=d)
        if open(os.path.join(d, "x"), "rb").read() == b"A123456789":
            chk.finding("C19-wb-trunc")
        s = os.path.join(d, "n.c")
        open(s, "w").write('int main()\n{\n    FILE *f = fopen("/nonexistent/x", "rb");\n    return f != 0;\n}\n')
        cc.compile(s, os.path.join(d, "n"), a)
        if cc.exe(os.path.join(d, "n"), a).rc == 1:
            chk.finding("C19-fopen-null")
    chk.assumptions += ["qemu-user passes the file system calls to Linux faithfully"]
