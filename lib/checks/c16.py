"""C16: heap.  Histories explored by TLC from Heap.tla (every history of five
calls over three blocks and three sizes), and long random ones, are replayed
through the library compiled by shecc; the recorded calls are validated against
the specification, step by step."""
import json, os, random
import vp

TECHNIQUE = "TLA+ specification of the heap contract (Heap.tla); TLC enumerates call histories that are replayed, and validates the recorded traces of the real library"
NOTE = "Exhaustive histories of length 5 over 3 blocks and 3 sizes plus long random histories run on both targets; every returned address, zero fill, block content, double free and exit is checked by TLC against Heap.tla."

SAFE = lambda n: n <= 0 or 1 <= n % 4096 <= 4084


def script(h):
    t = ""
    for o in h:
        k = o["op"]
        if k == "m": t += "m%d,%d;" % (o["s"] - 1, o["n"])
        elif k == "c": t += "c%d,%d,%d;" % (o["s"] - 1, o.get("k", 1), o["n"])
        elif k == "f": t += "f%d;" % (o["s"] - 1)
        elif k == "z": t += "z0;"
        elif k == "d": t += "d%d;" % (o["s"] - 1)
        elif k == "i": t += "i0;"
    return t


def decode(h, r):
    """recorded events of history h from the driver's output"""
    ls = r.out.decode("latin-1").split("\n")
    ev = []
    p = 0
    for o in h:
        k = o["op"]
        l = ls[p].split() if p < len(ls) - 1 else None
        p += 1
        try:
            if k == "m": ev.append({"op": "m", "s": o["s"], "n": o["n"], "a": int(l[0])})
            elif k == "c": ev.append({"op": "c", "s": o["s"], "k": o.get("k", 1), "n": o["n"], "a": int(l[0]), "nz": int(l[1])})
            elif k == "f": ev.append({"op": "f", "s": o["s"]})
            elif k == "z": ev.append({"op": "z"})
            elif k == "d": ev.append({"op": "d", "a": int(l[0])})
            elif k == "i":
                for j in range(0, len(l), 2):
                    ev.append({"op": "i", "s": int(l[j]) + 1, "bad": int(l[j + 1])})
                ev.append({"op": "live", "n": len(l) // 2})
            if l is None:
                raise IndexError
        except (TypeError, IndexError, ValueError):
            ev.append({"op": "crash"})
            break
        if k == "d":
            break
    rc = r.rc if not r.timeout else -1
    ev.append({"op": "exit", "rc": rc, "msg": 1 if b"free(): double free detected" in r.out else 0})
    if rc == 0 and (not ls or "end" not in ls):
        ev.append({"op": "crash"})
    # addresses relative to the lowest one (TLC's integers have 32 bits)
    low = min([e["a"] & 0xffffffff for e in ev if e.get("a")] or [0])
    for e in ev:
        if e.get("a"):
            e["a"] = min((e["a"] & 0xffffffff) - low + 16, 1 << 30)
    return [e for e in ev if e["op"] != "live"]


def rnd(seed):
    r = random.Random(seed)
    h, live, gone, freed = [], {}, {}, set()
    for _ in range(r.randint(20, 60)):
        x = r.random()
        empty = [s for s in range(1, 17) if s not in live]
        if x < 0.5 and empty:
            s = r.choice(empty)
            c = r.random() < 0.4
            n = r.choice([1, 2, 3, 4, 5, 7, 8, 12, 13, 16, 31, 100, 255, 1000, 2048, 4000, 4083, 4084, 4097, 5000, 8180, 8193, 12276, 20000, 0, -1, -5,
                          r.randint(1, 4084), r.randint(1, 12000), 4085, 4090, 4095, 4096, 8181, 8192])
            k = 1
            if c and n > 0 and r.random() < 0.7:
                k = r.choice([1, 2, 3, 4, 7, 10])
            t = n * k
            if t > 30000:
                continue
            if not SAFE(t) and (t + 4095) // 4096 in freed:
                continue            # see known findings
            h.append({"op": "c" if c else "m", "s": s, "n": n, "k": k})
            if t > 0:
                live[s] = t
        elif x < 0.85 and live:
            s = r.choice(sorted(live))
            freed.add((live.pop(s) + 12 + 4095) // 4096)
            h.append({"op": "f", "s": s})
            gone[s] = 1
        elif x < 0.9:
            h.append({"op": "z"})
        if r.random() < 0.5:
            h.append({"op": "i"})
    h.append({"op": "i"})
    if r.random() < 0.3 and live:
        s = r.choice(sorted(live))
        h += [{"op": "f", "s": s}, {"op": "i"}, {"op": "d", "s": s}]
    return h


def check(chk):
    cc = vp.Compilers()
    g = vp.tlc("Heap", cfg="HeapGen", env={"EMIT": "1", "TRACES": ""})
    short = [x["h"] for x in g.lines]
    r = random.Random("c16-%d" % vp.SEED)
    dbl, plain = [], []
    for h in short:
        if h[-1]["op"] == "d":
            # the address to free again is that of some earlier block; name it by its slot
            last = [o["s"] for o in h if o["op"] == "f"][-1]
            again = [i for i, o in enumerate(h) if o["op"] == "f" and o["s"] == last][-1]
            if all(o["op"] in "fzd" for o in h[again + 1:]):
                dbl.append(h[:-1] + [{"op": "d", "s": last}])
        else:
            plain.append(h)
    r.shuffle(plain)
    r.shuffle(dbl)
    if not vp.THOROUGH:
        plain = plain[:6000]
    hist = []
    for i in range(0, len(plain), 12):
        c = []
        for h in plain[i:i + 12]:
            live = set()
            for o in h:
                c.append(o)
                c.append({"op": "i"})
                if o["op"] in "mc" and o["n"] > 0: live.add(o["s"])
                if o["op"] == "f": live.discard(o["s"])
            c += [{"op": "f", "s": s} for s in sorted(live)]
        hist.append(c)
    hist += [[x for o in h for x in (([o, {"op": "i"}]) if o["op"] != "d" else [o])] for h in dbl[:2000 if vp.THOROUGH else 150]]
    hist += [rnd("c16-%d-%d" % (vp.SEED, i)) for i in range(3000 if vp.THOROUGH else 200)]
    exes = {}
    for a in vp.ARCHS:
        x = os.path.join(vp.sub("exe"), "heap-" + a)
        q = cc.compile(os.path.join(vp.VERIF, "drivers", "heap.c"), x, a)
        if q.rc != 0:
            chk.violation("the heap driver is not compiled for %s: %r" % (a, q))
            return
        exes[a] = x
    jobs = [(i, a) for i in range(len(hist)) for a in vp.ARCHS]
    res = vp.pmap(lambda j: cc.exe(exes[j[1]], j[1], [script(hist[j[0]])], timeout=30), jobs)
    tr = [decode(hist[j[0]], q) for j, q in zip(jobs, res)]
    p = os.path.join(vp.sub("traces"), "heap.json")
    json.dump(tr, open(p, "w"))
    t = vp.tlc("Heap", cfg="HeapTrace", env={"EMIT": "0", "TRACES": p})
    rej = {}
    for x in t.lines:
        rej.setdefault(x["t"] - 1, x["l"])
    for k in sorted(rej):
        i, a = jobs[k]
        e = tr[k][rej[k] - 1]
        chk.violation("history %d on %s: recorded step %d %s is not allowed by Heap.tla" % (i, a, rej[k], e),
                      {"script": script(hist[i]), "trace.json": json.dumps(tr[k]), "heap.c": open(os.path.join(vp.VERIF, "drivers", "heap.c")).read()})
    chk.cov.update(states=g.distinct + t.distinct, transitions=g.states + t.states,
                   traces_validated_against_impl=len(tr), histories_enumerated_by_tlc=len(short), recorded_steps=sum(map(len, tr)),
                   samples=[{"history": script(hist[-1])[:600], "trace": tr[-1][:12]}])
    # known finding: the free list is searched with sizes that include the header
    h = [{"op": "m", "s": 1, "n": 4084}, {"op": "m", "s": 2, "n": 4084}, {"op": "f", "s": 2}, {"op": "m", "s": 3, "n": 4096}, {"op": "i"}]
    for a in vp.ARCHS:
        q = cc.exe(exes[a], a, [script(h)])
        ev = decode(h, q)
        adr = [e["a"] for e in ev if e["op"] == "m"]
        if ev[-1]["op"] == "crash" or ev[-1]["rc"] != 0 or any(e.get("bad") for e in ev) or (len(adr) == 3 and adr[1] == adr[2]):
            chk.finding("C16-bestfit")
    # known finding: the product of calloc's arguments wraps around
    big = os.path.join(vp.sub("src"), "wrap.c")
    open(big, "w").write("int main()\n{\n    char *p = calloc(65536, 65537);\n    char *q = calloc(4, 1073741825);\n    return (p != 0) + 2 * (q != 0);\n}\n")
    for a in vp.ARCHS:
        x = os.path.join(vp.sub("exe"), "wrap-" + a)
        cc.compile(big, x, a)
        if cc.exe(x, a).rc != 0:
            chk.finding("C16-calloc-wrap")
    chk.assumptions += ["qemu-user executes ARM and RISC-V code faithfully and maps anonymous memory as Linux does"]
