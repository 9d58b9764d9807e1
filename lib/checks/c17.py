"""C17: string and memory functions.  Histories of calls on one byte array,
replayed through the library compiled by shecc and validated by TLC against
Str.tla: every result and the whole array after every writing call."""
import itertools, json, os, random
import vp

TECHNIQUE = "TLA+ specification of the string functions on a byte array (Str.tla); TLC validates recorded traces of the real library"
NOTE = "All pairs of strings up to length 2 over {1,127,128,255} with all lengths, and random histories over byte values and overlapping/adjacent ranges on both targets; every result and every byte of the array is checked by TLC."

SZ = 96
VALS = [0, 1, 2, 9, 65, 97, 98, 126, 127, 128, 129, 200, 254, 255]


def script(h):
    t = ""
    for o in h:
        k = o["op"]
        if k == "poke": t += "p%d,%s;" % (o["p"], bytes(o["bs"]).hex())
        elif k == "strlen": t += "L%d;" % o["p"]
        elif k == "strcmp": t += "C%d,%d;" % (o["a"], o["b"])
        elif k == "strncmp": t += "N%d,%d,%d;" % (o["a"], o["b"], o["n"])
        elif k == "strcpy": t += "Y%d,%d;" % (o["d"], o["s"])
        elif k in ("strncpy", "memcpy"): t += "%s%d,%d,%d;" % ("Z" if k == "strncpy" else "M", o["d"], o["s"], o["n"])
        elif k == "show": t += "s0;"
    return t


def decode(h, r):
    ls = r.out.decode("latin-1").split("\n")
    ev = []
    for i, o in enumerate(h):
        e = dict(o)
        try:
            if o["op"] == "show":
                e["bs"] = list(bytes.fromhex(ls[i]))
            elif o["op"] != "poke":
                e["r"] = int(ls[i])
            ev.append(e)
        except (IndexError, ValueError):
            ev.append({"op": "crash"})
            break
    ev.append({"op": "exit", "rc": r.rc if ls[-2:] == ["end", ""] else 255})
    return {"mem": [165] * SZ, "ev": ev}


class Gen:
    """keeps a copy of the array only to choose calls with defined behaviour"""

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.h = []
        self.m = [165] * SZ

    def poke(self, p, bs):
        self.m[p:p + len(bs)] = bs
        self.h.append({"op": "poke", "p": p, "bs": bs})

    def slen(self, p):
        return self.m.index(0, p) - p if 0 in self.m[p:] else None

    def word(self, k):
        r = self.r
        v = r.choice([VALS[1:], [97, 98], [255, 128, 1]])
        return [r.choice(v) for _ in range(k)]

    def step(self):
        r = self.r
        x = r.random()
        a, b = r.randrange(SZ - 1), r.randrange(SZ - 1)
        la, lb = self.slen(a), self.slen(b)
        if x < 0.3:
            k = min(r.choice([0, 1, 2, 3, 4, 5, 8, 13, 20]), SZ - 2 - a)
            w = self.word(max(k, 0))
            self.poke(a, w + ([0] if r.random() < 0.8 else []))
            return
        if x < 0.36 and la is not None:
            self.h.append({"op": "strlen", "p": a})
            return
        if x < 0.6:
            # often strings with a long common prefix
            if r.random() < 0.6:
                k = r.randint(0, 12)
                a, b = r.choice([(0, 40), (5, 50), (61, 20), (33, 70)])
                w = self.word(k)
                t = self.word(r.randint(0, 3))
                self.poke(a, w + t + [0])
                self.poke(b, w + (t[:r.randint(0, len(t))] if r.random() < 0.6 else self.word(r.randint(0, 3))) + [0])
            if self.slen(a) is None or self.slen(b) is None:
                return
            if r.random() < 0.4:
                self.h.append({"op": "strcmp", "a": a, "b": b})
            else:
                for n in r.sample(range(0, 18), 2):
                    self.h.append({"op": "strncmp", "a": a, "b": b, "n": n})
            return
        ap = lambda d, n, s, m: d + n <= s or s + m <= d
        if x < 0.72 and lb is not None:
            n = lb + 1
            if a + n <= SZ and ap(a, n, b, n):
                self.m[a:a + n] = self.m[b:b + n]
                self.h.append({"op": "strcpy", "d": a, "s": b})
                self.h.append({"op": "show"})
            return
        n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 12, 16, 17, 31])
        if a + n > SZ:
            return
        if x < 0.87:
            k = min(n, lb if lb is not None else SZ)
            # what is read must lie inside and apart from what is written
            if (lb is None and b + n > SZ) or not ap(a, n, b, min(k + 1, n)):
                return
            w = self.m[b:b + k] if k < n else self.m[b:b + n]
            self.m[a:a + n] = (w + [0] * n)[:n]
            self.h.append({"op": "strncpy", "d": a, "s": b, "n": n})
        else:
            if b + n > SZ or not ap(a, n, b, n):
                return
            self.m[a:a + n] = self.m[b:b + n]
            self.h.append({"op": "memcpy", "d": a, "s": b, "n": n})
        self.h.append({"op": "show"})

    def build(self):
        self.poke(0, [self.r.choice(VALS) for _ in range(SZ)])
        self.poke(SZ - 1, [0])
        for _ in range(self.r.randint(30, 70)):
            self.step()
        self.h.append({"op": "show"})
        return self.h


def pairs():
    al = [1, 127, 128, 255]
    ss = [list(w) for k in range(3) for w in itertools.product(al, repeat=k)]
    hs = []
    h = []
    for x in ss:
        for y in ss:
            h += [{"op": "poke", "p": 3, "bs": x + [0]}, {"op": "poke", "p": 20, "bs": y + [0]}, {"op": "strcmp", "a": 3, "b": 20}]
            h += [{"op": "strncmp", "a": 3, "b": 20, "n": n} for n in range(4)]
        h.append({"op": "show"})
        hs.append(h)
        h = []
    return hs


def check(chk):
    cc = vp.Compilers()
    hist = pairs() + [Gen("c17-%d-%d" % (vp.SEED, i)).build() for i in range(6000 if vp.THOROUGH else 500)]
    exes = {}
    drv = os.path.join(vp.VERIF, "drivers", "str.c")
    for a in vp.ARCHS:
        exes[a] = os.path.join(vp.sub("exe"), "str-" + a)
        q = cc.compile(drv, exes[a], a)
        if q.rc != 0:
            chk.violation("the string driver is not compiled for %s: %r" % (a, q))
            return
    jobs = [(i, a) for i in range(len(hist)) for a in vp.ARCHS]
    res = vp.pmap(lambda j: cc.exe(exes[j[1]], j[1], [script(hist[j[0]])]), jobs)
    tr = [decode(hist[j[0]], q) for j, q in zip(jobs, res)]
    p = os.path.join(vp.sub("traces"), "str.json")
    json.dump(tr, open(p, "w"))
    t = vp.tlc("Str", env={"TRACES": p})
    seen = set()
    for x in t.lines:
        k = x["t"] - 1
        if k in seen:
            continue
        seen.add(k)
        i, a = jobs[k]
        chk.violation("history %d on %s: recorded step %d %s is not allowed by Str.tla" % (i, a, x["l"], tr[k]["ev"][x["l"] - 1]),
                      {"script": script(hist[i]), "trace.json": json.dumps(tr[k]), "str.c": open(drv).read()})
    chk.cov.update(states=t.distinct, transitions=t.states, traces_validated_against_impl=len(tr),
                   recorded_steps=sum(len(x["ev"]) for x in tr), samples=[{"script": script(hist[-1])[:500]}])
    chk.assumptions += ["qemu-user executes ARM and RISC-V code faithfully"]
