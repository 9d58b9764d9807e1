"""C07: name resolution.  Random programs whose identifiers come from a small
pool of related names (prefixes of each other, maximal length, equal hashes in
the compiler's tables), declared again and again at every scope and of every
kind: global, enum constant, function, parameter, local, loop variable, array,
function pointer, member; and programs with very many declarations."""
import random
import vp, cconf
from cprog import *

TECHNIQUE = "TLA+ C abstract machine with explicit scopes (CSem.tla: Bind, environment stack) explored by TLC; conformance of compiled programs run under qemu"
NOTE = "Generated programs reuse a small pool of names at every scope and kind (plus programs with hundreds of functions and globals); TLC derives the allowed outcome of each and every compiled program is run on both targets."

WORDS = ["a", "ab", "abc", "b", "ba", "i", "ii", "x", "x1", "x11", "xy", "tmp", "tmp0", "val", "value", "val_", "_v", "__t0", "n", "num",
         "L1", "l1", "Foo", "foo", "fo", "count", "co", "returned", "iff", "ints", "forx", "_if", "main_", "mainn", "cas", "print", "str", "st0", "o_", "oo",
         "v0", "v00", "t1", "t10", "arg", "argc", "argv", "size", "len"]


TYPES = ["T", "Ty", "Ty1", "Ty10", "Tyx", "in", "inte", "cha", "char1", "st", "struc", "struct1", "t_t", "_T", "bool_t", "boo", "voi", "voidx", "typede", "U", "Un", "fooT", "xT", "tmpT"]


def fnv(s):
    h = 0x811c9dc5
    for c in s.encode():
        h = ((h ^ c) * 0x01000193) & 0xffffffff
    return h


def collisions():
    """groups of names with equal 32-bit hash, and with equal bucket"""
    seen, full, buck = {}, [], {}
    al = "abcdefghijklmnopqrstuvwxyz"
    r = random.Random(77)
    for _ in range(150000):
        s = "".join(r.choice(al) for _ in range(6))
        h = fnv(s)
        if h in seen and seen[h] != s:
            full.append((seen[h], s))
        seen[h] = s
        buck.setdefault(h & 0x3ff, []).append(s)
    return full, [b[:40] for b in buck.values() if len(b) > 8]


def chains(n=40):
    """names in one bucket, each the beginning of the next"""
    al = "abcdefghijklmnopqrstuvwxyz"
    r = random.Random(78)
    out = []
    while len(out) < n:
        c = ["".join(r.choice(al) for _ in range(r.choice([1, 2, 3, 6])))]
        while len(c) < 3:
            for _ in range(20000):
                s = c[-1] + "".join(r.choice(al) for _ in range(3))
                if (fnv(s) ^ fnv(c[-1])) & 0x3ff == 0:
                    c.append(s)
                    break
            else:
                break
        if len(c) == 3:
            out.append(c)
    return out


FULL, BUCK = collisions()
CHAIN = chains()


class G:
    def __init__(self, seed, nf=4, ng=4, big=False):
        self.r = random.Random(seed)
        self.p = Prog(fuel=9000)
        self.big = big
        r = self.r
        pool = r.sample(WORDS, 9)
        if FULL:
            pool += list(r.choice(FULL))
        pool += r.sample(r.choice(BUCK), 3)
        self.chain = r.sample(r.choice(CHAIN), 3)
        pool += self.chain
        base = "".join(r.choice("abcdxyz_") for _ in range(28))
        pool += [base, base + "a", base + "b"]
        self.pool = list(dict.fromkeys(pool))
        self.nf, self.ng = nf, ng
        self.uid = 0

    def fresh(self):
        self.uid += 1
        if self.r.random() < 0.5:
            return "u%d" % self.uid
        return "u%s%d" % (self.r.choice(["", "_", "a"]), self.uid)

    # scopes: list of dicts name -> (kind, info)
    def vis(self, sc):
        d = {}
        for s in sc:
            d.update(s)
        return d

    def ints(self, sc, w=False):
        return [n for n, k in self.vis(sc).items() if k[0] == "int" and not (w and k[1] == "ro")]

    def leaf(self, sc):
        r = self.r
        d = self.vis(sc)
        cs = [n for n, k in d.items() if k[0] in ("int", "const", "arr", "str")]
        loc = [n for s in sc[1:] for n in s if d[n][0] in ("int", "arr", "str")]
        if loc and r.random() < 0.6:
            cs = loc
        if not cs or r.random() < 0.15:
            return L(r.randint(0, 99))
        n = r.choice(cs)
        k = d[n]
        if k[0] == "arr":
            return IDX(V(n), L(r.randrange(k[1])))
        if k[0] == "str":
            return MEM(V(n), r.choice(k[1]))
        return V(n)

    def expr(self, sc, call=True):
        r = self.r
        d = self.vis(sc)
        fs = [(n, k) for n, k in d.items() if k[0] == "fn" and k[2] < self.level] + [(n, k) for n, k in d.items() if k[0] == "fp"]
        if call and fs and r.random() < 0.35 and self.calls > 0:
            self.calls -= 1
            n, k = r.choice(fs)
            return CALL(n, *[self.leaf(sc) for _ in range(k[1])])
        if r.random() < 0.4:
            return self.leaf(sc)
        return B(r.choice(["+", "-", "^", "*"]), self.leaf(sc), self.leaf(sc))

    def decl(self, sc):
        """one or more statements declaring a name not yet in this scope"""
        r = self.r
        cand = [n for n in self.pool if n not in sc[-1] and n not in self.noredecl]
        n = r.choice(cand) if cand and r.random() < 0.9 else self.fresh()
        x = r.random()
        d = self.vis(sc)
        if x < 0.08:
            k = r.choice([2, 3])
            sc[-1][n] = ("arr", k)
            return [DECL(n, self.p.arr(INT, k))] + [ASG(IDX(V(n), L(i)), L(r.randint(100, 999))) for i in range(k)]
        if x < 0.16 and n not in d:
            fs = [f for f, k in d.items() if k[0] == "fn" and k[2] < self.level]
            if fs and self.calls > 0:
                f = r.choice(fs)
                sc[-1][n] = ("fp", d[f][1])
                return [DECL(n, FNT), ASG(V(n), V(f))]
        if x < 0.24:
            t, fl = r.choice(self.structs)
            sc[-1][n] = ("str", fl)
            return [DECL(n, t)] + [ASG(MEM(V(n), f), L(r.randint(100, 999))) for f in fl]
        e = self.expr([*sc[:-1], {a: b for a, b in sc[-1].items()}])
        if n in names(e):
            e = L(r.randint(10, 99))
        sc[-1][n] = ("int", "rw")
        return [DECL(n, INT, e)]

    def lv(self, sc):
        r = self.r
        d = self.vis(sc)
        c = [n for n, k in d.items() if k[0] in ("int", "arr", "str") and k[1] != "ro"]
        if not c:
            return None
        loc = [n for s in sc[1:] for n in s if n in c]
        n = r.choice(loc if loc and r.random() < 0.6 else c)
        k = d[n]
        return V(n) if k[0] == "int" else IDX(V(n), L(r.randrange(k[1]))) if k[0] == "arr" else MEM(V(n), r.choice(k[1]))

    def block(self, sc, depth, n, fresh=True):
        s2 = sc + [{}] if fresh else sc
        ss = []
        for _ in range(n):
            ss += self.stmt(s2, depth)
        ss += [OUT(self.leaf(s2))]
        return BLOCK(*ss)

    def stmt(self, sc, depth):
        r = self.r
        x = r.random()
        if x < 0.30:
            return self.decl(sc)
        if x < 0.45:
            l = self.lv(sc)
            if l:
                return [ASG(l, self.expr(sc))] if r.random() < 0.7 else [ASG(l, self.leaf(sc), r.choice(["+", "-", "^"]))]
        if x < 0.60 or depth <= 0:
            return [OUT(self.expr(sc))]
        if x < 0.72:
            return [self.block(sc, depth - 1, r.randint(1, 4))]
        if x < 0.82:
            c = B(r.choice(["<", ">", "!="]), self.leaf(sc), self.leaf(sc))
            if r.random() < 0.5:
                return [IF(c, self.block(sc, depth - 1, r.randint(1, 3)), self.block(sc, depth - 1, r.randint(1, 3)))]
            return [IF(c, self.block(sc, depth - 1, r.randint(1, 3)))]
        if x < 0.93:
            i = r.choice(self.pool)
            s2 = sc + [{i: ("int", "ro")}]
            sv, self.calls = self.calls, min(self.calls, 1)
            b = self.block(s2, depth - 1, r.randint(1, 3))
            self.calls = max(0, sv - 1)
            # the counter is out of reach of stores inside the body (names are "ro" unless redeclared there)
            return [FOR(DECL(i, INT, L(0)), B("<", V(i), L(r.randint(1, 2))), EXPR(INC(V(i), 1, True)), b)]
        e = B("&", self.leaf(sc), L(3))
        cs = [CASE([v], [self.block(sc, 0, r.randint(1, 2)), BRK()]) for v in r.sample(range(4), 2)]
        cs.append(CASE([], [self.block(sc, 0, 1)], d=True))
        return [SWITCH(e, cs)]

    def build(self):
        r, p = self.r, self.p
        file = {}
        self.structs = []
        mem = [n for n in self.pool if len(n) < 20]
        tn = r.sample(TYPES, 4)
        for i in range(r.choice([2, 3, 4])):
            fl = r.sample(mem, r.choice([1, 2, 3, 3]))
            self.structs.append((p.struct(tn[i], [(f, INT) for f in fl]), fl))
        names_ = list(self.pool)
        r.shuffle(names_)
        if self.big:
            names_ += [b for g in r.sample(BUCK, 12) for b in g] + [b for g in CHAIN for b in g] + [x for g in FULL for x in g]
            k = 0
            while len(names_) < self.nf + self.ng + 40:
                names_.append("w%d" % k)
                k += 1
            names_ = list(dict.fromkeys(names_))
            r.shuffle(names_)
        # sometimes the names of one bucket are functions
        if not self.big and r.random() < 0.5:
            fn = [names_.pop(names_.index(x)) for x in self.chain[:self.nf]]
        else:
            fn = []
        keep = [names_.pop() for _ in range(4)] if not self.big else []   # some never at file scope
        nenum = r.randint(1, 3) if not self.big else 20
        es = [names_.pop() for _ in range(nenum)]
        v = 0
        lst = []
        for e in es:
            x = r.choice([None, None, r.randint(v, v + 50)])
            v = v if x is None else x
            lst.append((e, x))
            file[e] = ("const", v)
            v += 1
        p.enum("En", lst)
        for _ in range(self.ng):
            n = names_.pop()
            p.glob(n, INT, r.choice([None, r.randint(0, 999)]))
            file[n] = ("int", "rw")
        while len(fn) < self.nf:
            fn.append(names_.pop())
        lv = lambda i: i % 3
        order = sorted(range(self.nf), key=lv)
        for pos, i in enumerate(order):
            n, np = fn[i], r.randint(0, 3)
            file[n] = ("fn", np, lv(i))
            self.level = lv(i)
            self.noredecl = set()
            if not self.big:
                ps = r.sample([q for q in self.pool], np)
            else:
                ps = r.sample(self.pool, np)
            sc = [dict(file), {q: ("int", "rw") for q in ps}]
            self.noredecl = set()
            self.calls = 2
            if self.big:
                b = [OUT(L(i)), OUT(self.leaf(sc)), RET(self.expr(sc))]
                b = BLOCK(*([b[0], b[2]] if r.random() < 0.8 else b))
            else:
                b = self.block(sc, 2, r.randint(2, 5), fresh=False)
                b["ss"].append(RET(self.expr(sc)))
            p.func(n, [(q, INT) for q in ps], INT, b)
        self.level = 3
        self.calls = 4
        sc = [dict(file), {}]
        b = self.block(sc, 2 if not self.big else 0, r.randint(3, 6), fresh=False)
        d = self.vis(sc)
        for n, k in file.items():
            if d[n] == k and (not self.big or r.random() < 0.5):
                if k[0] in ("int", "const"):
                    b["ss"].append(OUT(V(n)))
                elif k[0] == "fn":
                    b["ss"].append(OUT(CALL(n, *[L(r.randint(1, 99)) for _ in range(k[1])])))
        b["ss"].append(RET(L(0)))
        p.func("main", [], INT, b)
        return p


def names(e):
    out = set()
    if isinstance(e, dict):
        if e.get("k") in ("var", "call"):
            out.add(e["n"])
        for v in e.values():
            out |= names(v)
    elif isinstance(e, list):
        for v in e:
            out |= names(v)
    return out


def check(chk):
    cc = vp.Compilers()
    n = 2500 if vp.THOROUGH else 260
    ps = [G("c07-%d-%d" % (vp.SEED, i)).build() for i in range(n)]
    nb = 24 if vp.THOROUGH else 4
    for i in range(nb):
        ps.append(G("c07-big-%d-%d" % (vp.SEED, i), nf=[60, 150, 300, 420][i % 4], ng=[30, 60, 120, 200][i % 4], big=True).build())
    cconf.conform(chk, cc, ps, name="names", variants=cconf.V_SW)
    chk.assumptions += ["qemu-user executes ARM and RISC-V code faithfully"]
