"""Seeded generators of C programs (abstract syntax).  They decide only what to
try; what a program must do is decided by CSem.tla."""
import random
from cprog import *

ARITH = ["+", "-", "*", "&", "|", "^"]
CMP = ["==", "!=", "<", "<=", ">", ">="]
INTERESTING = [0, 1, -1, 2, -2, 3, 5, 7, -7, 8, 10, 15, 16, 31, 32, 33, 63, 64, 100, 127, 128, -128, 255, 256,
               -255, 1000, 1023, 1024, 2047, 2048, -2048, -2049, 4095, 4096, 4097, 32767, 32768, 65535, 65536,
               -65536, 0x10001, 0x55555555, 0x12345678, -0x12345678, 0x7ffffffe, 0x7fffffff, -0x7fffffff]
IMIN = -2147483648


def lit(v):
    """a literal expression with value v"""
    if v == IMIN:
        return PAR(B("-", L(-2147483647), L(1)))
    return L(v)


class Fn:
    def __init__(self, name, np, writes, outputs, ret=INT):
        self.name, self.np, self.writes, self.outputs, self.ret = name, np, writes, outputs, ret


class RG:
    """random programs over int variables, arrays, control flow and calls"""

    def __init__(self, rng, **kw):
        self.r = rng
        self.o = dict(nglob=3, nfun=3, nstmt=7, depth=3, edepth=2, locals=4, loops=True, calls=True, outp=0.35,
                      arrays=True, switch=True, posts=True, chars=False, maxlocals=12, ret=0.08, ptrs=False,
                      cond=True, narr=1, big=0.15, nargs=4)
        self.o.update(kw)
        self.p = Prog(fuel=6000)
        self.nid = 0
        self.fns = []

    def name(self, s="v"):
        self.nid += 1
        return "%s%d" % (s, self.nid)

    def pick(self, xs): return xs[self.r.randrange(len(xs))]
    def ch(self, p): return self.r.random() < p

    def literal(self):
        if self.ch(self.o["big"]):
            return lit(self.pick(INTERESTING))
        return L(self.r.randint(0, 9) if self.ch(0.8) else self.r.randint(-20, 300))

    # ---- expressions.  stable: may not read anything a callee can write
    def leaf(self, sc, stable=False):
        r = self.r.random()
        if sc["ints"] and r < 0.62:
            return V(self.pick(sc["ints"]))
        if not stable and sc["globs"] and r < 0.75:
            return V(self.pick(sc["globs"]))
        if not stable and sc["arrs"] and r < 0.85:
            a, n = self.pick(sc["arrs"])
            return IDX(V(a), L(self.r.randrange(n)))
        return self.literal()

    def safe_index(self, sc, n, stable):
        """expression with value in 0..n-1 (n a power of two)"""
        if self.ch(0.4):
            return L(self.r.randrange(n))
        return B("&", self.operand(sc, 0, stable), L(n - 1))

    def operand(self, sc, d, stable):
        if d <= 0:
            return self.leaf(sc, stable)
        return self.expr(sc, d, stable)

    def expr(self, sc, d, stable=False, calls=True):
        r = self.r.random()
        if d <= 0 or r < 0.12:
            return self.leaf(sc, stable)
        if r < 0.20:
            op = self.pick(["-", "~", "!"])
            x = self.leaf(sc, stable)
            if op == "-":
                if x["k"] != "var":
                    x = V(self.pick(sc["ints"])) if sc["ints"] else L(3)
            elif x["k"] in ("lit", "par") or x.get("v", 0) < 0:
                x = V(self.pick(sc["ints"])) if sc["ints"] else L(3)
            return U(op, x)
        if r < 0.27:
            if self.ch(0.08):       # a division which is never executed
                x = PAR(B(self.pick(["/", "%"]), self.pick([self.literal(), self.leaf(sc, stable)]), L(0)))
                return self.pick([PAR(B("&&", L(0), x)), PAR(B("||", L(self.r.randint(1, 9)), x)), PAR(COND(L(0), x, self.leaf(sc, stable)))])
            return B(self.pick(["/", "%"]), self.operand(sc, d - 1, stable),
                     self.pick([L(self.r.randint(1, 9)), L(self.pick([2, 4, 8, 16, 100, -3])),
                                PAR(B("+", PAR(B("&", self.leaf(sc, stable), L(15))), L(1)))]))
        if r < 0.33:
            return B(self.pick(["<<", ">>"]), self.operand(sc, d - 1, stable),
                     self.pick([L(self.r.randint(0, 31)), PAR(B("&", self.leaf(sc, stable), L(31)))]))
        if r < 0.40 and self.o["cond"]:
            return COND(self.cond(sc, d - 1, stable), self.operand(sc, d - 1, stable), self.operand(sc, d - 1, stable))
        if r < 0.48 and sc["arrs"] and not stable:
            a, n = self.pick(sc["arrs"])
            return IDX(V(a), self.safe_index(sc, n, stable))
        if r < 0.58 and calls and self.o["calls"] and self.fns and not stable:
            return self.callexpr(sc, d)
        if r < 0.68:
            return self.cond(sc, d, stable)
        n = self.pick([2, 2, 2, 3, 3, 4])
        ops = [self.pick(ARITH) for _ in range(n - 1)]
        # at most one operand with calls; the others then must not depend on what it writes
        es = []
        k = self.r.randrange(n) if self.ch(0.3) and self.fns and self.o["calls"] and calls and not stable else -1
        cx = self.callexpr(sc, d) if k >= 0 else None
        st = stable or (cx is not None)
        for i in range(n):
            es.append(cx if i == k else self.expr(sc, d - 1 if self.ch(0.4) else 0, st, calls=calls and k < 0 and i == 0))
        if k < 0 and any(not pure(e) for e in es):
            es = [e if not pure(e) else self.leaf(sc, True) for e in es]
        return F(es, ops)

    def callexpr(self, sc, d):
        fs = [f for f in self.fns if f.ret == INT]
        if not fs:
            return self.leaf(sc)
        f = self.pick(fs)
        args = []
        imp = False
        for i in range(f.np):
            a = self.expr(sc, min(d - 1, 1), stable=False, calls=False)
            args.append(a)
        return CALL(f.name, *args)

    def cond(self, sc, d, stable=False):
        r = self.r.random()
        if d <= 0 or r < 0.6:
            return B(self.pick(CMP), self.leaf(sc, stable), self.leaf(sc, stable))
        if r < 0.85:
            n = self.pick([2, 2, 3, 4])
            return F([self.cterm(sc, d - 1, stable) for _ in range(n)], [self.pick(["&&", "||"]) for _ in range(n - 1)])
        return self.leaf(sc, stable)

    def cterm(self, sc, d, stable):
        r = self.r.random()
        if r < 0.3: return self.leaf(sc, stable)
        if r < 0.4 and self.fns and not stable and self.o["calls"]: return self.callexpr(sc, 1)
        if r < 0.5 and sc["ints"]: return U("!", V(self.pick(sc["ints"])))
        if r < 0.6 and d > 0: return PAR(F([self.leaf(sc, stable), self.leaf(sc, stable)], [self.pick(["&&", "||"])]))
        return PAR(B(self.pick(CMP), self.leaf(sc, stable), self.leaf(sc, stable))) if self.ch(0.5) else \
            B(self.pick(CMP), self.leaf(sc, stable), self.leaf(sc, stable))

    # ---- statements
    def lvalue(self, sc):
        r = self.r.random()
        if sc["ints"] and (r < 0.6 or not (sc["globs"] or sc["arrs"])):
            w = [x for x in sc["ints"] if x not in sc["ro"]]
            if w:
                return V(self.pick(w))
        if sc["globs"] and (r < 0.8 or not sc["arrs"]):
            return V(self.pick(sc["globs"]))
        if sc["arrs"]:
            a, n = self.pick(sc["arrs"])
            return IDX(V(a), self.safe_index(sc, n, True))
        w = [x for x in sc["ints"] if x not in sc["ro"]]
        return V(self.pick(w)) if w else None

    def assign(self, sc):
        l = self.lvalue(sc)
        if l is None:
            return OUT(self.leaf(sc))
        r = self.r.random()
        if r < 0.55:
            return ASG(l, self.expr(sc, self.o["edepth"]))
        if r < 0.75:
            op = self.pick(ARITH)
            return ASG(l, self.expr(sc, 1, stable=True, calls=False), op)
        if r < 0.82:
            return ASG(l, self.pick([L(self.r.randint(1, 9)), PAR(B("+", PAR(B("&", self.leaf(sc, True), L(7))), L(1)))]),
                       self.pick(["/", "%"]))
        if r < 0.88:
            return ASG(l, L(self.r.randint(0, 31)), self.pick(["<<", ">>"]))
        return EXPR(INC(l, self.pick([1, -1]), True))

    def stmt(self, sc, depth, loop, budget):
        r = self.r.random()
        o = self.o
        if depth > 0:
            if r < 0.16:
                if self.ch(0.5):
                    return IF(self.cond(sc, 1), self.block(sc, depth - 1, loop), self.block(sc, depth - 1, loop))
                return IF(self.cond(sc, 1), self.block(sc, depth - 1, loop))
            if r < 0.30 and o["loops"] and loop < 3:
                return self.loop(sc, depth, loop)
            if r < 0.36 and o["switch"]:
                return self.switch(sc, depth, loop)
            if r < 0.39:
                return self.block(sc, depth - 1, loop)
        if r < 0.44 and loop > 0 and not sc.get("noexit"):
            return IF(self.cond(sc, 1), BLOCK(self.pick([BRK, CONT] if sc["cont"] else [BRK])()))
        if r < 0.44 + o["ret"]:
            return IF(self.cond(sc, 1), BLOCK(RET(self.expr(sc, 1))))
        if r < 0.52 + o["outp"] * 0.4:
            return OUT(self.expr(sc, o["edepth"]))
        if r < 0.80 and len(sc["ints"]) < o["maxlocals"] and sc.get("decl", True):
            n = self.name("x")
            s = DECL(n, INT, self.expr(sc, o["edepth"]))
            sc["ints"].append(n)
            return s
        return self.assign(sc)

    def sub(self, sc):
        return {"ints": list(sc["ints"]), "globs": sc["globs"], "arrs": list(sc["arrs"]), "ro": sc["ro"],
                "cont": sc["cont"]}

    def block(self, sc, depth, loop, n=None):
        s2 = self.sub(sc)
        return BLOCK(*[self.stmt(s2, depth, loop, 0) for _ in range(n or self.r.randint(1, 4))])

    def loop(self, sc, depth, loop):
        c = self.name("i")
        k = self.r.randint(1, 4)
        kind = self.pick(["for", "for", "while", "do"])
        s2 = self.sub(sc)
        s2["ro"] = sc["ro"] + [c]
        s2["ints"].append(c)
        s2["cont"] = True
        if kind == "for":
            if self.ch(0.25):
                # several variables in the initialiser
                d = self.name("j")
                ds = [DECL(c, INT, L(0)), DECL(d, INT, V(c) if self.ch(0.3) else self.expr(sc, 1))]
                s2["ints"].append(d)
                return FOR(DECLS(*ds), B("<", V(c), L(k)), EXPR(INC(V(c), 1, self.ch(0.5))), self.block(s2, depth - 1, loop + 1))
            if self.ch(0.5):
                return FOR(DECL(c, INT, L(0)), B("<", V(c), L(k)), EXPR(INC(V(c), 1, self.ch(0.6))), self.block(s2, depth - 1, loop + 1))
            return FOR(DECL(c, INT, L(k)), B(">", V(c), L(0)), ASG(V(c), L(1), "-"), self.block(s2, depth - 1, loop + 1))
        b = self.block(s2, depth - 1, loop + 1)
        b["ss"].insert(0, ASG(V(c), B("+", V(c), L(1))))
        cnd = B("<", V(c), L(k))
        if self.ch(0.3):
            cnd = F([cnd, self.cond(s2, 0)], ["&&"])
        w = WHILE(cnd, b) if kind == "while" else DO(b, cnd)
        return BLOCK(DECL(c, INT, L(0)), w)

    def switch(self, sc, depth, loop):
        n = self.r.randint(1, 4)
        vals = self.r.sample(range(0, 7), n)
        s2 = self.sub(sc)
        s2["cont"] = sc["cont"]
        cases = []
        i = 0
        while i < n:
            m = 2 if i + 1 < n and self.ch(0.2) else 1
            ss = [self.stmt(dict(self.sub(s2), noexit=True, decl=False), 0, 0, 0) for _ in range(self.r.randint(1, 2))]
            ss = [BLOCK(x) if x["k"] == "decl" else x for x in ss]
            if self.ch(0.65):
                ss.append(BRK())
            cases.append(CASE(vals[i:i + m], ss))
            i += m
        if self.ch(0.6):
            cases.append(CASE([], [self.assign(s2), OUT(self.leaf(s2))], d=True))
        return SWITCH(B("&", self.expr(sc, 1, calls=False), L(7)), cases)

    def function(self, name, np, depth, nst, main=False):
        o = self.o
        ps = [(self.name("p"), INT) for _ in range(np)]
        sc = {"ints": [p for p, _ in ps], "globs": list(self.globs), "arrs": list(self.garrs), "ro": [], "cont": False}
        ss = []
        for _ in range(self.r.randint(1, o["locals"])):
            n = self.name("x")
            ss.append(DECL(n, INT, self.expr(sc, 1)))
            sc["ints"].append(n)
        if o["arrays"] and self.ch(0.5):
            for _ in range(o["narr"]):
                n = self.name("a")
                k = self.pick([2, 4, 8])
                ss.append(DECL(n, self.p.arr(INT, k)))
                for i in range(k):
                    ss.append(ASG(IDX(V(n), L(i)), self.expr(sc, 1, calls=False)))
                sc["arrs"].append((n, k))
        for _ in range(nst):
            ss.append(self.stmt(sc, depth, 0, 0))
        if main:
            for x in sc["ints"]:
                ss.append(OUT(V(x)))
            for x in self.globs:
                ss.append(OUT(V(x)))
        ss.append(RET(self.expr(sc, 1)))
        self.p.func(name, ps, INT, BLOCK(*ss))

    def program(self, tag=""):
        o, p = self.o, self.p
        self.globs, self.garrs = [], []
        for i in range(o["nglob"]):
            n = self.name("g")
            p.glob(n, INT, self.r.choice([None, self.r.randint(0, 9), self.r.randint(-100, 1000)]))
            self.globs.append(n)
        if o["arrays"] and self.ch(0.5):
            n = self.name("ga")
            k = self.pick([2, 4, 8])
            p.glob(n, p.arr(INT, k))
            self.garrs.append((n, k))
        for i in range(o["nfun"]):
            n = self.name("f")
            np = self.r.randint(0, o["nargs"])
            self.function(n, np, max(1, o["depth"] - 1), max(2, o["nstmt"] - 3))
            self.fns.append(Fn(n, np, True, True))
        self.function("main", 0, o["depth"], o["nstmt"], main=True)
        p.tag = tag
        return p


def pure(e):
    k = e["k"]
    if k in ("call", "inc"):
        return False
    for x in ("a", "b", "c"):
        if isinstance(e.get(x), dict) and not pure(e[x]):
            return False
    for x in e.get("es", []):
        if not pure(x):
            return False
    return True
