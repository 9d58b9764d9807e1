"""C04: calls with 0..8 arguments of every form, direct, nested, recursive and
through function pointers; every caller variable is observed after each call."""
import random
import vp, cconf
from cprog import *

TECHNIQUE = "TLA+ C abstract machine (CSem.tla) explored by TLC; conformance of compiled programs run under qemu"
NOTE = 'random call graphs, arities 0..8, every argument form, recursion and function pointers; TLC explores every evaluation order. Bounded. Trusts qemu-user and TLC.'

W = [1, 3, 7, 13, 29, 61, 127, 251]


def mix(names, r):
    """an expression that depends on the value and position of every name"""
    es = [V(n) if W[i] == 1 else B("*", V(n), L(W[i])) for i, n in enumerate(names)]
    if not es: return L(r.randint(1, 99))
    return F(es, [r.choice(["+", "-", "+"]) for _ in es[1:]])


class G:
    def __init__(self, r):
        self.r = r
        self.p = p = Prog(fuel=60000)
        self.ch = {}         # callee -> index of its char parameter
        self.fns = []        # (name, arity, void)
        self.S = p.struct("S_t", [("c", CHAR), ("x", INT), ("cb", FNT), ("y", INT), ("cc", FNT)])
        p.glob("g1", INT, r.randint(-9, 99))
        p.glob("g2", INT)
        p.glob("ga", p.arr(INT, 4))
        p.glob("gf", FNT)
        p.glob("gs", self.S)
        p.glob("gt", p.arr(self.S, 3))
        self.n = 0

    def nm(self, s):
        self.n += 1
        return "%s%d" % (s, self.n)

    def callee(self, k, void=False):
        r, p = self.r, self.p
        f = self.nm("f")
        ps = [self.nm("a") for _ in range(k)]
        ty = [INT] * k
        b = []
        if k and r.random() < 0.3:
            self.ch[f] = r.randrange(k)
            ty[self.ch[f]] = CHAR
        m = r.random()
        vs = list(ps)
        if m < 0.3:
            # register pressure inside the callee
            for i in range(r.randint(2, 6)):
                v = self.nm("v")
                b.append(DECL(v, INT, mix(vs[-5:], r)))
                vs.append(v)
        if r.random() < 0.4: b.append(OUT(mix(ps, r)))
        if ps and r.random() < 0.5: b.append(ASG(V(ps[0]) if ty[0] == INT else V("g2"), L(r.randint(-5, 5))))
        if r.random() < 0.4: b.append(ASG(V(r.choice(["g1", "g2"])), r.choice([L(2), V(ps[-1]) if ps else L(4)]), "+"))
        if self.fns and r.random() < 0.5:
            b.append(DECL("w", INT, self.call(ps)) if r.random() < 0.6 else EXPR(self.call(ps)))
            if b[-1]["k"] == "decl": vs.append("w")
        if void:
            b.append(OUT(mix(vs[-8:], r)))
            if r.random() < 0.5: b.append(RET())
        else:
            b.append(RET(mix((ps + vs)[-8:] if len(vs) > k else ps, r)))
        p.func(f, list(zip(ps, ty)), VOID if void else INT, BLOCK(*b))
        self.fns.append((f, k, void))

    def recursive(self):
        r, p = self.r, self.p
        m = r.randrange(5)
        f = self.nm("r")
        if m == 0:    # accumulating, several arguments, locals live across the call
            k = r.randint(2, 7)
            ps = ["n"] + [self.nm("b") for _ in range(k - 1)]
            args = [B("-", V("n"), L(1))] + [r.choice([V(x), B("+", V(x), L(i)), V(r.choice(ps)), B("*", V(x), L(3))]) for i, x in enumerate(ps[1:])]
            r2 = args[1:]
            r.shuffle(r2)
            args[1:] = r2
            b = [IF(B("<=", V("n"), L(0)), BLOCK(RET(mix(ps[1:], r)))), DECL("s", INT, mix(ps, r)), DECL("t", INT, CALL(f, *args)),
                 OUT(B("-", V("s"), V("n"))), RET(B("^", B("+", V("t"), V("s")), mix(ps[:3], r)))]
            p.func(f, [(x, INT) for x in ps], INT, BLOCK(*b))
            self.calls.append(CALL(f, L(r.randint(1, 6)), *[L(r.randint(-4, 9)) for _ in ps[1:]]))
        elif m == 1:  # tree recursion
            b = [IF(B("<", V("n"), L(2)), RET(B("+", V("n"), V("k")))),
                 RET(F([CALL(f, B("-", V("n"), L(1)), B("+", V("k"), L(1))), CALL(f, B("-", V("n"), L(2)), V("k"))], ["+"]) if r.random() < 0.5 else
                     B("+", CALL(f, B("-", V("n"), L(1)), V("k")), B("*", V("n"), V("k"))))]
            p.func(f, [("n", INT), ("k", INT)], INT, BLOCK(*b))
            self.calls.append(CALL(f, L(r.randint(2, 6)), L(r.randint(0, 5))))
        elif m == 2:  # mutual recursion
            g = self.nm("r")
            i = len(p.funcs)
            p.func(f, [("n", INT), ("x", INT), ("y", INT)], INT,
                   BLOCK(IF(B("==", V("n"), L(0)), BLOCK(RET(B("-", V("x"), V("y"))))), DECL("z", INT, B("*", V("x"), V("n"))),
                         RET(B("+", CALL(g, V("y"), B("-", V("n"), L(1)), V("x")), V("z")))), proto=True)
            p.func(g, [("y", INT), ("n", INT), ("x", INT)], INT,
                   BLOCK(OUT(B("+", V("n"), B("*", V("x"), L(100)))), IF(B("<=", V("n"), L(0)), BLOCK(RET(V("y")))),
                         RET(B("-", CALL(f, B("-", V("n"), L(1)), B("+", V("y"), L(1)), V("x")), V("n")))), proto=True)
            self.calls.append(CALL(r.choice([f, g]), L(5), L(r.randint(1, 4)), L(3)))
        elif m == 3:  # Ackermann: calls as arguments
            b = [IF(U("!", V("m")), RET(B("+", V("n"), L(1)))), IF(U("!", V("n")), RET(CALL(f, B("-", V("m"), L(1)), L(1)))),
                 RET(CALL(f, B("-", V("m"), L(1)), CALL(f, V("m"), B("-", V("n"), L(1)))))]
            p.func(f, [("m", INT), ("n", INT)], INT, BLOCK(*b))
            self.calls.append(CALL(f, L(2), L(r.randint(1, 3))))
        else:         # deep, with a local array
            d = r.choice([20, 50, 120])
            b = [DECL("a", p.arr(INT, 3)), ASG(IDX(V("a"), L(0)), V("n")), ASG(IDX(V("a"), L(1)), V("q")), ASG(IDX(V("a"), L(2)), B("*", V("n"), V("q"))),
                 IF(B(">", V("n"), L(0)), ASG(V("q"), CALL(f, B("-", V("n"), L(1)), B("+", V("q"), L(2))), "+")),
                 RET(F([IDX(V("a"), L(0)), IDX(V("a"), L(1)), IDX(V("a"), L(2)), V("q")], ["+", "-", "^"]))]
            p.func(f, [("n", INT), ("q", INT)], INT, BLOCK(*b))
            self.calls.append(CALL(f, L(d), L(r.randint(0, 9))))

    def arg(self, ro, d=1):
        """argument without side effects"""
        r = self.r
        m = r.random()
        if ro and m < 0.3: return V(r.choice(ro))
        if m < 0.42: return L(r.choice([0, 1, -1, 7, 100, 255, 256, -4096, 65537, 2147483647, -128]))
        if m < 0.5: return IDX(V("ga"), L(r.randrange(4))) if not self.nog else L(4)
        if m < 0.56: return MEM(V("gs"), r.choice(["x", "y"])) if not self.nog else L(5)
        if m < 0.62: return V(r.choice(["g1", "g2"])) if not self.nog else L(6)
        if ro and d > 0:
            a = V(r.choice(ro))
            if m < 0.68: return U(r.choice(["-", "~", "!"]), a)
            if m < 0.74: return COND(B(r.choice(["<", "=="]), a, V(r.choice(ro))), self.arg(ro, 0), self.arg(ro, 0))
            if m < 0.80: return F([a, self.arg(ro, 0)], [r.choice(["&&", "||"])])
            return F([a, self.arg(ro, 0), self.arg(ro, 0)], [r.choice(["+", "-", "*", "&", "|", "^"]), r.choice(["+", "-", "*", "<", "=="])])
        return L(r.randint(0, 50))

    nog = False

    def call(self, ro, depth=1):
        r = self.r
        fs = [f for f in self.fns if not f[2]]
        if not fs: return L(3)
        f, n, _ = r.choice(fs)
        args = []
        nest = r.random() < 0.35 and depth > 0 and n > 0
        k = r.randrange(n) if nest else -1
        old = self.nog
        if nest: self.nog = True      # the nested call may write the globals
        for i in range(n):
            a = self.call(ro, depth=depth - 1) if i == k else self.arg(ro)
            # values outside of char: known finding char-scalar
            args.append(B("&", a, L(127)) if self.ch.get(f) == i else a)
        self.nog = old
        return CALL(f, *args)

    def fptrs(self, ro):
        """calls through function pointers: local, global, parameter"""
        r = self.r
        f, n, v = r.choice([f for f in self.fns if not f[2] and f[0] not in self.ch] or [self.fns[0]])
        m = r.random()
        if m < 0.3:
            x = self.nm("fp")
            return [DECL(x, FNT), ASG(V(x), V(f))], CALL(x, *[self.arg(ro) for _ in range(n)])
        if m < 0.65:         # through a member of a structure
            k = r.choice(["cb", "cc"])
            o = r.random()
            if o < 0.35:
                w, pre = MEM(V("gs"), k), []
            elif o < 0.6:
                x = self.nm("sp")
                w, pre = ARROW(V(x), k), [DECL(x, self.p.ptr(self.S), ADDR(V("gs")))]
            elif o < 0.8:
                w, pre = MEM(IDX(V("gt"), L(r.randrange(3))), k), []
            else:
                x = self.nm("ls")
                w, pre = MEM(V(x), k), [DECL(x, self.S)]
            pre.append(ASG(w, V(f)))
            pre.append(IF(w, BLOCK(OUT(L(77))), BLOCK(OUT(L(78)))))
            if r.random() < 0.4:
                pre += [ASG(MEM(V("gs"), "cc"), w), ASG(w, MEM(V("gs"), "cc"))]
            return pre, CALLM(w, *[self.arg(ro) for _ in range(n)])
        if m < 0.8:
            return [ASG(V("gf"), V(f))], CALL("gf", *[self.arg(ro) for _ in range(n)])
        h = [x for x in self.hof if x[1] == n]
        if not h: return [ASG(V("gf"), V(f))], CALL("gf", *[self.arg(ro) for _ in range(n)])
        return [], CALL(h[0][0], V(f), *[self.arg(ro) for _ in range(n)])

    def program(self):
        r, p = self.r, self.p
        self.calls = []
        ars = list(range(9))
        r.shuffle(ars)
        for k in ars[:r.randint(4, 6)]: self.callee(k)
        while all(f[0] in self.ch for f in self.fns): self.callee(r.randrange(9))
        for k in r.sample(range(9), 2): self.callee(k, True)
        self.hof = []
        for k in r.sample(range(7), 2):
            h = self.nm("h")
            ps = [self.nm("c") for _ in range(k)]
            p.func(h, [("fn", FNT)] + [(x, INT) for x in ps], INT,
                   BLOCK(DECL("z", INT, mix(ps, r)), DECL("t", INT, CALL("fn", *[V(x) for x in ps])), OUT(V("z")), RET(B("-", V("t"), mix(ps, r)))))
            self.hof.append((h, k))
        for _ in range(r.randint(1, 2)): self.recursive()
        # callers
        names = []
        for _ in range(2):
            f = self.nm("k")
            ro = [self.nm("p") for _ in range(r.randint(1, 5))]
            np_ = len(ro)
            ps = list(ro)
            b = []
            for _ in range(r.randint(1, 8)):
                v = self.nm("v")
                b.append(DECL(v, INT, self.arg(ro)))
                ro.append(v)
            for _ in range(r.randint(3, 6)):
                m = r.random()
                if m < 0.22:
                    v = self.nm("v")
                    b.append(DECL(v, INT, self.call(ro)))
                    ro.append(v)
                elif m < 0.34: b.append(ASG(V(r.choice(ro)), self.call(ro)))
                elif m < 0.42: b.append(ASG(V(r.choice(ro)), self.call(ro), r.choice(["+", "-", "^"])) if False else ASG(V(r.choice(ro)), B("^", self.call(ro), L(5))))
                elif m < 0.50: b.append(ASG(IDX(V("ga"), L(r.randrange(4))), self.call(ro)))
                elif m < 0.58: b.append(IF(self.call(ro), BLOCK(OUT(L(1))), BLOCK(OUT(L(2)))))
                elif m < 0.66:
                    f2, n, _ = r.choice([x for x in self.fns if x[2]])
                    c2 = self.ch.get(f2)
                    b.append(EXPR(CALL(f2, *[L(r.randint(0, 255)) if i == c2 else self.arg(ro) for i in range(n)])))
                elif m < 0.74: b.append(EXPR(self.call(ro)))
                elif m < 0.9:
                    pre, c = self.fptrs(ro)
                    b += pre
                    v = self.nm("v")
                    b.append(DECL(v, INT, c))
                    ro.append(v)
                else:
                    i = self.nm("i")
                    b.append(FOR(DECL(i, INT, L(0)), B("<", V(i), L(3)), EXPR(INC(V(i), 1, True)), BLOCK(ASG(V(r.choice(ro)), self.call(ro + [i])))))
                b.append(OUT(mix(r.sample(ro, min(len(ro), 7)), r)))
            b += [OUT(V(x)) for x in ro]
            b.append(RET(mix(ro[-8:], r)))
            p.func(f, [(x, INT) for x in ps], INT, BLOCK(*b))
            names.append((f, np_))
        ss = []
        for f, n in names:
            ss.append(OUT(CALL(f, *[L(r.randint(-9, 40)) for _ in range(n)])))
            ss.append(OUT(CALL(f, *[L(r.choice([0, 1, -1, 1000000, -70000])) for _ in range(n)])))
        ss += [OUT(c) for c in self.calls]
        ss += [OUT(V("g1")), OUT(V("g2")), RET(L(0))]
        p.func("main", [], INT, BLOCK(*ss))
        p.tag = "calls"
        return p


def addrs(r):
    """parameters and locals whose addresses are handed down, also in recursion"""
    p = Prog(fuel=60000)
    p.tag = "addrs"
    IP = p.ptr(INT)
    p.glob("g", INT)
    p.func("bump", [("p", IP), ("d", INT)], INT, BLOCK(ASG(IDX(V("p"), L(0)), V("d"), "+"), RET(IDX(V("p"), L(0)))))
    p.func("swp", [("a", IP), ("b", IP)], VOID, BLOCK(DECL("t", INT, IDX(V("a"), L(0))), ASG(IDX(V("a"), L(0)), IDX(V("b"), L(0))), ASG(IDX(V("b"), L(0)), V("t"))))
    p.func("pick", [("x", INT), ("a", IP), ("y", INT), ("b", IP)], IP, BLOCK(ASG(IDX(V("a"), L(0)), V("y"), "+"), IF(B(">", V("x"), V("y")), RET(V("a"))), RET(V("b"))))
    cnt = [0]
    def nm(k):
        cnt[0] += 1
        return k + str(cnt[0])
    fs = []
    for _ in range(r.randint(2, 4)):
        f, k = nm("f"), r.randint(1, 8)
        ps = [nm("a") for _ in range(k)]
        rec = r.random() < 0.4 and k >= 2
        pt = r.randrange(1, k) if rec else -1       # the pointer a recursive function gets
        vs = [x for i, x in enumerate(ps) if i != pt]
        b = []
        for _ in range(r.randint(0, 4)):
            v = nm("v")
            b.append(DECL(v, INT, mix(r.sample(vs, min(len(vs), 3)), r)))
            vs.append(v)
        tak = r.sample(vs, min(len(vs), r.randint(1, 4)))
        ro = [x for x in vs if x not in tak]
        q = nm("q")
        b.append(DECL(q, IP, ADDR(V(r.choice(tak)))))
        leaf = lambda: r.choice([V(r.choice(vs)), V(r.choice(vs)), L(r.randint(-9, 99)), V("g"), IDX(V(q), L(0))])
        def st(d):
            m = r.random()
            if m < 0.2: return [EXPR(CALL("bump", ADDR(V(r.choice(tak))), leaf()))]
            if m < 0.32: return [EXPR(CALL("swp", ADDR(V(r.choice(tak))), r.choice([ADDR(V(r.choice(tak))), V(q)])))]
            if m < 0.42: return [ASG(V(q), r.choice([ADDR(V(r.choice(tak))), CALL("pick", leaf(), ADDR(V(r.choice(tak))), leaf(), V(q))]))]
            if m < 0.52: return [ASG(IDX(V(q), L(0)), B(r.choice("+-^"), leaf(), leaf()))]
            if m < 0.68: return [ASG(V(r.choice(vs)), B(r.choice("+-*"), leaf(), leaf()))]
            if m < 0.78: return [OUT(mix(r.sample(vs, min(len(vs), 5)), r))]
            if m < 0.84 and fs:
                g, n, gp = r.choice(fs)
                return [ASG(V(r.choice(vs)), CALL(g, *[ADDR(V(r.choice(tak))) if i == gp else L(r.randint(0, 3)) if i == 0 else leaf() for i in range(n)])), OUT(leaf())]
            if m < 0.92 and d: return [IF(B(r.choice(["<", ">", "==", "!="]), leaf(), leaf()), BLOCK(*(st(d - 1) + st(d - 1))), BLOCK(*st(d - 1)) if r.random() < 0.5 else None)]
            if d:
                i = nm("i")
                return [FOR(DECL(i, INT, L(0)), B("<", V(i), L(r.randint(1, 3))), EXPR(INC(V(i), 1, True)), BLOCK(*(st(d - 1) + st(d - 1))))]
            return [OUT(leaf())]
        for _ in range(r.randint(3, 7)): b += st(2)
        if rec:
            n = ps[0]
            b.insert(0, IF(OUTC(n), BLOCK(RET(IDX(V(ps[pt]), L(0))))))
            b += [EXPR(CALL("bump", V(ps[pt]), mix(r.sample(vs, 1), r)))]
            v = nm("r")
            b.append(ASG(V("g"), L(1), "+"))
            b.append(DECL(v, INT, CALL(f, *[B("-", V("top"), V("g")) if i == 0 else ADDR(V(r.choice(tak))) if i == pt else V(r.choice(vs)) for i in range(k)])))
            vs.append(v)
        b += [OUT(V(x)) for x in vs]
        b.append(RET(mix(vs[-8:], r)))
        p.func(f, [(x, IP if i == pt else INT) for i, x in enumerate(ps)], INT, BLOCK(*b))
        fs.append((f, k, pt))
    p.glob("top", INT, 3)
    m = []
    for f, k, pt in fs * 2:
        x = nm("m")
        m += [ASG(V("g"), L(0)), DECL(x, INT, L(r.randint(1, 50))), OUT(CALL(f, *[ADDR(V(x)) if i == pt else L(r.randint(1, 3)) if i == 0 else L(r.randint(-60, 90)) for i in range(k)])), OUT(V(x))]
    p.func("main", [], INT, BLOCK(*(m + [RET(L(0))])))
    return p


def OUTC(n):
    # recursion ends on the count kept in a global, whatever the arguments became
    return B(">=", V("g"), V("top"))


def check(chk):
    cc = vp.Compilers()
    r = random.Random(vp.SEED * 7919 + 4)
    n = 900 if vp.THOROUGH else 130
    ps = [G(random.Random(r.random())).program() for _ in range(n)]
    ps += [addrs(random.Random("c04-addr-%d-%d" % (vp.SEED, i))) for i in range(n // 2)]
    cconf.conform(chk, cc, ps, name="calls", variants=cconf.V_SW if not vp.THOROUGH else cconf.V_ALL)
    chk.assumptions += ["qemu-user executes ARM and RISC-V code faithfully"]
