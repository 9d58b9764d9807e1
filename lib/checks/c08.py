"""C08: optimisation and register allocation are unobservable.  Program
families aimed at them: straight-line blocks with more live values than
registers, swaps and rotations through loops and joins, constants flowing into
branches, repeated subexpressions across stores, dead code next to live code,
frames beyond immediate-offset ranges, mixtures of all of these."""
import random
import vp, cconf
from cprog import *
from gen import RG, INTERESTING, lit

TECHNIQUE = "TLA+ C abstract machine (CSem.tla) explored by TLC as the unoptimised semantics; conformance of optimised code run under qemu"
NOTE = "Each program family stresses one optimisation or the allocator; TLC computes the outcome from the source semantics alone and both targets' executables must produce it, every variable being read back at the end."


class G:
    FAM = ("pressure", "swap", "const", "cse", "dead", "frame", "mixed", "pressure2", "joins", "edge")

    def __init__(self, seed, fam=None):
        self.r = random.Random(seed)
        self.fam = fam or self.r.choice(self.FAM)
        self.p = Prog(fuel=9000)
        self.p.tag = self.fam
        self.n = 0

    def nm(self, k="v"):
        self.n += 1
        return "%s%d" % (k, self.n)

    def op(self): return self.r.choice(["+", "-", "^", "|", "&", "*", "+", "-"])

    def c(self):
        r = self.r
        return lit(r.choice(INTERESTING)) if r.random() < 0.3 else L(r.randint(0, 99))

    def cmp(self): return self.r.choice(["<", "<=", ">", ">=", "==", "!="])

    def build(self):
        p, r = self.p, self.r
        for g in ("g1", "g2", "g3"):
            p.glob(g, INT, r.choice([None, r.randint(0, 99)]))
        p.glob("ga", p.arr(INT, 4))
        p.glob("gb", p.arr(CHAR, 8))
        p.func("id", [("x", INT)], INT, BLOCK(RET(V("x"))))
        p.func("mix", [("a", INT), ("b", INT), ("c", INT)], INT, BLOCK(ASG(V("g3"), B("+", V("g3"), L(1))), RET(
            F([V("a"), B("*", V("b"), L(3)), B("*", V("c"), L(7))], ["+", "-"]))))
        getattr(self, self.fam)()
        return p

    def calls_main(self, f, np, k=4):
        r = self.r
        b = []
        for i in range(4):
            b.append(ASG(IDX(V("ga"), L(i)), L(r.randint(-50, 900))))
        for i in range(8):
            b.append(ASG(IDX(V("gb"), L(i)), L(r.randint(0, 255))))
        for _ in range(k):
            b.append(OUT(CALL(f, *[lit(r.choice(INTERESTING)) if r.random() < 0.3 else L(r.randint(-20, 300)) for _ in range(np)])))
        b += [OUT(V(g)) for g in ("g1", "g2", "g3")] + [OUT(IDX(V("ga"), L(i))) for i in range(4)] + [OUT(IDX(V("gb"), L(i))) for i in range(8)]
        b.append(RET(L(0)))
        self.p.func("main", [], INT, BLOCK(*b))

    # -- more live values than registers
    def pressure(self, loop=False):
        r, p = self.r, self.p
        np = r.randint(0, 8)
        ps = ["p%d" % i for i in range(np)]
        xs = list(ps)
        b = []
        tot = r.randint(8, 24)
        leaf = lambda: V(r.choice(xs)) if xs and r.random() < 0.85 else r.choice([self.c(), V("g1"), V("g2"), IDX(V("ga"), L(r.randint(0, 3)))])
        for i in range(tot):
            v = self.nm()
            k = r.random()
            if k < 0.6: e = B(self.op(), leaf(), leaf())
            elif k < 0.7: e = F([leaf() for _ in range(4)], [self.op() for _ in range(3)])
            elif k < 0.78: e = CALL("mix", leaf(), leaf(), leaf())
            elif k < 0.86: e = U(r.choice(["-", "~", "!"]), V(r.choice(xs)) if xs else V("g1"))
            else: e = COND(B(self.cmp(), leaf(), leaf()), leaf(), leaf())
            b.append(DECL(v, INT, e))
            xs.append(v)
            if r.random() < 0.25:
                w = V(r.choice(xs))
                b.append(r.choice([ASG(w, leaf(), self.op()), ASG(w, B(self.op(), leaf(), leaf())), EXPR(INC(w, r.choice([1, -1]), True)),
                                   ASG(V(r.choice(["g1", "g2"])), leaf()), ASG(IDX(V("ga"), B("&", leaf(), L(3))), leaf()),
                                   ASG(IDX(V("gb"), B("&", leaf(), L(7))), B("&", leaf(), L(255)))]))
        # uses far from the definitions
        r.shuffle(xs)
        if len(xs) >= 8:
            b.append(OUT(CALL("s8", *[V(x) for x in xs[:8]])))
            p.func("s8", [("q%d" % i, INT) for i in range(8)], INT, BLOCK(RET(
                F([V("q0")] + [B("*", V("q%d" % i), L(2 * i + 1)) for i in range(1, 8)], ["+", "-", "^", "+", "-", "+", "^"]))))
        b += [OUT(V(x)) for x in xs]
        b.append(RET(V(xs[0])))
        p.func("f", [(x, INT) for x in ps], INT, BLOCK(*b))
        self.calls_main("f", np, 3)

    # -- pressure across branches and loops
    def pressure2(self):
        r, p = self.r, self.p
        np = r.randint(0, 6)
        xs = ["p%d" % i for i in range(np)]
        ps = list(xs)
        b = []
        for i in range(r.randint(7, 12)):
            v = self.nm()
            b.append(DECL(v, INT, B(self.op(), V(r.choice(xs)) if xs else self.c(), self.c())))
            xs.append(v)
        leaf = lambda: V(r.choice(xs)) if r.random() < 0.85 else self.c()

        def upd():
            w = V(r.choice(xs))
            return r.choice([ASG(w, B(self.op(), leaf(), leaf())), ASG(w, leaf(), self.op()), ASG(w, leaf()),
                             ASG(w, CALL("id", leaf())), ASG(V("g1"), leaf()), ASG(w, V("g1")), ASG(IDX(V("ga"), L(r.randint(0, 3))), leaf()),
                             ASG(w, IDX(V("ga"), L(r.randint(0, 3))))])
        for _ in range(r.randint(3, 5)):
            k = r.random()
            if k < 0.4:
                b.append(IF(B(self.cmp(), leaf(), leaf()), BLOCK(*[upd() for _ in range(r.randint(1, 4))]),
                            BLOCK(*[upd() for _ in range(r.randint(1, 3))]) if r.random() < 0.6 else None))
            elif k < 0.8:
                i = self.nm("i")
                body = [upd() for _ in range(r.randint(2, 5))]
                if r.random() < 0.5:
                    body.insert(r.randrange(len(body)), IF(B(self.cmp(), leaf(), V(i)), BLOCK(upd(), *([r.choice([BRK, CONT])()] if r.random() < 0.4 else []))))
                b.append(FOR(DECL(i, INT, L(0)), B("<", V(i), L(r.randint(1, 5))), EXPR(INC(V(i), 1, True)), BLOCK(*body)))
            else:
                b += [upd() for _ in range(3)]
        b += [OUT(V(x)) for x in xs] + [RET(V(xs[-1]))]
        p.func("f", [(x, INT) for x in ps], INT, BLOCK(*b))
        self.calls_main("f", np, 3)

    # -- simultaneous phi copies: swaps, rotations, fibonacci-like
    def swap(self):
        r, p = self.r, self.p
        n = r.randint(2, 6)
        xs = ["p%d" % i for i in range(n)]
        b = [DECL("t", INT, L(0))]
        i = "i"
        body = []
        for _ in range(r.randint(1, 3)):
            perm = r.sample(xs, r.randint(2, n))
            k = r.random()
            if k < 0.5:       # rotation through t
                body.append(ASG(V("t"), V(perm[0])))
                for a, c in zip(perm, perm[1:]):
                    body.append(ASG(V(a), V(c)))
                body.append(ASG(V(perm[-1]), V("t")))
            elif k < 0.75:    # fresh temporaries
                t = self.nm("t")
                body += [DECL(t, INT, B("+", V(perm[0]), V(perm[1]))), ASG(V(perm[0]), V(perm[1])), ASG(V(perm[1]), V(t))]
            else:
                body.append(IF(B(self.cmp(), V(perm[0]), V(perm[1])), BLOCK(ASG(V("t"), V(perm[0])), ASG(V(perm[0]), V(perm[1])), ASG(V(perm[1]), V("t")))))
        if r.random() < 0.4:
            body.append(IF(B(self.cmp(), V(r.choice(xs)), self.c()), BLOCK(r.choice([BRK, CONT])())))
            if r.random() < 0.5:
                body.append(ASG(V(r.choice(xs)), V(i), "+"))
        if r.random() < 0.4:
            j = "j"
            body.append(FOR(DECL(j, INT, L(0)), B("<", V(j), L(2)), EXPR(INC(V(j), 1, True)), BLOCK(
                ASG(V("t"), V(xs[0])), ASG(V(xs[0]), V(xs[-1])), ASG(V(xs[-1]), V("t")))))
        k = r.randint(1, 7)
        if r.random() < 0.5:
            b.append(FOR(DECL(i, INT, L(0)), B("<", V(i), L(k)), EXPR(INC(V(i), 1, True)), BLOCK(*body)))
        else:
            b += [DECL(i, INT, L(0)), WHILE(B("<", V(i), L(k)), BLOCK(EXPR(INC(V(i), 1, True)), *body))]
            b.append(OUT(V(i)))
        b += [OUT(V(x)) for x in xs] + [OUT(V("t")), RET(V(xs[0]))]
        p.func("f", [(x, INT) for x in xs], INT, BLOCK(*b))
        self.calls_main("f", n, 4)

    # -- constants: folding into branches, reassigned constants, constant joins
    def const(self):
        r, p = self.r, self.p
        xs, b = [], []
        for _ in range(r.randint(2, 4)):
            v = self.nm("k")
            b.append(DECL(v, INT, self.c()))
            xs.append(v)
        for _ in range(r.randint(2, 4)):
            v = self.nm("k")
            b.append(DECL(v, INT, B(r.choice(["+", "-", "*", "<<", ">>", "&", "|", "^", "/", "%", "<", "==", ">=", "!="]), V(r.choice(xs)), L(r.randint(1, 9)))))
            xs.append(v)
        def st(d):
            k = r.random()
            w = V(r.choice(xs))
            e = r.choice([self.c(), B(self.op(), V(r.choice(xs)), self.c()), V(r.choice(xs)), B(self.op(), V(r.choice(xs)), V(r.choice(xs))),
                          V("p0"), U(r.choice("-~!"), V(r.choice(xs)))])
            if k < 0.04 and d: return [IF(PAR(B("-", V("p0"), V("p0"))), BLOCK(ASG(w, B(r.choice("/%"), V(r.choice(xs)), L(0)))))]
            if k < 0.4 or d == 0: return [ASG(w, e)]
            if k < 0.5: return [OUT(e)]
            if k < 0.6: return [ASG(w, self.c(), self.op())]
            cond = r.choice([B(self.cmp(), V(r.choice(xs)), self.c()), V(r.choice(xs)), B(self.cmp(), V(r.choice(xs)), V(r.choice(xs))),
                             U("!", V(r.choice(xs))), B(self.cmp(), V("p0"), self.c()), B(r.choice(["&&", "||"]), V(r.choice(xs)), V(r.choice(xs))), L(0), L(1)])
            if k < 0.85:
                return [IF(cond, BLOCK(*[y for _ in range(r.randint(1, 3)) for y in st(d - 1)]),
                           BLOCK(*[y for _ in range(r.randint(1, 2)) for y in st(d - 1)]) if r.random() < 0.6 else None)]
            i = self.nm("i")
            return [FOR(DECL(i, INT, L(0)), B("<", V(i), L(r.randint(0, 3))), EXPR(INC(V(i), 1, True)), BLOCK(
                *[y for _ in range(r.randint(1, 3)) for y in st(d - 1)]))]
        for _ in range(r.randint(4, 8)):
            b += st(2)
        b += [OUT(V(x)) for x in xs] + [RET(V(xs[-1]))]
        p.func("f", [("p0", INT)], INT, BLOCK(*b))
        self.calls_main("f", 1, 3)

    # -- repeated subexpressions around stores and calls
    def cse(self):
        r, p = self.r, self.p
        IP = p.ptr(INT)
        T = p.struct("T", [("x", INT), ("y", INT), ("c", CHAR), ("d", CHAR)])
        TP = p.ptr(T)
        p.glob("gt", T)
        p.func("touch", [], INT, BLOCK(ASG(IDX(V("ga"), L(1)), L(5), "+"), ASG(MEM(V("gt"), "x"), L(3), "^"), ASG(V("g1"), L(1), "+"),
                                       ASG(IDX(V("gb"), L(2)), B("&", B("+", IDX(V("gb"), L(2)), L(1)), L(255))), RET(V("g1"))))
        p.funcs[-1]["body"]["ss"][3] = ASG(IDX(V("gb"), L(2)), B("&", PAR(B("+", IDX(V("gb"), L(2)), L(1))), L(255)))
        reads = [lambda: IDX(V("ga"), V("i")), lambda: IDX(V("ga"), L(1)), lambda: IDX(V("q"), V("i")), lambda: IDX(V("q"), L(1)),
                 lambda: MEM(V("gt"), "x"), lambda: ARROW(V("t"), "x"), lambda: ARROW(V("t"), "y"), lambda: IDX(V("gb"), V("i")), lambda: IDX(V("gb"), L(2)),
                 lambda: ARROW(V("t"), "c"), lambda: DEREF(V("q")), lambda: V("g1"), lambda: IDX(V("ga"), B("&", V("i"), L(3))),
                 lambda: B("*", V("i"), V("n")), lambda: PAR(B("+", V("i"), V("n")))]
        byte = [lambda: IDX(V("s"), V("i")), lambda: IDX(V("s"), V("j")), lambda: DEREF(PAR(B("+", V("s"), V("i")))), lambda: IDX(V("s2"), V("i"))]
        writes = [lambda e: ASG(IDX(V("ga"), V("i")), e), lambda e: ASG(IDX(V("q"), V("i")), e), lambda e: ASG(IDX(V("q"), L(1)), e),
                  lambda e: ASG(MEM(V("gt"), "x"), e), lambda e: ASG(ARROW(V("t"), "x"), e), lambda e: ASG(ARROW(V("t"), "y"), e),
                  lambda e: ASG(IDX(V("gb"), V("i")), B("&", e, L(255))), lambda e: ASG(ARROW(V("t"), "c"), B("&", e, L(255))), lambda e: ASG(V("g1"), e),
                  lambda e: EXPR(CALL("touch")), lambda e: ASG(V("n"), e), lambda e: EXPR(INC(V("n"), 1, True)), lambda e: ASG(V("q"), V("ga")),
                  lambda e: ASG(V("i"), PAR(B("&", PAR(e), L(3)))), lambda e: ASG(IDX(V("ga"), L(1)), e, "+")]
        bw = [lambda e: ASG(IDX(V("s"), V("i")), B("&", PAR(e), L(255))), lambda e: ASG(IDX(V("s"), V("j")), B("&", PAR(e), L(127))), lambda e: ASG(IDX(V("s2"), V("i")), L(r.randint(0, 255))),
              lambda e: ASG(V("j"), B("&", PAR(e), L(3))), lambda e: EXPR(CALL("touch")), lambda e: ASG(V("s"), V("s2"))]
        b = [DECL("acc", INT, L(0)), DECL("h", FNT), ASG(V("h"), V("touch"))]
        rd = r.sample(reads, r.randint(2, 4))
        if r.random() < 0.6:
            # the same characters again and again through parameters
            rd = r.sample(byte, r.randint(1, 2)) + (r.sample(reads, 1) if r.random() < 0.4 else [])
            writes = bw + r.sample(writes, 2)
        for _ in range(r.randint(5, 12)):
            k = r.random()
            e = r.choice(rd)()
            if r.random() < 0.12:
                x = r.choice(rd)
                b += [OUT(x()), EXPR(CALL(r.choice(["touch", "h"]))), OUT(x())]
            if k < 0.3: b.append(ASG(V("acc"), r.choice(rd)(), r.choice(["+", "^", "-"])))
            elif k < 0.4: b.append(OUT(B(self.op(), r.choice(rd)(), r.choice(rd)())))
            elif k < 0.5:
                x = r.choice(rd)
                b.append(OUT(F([x(), L(r.randint(2, 300)), x(), r.choice(rd)()], ["*", r.choice("+-^"), r.choice("+-^*")])))
            elif k < 0.6:
                v = self.nm("x")
                b.append(DECL(v, INT, r.choice(rd)()))
                b.append(OUT(B(self.op(), V(v), r.choice(rd)())))
            elif k < 0.9: b.append(r.choice(writes)(B(r.choice(["+", "-"]), e, L(r.randint(1, 5))) if r.random() < 0.6 else e))
            else: b.append(IF(B(self.cmp(), r.choice(rd)(), self.c()), BLOCK(r.choice(writes)(r.choice(rd)()), OUT(r.choice(rd)()))))
        b += [OUT(f()) for f in rd] + [OUT(V("acc")), OUT(V("n")), OUT(V("i")), RET(V("acc"))]
        p.func("f", [("i", INT), ("n", INT), ("q", IP), ("t", TP), ("s", CHARP), ("j", INT), ("s2", CHARP)], INT, BLOCK(*b))
        m = [ASG(IDX(V("ga"), L(i)), L(r.randint(1, 99))) for i in range(4)] + [ASG(IDX(V("gb"), L(i)), L(r.randint(1, 255))) for i in range(8)]
        m += [ASG(MEM(V("gt"), f), L(r.randint(1, 99))) for f in ("x", "y", "c", "d")]
        for _ in range(3):
            m.append(OUT(CALL("f", L(r.randint(0, 3)), L(r.randint(0, 50)), V("ga"), ADDR(V("gt")), V("gb"), L(r.randint(0, 3)), r.choice([V("gb"), B("+", V("gb"), L(1))]))))
            m += [OUT(IDX(V("gb"), L(i))) for i in range(8)]
            m += [OUT(IDX(V("ga"), L(i))) for i in range(4)]
        m.append(RET(L(0)))
        p.func("main", [], INT, BLOCK(*m))

    # -- dead stores, dead branches, live side effects in dead values
    def dead(self):
        r, p = self.r, self.p
        xs = ["p0", "p1"]
        b = []
        for _ in range(r.randint(3, 5)):
            v = self.nm()
            b.append(DECL(v, INT, r.choice([self.c(), CALL("id", V(r.choice(xs))), B(self.op(), V(r.choice(xs)), self.c()), CALL("mix", L(1), V(r.choice(xs)), L(2))])))
            xs.append(v)
        def st(d):
            k = r.random()
            w = V(r.choice(xs))
            e = r.choice([self.c(), B(self.op(), V(r.choice(xs)), V(r.choice(xs))), V(r.choice(xs)), CALL("mix", V(r.choice(xs)), L(2), L(1)), V("g3"),
                          IDX(V("ga"), B("&", V(r.choice(xs)), L(3)))])
            if k < 0.45 or d == 0: return [ASG(w, e)]
            if k < 0.52: return [EXPR(CALL("mix", V(r.choice(xs)), L(0), L(0)))]
            if k < 0.6: return [ASG(V(r.choice(["g1", "g2"])), e)]
            c = r.choice([B(self.cmp(), V(r.choice(xs)), V(r.choice(xs))), B(r.choice(["&&", "||"]), V(r.choice(xs)), CALL("id", V(r.choice(xs)))), L(0)])
            if k < 0.8: return [IF(c, BLOCK(*[y for _ in range(r.randint(0, 3)) for y in st(d - 1)]), BLOCK(*[y for _ in range(r.randint(0, 2)) for y in st(d - 1)]) if r.random() < 0.4 else None)]
            if k < 0.9:
                i = self.nm("i")
                return [FOR(DECL(i, INT, L(0)), B("<", V(i), L(r.randint(0, 3))), EXPR(INC(V(i), 1, True)), BLOCK(*[y for _ in range(r.randint(0, 3)) for y in st(d - 1)]))]
            return [BLOCK(*([RET(e)] if d == 2 and r.random() < 0.3 else st(d - 1)))] if False else [BLOCK(*st(d - 1))]
        for _ in range(r.randint(4, 9)):
            b += st(2)
        if r.random() < 0.3:
            b.append(IF(B(self.cmp(), V(xs[-1]), self.c()), BLOCK(RET(V(r.choice(xs))), *(st(0)))))
        live = r.sample(xs, r.randint(1, 3))
        b += [OUT(V(x)) for x in live] + [RET(V(r.choice(xs)))]
        p.func("f", [("p0", INT), ("p1", INT)], INT, BLOCK(*b))
        self.calls_main("f", 2, 3)

    # -- frames around and beyond the offset ranges of loads and stores
    def frame(self):
        r, p = self.r, self.p
        sz = r.choice([4, 100, 240, 250, 500, 505, 508, 510, 512, 520, 700, 1000, 1015, 1020, 1023, 1024, 1030, 1100, 2000])
        b = [DECL("pre", INT, L(r.randint(1, 99))), DECL("ca", p.arr(CHAR, r.choice([1, 3, 4, 5]))), DECL("big", p.arr(INT, sz))]
        b.append(ASG(IDX(V("ca"), L(0)), L(r.randint(1, 200))))
        vs = []
        for i in range(r.randint(3, 10)):
            v = self.nm()
            b.append(DECL(v, INT, B("+", V("p0"), L(r.randint(0, 99)))))
            vs.append(v)
        b.append(DECL("tail", p.arr(INT, 3)))
        ix = sorted({0, sz - 1, sz // 2, r.randrange(sz)})
        b += [ASG(IDX(V("big"), L(i)), L(1000 + i)) for i in ix]
        b += [ASG(IDX(V("tail"), L(i)), L(r.randint(1, 999))) for i in range(3)]
        b.append(DECL("q", p.ptr(INT), ADDR(V(vs[0]))))
        b.append(OUT(DEREF(V("q"))))
        b.append(DECL("w", INT, CALL("mix", V(vs[-1]), V("p0"), V(vs[0]))))
        b.append(ASG(V(vs[1]), B("-", V(vs[1]), V("w"))))
        b.append(IF(B(">", V("w"), V("p0")), BLOCK(ASG(V(vs[2]), IDX(V("big"), L(ix[-1])))), BLOCK(ASG(IDX(V("big"), L(ix[0])), V(vs[2])))))
        if r.random() < 0.5:
            b.append(IF(B("<", V("p0"), L(3)), BLOCK(OUT(CALL("f", B("+", V("p0"), L(1)))))))
        b += [OUT(V(x)) for x in vs] + [OUT(V("w")), OUT(V("pre")), OUT(IDX(V("ca"), L(0)))] + [OUT(IDX(V("big"), L(i))) for i in ix] + [OUT(IDX(V("tail"), L(i))) for i in range(3)]
        b.append(RET(V(vs[0])))
        p.func("f", [("p0", INT)], INT, BLOCK(*b))
        p.func("main", [], INT, BLOCK(OUT(CALL("f", L(r.randint(0, 2)))), OUT(CALL("f", L(7))), RET(L(0))))

    # -- frame and global offsets crossing every immediate range (255/256, 2047/2048, 4095/4096), word by word
    def edge(self):
        r, p = self.r, self.p
        IP = p.ptr(INT)
        p.glob("gz1", p.arr(CHAR, 4 * r.randint(40, 48)))
        gs = []
        for band, size in enumerate((0, 1696, 1948)):
            if size: p.glob("gp%d" % band, p.arr(CHAR, size))
            for i in range(24):
                p.glob("e%d_%d" % (band, i), INT, r.choice([None, None, 100 * band + i]))
                gs.append("e%d_%d" % (band, i))
        p.func("bump", [("a", IP), ("k", INT)], INT, BLOCK(ASG(IDX(V("a"), L(0)), V("k"), "+"), RET(IDX(V("a"), L(0)))))
        m = []
        for fn, pad in (("fa", 4 * r.randint(47, 54)), ("fb", 4 * r.randint(496, 502)), ("fc", 4 * r.randint(1008, 1014))):
            n = 13
            vs = ["v%d" % i for i in range(n)]
            b = [DECL("pad", p.arr(CHAR, pad))]
            b += [ASG(IDX(V("pad"), L(0)), L(9)), ASG(IDX(V("pad"), L(pad - 1)), L(11))]
            b += [DECL(v, INT, B("+", V("a"), L(i))) for i, v in enumerate(vs)]
            tak = set(r.sample(vs, r.choice([n, n, n // 2])))
            for i, v in enumerate(vs):
                if v in tak: b.append(OUT(CALL("bump", ADDR(V(v)), L(10 * i + 1))))
                else: b.append(ASG(V(v), CALL("bump", V("ga"), V(v))))
            b += [ASG(V(v), L(1 + i), "^") for i, v in enumerate(vs)]
            b.append(FOR(DECL("i", INT, L(0)), B("<", V("i"), L(2)), EXPR(INC(V("i"), 1, True)), BLOCK(*[ASG(V(v), V("i"), "+") for v in r.sample(vs, 3)])))
            b += [OUT(V(v)) for v in vs] + [OUT(IDX(V("pad"), L(0))), OUT(IDX(V("pad"), L(pad - 1))), RET(V(vs[-1]))]
            p.func(fn, [("a", INT)], INT, BLOCK(*b))
            m.append(OUT(CALL(fn, L(r.randint(1, 50)))))
        some = [g for g in gs if r.random() < 0.5]
        for i, g in enumerate(gs):
            if g in some: m.append(EXPR(CALL("bump", ADDR(V(g)), L(3 * i + 1))))
            else: m.append(ASG(V(g), L(5 * i + 2)))
        p.func("sh1", [], INT, BLOCK(*[OUT(V(g)) for g in gs[:36]], RET(L(0))))
        p.func("sh2", [], INT, BLOCK(*[OUT(V(g)) for g in gs[36:]], RET(L(0))))
        p.func("more", [], INT, BLOCK(*m[39:], RET(L(0))))
        p.func("main", [], INT, BLOCK(*m[:39], EXPR(CALL("more")), EXPR(CALL("sh1")), EXPR(CALL("sh2")), RET(L(0))))

    # -- values merging from many arms
    def joins(self):
        r, p = self.r, self.p
        xs = ["a", "b", "c", "d", "e"][:r.randint(2, 5)]
        b = [DECL(x, INT, r.choice([L(r.randint(0, 9)), V("p0"), B("+", V("p1"), L(i))])) for i, x in enumerate(xs)]
        e = lambda: r.choice([L(r.randint(0, 20)), V(r.choice(xs)), V("p0"), V("p1"), B(self.op(), V(r.choice(xs)), V(r.choice(xs))), B(self.op(), V(r.choice(xs)), L(r.randint(1, 9)))])
        cond = lambda: r.choice([B(self.cmp(), V(r.choice(xs + ["p0", "p1"])), V(r.choice(xs + ["p0", "p1"]))), B(self.cmp(), V(r.choice(xs)), L(r.randint(0, 9))), B("&", V("p0"), L(r.choice([1, 2, 4]))),
                                 F([B(self.cmp(), V("p0"), V(r.choice(xs))), B(self.cmp(), V("p1"), V(r.choice(xs)))], [r.choice(["&&", "||"])])])
        def st(d, lp):
            k = r.random()
            if d == 0 or k < 0.35: return ASG(V(r.choice(xs)), e())
            if k < 0.60: return IF(cond(), BLOCK(*[st(d - 1, lp) for _ in range(r.randint(1, 2))]), BLOCK(*[st(d - 1, lp) for _ in range(r.randint(1, 2))]) if r.random() < 0.6 else None)
            if k < 0.72:
                ss = []
                for v in r.sample(range(6), r.randint(2, 4)):
                    ss.append(CASE([v], [ASG(V(r.choice(xs)), e())] + ([BRK()] if r.random() < 0.6 else [])))
                ss.append(CASE([], [ASG(V(r.choice(xs)), e())], d=True))
                return SWITCH(B("&", V(r.choice(xs + ["p0"])), L(7)), ss)
            if k < 0.80: return ASG(V(r.choice(xs)), COND(cond(), e(), COND(B(self.cmp(), V("p0"), V(r.choice(xs))), e(), e())) if r.random() < 0.4 else COND(cond(), e(), e()))
            if k < 0.88 and lp: return IF(cond(), BLOCK(st(0, lp), r.choice([BRK, CONT])()))
            i = self.nm("i")
            return FOR(DECL(i, INT, L(0)), B("<", V(i), L(r.randint(1, 4))), EXPR(INC(V(i), 1, True)), BLOCK(*[st(d - 1, True) for _ in range(r.randint(1, 3))]))
        for _ in range(r.randint(3, 5)):
            b.append(st(3, False))
            if r.random() < 0.2:
                b.append(OUT(V(r.choice(xs))))
        b += [OUT(V(x)) for x in xs] + [RET(V("p0"))]
        p.func("f", [("p0", INT), ("p1", INT)], INT, BLOCK(*b))
        self.calls_main("f", 2, 5)

    def mixed(self):
        g = RG(self.r, nfun=2, nstmt=9, depth=3, locals=9, maxlocals=18, edepth=3, arrays=True)
        self.p = g.program("mixed")


def build(seed, fam):
    g = G(seed, fam)
    g.build()
    return g.p


def check(chk):
    cc = vp.Compilers()
    n = 250 if vp.THOROUGH else 26
    ps = [build("c08-%s-%d-%d" % (f, vp.SEED, i), f) for f in G.FAM for i in range(n)]
    cconf.conform(chk, cc, ps, name="opt", variants=cconf.V_SW if not vp.THOROUGH else cconf.V_ALL)
    chk.assumptions += ["qemu-user executes ARM and RISC-V code faithfully"]
