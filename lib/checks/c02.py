"""C02: grouping of every operator pair and triple, short circuit, ?:, and the
order and number of side effects."""
import itertools, random
import vp, cconf
from cprog import *
from gen import lit

TECHNIQUE = "TLA+ C abstract machine (CSem.tla) explored by TLC; conformance of compiled programs run under qemu"
NOTE = 'every operator pair (and sampled triples) unparenthesised, short circuit and ?: shapes, side-effect counts; TLC explores every evaluation order C leaves open. Bounded program size. Trusts qemu-user and TLC.'

OPS = ["*", "/", "%", "+", "-", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&", "^", "|", "&&", "||"]


def chain_progs(r, quota3, quota4, per=24):
    """unparenthesised chains over parameters whose values tell the groupings apart"""
    jobs = [list(c) for c in itertools.product(OPS, OPS)] * 2
    t3 = [list(c) for c in itertools.product(OPS, OPS, OPS)]
    r.shuffle(t3)
    jobs += t3[:quota3]
    jobs += [[r.choice(OPS) for _ in range(r.choice([4, 5, 6]))] for _ in range(quota4)]
    progs = []
    for i in range(0, len(jobs), per):
        p = Prog(fuel=20000)
        p.glob("g", INT, 3)
        p.glob("ga", p.arr(INT, 2))
        main = []
        for j, ops in enumerate(jobs[i:i + per]):
            n = len(ops) + 1
            vals = []
            for k in range(n):
                prev = ops[k - 1] if k else None
                if prev in ("<<", ">>"): v = r.choice([0, 1, 1, 2, 3])
                elif prev in ("/", "%"): v = r.choice([1, 2, 3, 5, 7])
                else: v = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 9, 13, 21, 100])
                # operands of a shift count must stay small and nonnegative
                back = k - 1
                while back >= 0 and ops[back] in ("*", "+", "/", "%"):
                    back -= 1
                if back >= 0 and ops[back] in ("<<", ">>") and k - 1 > back:
                    v = r.choice([1, 2])
                vals.append(v)
            for k in range(1, n):
                if ops[k - 1] == "-" and any(o in ("<<", ">>") for o in ops[:k - 1]):
                    vals[k] = r.choice([0, 1])
            es = []
            for k in range(n):
                e = V("p%d" % k)
                m = r.random()
                if m < 0.15: e = L(vals[k])
                elif m < 0.22: e = PAR(B("+", e, L(0)))
                elif m < 0.30: e = U(r.choice(["-", "~", "!"]), e) if (k == 0 or ops[k - 1] not in ("<<", ">>", "/", "%")) and not any(o in ("<<", ">>") for o in ops) else e
                es.append(e)
            p.func("t%d" % j, [("p%d" % k, INT) for k in range(n)], INT, BLOCK(RET(F(es, ops))))
            main.append((j, vals))
        p.tag = "chains"
        p.mainjobs = main
        progs.append(p)
    return progs


def finish_chains(r, progs):
    """decide with TLC which calls are defined, keep only those"""
    out = []
    probe = []
    for p in progs:
        for j, vals in p.mainjobs:
            q = Prog(fuel=400)
            q.types, q.ptrs, q.arrs = p.types, p.ptrs, p.arrs
            q.funcs = [p.funcs[j]]
            q.decls = [d for d in p.decls if d["k"] == "obj"] + [{"k": "fn", "n": p.funcs[j]["n"], "i": 1, "proto": False}]
            q.func("main", [], INT, BLOCK(RET(CALL("t%d" % j, *[L(v) for v in vals]))))
            probe.append(q)
    exp, bad, st = cconf.expected(probe, "probe")
    i = 0
    for p in progs:
        ss = []
        for j, vals in p.mainjobs:
            if i in exp:
                ss.append(OUT(CALL("t%d" % j, *[L(v) for v in vals])))
                ss.append(EXPR(CALL("o", COND(CALL("t%d" % j, *[L(v) for v in vals]), L(1), L(0)))))
            i += 1
        p.func("main", [], INT, BLOCK(*(ss + [RET(L(0))])))
        out.append(p)
    return out, st, len(exp), len(bad)


class SE:
    """expressions with side effects whose result C fixes (or allows a set the
    specification enumerates): impure operands meet only at sequence points"""

    def __init__(self, r):
        self.r = r
        self.n = 0

    def pick(self, xs): return xs[self.r.randrange(len(xs))]

    def atom(self, ro):
        m = self.r.random()
        if m < 0.5: return V(self.pick(ro))
        if m < 0.6: return IDX(V("a"), L(self.r.randrange(4)))
        return L(self.r.randint(-3, 9))

    def effect(self):
        """one impure operand: a call, or ++/-- of an object used nowhere else between sequence points"""
        self.n += 1
        m = self.r.random()
        if m < 0.45:
            return CALL("o", L(self.n * 10 + self.r.randint(0, 1) * 5) if self.r.random() < 0.6 else self.arith(1))
        if m < 0.55: return CALL("z", L(self.n))
        if m < 0.65: return CALL("add3", *[self.atom(RO) for _ in range(3)])
        x = self.pick(["x", "y", "w"])
        m = self.r.random()
        l = V(x) if m < 0.5 else (V("gx") if m < 0.65 else (IDX(V("b"), L(self.r.randrange(2))) if m < 0.8 else (ARROW(V("s"), "m") if m < 0.9 else IDX(V("gb"), L(1)))))
        return INC(l, self.pick([1, -1]), self.r.random() < 0.6)

    def arith(self, d):
        if d <= 0 or self.r.random() < 0.2: return self.atom(RO)
        n = self.pick([2, 2, 3])
        return F([self.arith(d - 1) for _ in range(n)], [self.pick(["+", "-", "*", "&", "|", "^"]) for _ in range(n - 1)])

    def one(self, d):
        """arithmetic with exactly one impure operand"""
        m = self.r.random()
        if d <= 0 or m < 0.35: return self.effect()
        if m < 0.45: return PAR(self.one(d - 1))
        if m < 0.53: return U(self.pick(["-", "~", "!"]), PAR(self.one(d - 1)) if self.r.random() < 0.5 else CALL("o", L(self.n + 100)))
        n = self.pick([2, 2, 3])
        k = self.r.randrange(n)
        es = [self.one(d - 1) if i == k else self.arith(1) for i in range(n)]
        return F(es, [self.pick(["+", "-", "*", "==", "<", "!=", ">=", "&", "|", "^"]) for _ in range(n - 1)])

    def seq(self, d):
        """&& and || and ?: over impure operands"""
        m = self.r.random()
        if d <= 0 or m < 0.2: return self.one(1)
        if m < 0.30: return PAR(self.seq(d - 1))
        if m < 0.38: return U("!", PAR(self.seq(d - 1)))
        if m < 0.55: return COND(self.seq(d - 1), self.grp(d - 1), self.grp(d - 1))
        n = self.pick([2, 2, 3, 3, 4])
        return F([self.grp(d - 1) for _ in range(n)], [self.pick(["&&", "||"]) for _ in range(n - 1)])

    def grp(self, d):
        e = self.seq(d)
        return e

    def prog(self, nst=4):
        p = Prog(fuel=8000)
        S = p.struct("S_t", [("k", INT), ("m", INT)])
        p.glob("gx", INT, 4)
        p.glob("gb", p.arr(INT, 3))
        p.glob("gs", S)
        p.func("z", [("q", INT)], INT, BLOCK(OUT(V("q")), RET(L(0))))
        p.func("add3", [("q", INT), ("r", INT), ("t", INT)], INT, BLOCK(OUT(B("-", V("q"), V("t"))), RET(F([V("q"), V("r"), V("t")], ["+", "*"]))))
        pre = [DECL("x", INT, L(self.r.randint(-1, 2))), DECL("y", INT, L(self.r.randint(-1, 2))), DECL("w", INT, L(7)),
               DECL("a", p.arr(INT, 4)), DECL("b", p.arr(INT, 2)), DECL("s", p.ptr(S), ADDR(V("gs")))]
        pre += [ASG(IDX(V("a"), L(i)), L(i * 3 - 2)) for i in range(4)]
        pre += [ASG(IDX(V("b"), L(i)), L(i)) for i in range(2)] + [ASG(ARROW(V("s"), "m"), L(0))]
        ss = []
        for i in range(nst):
            e = self.seq(self.pick([1, 2, 2, 3]))
            m = self.r.random()
            show = [OUT(F([V("x"), V("y"), V("w")], ["+", "-"])), OUT(V("gx"))]
            if m < 0.25: ss += [DECL("r%d" % i, INT, e), OUT(V("r%d" % i))]
            elif m < 0.35: ss += [ASG(V("t"), e), OUT(V("t"))]
            elif m < 0.45: ss += [ASG(IDX(V("a"), L(1)), e), OUT(IDX(V("a"), L(1)))]
            elif m < 0.65: ss += [IF(e, BLOCK(OUT(L(1000 + i))), BLOCK(OUT(L(2000 + i))))]
            elif m < 0.75: ss += [OUT(e)]
            elif m < 0.83: ss += [EXPR(CALL("add3", e, V("p"), V("q")))]
            elif m < 0.93:
                c = "c%d" % i
                body = BLOCK(EXPR(INC(V(c), 1, True)), OUT(V(c)))
                cnd = F([PAR(e), B("<", V(c), L(3))], ["&&"])
                ss += [DECL(c, INT, L(0)), WHILE(cnd, body) if self.r.random() < 0.5 else DO(body, cnd)]
            else:
                ss += [FOR(DECL("i%d" % i, INT, L(0)), F([B("<", V("i%d" % i), L(3)), PAR(e)], ["&&"]), EXPR(INC(V("i%d" % i), 1, self.r.random() < 0.5)), BLOCK(OUT(V("i%d" % i))))]
            ss += show
        ss += [OUT(V("x")), OUT(V("y")), OUT(V("w")), OUT(V("gx")), OUT(IDX(V("gb"), L(1))), OUT(ARROW(V("s"), "m")),
               OUT(B("+", IDX(V("b"), L(0)), B("*", L(100), IDX(V("b"), L(1)))))]
        p.func("t", [("p", INT), ("q", INT)], INT, BLOCK(*(pre + [DECL("t", INT, L(0))] + ss + [RET(self.seq(2))])))
        p.func("main", [], INT, BLOCK(OUT(CALL("t", L(self.r.randint(-2, 3)), L(self.r.randint(0, 1)))), OUT(CALL("t", L(0), L(5))), RET(L(0))))
        p.tag = "effects"
        return p


RO = ["p", "q"]


def cond_nests(r, n):
    """nested and chained ?: with and without parentheses around operands"""
    ps = []
    for _ in range(n):
        p = Prog(fuel=6000)
        fs = []

        def cnd():
            return r.choice([B(r.choice(["<", "==", ">=", "!="]), V("a"), V("b")), V("a"), U("!", V("b")),
                             F([V("a"), V("b")], [r.choice(["&&", "||"])]), B("&", V("a"), L(1))])

        def t(d):
            if d == 0: return r.choice([V("a"), V("b"), L(r.randint(0, 9)), B("+", V("a"), L(3)), B("<<", V("b"), L(1)), CALL("o", L(r.randint(10, 99)))])
            return COND(cnd(), t(d - 1), t(r.choice([0, d - 1])))
        for j in range(6):
            e = t(r.choice([1, 2, 3]))
            if r.random() < 0.3: e = B(r.choice(["+", "*", "-"]), e, V("b"))
            elif r.random() < 0.3: e = B(r.choice(["+", "*", "-"]), V("a"), e)
            p.func("t%d" % j, [("a", INT), ("b", INT)], INT, BLOCK(RET(e)))
        ss = [OUT(CALL("t%d" % j, L(a), L(b))) for j in range(6) for a, b in ((0, 0), (1, 0), (0, 2), (3, 3), (-4, 5), (7, 1))]
        p.func("main", [], INT, BLOCK(*(ss + [RET(L(0))])))
        p.tag = "ternary"
        ps.append(p)
    return ps


def check(chk):
    cc = vp.Compilers()
    r = random.Random(vp.SEED * 7919 + 2)
    k = 6 if vp.THOROUGH else 1
    ch, st, good, und = finish_chains(r, chain_progs(r, 1500 * k if k == 1 else 5832, 200 * k))
    chk.cov["chains"] = good
    chk.cov["chains_undefined"] = und
    chk.cov["states"] = sum(x.distinct for x in st)
    chk.cov["transitions"] = sum(x.states for x in st)
    cconf.conform(chk, cc, ch, name="chains", variants=cconf.V_SW if not vp.THOROUGH else cconf.V_ALL)
    ps = [SE(random.Random(r.random())).prog() for _ in range(150 * k)]
    ps += cond_nests(r, 25 * k)
    cconf.conform(chk, cc, ps, name="effects", variants=cconf.V_SW)
    chk.assumptions += ["qemu-user executes ARM and RISC-V code faithfully"]


def debug_progs():
    r = random.Random(vp.SEED * 7919 + 2)
    chain_progs(r, 1500, 200)
    return [SE(random.Random(r.random())).prog() for _ in range(150)] + cond_nests(r, 25)
