"""C09: the four executables of one source (two targets, with and without
hardware multiply/divide) behave identically: as the one abstract machine says.
Programs dense in what the back ends do differently: multiplication, division
and remainder among many live values, char loads and stores, shifts, constants
of every width, comparisons, large frames, calls; and samples of every other
generator, all run in all four variants."""
import random
import vp, cconf
from cprog import *
from gen import RG, INTERESTING, lit, IMIN
from checks import c05, c07, c08

TECHNIQUE = "TLA+ C abstract machine (CSem.tla) explored by TLC as the single target-independent meaning; conformance of all four executables run under qemu"
NOTE = "One TLC-derived outcome per generated program must be produced by ARM and RISC-V code with and without +m; programs are dense in multiply/divide/shift/char/constant code that the back ends emit differently."


class MD:
    """straight and branching code dense in * / % << >> with many live values"""

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.p = Prog(fuel=6000)
        self.p.tag = "muldiv"

    def divisor(self, xs):
        r = self.r
        k = r.random()
        if k < 0.35: return lit(r.choice([1, -1, 2, 3, 4, 5, 7, 8, 10, 16, 60, 64, 100, 255, 256, 1000, 4096, 65536, 1 << 30, -2, -3, -8, -10, 0x7fffffff, 0x10001]))
        if k < 0.7: return PAR(B("+", PAR(B("&", V(r.choice(xs)), L(r.choice([1, 3, 7, 15, 255])))), L(1)))
        return PAR(B("|", V(r.choice(xs)), L(r.choice([1, 2, 5, 64]))))

    def leaf(self, xs):
        r = self.r
        k = r.random()
        if k < 0.75: return V(r.choice(xs))
        if k < 0.82: return IDX(V("gc"), B("&", V(r.choice(xs)), L(7)))
        if k < 0.9: return IDX(V("ga"), B("&", V(r.choice(xs)), L(3)))
        return lit(r.choice(INTERESTING + [IMIN]))

    def ex(self, xs, d=2):
        r = self.r
        if d == 0 or r.random() < 0.15: return self.leaf(xs)
        k = r.random()
        sub = lambda: self.ex(xs, d - 1)
        par = lambda e: PAR(e) if e["k"] in ("flat", "cond") else e
        if k < 0.3: return B("*", par(sub()), par(sub()))
        if k < 0.5: return B(r.choice(["/", "%"]), par(sub()), self.divisor(xs))
        if k < 0.62: return B(r.choice(["<<", ">>"]), par(sub()), r.choice([L(r.randint(0, 31)), PAR(B("&", V(r.choice(xs)), L(31)))]))
        if k < 0.7: return F([self.leaf(xs), self.leaf(xs), self.divisor(xs), self.leaf(xs)], [r.choice("+-"), r.choice("*/%"), r.choice("+-^")]) if False else \
            F([self.leaf(xs), self.leaf(xs), self.divisor(xs)], [r.choice("+-*"), r.choice("/%")])
        if k < 0.78: return B(r.choice(["==", "!=", "<", ">", "<=", ">="]), par(sub()), par(sub()))
        if k < 0.84: return CALL("h", self.leaf(xs), self.leaf(xs))
        return B(r.choice("+-&|^"), par(sub()), par(sub()))

    def build(self):
        r, p = self.r, self.p
        p.glob("ga", p.arr(INT, 4))
        p.glob("gc", p.arr(CHAR, 8))
        p.glob("g", INT, r.randint(-99, 99))
        p.func("h", [("x", INT), ("y", INT)], INT, BLOCK(RET(F([V("x"), V("y"), L(3)], ["-", "*"]))))
        ps = ["p%d" % i for i in range(r.randint(2, 6))]
        xs = list(ps)
        b = []
        for i in range(r.randint(3, 9)):
            v = "v%d" % i
            b.append(DECL(v, INT, self.ex1(xs)))
            xs.append(v)
        for _ in range(r.randint(3, 7)):
            w = V(r.choice(xs))
            k = r.random()
            if k < 0.3: b.append(ASG(w, self.leaf(xs), "*"))
            elif k < 0.45: b.append(ASG(w, self.divisor(xs), r.choice(["/", "%"])))
            elif k < 0.6: b.append(ASG(IDX(V("gc"), B("&", V(r.choice(xs)), L(7))), B("&", PAR(self.ex1(xs, False)), L(255))))
            elif k < 0.7: b.append(ASG(V("g"), self.ex1(xs)))
            elif k < 0.85: b.append(IF(B("<", self.leaf(xs), self.leaf(xs)), BLOCK(ASG(w, self.ex1(xs))), BLOCK(OUT(self.ex1(xs)))))
            else: b.append(FOR(DECL("i%d" % len(b), INT, L(1)), B("<", V("i%d" % len(b)), L(r.randint(2, 4))), EXPR(INC(V("i%d" % len(b)), 1, True)), BLOCK(
                ASG(w, B(r.choice(["*", "/", "%"]), V(r.choice(xs)), V("i%d" % len(b)))), ASG(V(r.choice(xs)), self.divisor(xs), "/"))))
        b += [OUT(V(x)) for x in xs] + [OUT(IDX(V("gc"), L(i))) for i in range(8)] + [OUT(V("g")), RET(V(xs[-1]))]
        p.func("f", [(x, INT) for x in ps], INT, BLOCK(*b))
        m = [ASG(IDX(V("ga"), L(i)), lit(r.choice(INTERESTING))) for i in range(4)] + [ASG(IDX(V("gc"), L(i)), L(r.choice([0, 1, 127, 128, 200, 255]))) for i in range(8)]
        for _ in range(3):
            m.append(OUT(CALL("f", *[lit(r.choice(INTERESTING + [IMIN])) if r.random() < 0.6 else L(r.randint(-99, 99)) for _ in ps])))
        m.append(RET(V("g")))
        p.func("main", [], INT, BLOCK(*m))
        return p

    def ex1(self, xs, call=True):
        """expression with at most one call and no reader of what it writes (h writes nothing)"""
        e = self.ex(xs, 2)
        return e


def mix(seed):
    r = random.Random(seed)
    g = RG(r, nfun=2, nstmt=8, depth=3, locals=6, big=0.35, edepth=3)
    p = g.program("random")
    return p


def check(chk):
    cc = vp.Compilers()
    k = 12 if vp.THOROUGH else 1
    s = vp.SEED
    ps = [MD("c09-md-%d-%d" % (s, i)).build() for i in range(90 * k)]
    ps += [mix("c09-mix-%d-%d" % (s, i)) for i in range(60 * k)]
    ps += [c05.G("c09-05-%d-%d" % (s, i)).build() for i in range(12 * k)]
    ps += [c07.G("c09-07-%d-%d" % (s, i)).build() for i in range(20 * k)]
    ps += [c08.build("c09-08-%d-%d" % (s, i), f) for f in c08.G.FAM for i in range(5 * k)]
    cconf.conform(chk, cc, ps, name="targets", variants=cconf.V_ALL)
    chk.assumptions += ["qemu-user executes ARM and RISC-V code faithfully"]
