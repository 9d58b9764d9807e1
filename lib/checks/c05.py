"""C05: one consistent memory.  Random histories of stores and loads through
every access path (variables, subscripts, members, nested members, pointers,
pointer arithmetic, aliasing parameters) over scalars, arrays and structs in
locals and globals; the whole memory is read back at the end."""
import random
import vp, cconf
from cprog import *

TECHNIQUE = "TLA+ C abstract machine with byte memory (CSem.tla) explored by TLC; conformance of compiled programs run under qemu"
NOTE = "Aliasing by construction (parameters, pointers into the same objects); chars are unsigned; no array initialisers, casts or pointer subtraction. Trusts qemu-user and TLC."


class G:
    def __init__(self, seed):
        self.r = r = random.Random(seed)
        self.p = p = Prog(fuel=9000)
        self.T = T = p.struct("T_t", [("x", INT), ("y", CHAR), ("z", INT)])
        self.IP, self.TP = p.ptr(INT), p.ptr(T)
        # extents of the char arrays: all residues mod 4, so that a neighbour
        # starts right behind (or inside the padding of) the last element
        self.ngc, self.nd = r.choice([8, 9, 10, 11, 13, 17]), r.choice([4, 5, 6, 7, 9])
        sf = [("c", CHAR), ("m", INT), ("r", p.arr(INT, 4)), ("d", p.arr(CHAR, self.nd)), ("t", T), ("q", self.TP), ("ip", self.IP), ("e", CHAR)]
        k = sf[:]
        r.shuffle(k)
        self.S = S = p.struct("S_t", k)
        self.SP = p.ptr(S)
        self.glob = [("ga", p.arr(INT, 8)), ("gc", p.arr(CHAR, self.ngc)), ("gt", p.arr(T, 4)), ("gs", S), ("gx", INT), ("gp", self.IP), ("gq", self.TP)]
        r.shuffle(self.glob)
        for n, t in self.glob:
            p.glob(n, t)
        self.cnt = 0

    # --- expressions
    def small(self):
        r = self.r
        m = r.random()
        if m < 0.45: return L(r.randint(0, 3))
        if m < 0.75: return B("&", self.load(1), L(3))
        if m < 0.9 and self.loopv: return B("&", V(r.choice(self.loopv)), L(3))
        return B("&", V("n"), L(3))

    loopv = ()

    def cidx(self, n, sm):
        """index into a char array of n elements; the last ones often"""
        return L(self.r.randint(max(0, n - 2), n - 1)) if self.r.random() < 0.5 else sm()

    def intp(self):
        """pointer to at least four ints"""
        r = self.r
        c = [lambda: V("gp"), lambda: V(r.choice(self.ips)), lambda: V("ga"), lambda: B("+", V("ga"), L(r.randint(0, 4))), lambda: F([V("ga"), PAR(B("&", V("n"), L(1))), L(r.randint(2, 4))], ["+", "*"]),
             lambda: ADDR(IDX(V("ga"), self.small()))]
        if self.la:
            c += [lambda: V("la"), lambda: V("la")]
        return r.choice(c)()

    def chrp(self):
        r = self.r
        c = [lambda: V("gc"), lambda: B("+", V("gc"), L(r.randint(0, self.ngc - 4))), lambda: ADDR(IDX(V("gc"), self.small())), lambda: V(r.choice(self.cps)),
             lambda: MEM(V("gs"), "d"), lambda: ARROW(V(r.choice(self.sps)), "d")]
        if self.la:
            c += [lambda: V("lc")]
        return r.choice(c)()

    def tp(self):
        """pointer to at least two T_t"""
        r = self.r
        c = [lambda: V("gq"), lambda: V(r.choice(self.tps)), lambda: V("gt"), lambda: ADDR(IDX(V("gt"), L(r.randint(0, 2)))), lambda: B("+", V("gt"), L(r.randint(0, 2)))]
        if self.la:
            c += [lambda: V("lt"), lambda: ADDR(IDX(V("lt"), L(r.randint(0, 1))))]
        return r.choice(c)()

    def onep(self):
        """pointer to at least one int"""
        r = self.r
        c = [lambda: self.intp(), lambda: ADDR(V("gx")), lambda: ADDR(MEM(V("gs"), "m")), lambda: ADDR(ARROW(V(r.choice(self.sps)), "m")),
             lambda: ADDR(MEM(IDX(V("gt"), L(r.randint(0, 3))), r.choice("xz"))), lambda: ADDR(IDX(ARROW(V(r.choice(self.sps)), "r"), L(r.randint(0, 3))))]
        if self.la:
            c += [lambda: ADDR(V("lx")), lambda: ADDR(V("ly")), lambda: ADDR(MEM(V("ls"), "m")), lambda: ADDR(IDX(MEM(V("ls"), "r"), L(r.randint(0, 3))))]
        return r.choice(c)()

    def tplace(self, u):
        """member of a T_t object"""
        r = self.r
        f = r.choice("xyz")
        s = r.choice(self.sps)
        c = [lambda: MEM(IDX(V("gt"), self.small()), f), lambda: MEM(MEM(V("gs"), "t"), f), lambda: ARROW(V(r.choice(self.tps)), f),
             lambda: MEM(IDX(V(r.choice(self.tps)), L(r.randint(0, 1))), f), lambda: ARROW(V("gq"), f), lambda: MEM(ARROW(V(s), "t"), f),
             lambda: ARROW(ARROW(V(s), "q"), f), lambda: ARROW(MEM(V("gs"), "q"), f)]
        if self.la:
            c += [lambda: MEM(IDX(V("lt"), L(r.randint(0, 2))), f), lambda: MEM(MEM(V("ls"), "t"), f)]
        return r.choice(c)()

    def place(self, u=0):
        """an int or char lvalue; u bounds recursion"""
        r = self.r
        sm = self.small if u == 0 else lambda: L(r.randint(0, 3))
        s = r.choice(self.sps)
        c = [lambda: IDX(V("ga"), sm()), lambda: IDX(V("gc"), self.cidx(self.ngc, sm)), lambda: V("gx"), lambda: V("gx"),
             lambda: MEM(V("gs"), r.choice("mce")), lambda: IDX(MEM(V("gs"), "r"), sm()), lambda: IDX(MEM(V("gs"), "d"), self.cidx(self.nd, sm)),
             lambda: IDX(V(r.choice(self.ips)), sm()), lambda: IDX(V(r.choice(self.ips)), sm()), lambda: IDX(V(r.choice(self.cps)), sm()), lambda: IDX(V("gp"), sm()),
             lambda: IDX(V(r.choice(self.ops)), L(0)), lambda: IDX(V(r.choice(self.ops)), L(0)),
             lambda: ARROW(V(s), r.choice("mce")), lambda: IDX(ARROW(V(s), "r"), sm()), lambda: IDX(ARROW(V(s), "d"), self.cidx(self.nd, sm)), lambda: IDX(ARROW(V(s), "ip"), L(0)), lambda: IDX(MEM(V("gs"), "ip"), L(0)),
             lambda: self.tplace(u), lambda: self.tplace(u)]
        if self.la:
            c += [lambda: IDX(V("la"), sm()), lambda: IDX(V("lc"), self.cidx(self.nlc, sm)), lambda: V("lx"), lambda: V("ly"), lambda: V("lx"),
                  lambda: MEM(V("ls"), r.choice("mce")), lambda: IDX(MEM(V("ls"), "r"), sm()), lambda: IDX(MEM(V("ls"), "d"), self.cidx(self.nd, sm))]
        return r.choice(c)()

    def load(self, u=0):
        r = self.r
        m = r.random()
        if m < 0.08:
            return DEREF(V(r.choice(self.ips + self.cps + self.ops)))
        if m < 0.11:
            a, b = r.choice([(L(r.randint(0, 1)), L(3)), (PAR(B("&", V("n"), L(1))), L(r.randint(1, 3))), (PAR(B("&", self.load(1), L(1))), L(2)), (L(7), L(r.randint(2, 8)))])
            if a["k"] == "lit" and a["v"] == 7: return DEREF(PAR(F([V(r.choice(self.ips + self.cps)), L(7), L(r.randint(2, 8))], ["+", "/"])))
            return DEREF(PAR(F([V(r.choice(self.ips + self.cps)), a, b], ["+", "*"])))
        if m < 0.16:
            return DEREF(PAR(B("+", V(r.choice(self.ips + self.cps)), L(r.randint(0, 3)))))
        return self.place(max(u, 1) if u else 0)

    def val(self):
        r = self.r
        m = r.random()
        if m < 0.2: return L(r.choice([0, 1, -1, 255, 256, 257, 127, 128, 0x12345678, -77, 65535, r.randint(-999999, 999999)]))
        if m < 0.45: return self.load()
        if m < 0.8: return B(r.choice(["+", "-", "*", "^", "&", "|"]), self.load(), r.choice([self.load(1), L(r.randint(1, 300))]))
        if m < 0.88: return B(r.choice(["==", "<", "!="]), self.load(), self.load(1))
        if m < 0.93: return B(r.choice(["==", "!="]), V(r.choice(self.ips)), V(r.choice(self.ips + ["ga", "gp"])))
        if m < 0.96: return SIZEOF(r.choice([self.T, self.S, INT, CHAR, self.IP]))
        return COND(self.load(1), self.load(1), self.load(1))

    def stmt(self, d):
        r = self.r
        m = r.random()
        if m < 0.40: return [ASG(self.place(), self.val())]
        if m < 0.52: return [ASG(self.place(), self.load(1) if r.random() < 0.5 else L(r.randint(1, 99)), r.choice(["+", "-", "^", "|", "&", "*"]))]
        if m < 0.57: return [EXPR(INC(self.place(1), r.choice([1, -1]), True))]
        if m < 0.60:
            # increment inside an expression, prefix and postfix
            l = self.place(1)
            i = self.name("k")
            e = INC(l, r.choice([1, -1]), r.random() < 0.3)
            return [ASG(l, L(r.randint(2, 200))), DECL(i, INT, r.choice([e, B(r.choice("+*-"), e, L(r.randint(2, 99))), B("+", L(r.randint(1, 99)), e)])), OUT(B("^", V(i), l))]
        if m < 0.65:
            # read, write through another path, read again
            a, b = self.place(1), self.place(1)
            i = self.name("k")
            return [DECL(i, INT, a), ASG(b, self.val()), OUT(B("-", V(i), a))]
        if m < 0.74:
            k = r.random()
            own = lambda xs: [x for x in xs if x not in ("gp", "gq")]
            if k < 0.3: return [ASG(V(r.choice(self.ips)), self.intp())]
            if k < 0.4: return [ASG(V(r.choice(self.cps)), self.chrp())]
            if k < 0.55: return [ASG(V(r.choice(self.tps)), self.tp())]
            if k < 0.75: return [ASG(V(r.choice(self.ops)), self.onep())]
            if k < 0.85: return [ASG(r.choice([MEM(V("gs"), "ip"), ARROW(V(r.choice(self.sps)), "ip")]), self.onep_g())]
            if k < 0.95: return [ASG(r.choice([MEM(V("gs"), "q"), ARROW(V(r.choice(self.sps)), "q")]), ADDR(IDX(V("gt"), L(r.randint(0, 2)))))]
            return [ASG(V("gp"), r.choice([V("ga"), ADDR(IDX(V("ga"), L(r.randint(0, 4)))), B("+", V("ga"), L(2))]))]
        if m < 0.80: return [OUT(self.val())]
        if d > 0 and m < 0.87:
            return [IF(self.val(), BLOCK(*self.stmts(d - 1, r.randint(1, 3))), BLOCK(*self.stmts(d - 1, r.randint(1, 2))) if r.random() < 0.5 else None)]
        if d > 0 and m < 0.93:
            i = self.name("i")
            self.loopv = tuple(self.loopv) + (i,)
            b = self.stmts(d - 1, r.randint(1, 3))
            self.loopv = self.loopv[:-1]
            return [FOR(DECL(i, INT, L(0)), B("<", V(i), L(r.randint(2, 4))), EXPR(INC(V(i), 1, True)), BLOCK(*b))]
        if d > 0 and m < 0.96:
            # walk with a moving pointer
            w, i = self.name("w"), self.name("i")
            k = r.randint(0, 2)
            pt, src, cell = [(self.IP, self.intp, lambda: IDX(V(w), L(0))), (CHARP, self.chrp, lambda: IDX(V(w), L(0))),
                             (self.TP, self.tp, lambda: ARROW(V(w), r.choice("xyz")))][k]
            rd = DEREF(V(w)) if k < 2 else ARROW(V(w), "x")
            n = 2 if k == 2 else 4
            return [DECL(w, pt, src()), FOR(DECL(i, INT, L(0)), B("<", V(i), L(n)), EXPR(INC(V(i), 1, True)),
                    BLOCK(ASG(cell(), B("+", rd, self.load(1))), r.choice([EXPR(INC(V(w), 1, True)), ASG(V(w), L(1), "+")])))]
        if self.callee and m < 0.99:
            return [OUT(CALL(self.callee, self.intp(), self.chrp(), self.tp(), self.sp(), self.onep(), B("&", self.load(1), L(1023))))]
        return [ASG(self.place(), self.val())]

    def onep_g(self):
        """pointer to one int with static lifetime"""
        r = self.r
        return r.choice([ADDR(V("gx")), ADDR(IDX(V("ga"), L(r.randint(0, 7)))), ADDR(MEM(V("gs"), "m")), ADDR(MEM(IDX(V("gt"), L(r.randint(0, 3))), "z"))])

    def sp(self):
        r = self.r
        return r.choice([ADDR(V("gs")), V(r.choice(self.sps))] + ([ADDR(V("ls"))] if self.la else []))

    def name(self, k):
        self.cnt += 1
        return "%s%d" % (k, self.cnt)

    def stmts(self, d, n):
        return [s for _ in range(n) for s in self.stmt(d)]

    def func(self, name, callee, n):
        r = self.r
        self.callee = callee
        self.la = r.random() < 0.75
        self.loopv = ()
        self.ips, self.cps, self.tps, self.sps, self.ops = ["p", "p2"], ["d", "d2"], ["u", "u2"], ["v", "v2"], ["one", "one2"]
        b = []
        p = self.p
        if self.la:
            self.nlc = r.choice([4, 5, 6, 7, 9, 13])
            ds = [("la", p.arr(INT, 4)), ("lc", p.arr(CHAR, self.nlc)), ("lt", p.arr(self.T, 3)), ("ls", self.S), ("lx", INT), ("ly", INT)]
            r.shuffle(ds)
            b += [DECL(a, t) for a, t in ds]
            i = self.name("i")
            b += [ASG(V("lx"), L(r.randint(0, 999))), ASG(V("ly"), V("n"))]
            b += [FOR(DECL(i, INT, L(0)), B("<", V(i), L(4)), EXPR(INC(V(i), 1, True)), BLOCK(
                ASG(IDX(V("la"), V(i)), B("*", V(i), L(r.randint(3, 999)))), ASG(IDX(V("lc"), V(i)), B("+", V(i), L(r.randint(60, 200)))),
                ASG(IDX(MEM(V("ls"), "r"), V(i)), B("+", V(i), L(r.randint(5, 99)))), ASG(IDX(MEM(V("ls"), "d"), V(i)), B("-", L(250), V(i)))))]
            b += [ASG(IDX(V("lc"), L(j)), L(r.randint(0, 255))) for j in range(4, self.nlc)]
            b += [ASG(IDX(MEM(V("ls"), "d"), L(j)), L(r.randint(0, 255))) for j in range(4, self.nd)]
            for j in range(3):
                b += [ASG(MEM(IDX(V("lt"), L(j)), f), L(r.randint(1, 120))) for f in "xyz"]
            b += [ASG(MEM(V("ls"), f), L(r.randint(1, 99))) for f in "mce"]
            b += [ASG(MEM(MEM(V("ls"), "t"), f), L(r.randint(1, 99))) for f in "xyz"]
            b += [ASG(MEM(V("ls"), "q"), V("gt")), ASG(MEM(V("ls"), "ip"), ADDR(V("gx")))]
        saved = (self.ips, self.cps, self.tps, self.sps, self.ops)
        self.ips, self.cps, self.tps, self.sps, self.ops = ["p"], ["d"], ["u"], ["v"], ["one"]
        loc = [DECL("p2", self.IP, self.intp()), DECL("d2", CHARP, self.chrp()), DECL("u2", self.TP, self.tp()), DECL("v2", self.SP, self.sp()),
               DECL("one2", self.IP, self.onep())]
        b += loc
        self.ips, self.cps, self.tps, self.sps, self.ops = saved
        b += self.stmts(2, n)
        if self.la:
            i = self.name("i")
            b += [OUT(V("lx")), OUT(V("ly")), FOR(DECL(i, INT, L(0)), B("<", V(i), L(4)), EXPR(INC(V(i), 1, True)), BLOCK(
                OUT(IDX(V("la"), V(i))), OUT(IDX(V("lc"), V(i))), OUT(IDX(MEM(V("ls"), "r"), V(i))), OUT(IDX(MEM(V("ls"), "d"), V(i)))))]
            b += [OUT(IDX(V("lc"), L(j))) for j in range(4, self.nlc)] + [OUT(IDX(MEM(V("ls"), "d"), L(j))) for j in range(4, self.nd)]
            b += [OUT(MEM(IDX(V("lt"), L(j)), f)) for j in range(3) for f in "xyz"]
            b += [OUT(MEM(V("ls"), f)) for f in "mce"] + [OUT(MEM(MEM(V("ls"), "t"), f)) for f in "xyz"]
        b += [RET(self.load(1))]
        p.func(name, [("p", self.IP), ("d", CHARP), ("u", self.TP), ("v", self.SP), ("one", self.IP), ("n", INT)], INT, BLOCK(*b))

    def build(self):
        r, p = self.r, self.p
        self.func("f1", None, r.randint(5, 12))
        self.func("f2", "f1", r.randint(5, 10))
        i = "i0"
        b = [FOR(DECL(i, INT, L(0)), B("<", V(i), L(8)), EXPR(INC(V(i), 1, True)), BLOCK(
            ASG(IDX(V("ga"), V(i)), B("*", B("+", V(i), L(1)), L(r.randint(2, 9999)))), ASG(IDX(V("gc"), V(i)), B("+", V(i), L(r.randint(60, 250))))))]
        b[0]["a"]["ss"][0]["e"] = B("*", PAR(B("+", V(i), L(1))), L(r.randint(2, 9999)))
        b += [FOR(DECL("i1", INT, L(0)), B("<", V("i1"), L(4)), EXPR(INC(V("i1"), 1, True)), BLOCK(
            *[ASG(MEM(IDX(V("gt"), V("i1")), f), B("+", V("i1"), L(r.randint(1, 99)))) for f in "xyz"]))]
        b += [ASG(V("gp"), V("ga")), ASG(V("gq"), ADDR(IDX(V("gt"), L(1)))), ASG(MEM(V("gs"), "q"), V("gt")), ASG(MEM(V("gs"), "ip"), ADDR(V("gx")))]
        b += [OUT(CALL("f2", V("ga"), V("gc"), V("gt"), ADDR(V("gs")), ADDR(V("gx")), L(r.randint(0, 9)))),
              OUT(CALL("f1", ADDR(IDX(V("ga"), L(3))), MEM(V("gs"), "d"), V("gq"), ADDR(V("gs")), ADDR(MEM(V("gs"), "m")), L(r.randint(0, 9))))]
        b += [FOR(DECL("i2", INT, L(0)), B("<", V("i2"), L(8)), EXPR(INC(V("i2"), 1, True)), BLOCK(OUT(IDX(V("ga"), V("i2"))), OUT(IDX(V("gc"), V("i2"))))),
              FOR(DECL("i3", INT, L(0)), B("<", V("i3"), L(4)), EXPR(INC(V("i3"), 1, True)), BLOCK(
                  *([OUT(MEM(IDX(V("gt"), V("i3")), f)) for f in "xyz"] + [OUT(IDX(MEM(V("gs"), "r"), V("i3"))), OUT(IDX(MEM(V("gs"), "d"), V("i3")))])))]
        b += [OUT(IDX(V("gc"), L(j))) for j in range(8, self.ngc)] + [OUT(IDX(MEM(V("gs"), "d"), L(j))) for j in range(4, self.nd)]
        b += [OUT(MEM(V("gs"), f)) for f in "mce"] + [OUT(MEM(MEM(V("gs"), "t"), f)) for f in "xyz"] + [OUT(V("gx")), RET(L(0))]
        p.func("main", [], INT, BLOCK(*b))
        return p


# A char variable which is not an array element or member lives in a word.
# Each probe returns 1 as C has it and 2 where the listed finding is seen.
PROBES = {
    "C05-char-scalar": "int main() { char c = 300; if (c == 44) return 1; if (c == 300) return 2; return 3; }\n",
    "C05-char-slot": """int set(char *p, int v) { p[0] = v; return 0; }
int dirty(int a) { int x[40]; int i; for (i = 0; i < 40; i++) x[i] = a; return x[3]; }
int f(int v) { char c; set(&c, v); int y = c; if (y == v) return 1; if ((y & 255) == v) return 2; return 3; }
int main() { dirty(-1); return f(5); }
""",
    "C05-char-incr": "int main() { char a[8]; a[2] = 255; int r = ++a[2]; if (a[2]) return 3; if (r == 0) return 1; if (r == 256) return 2; return 3; }\n"}


def probes(chk, cc):
    d = vp.sub("probes")
    for k in sorted(PROBES):
        for arch in vp.ARCHS:
            b = "%s/%s-%s" % (d, k, arch)
            with open(b + ".c", "w") as f: f.write(PROBES[k])
            q = cc.compile(b + ".c", b, arch)
            rc = cc.exe(b, arch).rc if q.rc == 0 else -1
            if rc == 2 and chk.is_known(k): chk.finding(k)
            elif rc != 1: chk.violation("%s on %s: exit status %d instead of 1 (see the comments in the source)" % (k, arch, rc), {"source.c": PROBES[k]})


def check(chk):
    cc = vp.Compilers()
    probes(chk, cc)
    n = 1500 if vp.THOROUGH else 160
    ps = [G("c05-%d-%d" % (vp.SEED, i)).build() for i in range(n)]
    cconf.conform(chk, cc, ps, name="mem", variants=cconf.V_SW if not vp.THOROUGH else cconf.V_ALL)
    chk.assumptions += ["qemu-user executes ARM and RISC-V code faithfully"]
