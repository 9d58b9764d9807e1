"""C01: every operator, every operand form, boundary and random operand values."""
import random
import vp, cconf
from cprog import *
from gen import lit, IMIN

TECHNIQUE = "TLA+ C abstract machine (CSem.tla) explored by TLC; conformance of compiled programs run under qemu"
NOTE = 'exhaustive over operator x operand form x boundary operand pairs, random beyond; bounded, not a proof. Trusts qemu-user and TLC.'

BIN = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", "<=", ">", ">="]
CMPS = ["==", "!=", "<", "<=", ">", ">="]
CORE = [0, 1, -1, 2, 7, -8, 255, 4096, 65536, 0x7fffffff, IMIN, -0x7fffffff]
BOUND = [0, 1, -1, 2, -2, 3, 4, 5, 7, -7, 8, 10, 12, 15, 16, 24, 31, 32, 33, 63, 64, 100, 127, 128, -128, -129, 255, 256,
         257, -255, -256, 511, 1000, 1023, 1024, 2047, 2048, -2047, -2048, -2049, 4095, 4096, 4097, -4095, -4096, -4097,
         32767, 32768, -32768, 65535, 65536, 65537, -65536, 0x10001, 0xff00, 0xff0000, 0x7f000000, 0x55555555, 0x12345678,
         -0x12345678, 0x7ffff800, 0x7ffff7ff, 0x7ffffffe, 0x7fffffff, -0x7fffffff, IMIN, 0x40000000, -0x40000000,
         0x80000, 0xfffff, 0x100000, 0x1000000, 0xffffff]


def ok(op, a, b):
    if op in ("/", "%"): return b != 0 and not (a == IMIN and b == -1)
    if op in ("<<", ">>"): return 0 <= b <= 31
    return True


def values(r, n):
    out = []
    for _ in range(n):
        k = r.random()
        if k < 0.5: out.append(r.choice(BOUND))
        elif k < 0.6: out.append(r.randint(-20, 20))
        elif k < 0.7: out.append((1 << r.randint(0, 30)) * r.choice([1, -1]) + r.choice([-1, 0, 1]))
        else: out.append(r.randint(IMIN, 0x7fffffff))
    return [max(IMIN, min(0x7fffffff, v)) for v in out]


def pairs(r, op, n):
    ps = []
    if op in ("<<", ">>"):
        while len(ps) < n:
            ps.append((values(r, 1)[0], r.choice(list(range(32)) + [0, 1, 31, 16, 8])))
    else:
        core = [(a, b) for a in CORE for b in CORE if ok(op, a, b)]
        r.shuffle(core)
        ps = core[:n // 2]
        while len(ps) < n:
            a, b = values(r, 2)
            if r.random() < 0.1: b = a
            if op in ("/", "%") and r.random() < 0.3: b = r.choice([1, -1, 2, -2, 3, 7, 10, -10, 16, 1000])
            if ok(op, a, b): ps.append((a, b))
    return ps


def shell():
    p = Prog(fuel=60000)
    p.S = p.struct("S_t", [("c", CHAR), ("m", INT), ("n", INT)])
    p.PS = p.ptr(p.S)
    p.PI = p.ptr(INT)
    p.glob("ga", INT)
    p.glob("gb", INT, 77)
    p.glob("gt", p.arr(INT, 4))
    p.glob("gs", p.S)
    p.func("id", [("x", INT)], INT, BLOCK(RET(V("x"))))
    return p


def store(form, n, val):
    """statements putting val into an operand of this form; the operand"""
    if form == "param": return [], val
    if form == "local": return [DECL(n, INT, val)], V(n)
    if form == "glob": return [ASG(V("g" + n), val)], V("g" + n)
    k = 1 if n == "a" else 3
    if form == "arr": return [ASG(IDX(V("gt"), L(k)), val)], IDX(V("gt"), L(k))
    if form == "larr": return [ASG(IDX(V("la"), L(k)), val)], IDX(V("la"), L(k))
    if form == "deref": return [ASG(V("g" + n), val), DECL("p" + n, "PI", ADDR(V("g" + n)))], DEREF(V("p" + n))
    if form == "member": return [ASG(ARROW(V("s"), "m" if n == "a" else "n"), val)], ARROW(V("s"), "m" if n == "a" else "n")
    if form == "call": return [], CALL("id", val)
    raise ValueError(form)


FORMS = ["param", "local", "glob", "arr", "larr", "deref", "member", "call"]


def body_fix(p, ss):
    for s in ss:
        if s["k"] == "decl" and s["t"] == "PI":
            s["t"] = p.PI
    return ss


def progs(seed, scale=1):
    r = random.Random(seed)
    out = []

    def done(p, ss, tag):
        p.func("main", [], INT, BLOCK(*(ss + [RET(L(0))])))
        p.tag = tag
        out.append(p)

    # literal operands: folded by the compiler
    for op in BIN:
        for rep in range(scale):
            p = shell()
            ps = pairs(r, op, 40)
            gs = [[OUT(B(op, lit(a), lit(b)))] for a, b in ps[:20]]
            for i, (a, b) in enumerate(ps[20:]):
                gs.append([DECL("x%d" % i, INT, lit(a)), DECL("y%d" % i, INT, lit(b)),
                           OUT(B(op, V("x%d" % i), V("y%d" % i)))])
            fs = []
            for i in range(0, len(gs), 10):
                p.func("t%d" % i, [], INT, BLOCK(*(sum(gs[i:i + 10], []) + [RET(L(0))])))
                fs.append(EXPR(CALL("t%d" % i)))
            done(p, fs, "fold " + op)
    # every operand form on either side
    for op in BIN:
        combos = [(f, g) for f in FORMS for g in FORMS]
        r.shuffle(combos)
        combos = combos[:(16 if not vp.THOROUGH else 64)]
        for i in range(0, len(combos), 8):
            p = shell()
            for j, (f, g) in enumerate(combos[i:i + 8]):
                sa, a = store(f, "a", V("p"))
                sb, b = store(g, "b", V("q"))
                pre = []
                if "member" in (f, g): pre.append(DECL("s", p.PS, ADDR(V("gs"))))
                if "larr" in (f, g): pre.append(DECL("la", p.arr(INT, 4)))
                if f == "call" and g == "call":
                    pre.append(DECL("z", INT, a)); a = V("z")
                pre += sa + sb
                mid = r.random()
                ss = pre + [DECL("r", INT, B(op, a, b)), EXPR(CALL("o", V("r"))), RET(V("r"))]
                if mid < 0.4:
                    ss = pre + [RET(B(op, a, b))]
                p.func("t%d" % j, [("p", INT), ("q", INT)], INT, BLOCK(*body_fix(p, ss)))
            ss = []
            for j in range(len(combos[i:i + 8])):
                for a, b in pairs(r, op, 12 * scale):
                    ss.append(OUT(CALL("t%d" % j, lit(a), lit(b))))
            done(p, ss, "forms " + op)
    # one literal operand: immediates and strength reduction
    for op in BIN:
        for rep in range(2 * scale):
            p = shell()
            cs = r.sample(BOUND, 5) + values(r, 2)
            if op in ("<<", ">>"): cs = r.sample(range(32), 6) + [r.choice([0, 31])]
            if op in ("/", "%"): cs = [c for c in cs if c not in (0, -1)] + [2, r.choice([4, 8, 16, 64, 1024, 0x40000000])]
            for j, c in enumerate(cs):
                ss = [DECL("r", INT, B(op, V("p"), lit(c)))]
                if op in ("<<", ">>"):
                    v = values(r, 1)[0]
                    ss += [EXPR(CALL("o", B(op, lit(v), PAR(B("&", V("p"), L(31))))))]
                elif op in ("/", "%"):
                    ss += [EXPR(CALL("o", B(op, lit(c), PAR(B("+", PAR(B("&", V("p"), L(1023))), L(1))))))]
                else:
                    ss += [EXPR(CALL("o", B(op, lit(c), V("p"))))]
                p.func("t%d" % j, [("p", INT)], INT, BLOCK(*(ss + [RET(V("r"))])))
            ss = []
            vs = values(r, 10)
            for j in range(len(cs)):
                for a in vs: ss.append(OUT(CALL("t%d" % j, lit(a))))
            done(p, ss, "imm " + op)
    # special constants (what strength reduction and peephole rules look for) on either side, in
    # every position: returned, stored, the variable used again, assigned to itself
    SPECIAL = [0, 1, -1, 2, 3, 4, 8, 16, 31, 32, 255, 256, -2, -8, 1024, 0x40000000, IMIN, 0x7fffffff]
    for op in BIN:
        fs = []
        for c in SPECIAL:
            for side in ("l", "r"):
                for form in range(5):
                    if side == "r" and not ok(op, 5, c): continue
                    if not vp.THOROUGH and form > 1 and r.random() < 0.5: continue
                    fs.append((c, side, form))
        r.shuffle(fs)
        for i in range(0, len(fs), 44):
            p = shell()
            ss = []
            for j, (c, side, form) in enumerate(fs[i:i + 44]):
                e = B(op, lit(c), V("p")) if side == "l" else B(op, V("p"), lit(c))
                b = [[RET(e)], [DECL("r", INT, e), RET(V("r"))], [DECL("r", INT, e), EXPR(CALL("o", V("p"))), RET(B("^", V("r"), V("p")))],
                     [ASG(V("p"), e), EXPR(CALL("o", V("p"))), RET(V("p"))], [ASG(V("ga"), e), DECL("r", INT, B("+", V("p"), V("ga"))), IF(e, EXPR(CALL("o", V("r")))), RET(V("ga"))]][form]
                p.func("t%d" % j, [("p", INT)], INT, BLOCK(*b))
                vs = [x for x in [1, 2, -1, 77, 31, r.choice(BOUND), values(r, 1)[0]] if (ok(op, x, c) if side == "r" else ok(op, c, x))]
                for x in vs: ss.append(OUT(CALL("t%d" % j, lit(x))))
            done(p, ss, "special " + op)
    # compound assignment to every kind of object
    for op in BIN[:10]:
        for rep in range(scale):
            p = shell()
            p.func("tl", [("p", INT), ("q", INT)], INT, BLOCK(DECL("x", INT, V("p")), ASG(V("x"), V("q"), op), RET(V("x"))))
            p.func("tg", [("p", INT), ("q", INT)], INT, BLOCK(ASG(V("ga"), V("p")), ASG(V("ga"), V("q"), op), RET(V("ga"))))
            p.func("ta", [("p", INT), ("q", INT)], INT, BLOCK(
                ASG(IDX(V("gt"), L(2)), V("p")), ASG(IDX(V("gt"), L(1)), L(9)), ASG(IDX(V("gt"), L(3)), L(8)),
                ASG(IDX(V("gt"), L(2)), V("q"), op), EXPR(CALL("o", B("-", IDX(V("gt"), L(1)), IDX(V("gt"), L(3))))),
                RET(IDX(V("gt"), L(2)))))
            p.func("ts", [("p", INT), ("q", INT)], INT, BLOCK(
                DECL("s", p.PS, ADDR(V("gs"))), ASG(ARROW(V("s"), "m"), V("p")), ASG(ARROW(V("s"), "m"), V("q"), op),
                RET(ARROW(V("s"), "m"))))
            p.func("tp", [("p", INT), ("q", INT)], INT, BLOCK(ASG(V("p"), V("q"), op), EXPR(CALL("o", V("q"))), RET(V("p"))))
            ks = pairs(r, op, 3)
            for j, (a, b) in enumerate(ks):
                p.func("k%d" % j, [("p", INT)], INT, BLOCK(ASG(V("p"), lit(b), op), RET(V("p"))))
            ss = []
            for f in ("tl", "tg", "ta", "ts", "tp"):
                for a, b in pairs(r, op, 14): ss.append(OUT(CALL(f, lit(a), lit(b))))
            for j, (a, b) in enumerate(ks):
                for a2 in values(r, 5):
                    if ok(op, a2, b): ss.append(OUT(CALL("k%d" % j, lit(a2))))
            done(p, ss, "compound " + op)
    # comparisons as conditions (fused branches), negated, combined with constants
    for op in CMPS:
        for rep in range(scale):
            p = shell()
            I = lambda c: IF(c, BLOCK(ASG(V("r"), L(1))), BLOCK(ASG(V("r"), L(2))))
            p.func("ti", [("p", INT), ("q", INT)], INT, BLOCK(DECL("r", INT, L(0)), I(B(op, V("p"), V("q"))), RET(V("r"))))
            p.func("tn", [("p", INT), ("q", INT)], INT, BLOCK(DECL("r", INT, L(0)), IF(U("!", PAR(B(op, V("p"), V("q")))), ASG(V("r"), L(5))), RET(V("r"))))
            p.func("tw", [("p", INT), ("q", INT)], INT, BLOCK(DECL("r", INT, L(0)),
                   WHILE(B(op, V("p"), V("q")), BLOCK(ASG(V("r"), B("+", V("r"), L(1))), IF(B(">", V("r"), L(2)), BLOCK(BRK())))), RET(V("r"))))
            p.func("tq", [("p", INT), ("q", INT)], INT, BLOCK(RET(COND(B(op, V("p"), V("q")), B("+", V("p"), L(1)), V("q")))))
            p.func("tb", [("p", INT), ("q", INT)], INT, BLOCK(DECL("c", INT, B(op, V("p"), V("q"))), IF(V("c"), OUT(V("c"))), RET(B("*", V("c"), L(3)))))
            c = r.choice(BOUND)
            p.func("tk", [("p", INT), ("q", INT)], INT, BLOCK(IF(B(op, V("p"), lit(c)), RET(L(1))), IF(B(op, lit(c), V("q")), RET(L(2))), RET(L(3))))
            ss = []
            for f in ("ti", "tn", "tw", "tq", "tb", "tk"):
                for a, b in pairs(r, op, 18): ss.append(OUT(CALL(f, lit(a), lit(b))))
            done(p, ss, "cond " + op)
    # unary operators, ++ and --, loading every interesting constant
    for rep in range(scale):
        p = shell()
        p.func("neg", [("p", INT)], INT, BLOCK(RET(U("-", V("p")))))
        p.func("inv", [("p", INT)], INT, BLOCK(RET(U("~", V("p")))))
        p.func("nt", [("p", INT)], INT, BLOCK(RET(U("!", V("p")))))
        p.func("nn", [("p", INT)], INT, BLOCK(RET(U("!", U("!", V("p"))))))
        p.func("mi", [("p", INT)], INT, BLOCK(RET(U("-", U("~", V("p"))))))
        p.func("neg2", [("p", INT)], INT, BLOCK(ASG(V("ga"), V("p")), ASG(IDX(V("gt"), L(1)), V("p")),
               RET(B("^", U("-", V("ga")), U("~", IDX(V("gt"), L(1)))))))
        p.func("pi", [("p", INT)], INT, BLOCK(EXPR(INC(V("p"), 1, True)), RET(V("p"))))
        p.func("pd", [("p", INT)], INT, BLOCK(EXPR(INC(V("p"), -1, True)), RET(V("p"))))
        p.func("ri", [("p", INT)], INT, BLOCK(DECL("q", INT, INC(V("p"), 1, False)), RET(B("-", V("q"), V("p")))))
        p.func("rd", [("p", INT)], INT, BLOCK(DECL("q", INT, INC(V("p"), -1, True)), RET(B("-", V("q"), V("p")))))
        p.func("bl", [("p", INT)], INT, BLOCK(DECL("b", INT, B("&&", V("p"), L(1))), RET(B("+", V("b"), PAR(B("||", V("p"), L(0)))))))
        p.func("ch", [("p", INT)], INT, BLOCK(DECL("c", CHAR, B("&", V("p"), L(255))), RET(B("*", V("c"), L(257)))))
        ss = []
        for f in ("neg", "inv", "nt", "nn", "mi", "neg2", "pi", "pd", "ri", "rd", "bl", "ch"):
            for a in CORE + values(r, 14): ss.append(OUT(CALL(f, lit(a))))
        done(p, ss, "unary")
    for rep in range(scale):
        p = shell()
        vs = list(BOUND)
        for i in range(31):
            vs += [1 << i, (1 << i) - 1, -(1 << i)]
        vs += values(r, 30)
        if rep:
            vs = values(r, 150)
        ss = []
        for i in range(0, len(vs), 20):
            b = [OUT(lit(v)) for v in vs[i:i + 20]] + [RET(lit(vs[i]))]
            p.func("k%d" % i, [], INT, BLOCK(*b))
            ss.append(EXPR(CALL("k%d" % i)))
        done(p, ss, "constants")
    return out


def check(chk):
    cc = vp.Compilers()
    ps = progs(vp.SEED, 6 if vp.THOROUGH else 1)
    cconf.conform(chk, cc, ps, name="ops")
    chk.cov["operators"] = len(BIN) + 3 + 10
    chk.assumptions += ["qemu-user executes ARM and RISC-V code faithfully",
                        "signed overflow wraps (the property fixes two's complement)"]
