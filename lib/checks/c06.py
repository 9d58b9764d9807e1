"""C06: initialisers of globals (random constant expressions), zero
initialisation, enum constants, sizeof, and visibility of stores to globals
across functions, also when globals lie far from the base register."""
import random
import vp, cconf, gen
from cprog import *

TECHNIQUE = "TLA+ C abstract machine (CSem.tla: file-scope initialisation, enums, sizeof) explored by TLC; conformance of compiled programs run under qemu"
NOTE = "Initialisers are the constant expressions shecc accepts (operators of the grammar, no parentheses around binary expressions). Trusts qemu-user and TLC."

CHARS = {"'a'": 97, "'Z'": 90, "'0'": 48, "'\\n'": 10, "'\\t'": 9, "' '": 32, "'~'": 126, "'\\\\'": 92, "'\\''": 39, "'\\0'": 0, "'\"'": 34}


def num(r, nz=False):
    m = r.random()
    if m < 0.12 and not nz:
        t = r.choice(list(CHARS))
        return L(CHARS[t], t)
    v = r.choice([r.randint(0, 9), r.randint(0, 99), r.randint(0, 70000), r.choice([1, 2, 4, 8, 16, 255, 256, 4096])])
    if nz and v == 0: v = 3
    if m < 0.25: return L(v, "0x%x" % v)
    if m < 0.35 and v < 0o7777: return L(v, "0%o" % v)
    if m < 0.45: return PAR(U("-", L(v))) if r.random() < 0.3 else U("-", L(v))
    return L(v)


def const_expr(r):
    n = r.choice([1, 1, 2, 2, 3, 3, 4, 5])
    es, ops = [num(r)], []
    shifted = False
    while len(es) < n:
        if shifted:
            op = r.choice(["==", "!=", "<", ">", "<=", ">=", "&&", "||"])
            shifted = False
        else:
            op = r.choice(["+", "-", "*", "/", "%", "+", "-", "<<", ">>", "==", "!=", "<", ">", "<=", ">=", "&&", "||"])
        if op in ("<<", ">>"):
            if any(o in ("*",) for o in ops): continue
            shifted = True
            es.append(L(r.randint(0, 12)))
        elif op in ("/", "%"):
            es.append(num(r, True))
        else:
            es.append(num(r))
        ops.append(op)
    e = F(es, ops) if ops else es[0]
    if r.random() < 0.15:
        c = B(r.choice(["<", "==", ">", "!="]), num(r), num(r)) if r.random() < 0.6 else L(r.randint(0, 1))
        e = COND(c, e if e["k"] != "cond" else num(r), num(r))
    return e


def inits(r):
    p = Prog(fuel=6000)
    bt = p.boolt()
    al = p.alias("num_t", INT)
    names = []
    enums = []
    for j in range(r.randint(1, 3)):
        ns, v = [], 0
        for k in range(r.randint(1, 7)):
            x = None
            if r.random() < 0.4:
                x = r.choice([r.randint(0, 20), r.randint(0, 70000), 0x7fffffff - 50])
            n = "%s%d_%d" % (r.choice(["E", "RED", "k"]), j, k)
            ns.append((n, x))
            enums.append(n)
        p.enum("en%d_t" % j, ns)
    S = p.struct("S_t", [("f%d" % i, r.choice([INT, CHAR, CHARP, p.arr(INT, r.randint(1, 5)), p.arr(CHAR, r.randint(1, 7))])) for i in range(r.randint(1, 6))])
    S2 = p.struct("N_t", [("a", S), ("b", CHAR), ("c", p.ptr(S))])
    for i in range(r.randint(8, 22)):
        n = "%s%d" % (r.choice(["g", "val_", "G"]), i)
        t = r.choice([INT, INT, INT, INT, al, CHAR, bt])
        if t == CHAR:
            init = L(r.randint(0, 127))
            if r.random() < 0.4: init = L(CHARS["'a'"], "'a'")
        elif t == bt:
            init = L(r.randint(0, 1))
        else:
            init = const_expr(r)
        if r.random() < 0.25: init = None
        p.glob(n, t, init)
        names.append(n)
    p.glob("arr", p.arr(INT, 5)), p.glob("st", S2), p.glob("ptr", p.ptr(INT))
    ss = [OUT(V(n)) for n in names + enums]
    ss += [OUT(SIZEOF(t)) for t in (INT, CHAR, bt, al, S, S2, CHARP, p.ptr(S), p.ptr(S2))]
    ss += [OUT(B(r.choice(["*", "+"]), SIZEOF(r.choice([S, S2])), L(r.randint(1, 9)))), OUT(IDX(V("arr"), L(r.randint(0, 4)))), OUT(MEM(V("st"), "b")),
           OUT(U("!", V("ptr")))]
    # pointer scaling agrees with sizeof
    ss += [DECL("loc", p.arr(S2, 3)), DECL("q", p.ptr(S2), V("loc")), EXPR(INC(V("q"), 1, True)), ASG(MEM(IDX(V("loc"), L(1)), "b"), L(r.randint(1, 99))),
           OUT(ARROW(V("q"), "b")), OUT(B("==", V("q"), ADDR(IDX(V("loc"), L(1)))))]
    # enum constants as labels
    lab = {}
    for j, d in enumerate(x for x in p.decls if x["k"] == "enum"):
        for n, v, _ in d["names"]:
            lab.setdefault(v, n)
    vs = r.sample(sorted(lab), min(len(lab), 4))
    p.func("sw", [("x", INT)], INT, BLOCK(SWITCH(V("x"), [CASE([v], [RET(L(500 + i))], txt=[lab[v]]) for i, v in enumerate(vs)] + [CASE([], [RET(L(1))], True)]), RET(L(2))))
    ss += [OUT(CALL("sw", V(n))) for n in enums[:6]]
    # globals keep the values stored, independently
    for n in r.sample(names, min(5, len(names))):
        ss += [ASG(V(n), L(r.randint(0, 1) if n not in [d["n"] for d in p.decls if d["k"] == "obj" and d["t"] in (INT, al)] else r.randint(-9999, 99999)))]
    ss += [OUT(V(n)) for n in names] + [RET(L(0))]
    p.func("main", [], INT, BLOCK(*ss))
    p.tag = "init"
    return p


class Far(gen.RG):
    """globals far from the base register, and shared by many functions"""
    def __init__(self, rng, pads, **kw):
        gen.RG.__init__(self, rng, **kw)
        self.pads = pads

    def program(self, tag=""):
        p, r = self.p, self.r
        names = []
        orig = p.glob

        def glob(n, t, init=None, txt=None):
            orig(n, t, init, txt)
            if self.pads:
                k = self.pads.pop()
                orig("pad%d" % k, p.arr(CHAR, k))
        p.glob = glob
        return gen.RG.program(self, tag)


def check(chk):
    cc = vp.Compilers()
    r = random.Random(vp.SEED * 7919 + 6)
    n = vp.THOROUGH
    ps = [inits(r) for _ in range(400 if n else 60)]
    for i in range(500 if n else 70):
        ps.append(Far(random.Random(r.random()), [], nglob=r.choice([4, 9, 20, 35]), nfun=6, nstmt=6, locals=1, depth=2, nargs=2, arrays=r.random() < 0.4, maxlocals=4).program("shared"))
    cconf.conform(chk, cc, ps, name="glob", variants=cconf.V_SW if not n else cconf.V_ALL)
    big = []
    for i in range(60 if n else 10):
        pads = r.choice([[2040, 2060], [4090, 1000], [1020, 1030, 2052, 300], [240, 250, 260], [2047 - 40, 60], [4096 - 60, 70]])
        big.append(Far(random.Random(r.random()), pads[:], nglob=6, nfun=2, nstmt=4, locals=1, depth=1, nargs=1, arrays=True, maxlocals=3, loops=False).program("far"))
    cconf.conform(chk, cc, big, name="far", variants=cconf.V_ALL)
    chk.assumptions += ["qemu-user executes ARM and RISC-V code faithfully"]
