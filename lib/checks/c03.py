"""C03: every nesting of two control constructs with every exit statement at
every place, and random deeper nestings; each point emits its own tag."""
import itertools, random
import vp, cconf
from cprog import *

TECHNIQUE = "TLA+ C abstract machine (CSem.tla) explored by TLC; conformance of compiled programs run under qemu"
NOTE = 'every outer x inner construct x exit statement x place systematically, random deeper nestings; bounded nesting depth 5. Trusts qemu-user and TLC.'

KINDS = ["if", "ifelse_t", "ifelse_e", "while", "do", "for", "for_i", "for_s", "for_c", "for_ever", "sw_first", "sw_mid",
         "sw_def", "sw_fall", "block", "elseif", "while_nb"]
LOOPS = ("while", "do", "for", "for_i", "for_s", "for_c", "for_ever", "while_nb")
SWITCHES = ("sw_first", "sw_mid", "sw_def", "sw_fall")


class Gen:
    def __init__(self, r):
        self.r = r
        self.tag = 0
        self.cnt = 0
        self.decls = []

    def t(self):
        self.tag += 1
        return OUT(L(self.tag))

    def tv(self, e):
        self.tag += 1
        return OUT(B("+", L(self.tag * 100), e))

    def counter(self):
        self.cnt += 1
        return "i%d" % self.cnt

    def cond(self):
        r = self.r
        m = r.random()
        p = V("p")
        if m < 0.25: return B("&", p, L(1))
        if m < 0.45: return B(r.choice(["<", ">", "<=", ">=", "==", "!="]), p, L(r.randint(0, 3)))
        if m < 0.55: return U("!", p)
        if m < 0.65: return p
        if m < 0.75: return F([B(">", p, L(0)), B("<", p, L(3))], [r.choice(["&&", "||"])])
        if m < 0.85: return CALL("c", p)
        if self.live: return B(r.choice(["==", ">", "!="]), V(r.choice(self.live)), L(r.randint(1, 2)))
        return L(r.randint(0, 1))

    live = ()

    def bl(self, ss, force=True):
        return BLOCK(*ss)

    def wrap(self, kind, inner):
        """construct `kind` around the statements produced by inner(inloop, insw)"""
        r = self.r
        live = self.live
        if kind == "if":
            return [IF(self.cond(), BLOCK(*inner())), self.t()]
        if kind == "ifelse_t":
            return [IF(self.cond(), BLOCK(*inner()), BLOCK(self.t())), self.t()]
        if kind == "ifelse_e":
            return [IF(self.cond(), BLOCK(self.t()), BLOCK(*inner())), self.t()]
        if kind == "elseif":
            return [IF(self.cond(), BLOCK(self.t()), IF(self.cond(), BLOCK(*inner()), BLOCK(self.t()))), self.t()]
        if kind == "block":
            return [BLOCK(*([DECL(self.counter() + "b", INT, V("p"))] + inner())), self.t()]
        if kind in SWITCHES:
            def br(): return [BRK()] if r.random() < 0.75 else []
            x = inner()
            e = r.choice([V("p"), B("&", V("p"), L(3)), B("+", V("p"), L(1)), CALL("c", V("p"))])
            cs = [0, 1, 2, 3, 4]
            r.shuffle(cs)
            if kind == "sw_first": cases = [CASE([cs[0]], x + br()), CASE([cs[1]], [self.t()] + br()), CASE([], [self.t()], True)]
            elif kind == "sw_mid": cases = [CASE([cs[0]], [self.t()] + br()), CASE([cs[1]], x + br()), CASE([cs[2]], [self.t()])]
            elif kind == "sw_fall": cases = [CASE([cs[0], cs[1]], x), CASE([cs[2]], [self.t()]), CASE([cs[3]], [self.t(), BRK()]), CASE([], [self.t(), BRK()], True)]
            else: cases = [CASE([cs[0]], [self.t()] + br()), CASE([], x + br(), True)]
            return [SWITCH(e, cases), self.t()]
        i = self.counter()
        n = r.choice([1, 2, 2, 3])
        self.live = list(live) + [i]
        x = inner()
        self.live = live
        lt = B("<", V(i), L(n))
        if kind == "while":
            return [DECL(i, INT, L(0)), WHILE(lt, BLOCK(ASG(V(i), B("+", V(i), L(1))), *x)), self.tv(V(i))]
        if kind == "while_nb":
            return [DECL(i, INT, L(0)), WHILE(B("<", INC(V(i), 1, r.random() < 0.5), L(n)), BLOCK(*x)), self.tv(V(i))]
        if kind == "do":
            return [DECL(i, INT, L(0)), DO(BLOCK(EXPR(INC(V(i), 1, True)), *x), lt), self.tv(V(i))]
        if kind == "for":
            if r.random() < 0.3:
                k = "q" + i
                ds = [DECL(i, INT, L(0)), DECL(k, INT, L(n))]
                if r.random() < 0.5: ds.append(DECL("r" + i, INT, B("+", V(k), V(i))))
                return [FOR(DECLS(*ds), B("<", V(i), V(k)), EXPR(INC(V(i), 1, r.random() < 0.5)), BLOCK(*x)), self.t()]
            return [FOR(DECL(i, INT, L(0)), lt, EXPR(INC(V(i), 1, r.random() < 0.6)), BLOCK(*x)), self.t()]
        if kind == "for_i":
            return [DECL(i, INT, L(0)), FOR(None, lt, ASG(V(i), L(1), "+"), BLOCK(*x)), self.tv(V(i))]
        if kind == "for_s":
            return [DECL(i, INT), FOR(ASG(V(i), L(n)), B(">", V(i), L(0)), None, BLOCK(EXPR(INC(V(i), -1, True)), *x)), self.tv(V(i))]
        if kind == "for_c":
            return [DECL(i, INT), FOR(ASG(V(i), L(0)), None, EXPR(INC(V(i), 1, True)),
                                      BLOCK(IF(B(">=", V(i), L(n)), BLOCK(BRK())), *x)), self.tv(V(i))]
        if kind == "for_ever":
            return [DECL(i, INT, L(0)), FOR(None, None, None, BLOCK(IF(B(">=", V(i), L(n)), BRK()), ASG(V(i), B("+", V(i), L(1))), *x)), self.tv(V(i))]
        raise ValueError(kind)

    def exits(self, inloop, insw):
        ex = ["none", "return"]
        if inloop or insw: ex.append("break")
        if inloop: ex.append("continue")
        return ex

    def exit(self, x):
        return {"return": RET(L(900 + self.tag)), "break": BRK(), "continue": CONT(), "none": EMPTY()}[x]

    def leaf(self, x, place, guard):
        """statements with the exit x at the given place"""
        e = self.exit(x)
        if guard:
            e = IF(self.cond(), e if self.r.random() < 0.5 else BLOCK(e))
            if self.r.random() < 0.3:
                e["b"] = BLOCK(self.t())
        ss = [self.t(), self.t()]
        ss.insert(place, e)
        return ss


def compact(n, r):
    """drop the braces of some single-statement bodies"""
    if isinstance(n, dict):
        for k in ("a", "b"):
            x = n.get(k)
            if n.get("k") in ("if", "while", "do", "for") and isinstance(x, dict) and x.get("k") == "block" and len(x["ss"]) == 1 \
                    and x["ss"][0]["k"] not in ("decl", "if") and r.random() < 0.5:
                n[k] = x["ss"][0]
        for v in list(n.values()):
            compact(v, r)
    elif isinstance(n, list):
        for v in n:
            compact(v, r)
    return n


def systematic(r, frac):
    bodies = []
    for k1 in KINDS:
        for k2 in KINDS:
            inl = k1 in LOOPS or k2 in LOOPS
            ins = k1 in SWITCHES or k2 in SWITCHES
            g = Gen(r)
            for x in g.exits(inl, ins):
                for place in ((0, 1, 2) if x != "none" else (0,)):
                    for guard in ((True, False) if x != "none" else (False,)):
                        if r.random() < frac:
                            bodies.append((k1, k2, x, place, guard))
    r.shuffle(bodies)
    return bodies


def programs(r, bodies, per=14):
    ps = []
    for i in range(0, len(bodies), per):
        p = Prog(fuel=30000)
        p.func("c", [("q", INT)], INT, BLOCK(OUT(B("+", L(7000), V("q"))), RET(B("%", V("q"), L(3)))))
        ss = []
        for j, (k1, k2, x, place, guard) in enumerate(bodies[i:i + per]):
            g = Gen(r)
            outer = lambda: [g.t()] + g.wrap(k2, lambda: g.leaf(x, place, guard))
            body = [g.t()] + g.wrap(k1, outer) + [RET(B("+", V("p"), L(50)))]
            p.func("t%d" % j, [("p", INT)], INT, compact(BLOCK(*body), r))
            for v in (0, 1, 2, 3):
                ss.append(OUT(CALL("t%d" % j, L(v))))
        p.func("main", [], INT, BLOCK(*(ss + [RET(L(r.randint(0, 9)))])))
        p.tag = "nest"
        ps.append(p)
    return ps


def deep(r, n):
    ps = []
    for _ in range(n):
        p = Prog(fuel=60000)
        p.func("c", [("q", INT)], INT, BLOCK(OUT(B("+", L(7000), V("q"))), RET(B("%", V("q"), L(3)))))
        ss = []
        for j in range(5):
            g = Gen(r)

            def tree(d, inl, ins):
                out = []
                for _ in range(r.choice([1, 1, 2, 2, 3])):
                    if d > 0 and r.random() < 0.75:
                        k = r.choice(KINDS)
                        out += g.wrap(k, lambda: tree(d - 1, inl or k in LOOPS, ins or k in SWITCHES))
                    else:
                        m = r.random()
                        if m < 0.4: out.append(g.t())
                        elif m < 0.55: out.append(ASG(V("w"), r.choice([V("p"), L(1), B("*", V("w"), L(3))]), "+"))
                        else: out += g.leaf(r.choice(g.exits(inl, ins)), r.choice([0, 1, 2]), r.random() < 0.8)
                return out
            body = [DECL("w", INT, L(1))] + tree(4 if g.r.random() < 0.3 else 3, False, False) + [g.tv(V("w")), RET(B("+", V("w"), V("p")))]
            if g.cnt > 14 or g.tag > 60: continue
            p.func("t%d" % j, [("p", INT)], INT, compact(BLOCK(*body), r))
            for v in (0, 1, 2, 3):
                ss.append(OUT(CALL("t%d" % j, L(v))))
        if not ss: continue
        p.func("main", [], INT, BLOCK(*(ss + [RET(L(0))])))
        p.tag = "deep"
        ps.append(p)
    return ps


def check(chk):
    cc = vp.Compilers()
    r = random.Random(vp.SEED * 7919 + 3)
    b = systematic(r, 1.0 if vp.THOROUGH else 0.5)
    chk.cov["nestings"] = len(b)
    chk.cov["nestings_distinct_pairs"] = len({x[:2] for x in b})
    ps = programs(r, b) + deep(r, 600 if vp.THOROUGH else 80)
    cconf.conform(chk, cc, ps, name="ctl", variants=cconf.V_SW if not vp.THOROUGH else cconf.V_ALL)
    chk.assumptions += ["qemu-user executes ARM and RISC-V code faithfully"]
