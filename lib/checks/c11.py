"""C11: every short sequence of directives (enumerated by TLC) and random source
files with conditionals and macros are preprocessed by the specification PP.tla;
shecc must treat the file as the expanded one: same executable or, failing that,
same behaviour."""
import os, random
import json
import vp

TECHNIQUE = "TLA+ preprocessor state machine (PP.tla); TLC enumerates directive sequences and expands every source; conformance of shecc on the source with shecc on TLC's expansion"
NOTE = "All well-nested directive sequences of up to 6 (thorough: 7) directives, random files with conditionals nested 5 deep, condition expressions, object-like, function-like and variadic macros; bounded sizes. Meaning of macro-free code is C01-C09's subject."

PRE = ["int o(int x)", "{", 'printf("%d\\n", x);', "return x;", "}"]


def T(s):
    return s.split()


def text(s): return {"k": "text", "n": "", "fn": False, "va": False, "ps": [], "ts": T(s)}
def ln(k, n="", ts="", fn=False, va=False, ps=()):
    return {"k": k, "n": n, "fn": fn, "va": va, "ps": list(ps), "ts": T(ts)}


def render(l, r=None):
    k = l["k"]
    if k == "text": return l.get("raw") or " ".join(l["ts"])
    sp = (" " * r.choice([0, 0, 0, 1, 4])) if r else ""
    if k == "define":
        if l["fn"]:
            ps = list(l["ps"]) + (["..."] if l["va"] else [])
            return "%s#define %s(%s) %s" % (sp, l["n"], ", ".join(ps), " ".join(l["ts"]))
        return "%s#define %s %s" % (sp, l["n"], " ".join(l["ts"]))
    if k in ("undef", "ifdef", "ifndef"): return "%s#%s %s" % (sp, k, l["n"])
    if k in ("if", "elif"): return "%s#%s %s" % (sp, k, " ".join(l["ts"]))
    if k == "error": return "#error " + l["n"]
    return sp + "#" + k


# ------------------------------------------------------------ enumerated
def cond(r, want):
    """a condition that is true/false, or asks for A"""
    if want == "A":
        return r.choice(["defined ( A )", "! ! defined ( A )", "defined ( A ) || 0", "1 && defined ( A )", "defined ( A ) == 1"])
    t = ["1", "! 0", "1 || 0", "3 > 2", "2 >= 2", "( 1 )", "! ( 4 < 2 )", "1 + 1", "~ 0", "- 1", "0x10", "5 & 4", "6 ^ 3", "! NOPE", "1 == 1 && 2 != 3", "7 / 2 == 3",
         "1 << 3 == 8", "2 + 3 * 4 == 14", "( 2 + 3 ) * 4 == 20", "- 7 % 3 == - 1", "16 >> 2 == 4", "1 | 0"]
    f = ["0", "! 1", "0 && 1", "2 > 2", "2 < 2", "( 0 )", "! ( 2 <= 2 )", "1 - 1", "NOPE", "5 & 2", "3 ^ 3", "1 != 1", "0 || 0", "7 % 7", "~ 0 + 1", "2 + 3 * 4 == 20", "10 - 4 - 3 == 9",
         "1 == 2 || 3 == 4", "0 || 1 && 0", "! defined ( NOPE ) && 0", "0x0", "00"]
    return r.choice(t if want else f)


def enumerated(r, hs, per=60):
    progs = []
    for b in range(0, len(hs), per):
        ls = [text("int A = 55 ;")] + [text(x) for x in ()]
        ls += [text(x) for x in ("int o ( int x ) {", 'printf ( "%d\\n" , x ) ;', "return x ; }")]
        chunk = hs[b:b + per]
        for i, h in enumerate(chunk):
            ls.append(text("int t%d ( ) {" % i))
            k = 0
            a = None
            for d in [None] + h:
                if d == "define":
                    # only the same definition may be repeated
                    a = a or str(r.randint(1, 49))
                    ls.append(ln("define", "A", a))
                elif d == "undef":
                    # whether it is compiled or not, the next definition is the same
                    ls.append(ln("undef", "A"))
                elif d in ("ifdef", "ifndef"): ls.append(ln(d, "A"))
                elif d in ("if0", "if1", "elif0", "elif1"): ls.append(ln(d[:-1], "", cond(r, d[-1] == "1")))
                elif d == "elifA": ls.append(ln("elif", "", cond(r, "A")))
                elif d: ls.append(ln(d))
                k += 1
                ls.append(text(r.choice(["o ( %d ) ;", "o ( A + %d ) ;", "o ( %d + A ) ;"]) % (k * 100)))
            ls.append(ln("undef", "A"))
            ls.append(text("return 0 ; }"))
        ls.append(text("int main ( ) {"))
        ls += [text("t%d ( ) ;" % i) for i in range(len(chunk))]
        ls.append(text("return 0 ; }"))
        progs.append(ls)
    return progs


# ------------------------------------------------------------ random
class Rand:
    def __init__(self, r):
        self.r = r
        self.k = 0
        self.ls = []
        self.vars = ["v", "w", "a", "b"]
        self.obj = []            # object macro names ever used
        self.fns = {}            # function-like macros: name -> (number of params, va)
        self.maybe = set()       # names whose state depends on a condition

    def tag(self):
        self.k += 1
        return self.k

    def add(self, x):
        self.ls.append(x)

    def atom(self, d=2, macros=True):
        r = self.r
        m = r.random()
        if m < 0.35: return str(r.randint(0, 60))
        if m < 0.6 or not macros: return r.choice(self.vars)
        if m < 0.8 and self.obj: return r.choice(self.obj)
        if m < 0.95 and self.fns and d > 0:
            return self.call(d - 1)
        return r.choice(["'c'", "0x1f", "017", "f ( 3 )"])

    def expr(self, d=2, macros=True):
        r = self.r
        n = r.choice([1, 1, 2, 2, 3])
        s = self.atom(d, macros)
        for _ in range(n - 1):
            s += " %s %s" % (r.choice(["+", "-", "*", "&", "|", "^", "<", "==", "&&", "||", "+"]), self.atom(d, macros))
        if r.random() < 0.15: s = "( %s ) + 1" % s
        if r.random() < 0.08: s = "- ( %s )" % s
        return s

    def call(self, d):
        n = self.r.choice(sorted(self.fns))
        np = self.fns[n]
        if n in self.busy:
            return "7"
        self.busy.add(n)
        try:
            return "%s ( %s )" % (n, " , ".join(self.arg(d) for _ in range(np)))
        finally:
            self.busy.discard(n)
    busy = set()

    def arg(self, d):
        r = self.r
        m = r.random()
        if m < 0.3: return r.choice(self.vars)
        if m < 0.5: return str(r.randint(0, 99))
        if m < 0.6: return "g ( %s , %s )" % (r.choice(self.vars), r.randint(0, 9))
        if m < 0.65: return "v > 1 ? 2 : w"
        if m < 0.72: return "( v , )".replace(" , ", " + ").replace("+ )", "+ 1 )")
        return self.expr(d)

    def body(self, ps):
        """a macro body: parenthesised parameters, grouping left open"""
        r = self.r
        def at():
            m = r.random()
            if ps and m < 0.7: return "( %s )" % r.choice(ps)
            if m < 0.8: return r.choice([x for x in self.vars if x not in ps])
            if m < 0.9 and self.obj: return r.choice(self.obj)
            return str(r.randint(1, 9))
        s = at()
        for _ in range(r.choice([0, 1, 1, 2])):
            s += " %s %s" % (r.choice(["+", "-", "*", "^", "<", ">"]), at())
        m = r.random()
        if m < 0.6: return "( %s )" % s
        if m < 0.75 and len(ps) >= 1: return "( ( %s ) > 3 ? ( %s ) : ( %s ) )" % (ps[0], ps[-1], s)
        return s

    NUM = ["0", "1", "2", "7", "012", "0x2A", "255", "100"]
    CH = ["'c'", "'0'", "'\\n'", "'\\''", "'\"'", "'\\\\'"]
    STR = ['"x%d\\n"', '"%d"', '"\\"%d\\" #if\\n"', '"// %d /* \\n"', '""']

    def define(self):
        r = self.r
        m = r.random()
        if m < 0.55:
            k = r.randint(1, 6)
            n = "M%d" % k
            v = r.choice(self.NUM + self.CH[:3] + [r.choice(self.CH)] + ["w"] * 3 + ["M%d" % j for j in range(1, k)])
            self.add(ln("undef", n))
            self.add(ln("define", n, v))
        elif m < 0.8:
            n = r.choice(sorted(self.fns))
            ps = r.sample(["a", "b", "v", "p", "q"], self.fns[n])
            self.add(ln("undef", n))
            self.add(ln("define", n, self.body(ps), fn=True, ps=ps))
        elif m < 0.85:
            n = "S%d" % r.randint(1, 2)
            self.add(ln("undef", n))
            self.add(ln("define", n, r.choice(self.STR)))
        elif m < 0.92:
            self.add(ln("define", "E%d" % r.randint(1, 3)))
        else:
            self.add(ln("undef", "E%d" % r.randint(1, 3)))

    def cexpr(self, d=2):
        r = self.r
        if d == 0 or r.random() < 0.4:
            m = r.random()
            if m < 0.4: return str(r.randint(0, 12))
            if m < 0.6: return "defined ( %s )" % r.choice(["E1", "E2", "E3", "NOPE"] + self.obj + sorted(self.fns))
            if m < 0.7: return r.choice(["NOPE", "0x0A", "010"])
            if self.num: return r.choice(self.num)
            return "3"
        if r.random() < 0.2: return r.choice(["! ", "- ", "~ ", "+ "]) + self.cexpr(0)
        if r.random() < 0.25: return "( %s )" % self.cexpr(d - 1)
        s = self.cexpr(0)
        for _ in range(r.choice([1, 2, 2, 3])):
            o = r.choice(["+", "-", "*", "<", "<=", ">", ">=", "==", "!=", "&", "|", "^", "&&", "||"])
            s += " %s %s" % (o, self.cexpr(d - 1 if r.random() < 0.4 else 0))
        return s
    num = ()

    def group(self, depth, top, inner):
        r = self.r
        n = r.choice([1, 1, 2, 2, 3, 4])
        k = r.random()
        if k < 0.4: self.add(ln("if", "", self.cexpr()))
        else: self.add(ln(r.choice(["ifdef", "ifndef"]), r.choice(["E1", "E2", "E3", "NOPE"] + self.obj + sorted(self.fns))))
        inner(depth)
        for _ in range(n - 1):
            self.add(ln("elif", "", self.cexpr()))
            inner(depth)
        if r.random() < 0.6:
            self.add(ln("else"))
            inner(depth)
        self.add(ln("endif"))

    JUNK = ["this is not C at all", "int x x x ;", "} } } ( (", "return return", "undeclared_thing ( 1 , 2 ) ;", "/* #endif */ int q ;", "// #else", "1 2 3 4", '" #endif "',
            "{ { {", "int main ( ) { }", "#define v 77", "#undef M1", "#error no", "#define E1", "'#'", "a = \\\n  b ;"]

    def junk(self):
        # a group that is never compiled: nothing in it has an effect
        r = self.r
        self.add(ln("if", "", r.choice(["0", "NOPE", "defined ( NOPE )", "1 > 2"])))
        for _ in range(r.randint(1, 4)):
            j = r.choice(self.JUNK)
            l = text("junk")
            l["raw"] = j
            self.add(l)
        if r.random() < 0.3:
            self.add(ln("ifdef", "E1"))
            self.add(ln("else"))
            self.add(ln("endif"))
        self.add(ln("endif"))

    def stmt(self, depth):
        r = self.r
        m = r.random()
        if m < 0.45: self.add(text("o ( %d * 1000 + ( %s ) ) ;" % (self.tag(), self.expr())))
        elif m < 0.6: self.add(text("%s = %s ;" % (r.choice(self.vars), self.expr())))
        elif m < 0.66: self.add(text("if ( %s ) o ( %d ) ;" % (self.expr(), self.tag())))
        elif m < 0.7 and depth: self.add(text("PR ( \"%%d %%d\\n\" , %s , %s ) ;" % (self.expr(1), self.expr(1))))
        elif m < 0.715 and depth: self.add(text("printf ( S%d , %s ) ;" % (r.randint(1, 2), self.expr(1))))
        elif m < 0.735 and depth: self.add(text("PS ( %s ) ;" % self.expr(1)))
        elif m < 0.76: self.add(text("for ( w = 0 ; w < 3 ; w ++ ) { o ( %s ) ; }" % self.expr()))
        elif m < 0.79: self.junk()
        elif m < 0.88: self.define()
        elif depth > 0: self.group(depth - 1, False, self.block)
        else: self.add(text("o ( %d ) ;" % self.tag()))

    def block(self, depth):
        for _ in range(self.r.choice([0, 1, 1, 2, 3])):
            self.stmt(depth)

    def decls(self, depth):
        r = self.r
        for _ in range(r.choice([0, 1, 1, 2])):
            m = r.random()
            if m < 0.5: self.define()
            elif m < 0.6: self.junk()
            elif depth > 0: self.group(depth - 1, True, self.decls)

    def prog(self):
        r = self.r
        self.busy = set()
        for x in ("int v = 3 ;", "int w = 5 ;", "int a = 2 ;", "int b = 11 ;", "int o ( int x ) {", 'printf ( "%d\\n" , x ) ;', "return x ; }",
                  "int f ( int x ) { return x + 1 ; }", "int g ( int x , int y ) { return x * 3 - y ; }"):
            self.add(text(x))
        for i in range(1, 7):
            self.obj.append("M%d" % i)
            self.add(ln("define", "M%d" % i, r.choice(self.NUM + ["w"])))
        for i in (1, 2): self.add(ln("define", "S%d" % i, self.STR[i - 1]))
        for i in range(1, 6):
            ps = ["a", "b", "c"][:[1, 2, 1, 2, 3][i - 1]]
            n = "F%d" % i
            self.add(ln("define", n, self.body(ps), fn=True, ps=ps))
            self.fns[n] = len(ps)
        self.add(ln("define", "PR", "printf ( __VA_ARGS__ )", fn=True, va=True))
        self.add(ln("define", "PS", 'printf ( "<%d>\\n" , ( s ) )', fn=True, ps=["s"]))
        self.add(ln("define", "NA", "3"))
        self.add(ln("define", "NB", "0"))
        self.num = ["NA", "NB"]
        self.decls(3)
        # a function whose head depends on a condition
        self.add(ln("if", "", self.cexpr()))
        self.add(text("int h ( int x ) {"))
        self.add(text("o ( x ) ;"))
        self.add(ln("else"))
        self.add(text("int h ( int x ) {"))
        self.add(ln("endif"))
        for _ in range(r.randint(1, 4)): self.stmt(2)
        self.add(text("return x ; }"))
        self.add(text("int main ( ) {"))
        for _ in range(r.randint(5, 12)): self.stmt(4)
        self.add(text("h ( 4 ) ;"))
        self.add(text("return 0 ; }"))
        return self.ls


WORDS = ["a", "aa", "ab", "aba", "abb", "b", "ba", "A", "Ab", "AB", "a_", "_a", "a1", "a10", "a11", "a_b", "b1", "b10", "ab1", "ab10", "defined1", "define", "endif", "ifdef", "els", "elif", "undef",
         "iff", "whil", "inta", "returna", "i", "ii", "iii", "__a", "_", "__", "_1", "abab", "ababa", "B", "BA", "Ba", "NOP", "NOPEE", "includ", "error1", "x", "x1", "x10", "xx", "xX", "X", "Xx", "ifndef", "VA_ARGS"]
BOUND = ["v", "w", "a", "b", "c", "p", "q", "s", "x", "f", "g", "h", "o", "NOPE", "PR", "PS", "NA", "NB"] + ["%s%d" % (k, i) for k, n in (("M", 7), ("F", 6), ("E", 4), ("S", 3)) for i in range(1, n)]


def renamed(r, ls):
    """the same source with names which resemble each other"""
    keys = BOUND[:]
    r.shuffle(keys)
    m = dict(zip(keys, r.sample(WORDS, len(keys))))
    fs = lambda x: m.get(x, x)
    return [dict(l, n=fs(l["n"]), ps=[fs(x) for x in l["ps"]], ts=[fs(x) for x in l["ts"]]) for l in ls]


def numbers(ls):
    d = {}
    for l in ls:
        for t in l["ts"]:
            if t[0].isdigit():
                d[t] = int(t, 0) if not (t[0] == "0" and len(t) > 1 and t[1] in "01234567") else int(t, 8)
    return d


def flat(out):
    return "\n".join(" ".join(l) for l in out) + "\n"


def check(chk):
    cc = vp.Compilers()
    r = random.Random(vp.SEED * 7919 + 11)
    g = vp.tlc("PPGen", cfg="PPGen7" if vp.THOROUGH else "PPGen6")
    hs = sorted(g.lines)
    r.shuffle(hs)
    chk.cov["directive_sequences"] = len(hs)
    progs = [("sequences", p) for p in enumerated(r, hs)]
    for _ in range(1500 if vp.THOROUGH else 300):
        x = Rand(r).prog()
        progs.append(("random", renamed(r, x) if r.random() < 0.5 else x))
    d = vp.sub("pp")
    exp, st = {}, [g]
    CH = 400
    for c in range(0, len(progs), CH):
        f = os.path.join(d, "progs%d.json" % c)
        with open(f, "w") as h:
            json.dump([{"lines": [{k: v for k, v in l.items() if k != "raw"} for l in p], "num": dict(numbers(p), **{"0": 0, "1": 1})} for _, p in progs[c:c + CH]], h)
        t = vp.tlc("PP", env={"PROGS": f})
        st.append(t)
        for x in t.lines:
            exp[c + x["p"] - 1] = x
    if len(exp) != len(progs):
        raise vp.Infra("PP.tla expanded %d of %d sources" % (len(exp), len(progs)))
    cnt = {"identical": 0, "run": 0, "skipped": 0}

    def one(i):
        kind, ls = progs[i]
        q = random.Random(i)
        x = exp[i]
        src = "\n".join(render(l, q) for l in ls) + "\n"
        ref = flat(x["out"])
        res = []
        for arch in vp.ARCHS:
            b = os.path.join(d, "%d-%s" % (i, arch))
            for n, t in ((".c", src), ("x.c", ref)):
                with open(b + n, "w") as f:
                    f.write(t)
            if cc.compile(b + "x.c", b + "x", arch).rc != 0:
                cnt["skipped"] += 1
                continue
            a = cc.compile(b + ".c", b + "s", arch)
            if a.rc != 0 or not os.path.exists(b + "s"):
                res.append((arch, "the source is rejected: %s" % a.err[-300:].decode("latin-1"), src, ref))
            else:
                if open(b + "s", "rb").read() == open(b + "x", "rb").read():
                    cnt["identical"] += 1
                else:
                    cnt["run"] += 1
                    u, v = cc.exe(b + "s", arch), cc.exe(b + "x", arch)
                    if (u.rc, u.out, u.timeout) != (v.rc, v.out, v.timeout):
                        A, B = u.out.split(b"\n"), v.out.split(b"\n")
                        k = len(os.path.commonprefix([A, B]))
                        res.append((arch, "after %d outputs: expansion prints %s, the source %s" % (k, B[k:k + 3], A[k:k + 3]), src, ref))
            for n in (".c", "x.c", "x", "s"):
                if os.path.exists(b + n):
                    os.unlink(b + n)
        return i, res
    for i, res in vp.pmap(one, range(len(progs))):
        if res:
            arch, what, src, ref = res[0]
            chk.violation("%s source %d (%s): %s" % (progs[i][0], i, ", ".join(x[0] for x in res), what),
                          {"source.c": src, "expansion.c": ref})
    # arguments that only group by themselves (known finding)
    for arch in vp.ARCHS:
        b = os.path.join(d, "kf-" + arch)
        with open(b + ".c", "w") as f:
            f.write("#define TWICE(x) (x * 2)\nint main()\n{\n    return TWICE(3 + 4);\n}\n")
        if cc.compile(b + ".c", b, arch).rc == 0:
            u = cc.exe(b, arch)
            if u.rc == 14: chk.finding("C11-arg-grouping")
            elif u.rc != 11:
                chk.violation("TWICE(3 + 4) with #define TWICE(x) (x * 2) gives %d on %s, its expansion 11" % (u.rc, arch))
    c = chk.cov
    c["states"] = sum(t.distinct for t in st)
    c["transitions"] = sum(t.states for t in st)
    c["traces_validated_against_impl"] = cnt["identical"] + cnt["run"]
    c["sources"] = len(progs)
    c.update({"executables_" + k: v for k, v in cnt.items()})
    i = len(progs) - 1
    c["samples"] = [{"source": "\n".join(render(l) for l in progs[i][1])[:1500], "expansion": flat(exp[i]["out"])[:1500]}]
    if cnt["skipped"] > len(progs):
        raise vp.Infra("%d expansions were not compiled" % cnt["skipped"])
    chk.assumptions += ["shecc compiles the macro-free expansion as C prescribes (C01-C09)"]
