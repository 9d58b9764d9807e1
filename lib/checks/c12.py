"""C12: tokens and constants.  Lex.tla scans every source and reports its tokens
and the values of its constants.  (a) A source in any layout must give the very
executable that the specification's tokens, joined by single blanks, give (or
be rejected like them).  (b) Programs that print constants, characters and the
bytes of string literals must print the values the specification computes."""
import json, os, random, re
import vp, cconf
from gen import RG
from checks import c01, c05, c07, c08

TECHNIQUE = "TLA+ tokenizer (Lex.tla) run by TLC over generated sources; its token stream and constant values against the real compiler"
LEVEL = "model_checking"
NOTE = "TLC scans each source in a random layout (glued where possible, comments of both kinds, splices, tabs, newlines); the executable must equal that of the canonical token stream; constants of every base and escape print the specified values. Bounded, randomised layouts."

TOK = re.compile(r'/\*[\s\S]*?\*/|//[^\n]*|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|[A-Za-z_]\w*|\d\w*|<<=|>>=|\.\.\.|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-*/%+&^|]=|[][(){}.&*+\-~!/%<>^|?:;=,]')


def toks(s):
    return [t for t in TOK.findall(s) if t[:2] not in ("/*", "//")]


COMMENTS = ["/**/", "/***/", "/* */", "/*a*/", "/* ** */", "/*/ */", "/* // */", "/* \" */", "/* ' */", "/* /* */", "/****/", "/* ; } */", "/* * / */", "/*\n*/",
            "/* x\n y */", "/*\\\n*/", "/*\n\n*\n**/", "/* #if 0 */"]
LINES = ["//\n", "// x\n", "// /*\n", "// */\n", "// \"\n", "// '\n", "///\n", "// ; }\n", "//*\n", "// a // b\n", "//\t\n", "//#endif\n", "// \\\n ) ; }\n", "// x\\\n\\\n\"\n"]


class Layout:
    def __init__(self, r, style):
        self.r, self.style = r, style

    def gap(self):
        r, s = self.r, self.style
        if s == "glue": return r.choice(["", "", "", "", "", "", " ", "\n"])
        if s == "lines": return "\n"
        k = r.random()
        if k < 0.25: return ""
        if k < 0.45: return r.choice([" ", "  ", "\t", " \t ", "     "])
        if k < 0.6: return r.choice(["\n", "\n\n", "\n ", " \n\t", "\n\n\n"])
        if k < 0.75: return r.choice(["", " "]) + r.choice(COMMENTS) + r.choice(["", " ", "\n"])
        if k < 0.85: return r.choice(["", " ", "\t"]) + r.choice(LINES) + r.choice(["", "  "])
        if k < 0.93: return r.choice(["\\\n", " \\\n", "\\\n ", "\\\n\\\n", " \\\n \\\n "])
        return r.choice(COMMENTS) + r.choice(COMMENTS + LINES)

    def text(self, ts):
        out, col = [], 0
        prev = None
        for t in ts:
            g = self.gap()
            if prev is not None:
                if toks(prev + g + t) != [prev, t]:
                    g = g + " " if toks(prev + g + " " + t) == [prev, t] else " "
                if (prev + g)[-1:] + t[:1] in ("//", "/*"):
                    g = " "
            col = col + len(g) if "\n" not in g else len(g) - g.rindex("\n")
            if col + len(t) > 190:
                g, col = "\n", 0
            out.append(g + t)
            col += len(t)
            prev = t
        return "".join(out) + self.r.choice(["", "\n", " ", "\n\n", "// end\n", "/* end */\n", "\n// end"]) + "\n"


class DirLayout(Layout):
    """sources with directives: splices and comments inside the directive lines"""

    def dgap(self):
        r = self.r
        k = r.random()
        if k < 0.3: return " "
        if k < 0.45: return r.choice(["  ", "\t", " \t ", "    "])
        if k < 0.65: return r.choice(["\\\n", " \\\n", "\\\n ", "\\\n\\\n", " \\\n \\\n "]) + " "
        if k < 0.9: return " " + r.choice([c for c in COMMENTS if "\n" not in c]) + " "
        return " " + r.choice([c for c in COMMENTS if "\n" not in c]) + " \\\n"

    def directive(self, ts):
        """ts[0] is the directive; a token that begins with \x01 is glued to the one before"""
        out, col = "", 0
        for i, t in enumerate(ts):
            g = "" if i == 0 or t[0] == "\x01" else self.dgap()
            out += g + t.lstrip("\x01")
            if len(out) - out.rfind("\n") > 120 and i + 1 < len(ts): out += " \\\n"
        r = self.r
        return out + r.choice(["", "", " ", "\t", " // x", " /* y */", " // /*", " /* a */ // b", "// *", "/**/", " \t "]) + "\n"

    def program(self, parts):
        """parts: ("d", tokens) or ("t", tokens)"""
        out = ""
        for k, ts in parts:
            if k == "t": out += self.text(ts)
            else: out += self.r.choice(["", "", " ", "\t", "\n", "/* */ ", "// x\n"]) + self.directive(ts)
        return out


def directives(r):
    ps = [("t", toks(HEAD))]
    names, fns = [], []
    for i in range(r.randint(3, 6)):
        n = "M%d" % i
        names.append(n)
        ps.append(("d", ["#define", n, number(r)]))
    for i in range(r.randint(1, 3)):
        fns.append(("F%d" % i, i % 3 + 1))
        a = ["a", "b", "c"][:i % 3 + 1]
        h = "\x01" + "("
        args = [h] + " , ".join(a).split() + [")"]
        body = ["(", "(", a[0], ")"]
        for x in a[1:]: body += [r.choice(["+", "-", "*"]), "(", x, ")"]
        body += [r.choice(["+", "-", "^"]), r.choice(["1", "0x1F", "017", "'a'"]), ")"]
        ps.append(("d", ["#define", "F%d" % i] + args + body))
    main = []
    for i in range(r.randint(4, 8)):
        k = r.random()
        n = r.choice(names)
        if k < 0.3:
            ps_cond = r.choice([["#if", n, r.choice(["==", ">", "<", "!="]), str(r.randint(0, 300))], ["#ifdef", r.choice([n, "ZZ"])], ["#ifndef", r.choice([n, "ZZ"])],
                                ["#if", "defined", "(", n, ")", "&&", n, ">", "010"], ["#if", "(", n, "+", "1", ")", "*", "2", ">=", "0x10", "||", "defined", "(", "ZZ", ")"]])
            main.append(("d", ps_cond))
            main.append(("t", toks("o ( %d ) ;" % i)))
            if r.random() < 0.4:
                main.append(("d", ["#elif", n, "<", "077"]))
                main.append(("t", toks("o ( %d ) ;" % (i + 50))))
            if r.random() < 0.6:
                main.append(("d", ["#else"]))
                main.append(("t", toks("o ( %d ) ;" % (i + 100))))
            main.append(("d", ["#endif"]))
        elif k < 0.5: main.append(("t", toks("o ( %s ) ;" % n)))
        elif k < 0.75:
            f, m = r.choice(fns)
            main.append(("t", toks("o ( %s ( %s ) ) ;" % (f, " , ".join(r.choice([str(j + 2), n, "( %d - 9 )" % j]) for j in range(m))))))
        elif k < 0.9:
            main.append(("d", ["#undef", n]))
            main.append(("d", ["#define", n, number(r)]))
        else: main.append(("t", toks("q ( %s ) ;" % string(r, 5))))
    return ps + [("t", toks("int main ( ) {"))] + main + [("t", toks("return 0 ; }"))]


def munch(r):
    """operators pressed together in every way: whatever the tokens are, the two forms must agree"""
    bins = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&", "||", "=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="]
    pre = ["", "-", "~", "!", "&", "*", "++", "--", "- -", "!!", "~-"]
    post = ["", "++", "--"]
    out = []
    for b in bins:
        for u in pre:
            for q in post:
                if r.random() > 0.35 and u not in ("-", "++", "--") and q == "": continue
                out.append("x" + q + b + u + "y")
    out += ["s.a+=1", "t->a++", "t->a->b", "x-->0", "x--->y", "x?y:3", "x?-1:~y", "x?y--:z++", "a[x]-a[y]", "a[x--]=1", "a[a[x]]", "x=-1", "x=!y", "x=~y", "x=&y",
            "x=y==z", "x=y<=z", "x=y!=-1", "x<-y", "x>-y", "x<!y", "x&&!y", "x&&&y", "x|||y", "x<<-1", "x>>>1", "x<<<1", "x===y", "x=+y", "x.y", "x...y", "1.a", "(x)+-(y)", "x+ +y",
            "x- -y", "x+ ++y", "x++ +y", "x/ *t2", "x%-3", "x/-3", "x^-1", "x|-1", "x&-1", "sizeof(int)*x", "sizeof(int)-x", "x*-y", "x**t2", "'a'+'b'", "'\"'+1", "'\\''-1", "x+'/'", "x-'*'/'/'"]
    return out


def wrap(e):
    return ("typedef struct { int a ; } S ; int o ( int v ) { printf ( \"%%d\\n\" , v ) ; return v ; } int a [ 9 ] ; int main ( ) { int x = 7 ; int y = 3 ; int z = 2 ; int * t2 ; S s ; S * t ; t = & s ; t2 = & y ; s . a = 4 ; " +
            "%s ; o ( x ) ; o ( y ) ; o ( z ) ; o ( s . a ) ; return 0 ; }" if re.search(r"[^=!<>]=[^=]|<<=|>>=|^\w+(\+\+|--)$|t->a\+\+", e) else
            "typedef struct { int a ; } S ; int o ( int v ) { printf ( \"%%d\\n\" , v ) ; return v ; } int a [ 9 ] ; int main ( ) { int x = 7 ; int y = 3 ; int z = 2 ; int * t2 ; S s ; S * t ; t = & s ; t2 = & y ; s . a = 4 ; " +
            "int r = %s ; o ( r ) ; o ( x ) ; o ( y ) ; o ( z ) ; return 0 ; }").replace("%%", "\0").replace("%s", e).replace("\0", "%")


# ---- (b) constants
def number(r):
    k = r.random()
    if k < 0.3: v = r.choice([0, 1, 7, 8, 9, 10, 15, 16, 63, 64, 99, 100, 127, 128, 255, 256, 511, 512, 999, 1000, 2047, 2048, 4095, 4096, 32767, 32768, 65535, 65536, 99999, 0x7ffff, 0x80000,
                              1000000, 0xffffff, 0x1000000, 123456789, 1000000000, 1999999999, 2147483646, 2147483647])
    else: v = r.getrandbits(r.randint(1, 31))
    k = r.random()
    if k < 0.35: return str(v)
    if k < 0.7:
        if r.random() < 0.3: v = v | 0x80000000 if r.random() < .5 else r.getrandbits(32)
        if r.random() < 0.25: v = int("".join(r.choice("0123456789abcdef") for _ in range(r.randint(1, 8))), 16)
        h = "%x" % v
        h = h if r.random() < 0.4 else h.upper() if r.random() < 0.5 else "".join(r.choice([c, c.upper()]) for c in h)
        return "0x" + "0" * r.choice([0, 0, 0, 1, 3]) + h
    if r.random() < 0.2: v = r.getrandbits(32)
    return "0" * r.choice([1, 1, 1, 2, 4]) + "%o" % v


ESC = ["\\n", "\\r", "\\t", "\\0", "\\\\", "\\'", '\\"']


def charc(r):
    k = r.random()
    if k < 0.4: c = r.choice(ESC)
    elif k < 0.9: c = chr(r.choice([x for x in range(32, 127) if x not in (39, 92)]))
    else: c = chr(r.randint(128, 255))
    return "'" + c + "'"


def string(r, n=None):
    n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 60]) if n is None else n
    pool = [x for x in ESC if x != "\\0"]
    out = []
    for _ in range(n):
        k = r.random()
        if k < 0.25: out.append(r.choice(pool))
        elif k < 0.35: out.append(r.choice(["/*", "*/", "//", "'", "#if", "  ", "%d", "??", "\t", ";"]))
        elif k < 0.93: out.append(chr(r.choice([x for x in range(32, 127) if x not in (34, 92)])))
        else: out.append(chr(r.randint(128, 255)))
    return '"' + "".join(out) + '"'


HEAD = "int o ( int v ) { printf ( \"%d\\n\" , v ) ; return 0 ; } int q ( char * s ) { int i = 0 ; while ( s [ i ] ) { o ( s [ i ] & 255 ) ; i ++ ; } o ( - 1 ) ; return i ; }"


def const_program(r):
    """prints constants: o ( constant ) , o ( name initialised with one ) and q ( string literal )"""
    gs, ms = [], []
    for i in range(r.randint(2, 5)):
        gs.append("int g%d = %s ;" % (i, number(r) if r.random() < 0.7 else charc(r)))
    for i in range(r.randint(0, 3)):
        gs.append("typedef enum { E%d = %s } T%d ;" % (i, r.choice(["0", "7", "010", "0x10", "0xFf", "0177", "12"]), i))
        ms.append("o ( E%d ) ;" % i)
    for i, g in enumerate(x for x in gs if x.startswith("int")): ms.append("o ( g%d ) ;" % i)
    for i in range(r.randint(8, 20)):
        k = r.random()
        if k < 0.35: ms.append("o ( %s ) ;" % number(r))
        elif k < 0.5: ms.append("o ( %s ) ;" % charc(r))
        elif k < 0.65: ms.append("int l%d = %s ; o ( l%d ) ;" % (i, number(r) if r.random() < 0.7 else charc(r), i))
        elif k < 0.75:
            t = r.choice(["0", "1", "07", "010", "0x10", "0xAb", "64", "'a'", "'\\n'", "'\\\\'", "'0'", "'\\0'", "'\\''", "'\"'"])
            ms.append("switch ( %s ) { case %s : o ( %s ) ; break ; default : o ( - 5 ) ; }" % (t, t, t))
        elif k < 0.8: ms.append("PR")
        else: ms.append("q ( %s ) ;" % string(r))
    if r.random() < 0.3: ms.append("q ( %s ) ;" % string(r, r.randint(61, 120)))
    return HEAD + " " + " ".join(gs) + " int main ( ) { " + " ".join(m for m in ms if m != "PR") + " return 0 ; }"


def outputs(src, ts):
    """the values a constant program prints, from the specification's tokens"""
    sp = [src[t["a"] - 1:t["e"] - 1] for t in ts]
    val = {}
    for i, t in enumerate(ts):
        if t["k"] in ("num", "chr") and sp[i - 1] == "=" and sp[i - 3] in ("int", "{"):
            val[sp[i - 2]] = t["v"][0]
    out, m = [], sp.index("main")
    i = m
    while i < len(ts):
        if sp[i] == "o" and sp[i + 1] == "(":
            t = ts[i + 2]
            if t["k"] in ("num", "chr"): out.append(t["v"][0])
            elif t["k"] == "id": out.append(val[sp[i + 2]])
            # "- 5" of a default branch is never printed
        elif sp[i] == "q" and sp[i + 1] == "(":
            out += ts[i + 2]["v"] + [-1]
        i += 1
    return out


def check(chk):
    cc = vp.Compilers()
    r = random.Random(vp.SEED * 104729 + 12)
    k = 8 if vp.THOROUGH else 1
    base = []
    for i in range(10 * k):
        base.append(RG(random.Random("c12-%d-%d" % (vp.SEED, i)), nfun=2, nstmt=6).program().text())
    for i in range(6 * k):
        base.append(c05.G("c12-05-%d-%d" % (vp.SEED, i)).build().text())
        base.append(c07.G("c12-07-%d-%d" % (vp.SEED, i)).build().text())
        base.append(c08.build("c12-08-%d-%d" % (vp.SEED, i), c08.G.FAM[i % len(c08.G.FAM)]).text())
    styles = ["glue", "mixed", "mixed", "lines"]
    srcs = []        # (kind, text as latin-1 str)
    for i, b in enumerate(base):
        ts = toks("\n".join(l for l in b.split("\n") if not l.startswith("#")))
        for s in styles[:3]:
            q = random.Random("%d-%s-%d" % (i, s, len(srcs)))
            srcs.append(("layout", Layout(q, s).text(ts)))
    mu = munch(r)
    r.shuffle(mu)
    for e in mu[:len(mu) if vp.THOROUGH else 160]:
        srcs.append(("munch", wrap(e) + "\n"))
    for i in range(60 * k):
        q = random.Random("c12-c-%d-%d" % (vp.SEED, i))
        ts = toks(const_program(q))
        srcs.append(("const", Layout(q, q.choice(["glue", "mixed", "plain"])).text(ts) if q.random() < 0.8 else " ".join(ts).replace(" ; ", " ;\n") + "\n"))
    for i in range(80 * k):
        q = random.Random("c12-d-%d-%d" % (vp.SEED, i))
        srcs.append(("directive", DirLayout(q, q.choice(["glue", "mixed", "plain"])).program(directives(q))))
    d = vp.sub("lex")
    got, sts = {}, []
    CH = 150
    def scan(c):
        f = os.path.join(d, "srcs%d.json" % c)
        with open(f, "w") as h:
            json.dump([[ord(x) for x in t] for _, t in srcs[c:c + CH]], h)
        return c, vp.tlc("Lex", env={"SRCS": f}, workers=4)
    for c, t in vp.pmap(scan, range(0, len(srcs), CH), 2):
        sts.append(t)
        for x in t.lines:
            got.setdefault(c + x["p"] - 1, []).append(x)
    nt = 0
    canon = {}
    for i, (kind, t) in enumerate(srcs):
        x = sorted(got[i], key=lambda y: (y["a"], y["e"]))
        nt += len(x)
        if x[-1]["k"] == "bad":
            raise vp.Infra("Lex.tla finds no token in generated source %d at %d: %r" % (i, x[-1]["a"], t[x[-1]["a"] - 1:][:60]))
        sp = [t[y["a"] - 1:y["e"] - 1] for y in x[:-1]]
        got[i] = x[:-1]
        lines, col = [], 0
        out = ""
        ind = 0
        for j, s in enumerate(sp):        # single blanks, a newline where a line would grow long
            y = x[j]
            if y["k"] == "dir":
                out, col, ind = out + ("\n" if col else "") + "#", 0, 1
                continue
            if y["k"] == "nl":
                out, col, ind = out + "\n", 0, 0
                continue
            if ind:                       # the name of a directive follows #, the ( of a macro its name
                ind += 1
                glue = ind == 2 or (ind == 4 and s == "(" and y["a"] == x[j - 1]["e"] and sp[j - 2] == "define")
                out += ("" if glue else " ") + s
                continue
            if col + len(s) > 120:
                out += "\n"
                col = 0
            out += s + " "
            col += len(s) + 1
        canon[i] = out + "\n"
    cnt = {"identical": 0, "both_rejected": 0, "ran": 0}

    def one(i):
        kind, t = srcs[i]
        res = []
        for arch in vp.ARCHS if kind == "const" or i % 4 == 0 else ("arm",) if i % 2 else ("riscv",):
            b = os.path.join(d, "%d-%s" % (i, arch))
            with open(b + ".c", "wb") as f: f.write(t.encode("latin-1"))
            with open(b + "x.c", "wb") as f: f.write(canon[i].encode("latin-1"))
            x = cc.compile(b + "x.c", b + "x", arch)
            a = cc.compile(b + ".c", b + "s", arch)
            okx, oka = x.rc == 0 and os.path.exists(b + "x"), a.rc == 0 and os.path.exists(b + "s")
            if kind != "munch" and not okx:
                res.append((arch, "the canonical token stream is rejected: %s" % x.out[-200:].decode("latin-1")))
            elif okx != oka:
                res.append((arch, "the source is %s, its canonical token stream is %s: %s" % (
                    "accepted" if oka else "rejected", "accepted" if okx else "rejected", (a if not oka else x).out[-200:].decode("latin-1"))))
            elif not okx:
                cnt["both_rejected"] += 1
            elif open(b + "x", "rb").read() != open(b + "s", "rb").read():
                res.append((arch, "the executable differs from the one of the canonical token stream"))
            else:
                cnt["identical"] += 1
                if kind == "const":
                    u = cc.exe(b + "s", arch)
                    want = outputs(t, got[i])
                    try: have = [int(v) for v in u.out.split()]
                    except ValueError: have = [u.out[:200]]
                    cnt["ran"] += 1
                    if have != want:
                        n = len(os.path.commonprefix([have, want]))
                        res.append((arch, "value %d: specification %s, printed %s (rc %s)" % (n + 1, want[n:n + 4], have[n:n + 4], u.rc)))
            for n in (".c", "x.c", "x", "s"):
                if os.path.exists(b + n): os.unlink(b + n)
        return i, res
    for i, res in vp.pmap(one, range(len(srcs))):
        if res:
            chk.violation("%s source %d on %s: %s" % (srcs[i][0], i, ", ".join(x[0] for x in res), res[0][1]),
                          {"source.c": srcs[i][1].encode("latin-1"), "canonical.c": canon[i].encode("latin-1")})
    # a NUL inside a string literal ends it (known finding)
    for arch in vp.ARCHS:
        b = os.path.join(d, "nul-" + arch)
        with open(b + ".c", "w") as f: f.write('int main()\n{\n    char *s = "ab\\0cd";\n    return s[4];\n}\n')
        if cc.compile(b + ".c", b, arch).rc == 0:
            u = cc.exe(b, arch)
            if u.rc == 0: chk.finding("C12-nul-string")
            elif u.rc != 100: chk.violation('s[4] of "ab\\0cd" is %d on %s' % (u.rc, arch))
    c = chk.cov
    c["states"] = sum(t.distinct for t in sts)
    c["transitions"] = sum(t.states for t in sts)
    c["tokens"] = nt
    c["sources"] = {kk: sum(1 for x in srcs if x[0] == kk) for kk in ("layout", "munch", "const", "directive")}
    c["traces_validated_against_impl"] = cnt["identical"] + cnt["both_rejected"]
    c.update({"executables_" + a: b for a, b in cnt.items()})
    c["samples"] = [{"source": srcs[3][1][:800], "canonical": canon[3][:400]}]
    chk.assumptions += ["shecc compiles the canonical (blank separated) token streams as C prescribes (C01-C09)"]
