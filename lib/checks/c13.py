"""C13: ill-formed sources.  Grammar.tla (a pushdown automaton with scopes) and
Lex.tla decide which mutated sources are ill-formed; the compiler must refuse
those with a non-zero status, a diagnostic, and without creating or touching
the output file.  It must end normally on every source, well-formed or not."""
import json, os, random, re
import vp
from gen import RG
from checks.c12 import toks

TECHNIQUE = "TLA+ pushdown grammar with scopes (Grammar.tla) and tokenizer (Lex.tla) run by TLC as oracle over mutated sources; status, diagnostic and output file of the real compiler"
LEVEL = "model_checking"
NOTE = "TLC decides for every mutant (token deletion, insertion, replacement, swap, truncation, unknown names, character edits, directives) whether it is outside the grammar; the compiler must refuse exactly as prescribed and never crash or hang. Mutants are single or double edits of a set of base programs."

BASES = [
    """int g = 3; int h[4]; char c; typedef struct { int a; char b; int *q; } S; typedef enum { AA, B = 4, C } E;
    int f(int x, char *s, int *p) { return x + s[0] + p[1]; }
    int main() { int i; S s; S *t = &s; t->a = AA; s.b = 'x'; for (i = 0; i < 4; i++) { h[i] = i * B; if (i == 2) continue; } return f(g, "ab", h) + t->a; }""",
    """int f(int a, int b); int z; int main(int argc, char **argv) { int x = 1, y = 2; while (x < 10) { x += y; if (x > 5) break; else y++; } do { z--; } while (z > 0);
    switch (x) { case 1: y = 3; break; case 2: case 3: y <<= 2; break; default: y = -y; } return x > y ? f(x, y) : !x; } int f(int a, int b) { return a && b || ~a; }""",
    """struct P { int x; int y; }; int o(int v) { printf("%d\\n", v); return v; } int main() { int a[5]; int i = 0; int *p; p = a; a[0] = 1; p[1] = a[0] ^ 6;
    for (int j = 0; j < 3; j += 1) o(j % 2 == 0 ? a[1] >> 1 : sizeof(int)); { int i = 4; o(i--); } if (i) ; else { o(-1); o(*p); } o((i + 2) * (3 - i) / 5); return 0; }""",
    """void set(int *p, int v) { p[0] = v; } int sum(int n) { if (n <= 0) return 0; return n + sum(n - 1); } int twice(int x) { return x * 2; } int main() { int v; int (*fp)(int); set(&v, 7); fp = twice; char *s = "x" "y";
    v |= fp(3) & 1; while (1) { if (v != 0 && sum(3) >= 6) { break; } } exit(v); return 1; }""",
    """typedef int word; word w; int k = 1 + 2 * 3; int arr[2]; int idx(int i) { arr[i & 1] = i; return arr[i & 1]; } int main() { word q = 5; int r; r = q; for (;;) { r--; if (r < 0) break; switch (idx(r)) { case 0: w = 'a'; break; default: w++; } }
    do r++; while (r < 3); return r == 3 ? w : k; }""",
]
PUN = "[ ] ( ) { } . -> ++ -- & * + - ~ ! / % << >> < > <= >= == != ^ | && || ? : ; = += -= *= <<= , ...".split()
POOL = PUN + ["int", "if", "while", "for", "do", "else", "return", "case", "break", "default", "continue", "switch", "sizeof", "struct", "typedef", "enum", "0", "1", "'c'", '"s"', "zz", "main", "x", "i", "foo_undeclared"]


def kind(t):
    return "str" if t[0] == '"' else "chr" if t[0] == "'" else "num" if t[0].isdigit() else "id" if t[0].isalpha() or t[0] == "_" else "pun"


def mutants(r, ts, n):
    out = []
    names = sorted({t for t in ts if kind(t) == "id"})
    for i in range(len(ts)):                       # every single deletion
        out.append(("delete", ts[:i] + ts[i + 1:]))
    for _ in range(n):
        m = list(ts)
        k = r.random()
        i = r.randrange(len(m))
        if k < 0.25: m.insert(i, r.choice(POOL)); w = "insert"
        elif k < 0.45: m[i] = r.choice(POOL); w = "replace"
        elif k < 0.48:
            nums = [j for j, t in enumerate(m) if kind(t) == "num"]
            j = r.choice(nums) if nums else i
            m[j:j + 1] = [m[j], r.choice("/%"), r.choice(["0", "-1"])]; w = "divide"
        elif k < 0.53 and i + 1 < len(m): m[i], m[i + 1] = m[i + 1], m[i]; w = "swap"
        elif k < 0.61: m.insert(i, m[i]); w = "duplicate"
        elif k < 0.67: m = m[:i]; w = "truncate"
        elif k < 0.73: del m[i:i + r.randint(2, 5)]; w = "cut"
        elif k < 0.85:
            ids = [j for j, t in enumerate(m) if kind(t) == "id"]
            m[r.choice(ids)] = r.choice(["undeclared_name", "unknown", "zz9", r.choice(names)]); w = "rename"
        elif k < 0.93:
            j = r.randrange(len(m)); m[i], m[j] = m[j], m[i]; w = "exchange"
        else:
            for _ in range(2):
                i = r.randrange(len(m)); m[i] = r.choice(POOL + names)
            w = "double"
        out.append((w, m))
    return out


CH = "\"'\\/*#@$`0x89;{}()=&|<>.\n\x01\x7fe "


def char_mutants(r, text, n):
    out = []
    for _ in range(n):
        i = r.randrange(len(text))
        k = r.random()
        t = text[:i] + r.choice(CH) + text[i + (1 if k < 0.4 else 0):] if k < 0.8 else text[:i] + text[i + 1:]
        if r.random() < 0.15: t = t[:r.randrange(len(t))]
        out.append(t)
    lits = ["089", "08", "0x", "0xg", "12ab", "1x", "0778", "1_000", "0b1", "1e5", "'ab'", "''", "'\\q'", '"\\q"', "'a", '"abc', "@", "$", "`", "'\\x41'", "0X1F8Z", "9z", "0x1G", "00x1"]
    for l in lits:
        for m in re.finditer(r"\b\d+\b", text):
            if r.random() < 0.12: out.append(text[:m.start()] + l + text[m.end():])
        if '"' in l or "'" in l:
            m = re.search(r'"[^"]*"', text)
            if m: out.append(text[:m.start()] + l + text[m.end():])
    return out


DIRECTIVES = [   # (must be refused, lines); % marks the place of a base program
    (1, "#error stop\n%"), (1, "%\n#error end"), (1, "#if 1\n#error x\n#endif\n%"), (0, "#if 0\n#error x\n#endif\n%"),
    (1, "#ifdef A\n%"), (1, "#ifndef A\n%"), (1, "#if 1\n%"), (1, "#if 0\n%"), (1, "%\n#endif"), (1, "#endif\n%"), (1, "#else\n%"), (1, "#elif 1\n%"), (1, "#if 1\n#endif\n#endif\n%"),
    (1, "#if 1\n#if 1\n#endif\n%"), (1, "#if 0\n#if 0\n#endif\n%"), (1, "#if 1\n%\n#else"), (1, "#if 0\n#else\n%"), (1, "#unknown\n%"), (1, "#foo bar\n%"), (1, "#if (1\n#endif\n%"), (1, "#if 1 +\n\n#endif\n%"),
    (1, '#include "no-such-file.h"\n%'), (1, "/* unterminated\n%"), (1, "%/* unterminated"), (1, "#define A undeclared_thing\nint q() { return A; }\n%"),
    (1, "#ifdef A\n#error yes\n#else\n#error no\n#endif\n%"), (1, "#ifndef A\n#define A\n#endif\n#ifdef A\n#error yes\n#endif\n%"), (0, "#define A 1\n#ifndef A\n#error no\n#endif\n%"), (0, "#define E 5\n#undef E\n%"),
    (1, "#define A 1\n#if A == 1\n#error one\n#elif 1\n#endif\n%"), (0, "#define A 2\n#if A == 1\n#error one\n#elif A == 2\n#else\n#error other\n#endif\n%"),
    (1, "#define A 3\n#if A == 1\n#elif A == 2\n#else\n#error other\n#endif\n%"), (1, "#define F(x) ((x) + undeclared_thing)\nint q() { return F(1); }\n%"), (1, "#define F(x) ((x) + 1\nint q() { return F(1); }\n%"),
]
DIRECTIVES += [(1, "int q = %s;\n%%" % e) for e in ("5 / 0", "5 MODULO 0", "1 + 2 / 0", "3 / (0)")] + [(1, "#if %s\n#endif\n%%" % e) for e in ("1 / 0", "4 MODULO 0")]
DIRECTIVES += [(0, "int q() { if (0) return 5 / 0; return 1; }\n%"), (0, "int q() { int a = 0x80000000; return a > 0 ? a / -1 : 7 MODULO 1; }\n%"), (0, "int q = 0x80000000 / -1;\n%"), (0, "#if 0x80000000 / -1\n#endif\n%")]
OTHER = [(1, ""), (1, "int main("), (1, "int main() {"), (1, "int main() { return 0; "), (1, "}"), (1, ")"), (1, "x;"), (1, "main() { return 0; }"), (1, "int int x; int main() { return 0; }"), (1, "int x int y; int main() { return 0; }"),
         (1, "foo x; int main() { return 0; }"), (1, "int main() { foo x; return 0; }"), (1, "int f(foo x) { return 0; } int main() { return 0; }"), (1, "typedef foo bar; int main() { return 0; }"), (1, "int main() { return nothere(1); }"),
         (1, "int main() { return sizeof(foo); }"), (1, "int main() { x = 1; return 0; }"), (1, "int main() { x++; return 0; }"), (1, "int main() { return &x; }"), (1, "int main() { int a = b; return 0; }"), (1, "int main() { return a[1]; }"),
         (1, "int main() { { int a; } return a; }"), (1, "int main() { for (int i = 0; i < 3; i++) ; return i; }"), (1, "int f(int a) { return a; } int main() { return a; }"), (1, "int f() { int loc; return loc; } int main() { return loc; }"),
         (1, "int main() { if (1) { int q; } else { q = 1; } return 0; }"), (1, "int main() { return later; } int later;"), (1, "typedef struct { int a; } S; int main() { S s; return s.zz; }"), (1, "typedef struct { int a; } S; int main() { S s; S *t = &s; return t->zz; }")]


def check(chk):
    cc = vp.Compilers()
    r = random.Random(vp.SEED * 31337 + 13)
    k = 6 if vp.THOROUGH else 1
    srcs = []        # (kind, text, forced verdict or None)
    bases = [toks(b) for b in BASES]
    nb = len(bases)
    for i in range(2 * k):
        bases.append(toks("\n".join(l for l in RG(random.Random("c13-%d-%d" % (vp.SEED, i)), nfun=1, nstmt=3, depth=2).program().text().split("\n") if not l.startswith("#"))))
    for i, ts in enumerate(bases):
        srcs.append(("base", " ".join(ts), 0))
        ms = mutants(r, ts, (190 if i < nb else 60) * k)
        if i >= nb and len(ms) > 120 * k:
            ms = r.sample(ms, 120 * k)
        for w, m in ms: srcs.append((w, " ".join(m), None))
    for b in BASES:
        for t in char_mutants(r, b, 50 * k): srcs.append(("characters", t, None))
    for v, t in OTHER: srcs.append(("fixed", t, None))
    ndir = len(srcs)
    for v, t in DIRECTIVES:
        for b in (BASES if vp.THOROUGH else BASES[:2]): srcs.append(("directive", t.replace("%", b + "\n").replace("MODULO", "%"), v))
    # ---- Lex.tla, then Grammar.tla
    d = vp.sub("bad")
    st = []
    tokens = [None] * len(srcs)
    badlex = set()
    todo = [i for i in range(ndir)]

    def lex(c):
        f = os.path.join(d, "lex%d.json" % c)
        with open(f, "w") as h: json.dump([[ord(x) for x in srcs[i][1]] for i in todo[c:c + 500]], h)
        return c, vp.tlc("Lex", env={"SRCS": f}, workers=4)
    for c, t in vp.pmap(lex, range(0, len(todo), 500), 3):
        st.append(t)
        for x in t.lines:
            i = todo[c + x["p"] - 1]
            if x["k"] in ("bad", "dir", "nl"): badlex.add(i)     # no directive belongs in these sources
            elif x["k"] != "eof":
                if tokens[i] is None: tokens[i] = []
                tokens[i].append((x["a"], {"k": x["k"], "s": srcs[i][1][x["a"] - 1:x["e"] - 1]}))
    gr = [i for i in todo if i not in badlex]
    verdict = {i: (False, "a character sequence that is no token") for i in badlex}

    def gram(c):
        f = os.path.join(d, "gr%d.json" % c)
        with open(f, "w") as h: json.dump([[y for _, y in sorted(tokens[i] or [], key=lambda z: z[0])] for i in gr[c:c + 500]], h)
        return c, vp.tlc("Grammar", env={"TOKS": f}, workers=4)
    for c, t in vp.pmap(gram, range(0, len(gr), 500), 3):
        st.append(t)
        for x in t.lines:
            i = gr[c + x["p"] - 1]
            s = sorted(tokens[i] or [], key=lambda z: z[0])
            verdict[i] = (x["ok"], "" if x["ok"] else "token %d %r where the grammar needs %s" % (x["at"], s[x["at"] - 1][1]["s"] if x["at"] <= len(s) else "end", x["sym"]))
    if len(verdict) != ndir:
        raise vp.Infra("verdicts for %d of %d sources" % (len(verdict), ndir))
    for i in range(ndir):
        if srcs[i][2] == 0 and not verdict[i][0]:
            raise vp.Infra("Grammar.tla refuses a base program: %s\n%s" % (verdict[i][1], srcs[i][1]))
    for i in range(ndir, len(srcs)):
        verdict[i] = (not srcs[i][2], "a violated directive")
    # an empty source has no main: no claim
    cnt = {"refused": 0, "accepted_allowed": 0, "refused_allowed": 0}
    OLD = b"previous output\n" * 40

    def one(i):
        what, t, forced = srcs[i]
        ok, why = verdict[i]
        res = []
        for arch in (("arm", "riscv")[i % 2],) if not vp.THOROUGH else vp.ARCHS:
            b = os.path.join(d, "%d-%s" % (i, arch))
            with open(b + ".c", "wb") as f: f.write(t.encode("latin-1") + (b"" if t.endswith("\n") else b"\n"))
            pre = i % 3 == 0
            if pre:
                with open(b, "wb") as f: f.write(OLD)
            q = cc.compile(b + ".c", b, arch, timeout=10)
            there = os.path.exists(b)
            data = open(b, "rb").read() if there else None
            touched = (data != OLD) if pre else there
            if q.timeout: res.append((arch, "the compiler does not end"))
            elif q.rc < 0 or q.rc >= 126: res.append((arch, "the compiler ends with status %d: %s" % (q.rc, q.err[-100:].decode("latin-1"))))
            elif q.rc == 0 and not ok: res.append((arch, "accepted: %s" % why))
            elif q.rc == 0 and not touched: res.append((arch, "accepted without an executable"))
            elif q.rc and touched: res.append((arch, "refused, but the output file was written"))
            elif q.rc and not (q.out + q.err).strip(): res.append((arch, "refused without a diagnostic"))
            elif q.rc and forced == 0 and ok: res.append((arch, "a well-formed source is refused: %s" % (q.out + q.err)[-150:].decode("latin-1")))
            else: cnt["accepted_allowed" if q.rc == 0 else "refused" if not ok else "refused_allowed"] += 1
            for n in ("", ".c"):
                if os.path.exists(b + n): os.unlink(b + n)
        return i, res
    for i, res in vp.pmap(one, range(len(srcs))):
        if res:
            chk.violation("%s (%s): %s" % (srcs[i][0], ", ".join(x[0] for x in res), res[0][1]), {"source.c": srcs[i][1].encode("latin-1")})
    c = chk.cov
    c["states"] = sum(t.distinct for t in st)
    c["transitions"] = sum(t.states for t in st)
    c["sources"] = len(srcs)
    c["ill_formed"] = sum(1 for i in verdict if not verdict[i][0])
    c["traces_validated_against_impl"] = sum(cnt.values())
    c.update(cnt)
    c["samples"] = [{"source": srcs[j][1][-300:], "verdict": verdict[j][1] or "well-formed"} for j in (5, 60, 300, 700)]
    chk.assumptions += ["Grammar.tla accepts at least the supported language: a source it accepts may be refused (types and constraints are not modelled)"]
