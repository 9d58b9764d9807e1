"""C21: sources split over trees of files (all trees of Include.tla's generator)
must give the executable of the text Include.tla pastes together."""
import json, os, random
import vp
from gen import RG
from checks import c05, c07, c08, c11

TECHNIQUE = "TLA+ model of inclusion (Include.tla): TLC enumerates include trees and pastes the text of each; the real compiler must give both the same executable"
NOTE = "TLC enumerates all trees of 4 files (who includes whom, in which relative directory, at which place); generated sources are split over a sample of them at arbitrary line boundaries, TLC computes the pasted text, and the executables of tree and paste must be identical for both targets."


def boundaries(lines):
    """positions between lines which no comment, string or spliced line spans"""
    ok, c = [True], False
    for l in lines:
        i, q = 0, ""
        while i < len(l):
            if c:
                if l.startswith("*/", i): c, i = False, i + 1
            elif q:
                if l[i] == "\\": i += 1
                elif l[i] == q: q = ""
            elif l.startswith("//", i): break
            elif l.startswith("/*", i): c, i = True, i + 1
            elif l[i] in "\"'": q = l[i]
            i += 1
        ok.append(not c and not l.endswith("\\"))
    return ok


class Tree:
    def __init__(self, r, lines, shape):
        self.r, self.shape = r, shape
        self.ok = boundaries(lines)
        self.files = []           # [path components, [line or ("inc", path)]]
        self.n = 0
        # directories: the root lies deep enough for every ".."
        self.node(0, ["top", "a", "b", "c", "main.c"], lines, 0)

    def cuts(self, a, b, k):
        xs = [i for i in range(a, b + 1) if self.ok[i]]
        if not xs: return None
        return sorted(self.r.choice(xs) for _ in range(k))

    def rel(self, path, hop):
        r = self.r
        d = path[:-1]
        self.n += 1
        x = "f%d.%s" % (self.n, r.choice(["h", "c", "inc"]))
        if hop == "same": rel = [x]
        elif hop == "sub": rel = ["s%d" % self.n, x]
        elif hop == "up": rel = ["..", x]
        elif hop == "deep": rel = ["d%d" % self.n, "e-e", x]
        else: rel = ["..", "side%d" % self.n, x]
        q = list(d)
        for y in rel:
            if y == "..": q.pop()
            else: q.append(y)
        if r.random() < 0.15: rel = ["."] + rel
        if r.random() < 0.15: rel = ["..", d[-1]] + rel
        return rel, q

    def node(self, k, path, lines, base):
        """file k with text lines (whose first is number base of the whole)"""
        r = self.r
        kids = [i + 1 for i, x in enumerate(self.shape) if x["par"] == k]
        by = {w: [i for i in kids if self.shape[i - 1]["place"] == w] for w in ("start", "middle", "end")}
        order = by["start"] + ["own"] + by["middle"] + ["own"] + by["end"]
        cs = self.cuts(base, base + len(lines), len(order) - 1)
        me = [path, []]
        self.files.append(me)
        if cs is None:
            cs = [base] * (len(order) - 1)
        cs = [base] + cs + [base + len(lines)]
        for j, o in enumerate(order):
            seg = lines[cs[j] - base:cs[j + 1] - base]
            if o == "own": me[1] += seg
            else:
                rel, q = self.rel(path, self.shape[o - 1]["hop"])
                me[1].append(("inc", rel))
                self.node(o, q, seg, cs[j])


def repeats(r):
    """one file included again and again, under different macros"""
    names = ["STEP", "STEP2"]
    files = {"rep": ["e = STEP(e);"] + (["#ifdef MORE", "o(e);", "#endif"] if r.random() < 0.6 else []) + ([("inc", "rep2")] if r.random() < 0.5 else []),
             "rep2": ["o(e + %d);" % r.randint(1, 99)]}
    main = ["#include <stdio.h>", "int e = 1;", "void o(int x)", "{", "    printf(\"%d\\n\", x);", "}"]
    def seq():
        out = []
        for _ in range(r.randint(1, 4)):
            out += ["#undef STEP", "#define STEP(x) (x %s)" % r.choice(["* 3 + 1", "- 7", "+ x", "^ 85"])] if r.random() < 0.7 or not out else []
            if r.random() < 0.4: out += [r.choice(["#define MORE 1", "#undef MORE"])]
            out.append(("inc", "rep"))
        return out
    main += ["int f(int k)", "{"] + seq() + ["    return e + k;", "}", "int main()", "{"] + seq() + ["    o(f(3));"] + seq() + ["    return 0;", "}"]
    fs = [[["top", "a", "b", "c", "main.c"], main], [["top", "a", "b", "lib", "rep.h"], files["rep"]], [["top", "a", "b", "lib", "x", "rep2.h"], files["rep2"]]]
    path = {"rep": ["..", "lib", "rep.h"], "rep2": ["x", "rep2.h"]}
    for f in fs:
        f[1] = [("inc", path[l[1]]) if isinstance(l, tuple) else l for l in f[1]]
    return fs


def noise(r, lines):
    """lines that look like directives and are not, long lines"""
    ok = boundaries(lines)
    out, n = [], 0
    for i, l in enumerate(lines):
        if ok[i] and n < 4 and r.random() < 4.0 / (len(lines) + 1):
            n += 1
            k = r.random()
            if k < 0.45:
                pad = r.choice([255, 510, 254, 256, 300])
                t = "// " + "".join(r.choice("abc d") for _ in range(pad - 3)) + "#include \"nope.h\""
                out.append(t)
            elif k < 0.6: out += ["// not a directive \\", "#include \"nope.h\""]
            elif k < 0.8: out.append("/*" + " x" * r.randint(100, 300) + "*/")
            else: out.append("")
        out.append(l)
    return out


def directive(r, rel):
    p = "/".join(rel)
    d = r.choice(['#include "%s"'] * 5 + ['  #include "%s"', '\t#include "%s"', '#include"%s"', '#include   "%s"', '#include\t"%s"', '# include "%s"', '#\tinclude "%s"']) % p
    return d + r.choice([""] * 5 + [" ", " // comment", " /* comment */", "// " + "z" * 300, " /*" + " y" * 200 + "*/"])


def sources(s, k, trees):
    r = random.Random(s * 65521 + 21)
    out = []
    for i in range(150 * k):
        q = random.Random("c21-%d-%d" % (s, i))
        j = i % 8
        if j in (0, 1): t = RG(q, nfun=2, nstmt=6).program().text()
        elif j == 2: t = c05.G("c21-05-%d-%d" % (s, i)).build().text()
        elif j == 3: t = c07.G("c21-07-%d-%d" % (s, i)).build().text()
        elif j == 4: t = c08.build("c21-08-%d-%d" % (s, i), q.choice(c08.G.FAM)).text()
        else: t = "\n".join(c11.render(l, q) for l in c11.Rand(q).prog()) + "\n"
        ls = noise(q, t.split("\n")[:-1])
        out.append(("tree", Tree(q, ls, trees[r.randrange(len(trees))]).files))
    for i in range(30 * k):
        out.append(("repeated", repeats(random.Random("c21-r-%d-%d" % (s, i)))))
    for i in range(12 * k):      # one file of the tree is missing
        q = random.Random("c21-m-%d-%d" % (s, i))
        fs = Tree(q, RG(q, nfun=1, nstmt=4).program().text().split("\n")[:-1], trees[r.randrange(len(trees))]).files
        del fs[q.randrange(1, len(fs))]
        out.append(("missing", fs))
    return out


def check(chk):
    cc = vp.Compilers()
    k = 8 if vp.THOROUGH else 1
    g = vp.tlc("Include", "IncludeGen", env={"SOURCES": ""})
    trees = sorted((x["tree"] for x in g.lines), key=str)
    srcs = sources(vp.SEED, k, trees)
    d = vp.sub("inc")
    # ---- what TLC pastes together
    ids, text = {}, []

    def num(l):
        if l not in ids:
            ids[l] = len(text)
            text.append(l)
        return ids[l]
    js = [{"files": [{"path": p, "lines": [{"inc": l[1]} if isinstance(l, tuple) else {"id": num(l)} for l in ls]} for p, ls in fs]} for _, fs in srcs]
    p = os.path.join(d, "sources.json")
    with open(p, "w") as f: json.dump(js, f)
    t = vp.tlc("Include", env={"SOURCES": p})
    paste = {x["p"] - 1: x["text"] for x in t.lines}
    if len(paste) != len(srcs):
        raise vp.Infra("Include.tla read %d of %d sources" % (len(paste), len(srcs)))
    cnt = {"identical": 0, "both_rejected": 0, "missing_reported": 0}

    def one(i):
        kind, fs = srcs[i]
        r = random.Random("c21-one-%d-%d" % (vp.SEED, i))
        root = os.path.join(d, "t%d" % i)
        shown, res = {}, []
        for x, (path, ls) in enumerate(fs):
            f = os.path.join(root, *path)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            for l in ls:     # directories passed through
                if isinstance(l, tuple):
                    os.makedirs(os.path.normpath(os.path.join(os.path.dirname(f), *l[1][:-1])), exist_ok=True)
            c = "\n".join(directive(r, l[1]) if isinstance(l, tuple) else l for l in ls) + ("\n" if ls else "")
            if x and c and r.random() < 0.3 and not c.endswith("\\\n"): c = c[:-1]
            shown["/".join(path)] = c
            with open(f, "w") as h: h.write(c)
        want = paste[i]
        ref = "\n".join(text[j] for j in want) + "\n" if want != [-1] else None
        main = os.path.join(root, *fs[0][0])
        m = r.choice(["abs", "here", "rel"])
        cwd = {"abs": d, "here": os.path.dirname(main), "rel": os.path.join(root, "top")}[m]
        name = {"abs": main, "here": "main.c", "rel": "a/b/c/main.c"}[m]
        for a in vp.ARCHS:
            o, e = os.path.join(root, "tree-" + a), os.path.join(root, "paste-" + a)
            q = cc.compile(name, o, a, cwd=cwd)
            if ref is None:
                if q.rc == 0 or os.path.exists(o): res.append((a, "a missing file is not reported"))
                else: cnt["missing_reported"] += 1
                continue
            with open(os.path.join(root, "paste.c"), "w") as h: h.write(ref)
            z = cc.compile(os.path.join(root, "paste.c"), e, a)
            if z.rc != 0:
                if q.rc == 0: res.append((a, "the pasted text is refused, the tree is accepted"))
                else: cnt["both_rejected"] += 1
            elif q.rc != 0: res.append((a, "the tree is refused (%s), the pasted text is accepted" % (q.err or q.out)[-120:].decode("latin-1")))
            elif not os.path.exists(o) or open(o, "rb").read() != open(e, "rb").read():
                res.append((a, "the executables of the tree and of the pasted text differ"))
            else: cnt["identical"] += 1
        vp.shutil.rmtree(root, ignore_errors=True)
        if ref: shown["paste.c"] = ref
        return i, res, shown
    for i, res, shown in vp.pmap(one, range(len(srcs))):
        if res:
            chk.violation("%s source %d (%s): %s" % (srcs[i][0], i, ", ".join(x[0] for x in res), res[0][1]),
                          {n.replace("/", "_"): c for n, c in shown.items()})
    # ---- directives in places where C sees none (known findings)
    for fid, src in (("C21-in-comment", "/*\n#include \"nope.h\"\n*/\nint main()\n{\n    return 0;\n}\n"),
                     ("C21-skipped", "#if 0\n#include \"nope.h\"\n#endif\nint main()\n{\n    return 0;\n}\n")):
        f = os.path.join(d, "kf.c")
        with open(f, "w") as h: h.write(src)
        if cc.compile(f, f + ".elf", vp.ARCHS[0]).rc != 0:
            if chk.is_known(fid): chk.finding(fid)
            else: chk.violation("%s: a source that includes nothing is refused" % fid, {"source.c": src})
    c = chk.cov
    c["states"] = g.distinct + t.distinct
    c["transitions"] = g.states + t.states
    c["include_trees"] = len(trees)
    c["sources"] = len(srcs)
    c["traces_validated_against_impl"] = sum(cnt.values())
    c.update(cnt)
    c["samples"] = [{"files": {"/".join(p): [l if isinstance(l, str) else "include " + "/".join(l[1]) for l in ls][:12] for p, ls in srcs[5][1]}}]
    if cnt["identical"] < len(srcs):
        raise vp.Infra("only %d executables were compared" % cnt["identical"])
