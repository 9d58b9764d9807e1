"""C14: every emitted file against Elf.tla: headers, segment, sections, names,
and the string literals at the addresses the code builds."""
import json, os, random
import vp
from gen import RG
from checks import c05, c07, c08, c12

TECHNIQUE = "TLA+ reader of ELF executables (Elf.tla) run by TLC over the files the compiler emits"
LEVEL = "model_checking"
NOTE = "TLC checks every requirement of Elf.tla (headers, segment, sections, names, symbols, address-building instruction pairs, string literals) on each emitted file: random programs with code and data of many sizes, both targets, +m, --no-libc. Bounded number of files; the code scan recognises movw/movt and lui/addi pairs."


def strings(r, n):
    """programs full of string literals of every length"""
    fs, lits, gl = [], [], []
    for i in range(r.randint(0, 4)):
        gl.append("int g%d[%d];" % (i, r.randint(1, 50)) if r.random() < .5 else "char h%d[%d];" % (i, r.randint(1, 9)))
    for i in range(n):
        k = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 13, 40, 100]) if r.random() < .8 else r.randint(0, 180)
        s = "".join(chr(r.choice([x for x in range(32, 127) if x not in (34, 92)])) for _ in range(k))
        if r.random() < .2: s += "\\n"
        lits.append(s)
    body = ""
    out = "".join(gl) + "\nint first(char *s) { return s[0]; }\n"
    i = 0
    while i < n:
        k = r.randint(1, 12)
        body = "".join("    t += first(\"%s\");\n" % s for s in lits[i:i + k])
        out += "int f%d(int t) {\n%s    return t;\n}\n" % (i, body)
        fs.append("f%d" % i)
        i += k
    out += "int main() {\n    int t = 0;\n" + "".join("    t = %s(t);\n" % f for f in fs) + "    return t;\n}\n"
    return out, [[ord(c) for c in s.replace("\\n", "\n")] for s in lits]


def check(chk):
    cc = vp.Compilers()
    r = random.Random(vp.SEED * 65537 + 14)
    k = 6 if vp.THOROUGH else 1
    jobs = []        # (source, strings, options)
    for i in range(45 * k):
        t, l = strings(r, r.choice([0, 1, 2, 3, 5, 8, 13, 30, 60, 120]))
        jobs.append((t, l, ["--no-libc"]))
    for i in range(4 * k):
        t, l = strings(r, 20)
        jobs.append((t, l, []))
        jobs.append((t, l, ["+m"]))
    for i in range(3 * k):
        jobs.append((RG(random.Random("c14-%d-%d" % (vp.SEED, i)), nfun=3, nstmt=8).program().text(), [[37, 100, 10]], []))
        jobs.append((c05.G("c14-05-%d-%d" % (vp.SEED, i)).build().text(), [[37, 100, 10]], ["+m"] if i % 2 else []))
        jobs.append((c07.G("c14-07-%d-%d" % (vp.SEED, i)).build().text(), [[37, 100, 10]], []))
    jobs.append(("int main() { return 0; }\n", [], ["--no-libc"]))
    jobs.append(("int main() { return 0; }\n", [], []))
    jobs.append(("".join("int f%d(int x) { return x * %d; }\n" % (i, i) for i in range(400)) + "int g(char *s) { return s[0]; }\nint main() { return g(\"far\"); }\n", [[102, 97, 114]], ["--no-libc"]))
    near = [i for i, (t, l, o) in enumerate(jobs) if l != [[37, 100, 10]]]   # the others contain arbitrary constants
    d = vp.sub("elf")
    work = [(i, a) for i in range(len(jobs)) for a in vp.ARCHS]

    def comp(x):
        i, a = x
        b = os.path.join(d, "%d-%s" % (i, a))
        with open(b + ".c", "w") as f: f.write(jobs[i][0])
        q = cc.compile(b + ".c", b, a, jobs[i][2])
        if q.rc != 0 or not os.path.exists(b): return None
        return open(b, "rb").read()
    files = vp.pmap(comp, work)
    st, bad = [], {}
    todo = [j for j in range(len(work)) if files[j] is not None]
    if len(todo) < len(work) * 0.9:
        raise vp.Infra("%d of %d programs were not compiled" % (len(work) - len(todo), len(work)))
    # chunks of similar total size
    chunks, size = [[]], 0
    for j in todo:
        if size + len(files[j]) > 700000:
            chunks.append([]); size = 0
        chunks[-1].append(j); size += len(files[j])

    def tlc(n):
        ch = chunks[n]
        p = os.path.join(d, "files%d.json" % n)
        with open(p, "w") as f:
            json.dump([{"b": list(files[j]), "arch": work[j][1], "strs": jobs[work[j][0]][1], "near": work[j][0] in near} for j in ch], f, separators=(",", ":"))
        t = vp.tlc("Elf", env={"FILES": p}, workers=4)
        os.unlink(p)
        return ch, t
    for ch, t in vp.pmap(tlc, range(len(chunks)), 3):
        st.append(t)
        for x in t.lines:
            bad[ch[x["f"] - 1]] = x
    for j, x in sorted(bad.items()):
        i, a = work[j]
        chk.violation("program %d on %s %s: %s: %s" % (i, a, " ".join(jobs[i][2]), x["part"], ", ".join(sorted(x["broken"]))),
                      {"source.c": jobs[i][0], "file.elf": files[j]})
    c = chk.cov
    c["states"] = sum(t.distinct for t in st)
    c["transitions"] = sum(t.states for t in st)
    c["traces_validated_against_impl"] = len(todo)
    c["files"] = len(todo)
    c["bytes"] = sum(len(files[j]) for j in todo)
    c["string_literals"] = sum(len(jobs[work[j][0]][1]) for j in todo)
    c["samples"] = [{"source": jobs[3][0][:500], "options": jobs[3][2], "size": len(files[6] or b"")}]
