"""C22: the dumped first-phase IR executed by its own semantics (IRSem.tla),
against the source's semantics (CSem.tla) and the executable; and its static
discipline over every path (IRFlow.tla) for the library and the compiler too."""
import json, os, random
import vp, cconf, irdump, mcode
from gen import RG
from checks import c02, c03, c04, c05, c06, c07, c08, c09

TECHNIQUE = "TLA+ abstract machine of the intermediate representation (IRSem.tla) run by TLC on the dumps of the real compiler; its outcomes compared with those CSem.tla allows the source and with the executable; TLC explores every path of every dumped function backwards from each use (IRFlow.tla)"
NOTE = "Bounded number of generated programs; static discipline also for the embedded library and the compiler's own source. A dump is read as the README explains it: blocks scope names, an array's name is its address."


def programs(s, T):
    k = 8 if T else 1
    r = random.Random(s * 7919 + 22)
    ps = [RG(random.Random("c22-%d-%d" % (s, i)), nfun=3, nstmt=8, depth=3, locals=6).program() for i in range(16 * k)]
    ps += [c02.SE(random.Random("c22-02-%d-%d" % (s, i))).prog() for i in range(24 * k)]
    b = c03.systematic(r, 0.1)
    ps += c03.programs(r, b)[:40 * k] + c03.deep(r, 24 * k)
    ps += [c04.G(random.Random("c22-04-%d-%d" % (s, i))).program() for i in range(20 * k)]
    ps += [c05.G("c22-05-%d-%d" % (s, i)).build() for i in range(24 * k)]
    ps += [c07.G("c22-07-%d-%d" % (s, i)).build() for i in range(20 * k)]
    ps += [c09.MD("c22-09-%d-%d" % (s, i)).build() for i in range(8 * k)]
    ps += [c08.build("c22-08-%d-%d" % (s, i), f) for f in c08.G.FAM for i in range(3 * k)]
    return ps


def check(chk):
    cc = vp.Compilers()
    s, T = vp.SEED, vp.THOROUGH
    ps = programs(s, T)
    exp, bad, st = cconf.expected(ps, "ir")
    d = vp.sub("ir")

    def one(i):
        a = vp.ARCHS[i % 2]
        o = ["+m"] if i % 3 == 0 else []
        src, exe = os.path.join(d, "%d.c" % i), os.path.join(d, "%d.elf" % i)
        with open(src, "w") as f: f.write(ps[i].text())
        q = cc.compile(src, exe, a, ["--dump-ir"] + o)
        if q.rc != 0 or not os.path.exists(exe): return None
        with open(exe, "rb") as f: b = f.read()
        x = cc.exe(exe, a)
        dump = q.out.decode("latin-1")
        ad, of, sz = mcode.sections(b)[".data"]
        os.unlink(exe); os.unlink(src)
        try: ob = (tuple(int(v) for v in x.out.split()), x.rc)
        except ValueError: ob = None
        return a, o, dump, irdump.program(ps[i], dump, b[of:of + sz]), ob
    ix = sorted(exp)
    recs = dict(zip(ix, vp.pmap(one, ix)))
    miss = [i for i in ix if recs[i] is None]
    if len(miss) > len(ix) // 10:
        raise vp.Infra("%d of %d programs were not compiled" % (len(miss), len(ix)))
    ix = [i for i in ix if recs[i] and recs[i][3]]
    seen = {}
    CH = 400
    for c in range(0, len(ix), CH):
        p = os.path.join(d, "ir%d.json" % c)
        with open(p, "w") as f: json.dump([recs[i][3] for i in ix[c:c + CH]], f, separators=(",", ":"))
        t = vp.tlc("IRSem", env={"IRS": p}, heap="10g", timeout=3000 if T else 600)
        os.unlink(p)
        st.append(t)
        for x in t.lines: seen[ix[c + x["p"] - 1]] = x
    for i in ix:
        a, o, dump, z, ob = recs[i]
        x = seen.get(i)
        if x is None: raise vp.Infra("no outcome for program %d" % i)
        what = None
        if x["st"]["s"] == "fuel": continue
        if x["st"]["s"] == "undef":
            if x["st"]["why"] == "shape":
                what = "the dump is malformed: " + "; ".join(shape(z["fns"][g - 1]) for g in x["bad"])
            else:
                f = [f for f in z["fns"] if f["n"] == x["st"]["f"]][0]
                k = x["st"]["pc"]
                what = "the dump means nothing: %s in %s at %s" % (x["st"]["why"], f["n"], f["code"][k - 1] if k <= len(f["code"]) else "its end")
        else:
            got = (tuple(x["o"]), x["st"]["r"] & 255)
            if got not in exp[i]: what = "the dump does what the source does not: " + cconf.difference(exp[i], ("ran", got))
            elif ob is not None and got != ob: what = "the dump and the executable differ: dump %d values exit %d, executable %d values exit %d" % (len(got[0]), got[1], len(ob[0]), ob[1])
        if what:
            chk.violation("program %d [%s] on %s %s: %s" % (i, ps[i].tag, a, " ".join(o), what), {"prog.c": ps[i].text(), "dump.txt": dump[dump.find("def int @o("):dump.find("===")]})
    c = chk.cov
    c["states"] = sum(t.distinct for t in st)
    c["transitions"] = sum(t.states for t in st)
    c["programs"] = len(ix)
    c["traces_validated_against_impl"] = len(ix)
    c["ir_instructions"] = sum(len(f["code"]) for i in ix for f in recs[i][3]["fns"])
    c["observed_actions"] = sum(len(seen[i]["o"]) for i in ix)
    c["samples"] = [{"program": ps[ix[0]].text()[:1200], "dump": recs[ix[0]][2][-1500:]}]
    flow(chk, cc, d, [(ps[i].text(), recs[i][2]) for i in ix[::4 if not T else 1]])
    chk.assumptions += ["qemu-user executes ARM and RISC-V code faithfully"]


def shape(f):
    w = []
    if f["sig"] != f["wsig"]: w.append("declared %s, dumped %s" % (f["wsig"], f["sig"]))
    if f["decls"] != f["wdecls"]: w.append("variables %s, dumped %s" % (f["wdecls"], f["decls"]))
    if not f["bal"]: w.append("blocks do not nest")
    ls = [i["l"] for i in f["code"] if i["o"] == "label"]
    for l in sorted({l for l in ls if ls.count(l) > 1}): w.append("label %s is defined %d times" % (l, ls.count(l)))
    for i in f["code"]:
        for l in ([i["l"], i["m"]] if i["o"] == "br" else [i["l"]] if i["o"] == "j" else []):
            if l not in ls: w.append("label %s is not defined" % l)
    return f["n"] + ": " + ", ".join(w)


class Anything(dict):
    """names at file scope of a source whose declarations are not known here"""
    def __contains__(self, n): return not n.startswith(".t")
    def __getitem__(self, n): return 1


def flow(chk, cc, d, progs):
    T = vp.THOROUGH
    r = random.Random("c22-flow-%d" % vp.SEED)
    with open(os.path.join(cc.dir["arm"], "lib", "c.c"), encoding="latin-1") as f:
        variadic = set(vp.re.findall(r"(\w+)\([^(){}]*\.\.\.\)", f.read()))
    jobs = []      # (where, [function records], arity)

    def take(where, dump, pick, globs, sizes):
        fs = irdump.functions(dump)
        ar, out = {}, []
        for dl, ls in fs:
            z = irdump.decode(dl, ls, globs, sizes)
            if z is None: raise vp.Infra("definition not understood: %r" % dl)
            ar[z["n"]] = [z["n"], len(z["ps"]), z["n"] in variadic]
            if pick(z["n"]): out.append(z)
        for z in out:
            z["tmp"] = [i + 1 for i, n in enumerate(z["names"]) if n.startswith(".t") and i + 1 not in z["ps"]]
        jobs.append((where, out, list(ar.values())))
    for i, (text, dump) in enumerate(progs):
        last = []
        seen = False
        for dl, _ in irdump.functions(dump):
            n = vp.re.search(r"@(\w+)\(", dl).group(1)
            seen = seen or n == "o"
            if seen: last.append(n)
        take("program %d" % i, dump, (lambda n: True) if i == 0 else (lambda n, k=set(last): n in k), Anything(), {})
    for a in vp.ARCHS:
        q = vp.run(cc.cmd(a) + ["--dump-ir", "-o", os.path.join(d, "self"), "main.c"], cwd=os.path.join(cc.dir[a], "src"), timeout=120)
        if q.rc: raise vp.Infra("the compiler does not compile itself")
        dump = q.out.decode("latin-1")
        ns = [vp.re.search(r"@(\w+)\(", x).group(1) for x, _ in irdump.functions(dump)]
        k = set(ns if T else r.sample(ns, len(ns) // 2))
        take("the compiler for " + a, dump, lambda n: n in k, Anything(), {})
    sts, nf, ni, done = [], 0, 0, set()

    def run(ns):
        fs = []
        for n in ns:
            for z in jobs[n][1]:
                fs.append((jobs[n][0], z, n))
        p = os.path.join(d, "flow%d.json" % ns[0])
        with open(p, "w") as f:
            json.dump({"arity": [jobs[n][2] for n in ns],
                       "fns": [{"n": z["n"], "code": z["code"], "tmp": z["tmp"], "bal": z["bal"], "dump": ns.index(n) + 1} for _, z, n in fs]}, f, separators=(",", ":"))
        t = vp.tlc("IRFlow", env={"IRS": p}, heap="6g", timeout=3000 if T else 600)
        os.unlink(p)
        for x in t.lines:
            where, z, n = fs[x["f"] - 1]
            key = (where, z["n"], x["e"])
            if key in done: continue
            done.add(key)
            c = z["code"][x["pc"] - 1] if x["pc"] else {}
            chk.violation("dump of %s: function %s, instruction %d %s: %s" % (where, z["n"], x["pc"], " ".join("%s=%s" % kv for kv in c.items()), x["e"]),
                          {"function.json": json.dumps(z["code"])} | ({"prog.c": progs[n][0]} if n < len(progs) else {}))
        return t, len(fs), sum(len(z["code"]) for _, z, _ in fs)
    b = [list(range(i, min(i + 60, len(progs)))) for i in range(0, len(progs), 60)] + [[n] for n in range(len(progs), len(jobs))]
    for t, x, y in [run(q) for q in b]:
        sts.append(t)
        nf += x
        ni += y
    c = chk.cov
    c["states"] += sum(t.distinct for t in sts)
    c["transitions"] += sum(t.states for t in sts)
    c["functions_all_paths"] = nf
    c["instructions_all_paths"] = ni
    c["traces_validated_against_impl"] += nf
