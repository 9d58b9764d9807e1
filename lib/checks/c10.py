"""C10: sessions of the real compilers (stage 0, 1 and 2, both targets) drawn
from Stages.tla, recorded and validated against it: what a compilation leaves in
its output file is a function of the program and the code-generation options."""
import json, os, random
import vp
from gen import RG
from checks import c01, c02, c03, c04, c05, c06, c07, c08, c09, c11, c12, c13, c14, c18, c21

TECHNIQUE = "TLA+ model of compilation sessions (Stages.tla): TLC generates histories over stages, directories, environments, previous contents, argument orders and IR dumps; recorded sessions of all three stages are validated against it"
NOTE = "Every generated program passes through stages 0, 1 and 2 of both targets in TLC-generated sessions; all outputs of one program with the same options must be the same bytes. Finite set of programs (generated from every other property's generator, and the compiler itself)."


def sources(s, n):
    r = random.Random(s * 31 + 10)
    out = []
    for i in range(n):
        k = i % 12
        o = r.choice([[], [], ["+m"]])
        q = random.Random("c10-%d-%d" % (s, i))
        if k in (0, 1): t = RG(q, nfun=3, nstmt=7).program().text()
        elif k == 2: t = c05.G("c10-05-%d-%d" % (s, i)).build().text()
        elif k == 3: t = c07.G("c10-07-%d-%d" % (s, i)).build().text()
        elif k in (4, 5): t = c08.build("c10-08-%d-%d" % (s, i), q.choice(c08.G.FAM)).text()
        elif k == 6: t = "\n".join(c11.render(l, q) for l in c11.Rand(q).prog()) + "\n"
        elif k == 7: t = c12.Layout(q, q.choice(["glue", "mixed", "plain"])).text(c12.toks(c12.const_program(q)))
        elif k == 8: t = c12.DirLayout(q, q.choice(["glue", "mixed", "plain"])).program(c12.directives(q))
        elif k == 9: t, o = c14.strings(q, q.choice([3, 20, 60]))[0], ["--no-libc"]
        elif k == 10: t = " ".join(q.choice(c13.mutants(q, c12.toks(c13.BASES[i % len(c13.BASES)]), 30))[1])
        else: t = c12.Layout(q, "mixed").text(c12.toks("\n".join(l for l in RG(q, nfun=2, nstmt=6, big=0.6).program().text().split("\n") if not l.startswith("#"))))
        if "\0" in t: t = t.replace("\0", " ")
        out.append((t.encode("latin-1"), o))
    return out


def sweep(s, k):
    """sources of every kind, k of each (of the small ones more)"""
    R = lambda *a: random.Random("c10-sweep-%s" % "-".join(map(str, (s,) + a)))
    out = []
    add = lambda ts: out.extend((t.encode("latin-1"), [], ()) for t in ts)
    tx = lambda ps: [p.text() for p in ps]
    r = R("pick")
    add(tx(r.sample([p[0] if isinstance(p, tuple) else p for p in c01.progs("c10-%d" % s)], 4 * k)))
    add(tx(r.sample(c02.chain_progs(R("chains"), 100, 40), 2 * k)))
    add(tx([c02.SE(R("se", i)).prog() for i in range(2 * k)] + c02.cond_nests(R("nests"), k)))
    add(tx(c03.deep(R("deep"), 3 * k)))
    add(tx([c04.G(R("calls", i)).program() for i in range(2 * k)] + [c04.addrs(R("addr", i)) for i in range(k)]))
    add(tx([c05.G("c10s-05-%d-%d" % (s, i)).build() for i in range(2 * k)]))
    add(tx([c06.inits(R("init", i)) for i in range(8 * k)]))
    add(inits(R("gi", i)) for i in range(2 * k))
    add(tx([c07.G("c10s-07-%d-%d" % (s, i)).build() for i in range(2 * k)] + [c07.G("c10s-07b-%d" % s, nf=80, ng=40, big=True).build()]))
    add(tx([c08.build("c10s-08-%d-%d-%s" % (s, i, f), f) for i in range(k) for f in c08.G.FAM]))
    add(tx([c09.mix("c10s-09-%d-%d" % (s, i)) for i in range(2 * k)]))
    add("\n".join(c11.render(l, R("pp", i)) for l in c11.renamed(R("ppr", i), c11.Rand(R("ppg", i)).prog())) + "\n" for i in range(3 * k))
    for i in range(2 * k):
        q = R("lex", i)
        add([c12.Layout(q, q.choice(["glue", "mixed", "plain"])).text(c12.toks(c12.const_program(q))), c12.DirLayout(q, q.choice(["glue", "mixed"])).program(c12.directives(q))])
    for i in range(6 * k):
        q = R("ill", i)
        b = c13.BASES[q.randrange(len(c13.BASES))]
        add([" ".join(q.choice(c13.mutants(q, c12.toks(b), 30))[1])])
    add([c18.literal_program(R("fmt", i))[1] for i in range(k)])
    for i in range(2 * k):
        fs = c21.repeats(R("inc", i))
        b = fs[0][0][:-1]
        one = lambda f: "".join('#include "%s"\n' % "/".join(l[1]) if isinstance(l, tuple) else l + "\n" for l in f[1])
        out.append((one(fs[0]).encode("latin-1"), [], tuple((os.path.relpath("/".join(f[0]), "/".join(b)), one(f).encode("latin-1")) for f in fs[1:])))
    out = [(t.replace(b"\0", b" "), o, f) for t, o, f in out]
    r.shuffle(out)
    return out


def inits(r):
    """initialisers of three operands and more, of every operator"""
    ls, outs = [], []
    for i in range(40):
        n = r.choice([1, 2, 3, 3, 4, 5])
        ls.append("int g%d = %s;" % (i, " ".join([str(r.randint(-99, 999))] + ["%s %d" % (r.choice(["+", "-", "-", "*", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&", "/", "%", "/", "%"]), r.randint(1, 9)) for _ in range(n - 1)])
                  + (" ? %d : %d" % (r.randint(0, 9), r.randint(10, 99)) if n == 1 and r.random() < 0.2 else "")))
        outs.append("    printf(\"%%d\\n\", g%d);" % i)
    return "\n".join(ls + ["int main()", "{"] + outs + ["    return 0;", "}", ""])


ENV = {"plain": {"PATH": "/usr/bin:/bin", "LANG": "C"}, "empty": {},
       "big": dict([("PATH", "/usr/bin:/bin")] + [("V%d" % i, "x" * 400) for i in range(150)]),
       "dirty": {"PATH": "/usr/bin:/bin", "MALLOC_PERTURB_": "165"}}


def check(chk):
    cc = vp.Compilers(stages=(1, 2))
    for k, r in cc.stage_fail.items():
        chk.violation("stage %d of %s cannot be built" % (k[1], k[0]), {"stderr": r.err[-3000:]})
    if cc.stage_fail:
        chk.cov.update({"states": 1, "transitions": 1, "traces_validated_against_impl": 0, "samples": []})
        return
    N = 60 if vp.THOROUGH else 16
    d = vp.sub("stages")
    gen = vp.tlc("Stages", "StagesGen", extra=["-simulate", "num=%d" % (N * 2 + 2), "-depth", "60", "-seed", str(vp.SEED)], workers=1, env={"TRACES": ""})
    hs = [x["h"] for x in gen.lines]
    if len(hs) < N * 2:
        raise vp.Infra("%d histories" % len(hs))
    pool = sources(vp.SEED, N * 3)
    sess = []     # (arch, [(directory, file, options)], history)
    for i in range(N):
        sd = os.path.join(d, "src%d" % i)
        os.makedirs(sd)
        ps = []
        for j in range(3):
            t, o = pool[3 * i + j]
            with open(os.path.join(sd, "p%d.c" % j), "wb") as f: f.write(t)
            ps.append((sd, "p%d.c" % j, o))
        for n, a in enumerate(vp.ARCHS): sess.append((a, ps, hs[2 * i + n]))
    # the compiler itself: each stage once, in circumstances of a generated history
    for n, a in enumerate(vp.ARCHS):
        sd = os.path.join(cc.dir[a], "src")
        seen, h = set(), []
        for e in hs[-1 - n]:
            if e["g"] not in seen:
                seen.add(e["g"])
                h.append(dict(e, p=1, dump=False))
        if vp.THOROUGH: h += [dict(e, p=2) for e in h]
        sess.insert(0, (a, [(sd, "main.c", []), (sd, "main.c", ["+m"])], h))
    # sources of every kind through the stages, in plain circumstances
    sw = sweep(vp.SEED, 6 if vp.THOROUGH else 1)
    for i in range(0, len(sw), 3):
        sd = os.path.join(d, "sweep%d" % i)
        os.makedirs(sd)
        for j, (t, o, fs) in enumerate(sw[i:i + 3]):
            with open(os.path.join(sd, "p%d.c" % j), "wb") as f: f.write(t)
        for a in vp.ARCHS:
            ps = [(sd, "p%d.c" % j, o, fs) for j, (t, o, fs) in enumerate(sw[i:i + 3])]
            sess.append((a, ps, [{"p": j + 1, "g": g, "s": 1, "junk": "same", "dir": "here", "o": "first", "env": "plain", "dump": (i + j) % 3 == 0}
                                 for j in range(len(ps)) for g in ((0, 1, 2) if vp.THOROUGH or (i + j) % 4 == 0 else (0, 1))]))
    ids = {}

    def session(n):
        a, ps, h = sess[n]
        w = os.path.join(d, "s%d" % n, "w", "x")
        there = os.path.join(w, "a/b")
        os.makedirs(there)
        ev, log = [], []
        slot = {1: os.path.join(w, "one.elf"), 2: os.path.join(w, "a", "two.elf")}

        def content(s):
            if not os.path.exists(slot[s]): return "none"
            b = open(slot[s], "rb").read()
            return "junk" if b[:4] == b"JUNK" else vp.sha(b)
        for e in h:
            sd, name, opt = ps[e["p"] - 1][:3]
            for fn, t in (ps[e["p"] - 1] + ((),))[3]:
                fn = os.path.normpath(os.path.join(w, fn))
                os.makedirs(os.path.dirname(fn), exist_ok=True)
                with open(fn, "wb") as f: f.write(t)
            o = slot[e["s"]]
            # own copy of the sources, so that no two sessions share a directory
            if name != "main.c" and not os.path.exists(os.path.join(w, name)):
                with open(os.path.join(w, name), "wb") as f: f.write(open(os.path.join(sd, name), "rb").read())
            if name != "main.c": sd = w
            if e["junk"] != "same":
                if os.path.exists(o): os.unlink(o)
                if e["junk"] == "short": open(o, "wb").write(b"JUNK")
                if e["junk"] == "long": open(o, "wb").write(b"JUNK" * 250000)
                ev.append({"op": "junk", "s": e["s"], "d": content(e["s"])})
            if e["dir"] == "here": cwd, src = sd, name
            elif e["dir"] == "there": cwd, src = there, os.path.join(sd, name)
            elif e["dir"] == "rel": cwd, src = there, os.path.relpath(os.path.join(sd, name), there)
            else:
                ln = os.path.join(w, "link" + ("m" if name == "main.c" else ""))
                if not os.path.islink(ln): os.symlink(sd, ln)
                cwd, src = (w, os.path.join(os.path.basename(ln), name)) if name != "main.c" else (there, os.path.join(ln, name))
            op = list(opt) + (["--dump-ir"] if e["dump"] else [])
            out = ["-o", o if e["dir"] != "rel" else os.path.relpath(o, cwd)]
            args = {"first": op + out + [src], "last": [src] + out + op, "split": op[:1] + [src] + op[1:] + out, "noout": op + [src]}[e["o"]]
            if e["o"] == "noout" and name == "main.c": args = op + out + [src]      # the build directory is shared
            elif e["o"] == "noout":
                if os.path.exists(o): os.replace(o, os.path.join(cwd, "a.out"))
                elif os.path.exists(os.path.join(cwd, "a.out")): os.unlink(os.path.join(cwd, "a.out"))
            q = vp.run(cc.cmd(a, e["g"]) + args, timeout=120, cwd=cwd, env=ENV[e["env"]])
            if e["o"] == "noout" and name != "main.c" and os.path.exists(os.path.join(cwd, "a.out")):
                os.replace(os.path.join(cwd, "a.out"), o)
            dg = "rejected" if q.rc else content(e["s"])
            ev.append({"op": "compile", "k": "%s %s" % (name, " ".join(opt)), "s": e["s"], "d": dg})
            ev.append({"op": "says", "k": "%s %s" % (name, " ".join(op)), "s": e["s"], "d": "%d %s" % (q.rc, vp.sha(q.out + q.err))})
            for s in (1, 2):
                if not (s == e["s"] and q.rc): ev.append({"op": "disk", "s": s, "d": content(s) if s == e["s"] or os.path.exists(slot[s]) else "none"})
            log.append({"stage": e["g"], "source": name, "options": " ".join(args), "env": e["env"], "before": e["junk"], "rc": q.rc, "result": dg,
                        "said": (q.err or q.out)[-120:].decode("latin-1") if q.rc else ""})
            ids.setdefault(dg, len(ids))
        return ev, log
    res = vp.pmap(session, range(len(sess)))
    p = os.path.join(d, "traces.json")
    with open(p, "w") as f: json.dump([ev for ev, _ in res], f)
    t = vp.tlc("Stages", "Stages", env={"TRACES": p})
    for x in sorted(t.lines, key=lambda x: x["t"]):
        n = x["t"] - 1
        a, ps, h = sess[n]
        ev, log = res[n]
        e = ev[x["l"] - 1]
        k = sum(1 for y in ev[:x["l"]] if y["op"] == "compile") - 1
        same = [y["d"] for y in ev[:x["l"]] if y["op"] == "compile" and y["k"] == e.get("k")]
        what = "compiling %s at stage %d of %s (%s) gives %s, before %s" % (log[k]["source"], log[k]["stage"], a, log[k]["options"][-150:], e["d"], same[0]) if e["op"] == "compile" else \
            "what compiling %s at stage %d of %s prints (%s) is not what it printed before" % (log[k]["source"], log[k]["stage"], a, log[k]["said"]) if e["op"] == "says" else \
            "the output file %d holds %s after step %d of %s" % (e["s"], e["d"], k, a)
        fs = {"history.json": json.dumps(log[:k + 1], indent=1)}
        for sd, nm, *_ in ps:
            if nm != "main.c": fs[nm] = open(os.path.join(sd, nm), "rb").read()
        chk.violation(what, fs)
    c = chk.cov
    c["states"] = gen.states + t.distinct
    c["transitions"] = gen.states + t.states
    c["traces_validated_against_impl"] = len(sess)
    c["compilations"] = sum(len(l) for _, l in res)
    c["swept_sources"] = len(sw)
    c["rejections"] = sum(1 for _, l in res for y in l if y["rc"])
    c["different_outputs"] = len(ids)
    c["samples"] = [{"target": sess[5][0], "history": res[5][1][:4]}]
    if c["rejections"] > c["compilations"] // 2:
        raise vp.Infra("%d of %d compilations were rejected" % (c["rejections"], c["compilations"]))
