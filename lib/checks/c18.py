"""C18: formatted output.  Every conversion with every flag combination, width
and a set of values, random formats with several directives, truncations, and
programs with literal formats: formatted by the library compiled by shecc and
validated by TLC against Fmt.tla."""
import json, os, random
import vp

TECHNIQUE = "TLA+ specification of format interpretation (Fmt.tla); TLC validates recorded printf/sprintf/snprintf calls of the real library"
NOTE = "All conversions x flags x widths x values, random multi-directive formats, truncations and literal formats in compiled programs on both targets; text, result, terminator and untouched bytes are checked by TLC."

IMIN = -2147483648
VALS = [0, 1, -1, 7, 8, 9, 10, -9, -10, 15, 16, 63, 64, 99, 100, 255, 256, 511, 512, 999, 1000, -1000, 4095, 4096, 12345, 65535, 99999, 100000, 1234567, -7654321,
        10000000, 123456789, 999999999, 1000000000, -1000000000, 2147483647, -2147483647, IMIN, 0x7ffffffe, 0x40000000, -0x40000000, 0x20000000, -8, -64, -512]
WORDS = [b"", b"a", b"hello", b"100%", b"%d", b"\x80\xff", b"0x", b"  pad ", b"longer string with several words in it"]


def case(mode, f, args, n=0):
    return {"mode": mode, "f": f, "args": args, "n": n}


def outlen(f, args):
    """length of the text, to choose cases within the limits of the interface only"""
    t, i, k = 0, 0, 0
    while i < len(f):
        if f[i] != 37:
            t += 1
            i += 1
            continue
        i += 1
        j = i
        while f[j] in b"#0123456789":
            j += 1
        w = int(f[i:j].lstrip(b"#") or b"0")
        c = chr(f[j])
        i = j + 1
        if c == "%":
            t += 1
            continue
        a = args[k]
        k += 1
        if c == "s": t += len(a)
        elif c == "c": t += 1
        else:
            s = str(a) if c == "d" else ("%x" if c == "x" else "%o") % (a & 0xffffffff)
            t += max(w, len(s) + (2 if b"#" in f else 0))
    return t


def grid():
    cs = []
    for c in "dox":
        for alt in ("", "#") if c != "d" else ("",):
            for z in ("", "0"):
                for w in ["", "1", "2", "3", "5", "8", "9", "10", "11", "12", "13", "20"]:
                    for v in VALS:
                        cs.append(case("s", ("%" + alt + z + w + c).encode(), [v]))
    for v in (0, 1, 37, 65, 127, 128, 255):
        cs.append(case("s", b"%c", [v]))
        cs.append(case("s", b"<%c>", [v]))
    return cs


def rnd(r):
    mode = r.choice("ssnnp")
    mx = {"s": 6, "n": 5, "p": 7}[mode]
    f, args = b"", []
    num = False
    for _ in range(r.randint(0, 8)):
        x = r.random()
        if x < 0.35 or len(args) >= mx:
            f += r.choice([b"a", b"xyz", b" ", b"\n", b"0", b"#", b"-", b"%%", b"d", b"\x80", b"\t="])
            continue
        k = r.choice("dddxxocs")
        if k == "s":
            f += b"%s"
            args.append(r.choice(WORDS))
        elif k == "c":
            f += b"%c"
            args.append(r.choice([65, 97, 48, 37, 200, 255] if mode == "p" else [0, 65, 97, 37, 200]))
        else:
            num = True
            f += ("%" + (r.choice(["", "#"]) if k != "d" else "") + r.choice(["", "0"]) + r.choice(["", "", "1", "4", "8", "11", "15", "31"]) + k).encode()
            args.append(r.choice(VALS) if r.random() < 0.6 else r.randint(-2 ** 31, 2 ** 31 - 1) >> r.randint(0, 28))
    t = outlen(f, args)
    n = 0
    if mode == "p" and t > 190:
        mode = "s"
        args, f = args[:6], f if len(args) <= 6 else b"%d"
    if mode == "n":
        n = r.choice([t + 1, t + 2, t + 50]) if num else r.choice([0, 1, 2, t // 2, max(t - 1, 0), t, t + 1, t + 2, t + 9])
    return case(mode, f, args, n)


def argv(cs):
    a = []
    for c in cs:
        a += [c["mode"].encode(), c["f"], b"%d" % c["n"], b"".join(b"i" if isinstance(x, int) else b"s" for x in c["args"]) + b"."]
        a += [b"%d" % x if isinstance(x, int) else x for x in c["args"]]
    return a


def event(c, r, out, other):
    return {"op": {"p": "printf", "s": "sprintf", "n": "snprintf"}[c["mode"]], "f": list(c["f"]),
            "as": [{"v": x, "s": []} if isinstance(x, int) else {"v": 0, "s": list(x)} for x in c["args"]], "n": c["n"], "r": r, "out": list(out), "other": other}


def decode(cs, res):
    o, p, ev = res.out, 0, []
    for c in cs:
        try:
            if c["mode"] == "p":
                assert o[p] == 2
                # the text may contain anything but the two marks
                q = o.index(3, p)
                txt = o[p + 1:q]
                e = o.index(b" \n", q)
                ev.append(event(c, int(o[q + 1:e]), txt, 0))
            else:
                e = o.index(b" \n", p)
                w = o[p:e].split(b" ")
                ev.append(event(c, int(w[0]), bytes.fromhex(w[1].decode()), int(w[2])))
            p = e + 2
        except (ValueError, IndexError, AssertionError):
            ev.append({"op": "crash"})
            return ev
    if res.rc != 0 or p != len(o):
        ev.append({"op": "crash"})
    return ev


def literal_program(r):
    """calls with literal formats and constant arguments of every number"""
    cs, t = [], "char b[600];\nint main()\n{\n    int i;\n    int r;\n"
    for _ in range(24):
        c = rnd(r)
        if any(x in (0, 2, 3) for x in c["args"]) and c["mode"] == "p":
            continue
        if any(not (32 <= y < 127) and y not in (9, 10) for x in [c["f"]] + [a for a in c["args"] if not isinstance(a, int)] for y in x):
            continue
        cs.append(c)
        esc = lambda s: '"' + s.decode().replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'
        args = [esc(c["f"])] + [("(-2147483647 - 1)" if a == IMIN else str(a)) if isinstance(a, int) else esc(a) for a in c["args"]]
        if c["mode"] == "p":
            t += "    fputc(2, 1);\n    r = printf(%s);\n    fputc(3, 1);\n    show(r, 0, 0);\n" % ", ".join(args)
        else:
            t += "    wipe();\n    r = %s;\n    show(r, 1, %s);\n" % (
                "sprintf(b + 40, %s)" % ", ".join(args) if c["mode"] == "s" else "snprintf(b + 40, %d, %s)" % (c["n"], ", ".join(args)),
                "0" if c["mode"] == "n" and c["n"] == 0 else "r + 1")
    t += "    return 0;\n}\n"
    drv = open(os.path.join(vp.VERIF, "drivers", "fmt.c")).read()
    aux = drv[drv.index("void putn"):drv.index("int number")]
    aux += """void wipe()
{
    int i;
    for (i = 0; i < 600; i++)
        b[i] = 238;
}
void show(int r, int w, int j)
{
    int i;
    int k = 0;
    int hi;
    putn(r);
    if (w) {
        for (i = 40; i < 40 + j; i++) {
            hi = b[i];
            fputc(hexchar(hi >> 4), 1);
            fputc(hexchar(hi & 15), 1);
        }
        fputc(' ', 1);
        for (i = 0; i < 600; i++)
            if (b[i] != 238)
                if (i < 40 || i >= 40 + j)
                    k++;
        putn(k);
    }
    fputc('\\n', 1);
}
"""
    return cs, t.replace("int main()", aux + "int main()", 1)


def check(chk):
    cc = vp.Compilers()
    r = random.Random("c18-%d" % vp.SEED)
    cases = grid()
    cases += [rnd(r) for _ in range(40000 if vp.THOROUGH else 3000)]
    exes = {}
    drv = os.path.join(vp.VERIF, "drivers", "fmt.c")
    for a in vp.ARCHS:
        exes[a] = os.path.join(vp.sub("exe"), "fmt-" + a)
        q = cc.compile(drv, exes[a], a)
        if q.rc != 0:
            chk.violation("the format driver is not compiled for %s: %r" % (a, q))
            return
    K = 40
    jobs = [(i, a) for i in range(0, len(cases), K) for a in vp.ARCHS]
    res = vp.pmap(lambda j: cc.exe(exes[j[1]], j[1], argv(cases[j[0]:j[0] + K])), jobs)
    tr = [decode(cases[j[0]:j[0] + K], q) for j, q in zip(jobs, res)]
    src = {}
    # programs with literal formats
    progs = [literal_program(r) for _ in range(200 if vp.THOROUGH else 25)]

    def one(j):
        i, a = j
        s = os.path.join(vp.sub("src"), "l%d.c" % i)
        x = os.path.join(vp.sub("exe"), "l%d-%s" % (i, a))
        if a == "arm":
            open(s, "w").write(progs[i][1])
        else:
            s = os.path.join(vp.sub("src"), "l%d-r.c" % i)
            open(s, "w").write(progs[i][1])
        q = cc.compile(s, x, a)
        if q.rc != 0:
            return [{"op": "crash", "what": "not compiled: %r" % q}]
        return decode(progs[i][0], cc.exe(x, a))
    jobs2 = [(i, a) for i in range(len(progs)) for a in vp.ARCHS]
    tr += vp.pmap(one, jobs2)
    jobs += [("literal%d" % i, a) for i, a in jobs2]
    p = os.path.join(vp.sub("traces"), "fmt.json")
    json.dump(tr, open(p, "w"))
    t = vp.tlc("Fmt", env={"TRACES": p})
    for x in t.lines[:40]:
        k = x["t"] - 1
        e = tr[k][x["l"] - 1]
        s = lambda b: repr(bytes(b)) if b is not None else None
        chk.violation("%s on %s: format %s arguments %s size %s: prescribed %s, result %s, text %s, other bytes changed %s" % (
            e["op"], jobs[k][1], s(e.get("f")), [a["v"] if not a["s"] else s(a["s"]) for a in e.get("as", [])], e.get("n"), s(x["want"]), e.get("r"), s(e.get("out")), e.get("other")),
            {"event.json": json.dumps(e), "fmt.c": open(drv).read(), "prog.c": progs[int(jobs[k][0][7:])][1] if isinstance(jobs[k][0], str) else ""})
    chk.cov.update(states=t.distinct, transitions=t.states, traces_validated_against_impl=len(tr), recorded_calls=sum(map(len, tr)),
                   samples=[tr[0][3], tr[len(tr) // 2][0]])
    # known findings
    for a in vp.ARCHS:
        q = decode([case("n", b"%d", [123456], 4)], cc.exe(exes[a], a, argv([case("n", b"%d", [123456], 4)])))
        if q[0]["op"] == "crash" or q[0]["other"]:
            chk.finding("C18-snprintf-overrun")
        q = decode([case("s", b"%5s|%3c", [b"ab", 99], 0)], cc.exe(exes[a], a, argv([case("s", b"%5s|%3c", [b"ab", 99], 0)])))
        if q[0].get("out") != list(b"   ab|  c\0"):
            chk.finding("C18-width")
        big = case("p", b"%s", [b"x" * 400], 0)
        q = cc.exe(exes[a], a, argv([big]))
        if q.rc != 0 or decode([big], q)[0].get("out") != list(b"x" * 400):
            chk.finding("C18-printf-200")
    chk.assumptions += ["qemu-user executes ARM and RISC-V code faithfully"]
