"""Conformance of shecc to CSem.tla: TLC runs the specification on every
program and yields the set of allowed outcomes; each program is compiled and
executed by every compiler variant and its outcome must be in the set."""
import json, os
import vp

V_ALL = [(a, m) for a in vp.ARCHS for m in ((), ("+m",))]
V_SW = [(a, ()) for a in vp.ARCHS]


def expected(progs, name="progs"):
    """{index: set of (out tuple, exit)} for programs with defined behaviour; TlcResult"""
    d = vp.sub("progs")
    exp, st = {}, []
    # several TLC runs side by side would not be faster; split only to bound memory
    CH = 1500
    bad = {}
    for c in range(0, len(progs), CH):
        p = os.path.join(d, "%s-%d.json" % (name, c))
        with open(p, "w") as f:
            json.dump([q.export() for q in progs[c:c + CH]], f)
        r = vp.tlc("CSem", env={"PROGS": p})
        st.append(r)
        for x in r.lines:
            i = c + x["p"] - 1
            if x["s"] != "done":
                bad[i] = x["s"]
            else:
                exp.setdefault(i, set()).add((tuple(x["o"]), x["r"] & 255))
    for i in bad:
        exp.pop(i, None)
    return exp, bad, st


def observe(cc, src, arch, opts, tag, stage=0):
    exe = os.path.join(vp.sub("exe"), tag)
    if os.path.exists(exe):
        os.unlink(exe)
    r = cc.compile(src, exe, arch, opts, stage=stage)
    if r.rc != 0 or not os.path.exists(exe):
        return ("compile", r)
    r = cc.exe(exe, arch)
    os.unlink(exe)
    if r.timeout:
        return ("timeout", r)
    try:
        o = tuple(int(x) for x in r.out.split())
    except ValueError:
        return ("garbled", r)
    return ("ran", (o, r.rc), r)


def difference(exp, ob):
    """first place where the observation leaves every allowed outcome"""
    want = max(sorted(exp), key=lambda w: len(os.path.commonprefix([w[0], ob[1][0]])) if ob[0] == "ran" else 0)
    if ob[0] != "ran":
        return "specification allows output of %d values and exit %d, observed %s %r" % (len(want[0]), want[1], ob[0], ob[1])
    k = len(os.path.commonprefix([want[0], ob[1][0]]))
    if k == len(want[0]) == len(ob[1][0]):
        return "specification allows exit status %d, observed %d" % (want[1], ob[1][1])
    return "action %d: specification allows %s, observed %s (exit %s)" % (
        k + 1, list(want[0][k:k + 4]) or "end", list(ob[1][0][k:k + 4]) or "end", ob[1][1])


def conform(chk, cc, progs, variants=V_ALL, stage=0, name="progs", on_bad=None, explain=""):
    exp, bad, st = expected(progs, name)
    d = vp.sub("src-" + name)
    srcs = {}
    for i in exp:
        srcs[i] = os.path.join(d, "p%d.c" % i)
        with open(srcs[i], "w") as f:
            f.write(progs[i].text())

    def one(job):
        i, (arch, opts) = job
        ob = None
        for attempt in (0, 1):
            ob = observe(cc, srcs[i], arch, opts, "%s-%d-%s%s" % (name, i, arch, "".join(opts)), stage)
            if ob[0] == "ran" and ob[1] in exp[i]:
                return None
        return (i, arch, opts, ob)
    jobs = [(i, v) for i in sorted(exp) for v in variants]
    fails = [x for x in vp.pmap(one, jobs) if x]
    byp = {}
    for f in fails:
        byp.setdefault(f[0], []).append(f)
    for i, fs in sorted(byp.items()):
        _, arch, opts, ob = fs[0]
        what = "%s program %d%s on %s: %s" % (
            name, i, " [%s]" % progs[i].tag if progs[i].tag else "",
            ", ".join(f[1] + "".join(f[2]) for f in fs), difference(exp[i], ob))
        if on_bad and on_bad(progs[i], fs, what):
            continue
        chk.violation(what, {"prog.c": progs[i].text(),
                             "expected.json": json.dumps(sorted(exp[i])),
                             "observed.txt": "\n".join(repr(f) for f in fs)})
    c = chk.cov
    c["states"] = c.get("states", 0) + sum(r.distinct for r in st)
    c["transitions"] = c.get("transitions", 0) + sum(r.states for r in st)
    c["traces_validated_against_impl"] = c.get("traces_validated_against_impl", 0) + len(jobs)
    c["programs_specified"] = c.get("programs_specified", 0) + len(exp)
    c["programs_discarded_undefined"] = c.get("programs_discarded_undefined", 0) + len(bad)
    c["tlc_wall_s"] = round(c.get("tlc_wall_s", 0) + sum(r.wall for r in st), 1)
    c["observed_actions"] = c.get("observed_actions", 0) + sum(len(sorted(exp[i])[0][0]) for i in exp)
    if exp and len(c.setdefault("samples", [])) < 2:
        i = sorted(exp)[len(exp) // 2]
        c["samples"].append({"program": progs[i].text()[:1500], "allowed": [list(map(list, [a[0]])) + [a[1]] for a in sorted(exp[i])][:2]})
    return exp, bad
