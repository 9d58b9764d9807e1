"""Infrastructure shared by all checks: building shecc from /repo's working
tree in a scratch directory, running compilers and emitted programs, running
TLC, and reporting (evidence, VIOLATION / KNOWN-FINDING lines)."""
import atexit, concurrent.futures, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
JOBS = min(8, os.cpu_count() or 4)
ARCHS = ("arm", "riscv")
QEMU = {"arm": "qemu-arm", "riscv": "qemu-riscv32"}

_scratch = None


class Infra(Exception):
    """The check itself could not run (no verdict)."""


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vpchk-", dir="/tmp")
        os.chmod(_scratch, 0o755)
        if not os.environ.get("VP_KEEP"):
            atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def sub(name):
    d = os.path.join(scratch(), name)
    os.makedirs(d, exist_ok=True)
    return d


def pmap(fn, items, jobs=None):
    items = list(items)
    if not items:
        return []
    with concurrent.futures.ThreadPoolExecutor(jobs or JOBS + 4) as ex:
        return list(ex.map(fn, items))


class Res:
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    def __repr__(self):
        return "Res(rc=%r%s, out=%r, err=%r)" % (
            self.rc, " TIMEOUT" if self.timeout else "", self.out[:400], self.err[:400])


_hung = []


def run(cmd, timeout=20, cwd=None, stdin=None, env=None, limit=True):
    """Run a command with bounded time and file size, never raising."""
    if limit and len(_hung) > 12:
        # enough runs did not end: the rest is given little time, then none
        if len(_hung) > 60:
            return Res(-9, b"", b"not run", True)
        timeout = min(timeout, 3)
    if limit:
        cmd = ["prlimit", "--cpu=%d" % (timeout + 10), "--fsize=33554432", "--core=0", "--"] + list(cmd)
    try:
        p = subprocess.Popen(cmd, cwd=cwd or scratch(), env=env, start_new_session=True,
                             stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    except OSError as e:
        return Res(127, b"", str(e).encode())
    try:
        out, err = p.communicate(stdin, timeout=timeout)
        return Res(p.returncode, out, err)
    except subprocess.TimeoutExpired:
        _hung.append(1)
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            out, err = p.communicate(timeout=5)
        except Exception:
            out, err = b"", b""
        return Res(-9, out[:1 << 20], err[:1 << 16], True)


# ---------------------------------------------------------------- building
class Compilers:
    """shecc built from REPO's working tree, for both targets."""

    def __init__(self, archs=ARCHS, stages=(0,)):
        self.dir = {}
        self.archs = archs
        self.stage_fail = {}
        def one(arch):
            d = os.path.join(scratch(), "build-" + arch)
            os.makedirs(d, exist_ok=True)
            ex = ["--exclude=/.git", "--exclude=/_build", "--exclude=/out", "--exclude=/config",
                  "--exclude=/src/codegen.c", "--exclude=/.session.mk", "--exclude=/tests",
                  "--exclude=*.o", "--exclude=*.elf", "--exclude=*.dot"]
            r = run(["rsync", "-rlp"] + ex + [REPO + "/", d + "/"], limit=False)
            if r.rc != 0:
                raise Infra("rsync: %r" % r)
            env = {k: v for k, v in os.environ.items()
                   if k not in ("MAKEFLAGS", "MAKELEVEL", "OUT", "ARCH", "CFLAGS")}
            env.update(PWD=d, CC="gcc", LANG="C.UTF-8")
            for step in (["config", "ARCH=" + arch], ["out/shecc"]):
                r = run(["make"] + step, timeout=240, cwd=d, env=env, limit=False)
                if r.rc != 0:
                    raise Infra("make %s (%s) failed: %r" % (step, arch, r))
            for s in stages:
                if s:
                    t = "out/shecc-stage%d.elf" % s
                    r = run(["make", t], timeout=300, cwd=d, env=env, limit=False)
                    if r.rc != 0 or not os.path.exists(os.path.join(d, t)):
                        self.stage_fail[(arch, s)] = r
            return d
        for a, d in zip(archs, pmap(one, archs)):
            self.dir[a] = d

    def cmd(self, arch, stage=0):
        o = os.path.join(self.dir[arch], "out")
        if stage == 0:
            return [os.path.join(o, "shecc")]
        return [QEMU[arch], os.path.join(o, "shecc-stage%d.elf" % stage)]

    def compile(self, src, out, arch, opts=(), stage=0, timeout=None, cwd=None):
        """Compile file src to file out; Res."""
        cmd = self.cmd(arch, stage) + list(opts) + ["-o", out, src]
        r = run(cmd, timeout=timeout or (20 if stage == 0 else 60), cwd=cwd)
        if os.path.exists(out):
            os.chmod(out, 0o755)
        return r

    def exe(self, path, arch, args=(), timeout=10, cwd=None, stdin=None, env=None):
        return run([QEMU[arch], path] + list(args), timeout=timeout, cwd=cwd, stdin=stdin, env=env)


# ---------------------------------------------------------------- TLC
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcResult:
    def __init__(self, rc, text, lines, states, distinct, wall):
        self.rc, self.text, self.lines = rc, text, lines
        self.states, self.distinct, self.wall = states, distinct, wall


_tlc_n = [0]


def tlc(module, cfg=None, env=None, workers=None, extra=(), heap="6g", timeout=800, ok=(0,)):
    """Run TLC on spec/<module>.tla.  Lines printed with PrintT(ToJson(..)) are
    decoded and returned.  Any failure of the model is an error of the check."""
    _tlc_n[0] += 1
    n = _tlc_n[0]
    meta = sub("tlc-%s-%d" % (module, n))
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m", "-cp", TLA, "tlc2.TLC",
           "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers or JOBS),
           "-config", os.path.join(SPEC, (cfg or module) + ".cfg")] + list(extra) + \
          [os.path.join(SPEC, module + ".tla")]
    t = time.time()
    r = run(cmd, timeout=timeout, cwd=meta, env=e, limit=False)
    text = r.out.decode("utf-8", "replace")
    lines = []
    for l in text.splitlines():
        if l.startswith('"{') or l.startswith('"['):
            try:
                lines.append(json.loads(json.loads(l)))
            except ValueError:
                raise Infra("TLC printed %r" % l[:300])
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
    st, di = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    if ok is not None and r.rc not in ok:
        raise Infra("TLC %s rc=%s timeout=%s\n%s\n%s" % (
            module, r.rc, r.timeout, text[:200] + text[max(0, text.find("Error:")):][:1500], r.err.decode("utf-8", "replace")[-500:]))
    shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(r.rc, text, lines, st, di, time.time() - t)


# ---------------------------------------------------------------- reporting
def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


class Check:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.violations = []
        self.known_hit = []
        self.cov = {}
        self.assumptions = []
        self.known = {k["id"]: k for k in load_known() if k["property"] == prop}

    def violation(self, what, files=None, detail=""):
        """Record a violation; files: {name: text or bytes} written to the replay dir."""
        n = len(self.violations)
        d = os.path.join(VERIF, "evidence", "replay", "%s-%d" % (self.prop, n))
        if n < int(os.environ.get("VP_SHOW", "10")):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d, exist_ok=True)
            for k, v in (files or {}).items():
                with open(os.path.join(d, k), "wb") as f:
                    f.write(v if isinstance(v, bytes) else v.encode("utf-8", "surrogateescape"))
            with open(os.path.join(d, "WHAT"), "w") as f:
                f.write(what + "\n" + detail + "\n")
        self.violations.append((what, d))

    def finding(self, fid, what=None):
        """A listed known finding was observed again."""
        if fid in self.known and fid not in self.known_hit:
            self.known_hit.append(fid)
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, fid, what or self.known[fid]["what"]))

    def is_known(self, fid):
        return fid in self.known

    def finish(self):
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for what, d in self.violations[:int(os.environ.get("VP_SHOW", "10"))]:
            print("VIOLATION property=%s replay=%s" % (self.prop, d))
            print("  " + what.replace("\n", "\n  ")[:1500])
        if len(self.violations) > int(os.environ.get("VP_SHOW", "10")):
            print("... and %d more violations" % (len(self.violations) - 10))
        print("%s %s: %s in %.1f s" % (self.prop, TIER,
              "%d violations" % len(self.violations) if self.violations else "held", time.time() - self.t0))
        sys.stdout.flush()
        return 1 if self.violations else 0


def sha(b):
    return hashlib.sha256(b if isinstance(b, bytes) else b.encode()).hexdigest()[:16]
