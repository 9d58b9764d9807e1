"""Decoded view of an emitted executable, for MCode.tla: instructions (read from
the disassembly), functions (from the dump's definitions, in order, and the
prologues of the code) and frame slots to watch."""
import re, struct
import vp

CONDS = ("eq", "ne", "lt", "ge", "gt", "le", "lo", "hs")
ARM_OPS = ("movw", "movt", "mov", "mvn", "add", "sub", "rsb", "and", "orr", "eor", "mul", "sdiv", "asr", "lsl", "lsr",
           "cmp", "teq", "ldrb", "ldr", "strb", "str", "push", "pop", "blx", "bl", "b", "svc")
NOFLAGS = ("cmp", "teq")


def sections(b):
    """{name: (addr, offset, size)}"""
    shoff, = struct.unpack_from("<I", b, 32)
    n, = struct.unpack_from("<H", b, 48)
    ns, = struct.unpack_from("<H", b, 50)
    hs = [struct.unpack_from("<10I", b, shoff + 40 * i) for i in range(n)]
    nm = lambda h: b[hs[ns][4] + h[0]:].split(b"\0")[0].decode("latin-1")
    return {nm(h): (h[3], h[4], h[5]) for h in hs}


def num(s):
    return int(s.replace("#", ""), 0)


def arm(m, ops):
    """(mnemonic, condition, sets flags, registers, immediate, target address)"""
    for o in ARM_OPS:
        if m.startswith(o):
            rest = m[len(o):]
            s = False
            if rest.startswith("s") and o not in NOFLAGS and rest[1:] in CONDS + ("",): s, rest = True, rest[1:]
            if rest in CONDS or rest == "":
                c = rest or "al"
                break
    else:
        return None
    ops = ops.split("@")[0].split("<")[0].strip()
    if o in ("b", "bl"): return o, c, False, [], 0, num(ops)
    if o == "svc": return o, c, False, [], num(ops), None
    if o in ("push", "pop"): return o, c, False, [x.strip() for x in ops.strip("{}").split(",")], 0, None
    q = re.match(r"(\w+), \[(\w+)(?:, (#[-\w]+))?\]$", ops)
    if o in ("ldr", "ldrb", "str", "strb"):
        if q: return o, c, False, [q.group(1), q.group(2)], num(q.group(3) or "0"), None
        # a single register pushed or popped
        q = re.match(r"(\w+), \[sp, #-0x4\]!$", ops)
        if q and o == "str": return "push", c, False, [q.group(1)], 0, None
        q = re.match(r"(\w+), \[sp\], #4$", ops) or re.match(r"(\w+), \[sp\], #0x4$", ops)
        if q and o == "ldr": return "pop", c, False, [q.group(1)], 0, None
        return None
    rs, i = [], 0
    for x in ops.split(","):
        x = x.strip()
        if x.startswith("#"): i = num(x)
        elif re.match(r"(r\d+|sp|lr|pc)$", x): rs.append(x)
        else: return None
    return o, c, s, rs, i, None


def riscv(m, ops):
    ops = ops.split("<")[0].strip()
    if m == "ecall": return m, "al", False, [], 0, None
    q = re.match(r"(\w+), (-?\w+)\((\w+)\)$", ops)
    if m in ("lw", "lbu", "sw", "sb", "jalr"):
        if not q: return None
        return m, "al", False, [q.group(1), q.group(3)], num(q.group(2)), None
    xs = [x.strip() for x in ops.split(",")]
    if m == "jal": return m, "al", False, [xs[0]], 0, num(xs[1])
    if m in ("beq", "bne", "bltu"): return m, "al", False, xs[:2], 0, num(xs[2])
    if m == "lui": return m, "al", False, [xs[0]], num(xs[1]), None
    if m in ("addi", "xori", "andi", "slli", "srli", "srai"): return m, "al", False, xs[:2], num(xs[2]), None
    if m in ("add", "sub", "and", "or", "xor", "sll", "srl", "sra", "slt", "sltu", "mul", "div", "rem"): return m, "al", False, xs, 0, None
    return None


def decode(path, arch):
    b = open(path, "rb").read()
    base, off, size = sections(b)[".text"]
    t = ["--triple=armv7", "--mattr=+hwdiv-arm"] if arch == "arm" else ["--triple=riscv32", "--mattr=+m", "-M", "no-aliases"]
    r = vp.run(["llvm-objdump-18", "-d", "--section=.text"] + t + [path], timeout=120, limit=False)
    code = []
    for l in r.out.decode().split("\n"):
        q = re.match(r"\s*([0-9a-f]+):\s+((?:[0-9a-f]{2} ){4}|[0-9a-f]{8})\s*(\S+)\s*(.*)$", l)
        if not q: continue
        x = (arm if arch == "arm" else riscv)(q.group(3), q.group(4).strip())
        if x is None: x = ("?", "al", False, [], 0, None)
        m, c, s, o, i, tt = x
        code.append({"m": m, "c": c, "s": s, "o": o, "i": max(-1000000, min(999999, i)), "t": 0 if tt is None else ((tt - base) // 4 + 1 if tt % 4 == 0 else -5), "x": (q.group(3) + " " + q.group(4)).split("@")[0].strip()})
    if len(code) * 4 != size:
        raise vp.Infra("%d instructions were decoded of %d bytes" % (len(code), size))
    return base, code


def entries(code, arch):
    """positions (from 1) of the prologues"""
    out = []
    for i in range(len(code) - 3):
        a = [(x["m"], x["o"]) for x in code[i:i + 4]]
        if arch == "arm":
            if a[0] == ("str", ["lr", "sp"]) and a[3] == ("sub", ["sp", "sp", "r8"]): out.append(i + 1)
        elif a[2] == ("sub", ["sp", "sp", "t0"]) and a[3] == ("sw", ["ra", "sp"]): out.append(i + 1)
    return out


def functions(dump):
    """[(name, number of parameters, void)] in the order of definition"""
    out = []
    for l in dump.split("\n"):
        q = re.match(r"def (\S+) @(\w+)\((.*)\)$", l)
        if q: out.append((q.group(2), len([x for x in q.group(3).split(",") if x.strip()]), q.group(1) == "void"))
    return out


VARIADIC = {"printf", "sprintf", "snprintf"}


def program(path, arch, dump, look=None, slots=False, stubs=True):
    """the record of one executable; look(name) selects the functions explored"""
    base, code = decode(path, arch)
    es = entries(code, arch)
    fs = functions(dump)
    if len(fs) != len(es):
        raise vp.Infra("%d definitions, %d prologues" % (len(fs), len(es)))
    first = es[0] if es else len(code) + 1
    start = {"e": 1, "z": first, "np": 0, "va": False, "void": True, "kind": "start", "look": stubs, "slots": [], "name": "start"}
    fns = [start]
    # the system call stub: the code behind the first trap, up to its return
    tr = [i for i, x in enumerate(code[:first - 1]) if x["m"] in ("svc", "ecall")]
    if len(tr) >= 2:
        fns.append({"e": tr[0] + 2, "z": tr[1] + 3, "np": 7, "va": True, "void": False, "kind": "sys", "look": stubs, "slots": [], "name": "__syscall"})
    for n, (name, np, void) in enumerate(fs):
        e = es[n]
        z = es[n + 1] if n + 1 < len(es) else len(code) + 1
        sl = []
        if slots:
            loads = {x["i"] for x in code[e - 1:z - 1] if x["m"] in ("ldr", "lw") and x["o"][1] == "sp" and x["o"][0] not in ("lr", "ra")}
            taken = {x["i"] for x in code[e - 1:z - 1] if x["m"] in ("add", "addi") and x["o"][1:] == ["sp"]}
            sl = sorted(loads - taken)
        fns.append({"e": e, "z": z, "np": np, "va": name in VARIADIC, "void": void, "kind": "fun",
                    "look": look is None or look(name), "slots": sl, "name": name})
    # size of the globals: what the start code takes from the stack
    a, b = code[0], code[1]
    g = a["i"] + 65536 * b["i"] if arch == "arm" else 4096 * a["i"] + b["i"]
    lo = min([x["e"] for x in fns if x["look"]] or [1])
    return {"arch": arch, "code": code[lo - 1:], "fns": fns, "base": base, "globals": g, "from": lo}
