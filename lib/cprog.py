"""C programs as abstract syntax: exported to the CSem specification (JSON) and
rendered to C text for shecc.  No meaning is given to a program here: values,
grouping, types of expressions and name resolution belong to CSem.tla."""

import zlib

INT, CHAR, CHARP, VOID, FNT = 1, 2, 3, 4, 5


# ---- expressions
def L(v, txt=None): return {"k": "lit", "v": v, "txt": txt}
def V(n): return {"k": "var", "n": n}
def F(es, ops): return {"k": "flat", "es": list(es), "ops": list(ops)}
def B(op, a, b): return F([a, b], [op])
def U(op, a): return {"k": "un", "op": op, "a": a}
def COND(c, a, b): return {"k": "cond", "c": c, "a": a, "b": b}
def CALL(n, *args): return {"k": "call", "n": n, "args": list(args)}
def CALLM(m, *args): return {"k": "call", "n": "", "m": m, "args": list(args)}
def IDX(a, b): return {"k": "idx", "a": a, "b": b}
def DEREF(a): return {"k": "deref", "a": a}
def MEM(a, f): return {"k": "mem", "a": a, "f": f}
def ARROW(a, f): return {"k": "arrow", "a": a, "f": f}
def ADDR(a): return {"k": "addr", "a": a}
def SIZEOF(t): return {"k": "sizeof", "t": t}
def STR(bs): return {"k": "str", "bs": list(bs)}
def INC(l, d, post): return {"k": "inc", "a": l, "d": d, "post": post}
def PAR(a): return {"k": "par", "a": a}
# ---- statements
def EXPR(e): return {"k": "expr", "a": e}
def DECL(n, t, init=None): return {"k": "decl", "n": n, "t": t, "init": init}
def ASG(l, e, op=""): return {"k": "asg", "l": l, "op": op, "e": e}
def DECLS(*ds): return {"k": "seq", "ss": list(ds)}
def IF(c, a, b=None): return {"k": "if", "c": c, "a": a, "b": b}
def WHILE(c, a): return {"k": "while", "c": c, "a": a}
def DO(a, c): return {"k": "do", "c": c, "a": a}
def FOR(i, c, s, a): return {"k": "for", "i": i, "c": c, "s": s, "a": a}
def SWITCH(e, cases): return {"k": "switch", "c": e, "cases": cases}
def CASE(vs, ss, d=False, txt=None): return {"vs": list(vs), "ss": ss, "d": d, "txt": txt}
def BRK(): return {"k": "break"}
def CONT(): return {"k": "continue"}
def RET(a=None): return {"k": "return", "a": a}
def BLOCK(*ss): return {"k": "block", "ss": list(ss)}
def EMPTY(): return {"k": "empty"}
def OUT(e): return EXPR(CALL("o", e))


class Prog:
    def __init__(self, fuel=4000):
        self.types = [{"k": "int"}, {"k": "char"}, {"k": "ptr", "to": CHAR}, {"k": "void"}, {"k": "fn"}]
        self.ptrs = {CHAR: CHARP}
        self.arrs = {}
        self.decls = []          # file scope, textual order
        self.funcs = []
        self.fuel = fuel
        self.pre = ""            # text before everything (directives)
        self.tag = ""
        self.use_libc = True

    # ---- types
    def ptr(self, t):
        if t not in self.ptrs:
            self.types.append({"k": "ptr", "to": t})
            self.ptrs[t] = len(self.types)
        return self.ptrs[t]

    def arr(self, t, n):
        if (t, n) not in self.arrs:
            self.types.append({"k": "arr", "to": t, "n": n, "ept": self.ptr(t)})
            self.arrs[(t, n)] = len(self.types)
        return self.arrs[(t, n)]

    def struct(self, name, fields, style="typedef"):
        """fields: [(name, type)]; style 'typedef' or 'tag'"""
        self.types.append({"k": "struct", "name": name, "style": style,
                           "f": [{"n": n, "t": t} for n, t in fields]})
        t = len(self.types)
        self.decls.append({"k": "struct", "t": t})
        return t

    def alias(self, name, t):
        """typedef of a scalar type"""
        self.types.append(dict(self.types[t - 1], alias=name, of=t))
        self.decls.append({"k": "alias", "t": len(self.types)})
        return len(self.types)

    def boolt(self):
        self.types.append({"k": "bool"})
        return len(self.types)

    def size(self, t):
        y = self.types[t - 1]
        return {"int": 4, "ptr": 4, "fn": 4, "char": 1, "bool": 1, "void": 0}.get(y["k"]) if y["k"] not in (
            "arr", "struct") else (y["n"] * self.size(y["to"]) if y["k"] == "arr"
                                   else sum(self.size(f["t"]) for f in y["f"]))

    # ---- declarations
    def glob(self, n, t, init=None, txt=None):
        self.decls.append({"k": "obj", "n": n, "t": t, "init": init, "txt": txt})

    def enum(self, tn, names):
        """names: [(name, explicit value or None)]"""
        v = 0
        out = []
        for n, x in names:
            if x is not None:
                v = x
            out.append((n, v, x))
            v += 1
        self.decls.append({"k": "enum", "tn": tn, "names": out})

    def func(self, n, ps, ret, body, proto=False):
        """ps: [(name, type)]"""
        self.funcs.append({"n": n, "ps": [{"n": a, "t": b} for a, b in ps], "ret": ret, "body": body})
        self.decls.append({"k": "fn", "n": n, "i": len(self.funcs), "proto": proto})
        return len(self.funcs)

    # ---- export
    def export(self):
        nodes = []
        strs = []
        saddr = []
        pos = [2]

        def put(d, p):
            d["p"] = p
            nodes.append(d)
            return len(nodes)

        def isp(i):
            return nodes[i - 1]["p"]

        def ex(n):
            k = n["k"]
            if k == "lit": return put({"k": k, "v": n["v"]}, True)
            if k == "var": return put({"k": k, "n": n["n"]}, True)
            if k == "sizeof": return put({"k": k, "t": n["t"]}, True)
            if k == "str":
                strs.append(n["bs"])
                saddr.append(pos[0])
                pos[0] += len(n["bs"]) + 2
                return put({"k": k, "s": len(strs)}, True)
            if k == "flat":
                es = [ex(e) for e in n["es"]]
                return put({"k": k, "es": es, "ops": n["ops"]}, all(isp(e) for e in es))
            if k in ("un",):
                a = ex(n["a"]); return put({"k": k, "op": n["op"], "a": a}, isp(a))
            if k in ("par", "addr", "deref"):
                a = ex(n["a"]); return put({"k": k, "a": a}, isp(a))
            if k in ("mem", "arrow"):
                a = ex(n["a"]); return put({"k": k, "a": a, "f": n["f"]}, isp(a))
            if k == "idx":
                a, b = ex(n["a"]), ex(n["b"]); return put({"k": k, "a": a, "b": b}, isp(a) and isp(b))
            if k == "cond":
                c, a, b = ex(n["c"]), ex(n["a"]), ex(n["b"])
                return put({"k": k, "c": c, "a": a, "b": b}, isp(a) and isp(b) and isp(c))
            if k == "call":
                return put({"k": k, "n": n["n"], "ce": ex(n["m"]) if n.get("m") else 0, "args": [ex(a) for a in n["args"]]}, False)
            if k == "inc":
                return put({"k": k, "a": ex(n["a"]), "d": n["d"], "post": n["post"]}, False)
            # statements
            z = lambda x: ex(x) if x else 0
            if k == "expr": return put({"k": k, "a": ex(n["a"])}, False)
            if k == "decl":
                return put({"k": k, "n": n["n"], "t": n["t"], "init": z(n["init"]), "inits": []}, False)
            if k == "asg": return put({"k": k, "l": ex(n["l"]), "op": n["op"], "e": ex(n["e"])}, False)
            if k == "if": return put({"k": k, "c": ex(n["c"]), "a": ex(n["a"]), "b": z(n["b"])}, False)
            if k in ("while", "do"): return put({"k": k, "c": ex(n["c"]), "a": ex(n["a"])}, False)
            if k == "for":
                return put({"k": k, "i": z(n["i"]), "c": z(n["c"]), "s": z(n["s"]), "a": ex(n["a"])}, False)
            if k == "switch":
                return put({"k": k, "c": ex(n["c"]),
                            "cases": [{"vs": c["vs"], "d": c["d"], "ss": [ex(s) for s in c["ss"]]}
                                      for c in n["cases"]]}, False)
            if k == "return": return put({"k": k, "a": z(n["a"])}, False)
            if k in ("block", "seq"): return put({"k": k, "ss": [ex(s) for s in n["ss"]]}, False)
            if k in ("break", "continue", "empty"): return put({"k": k}, False)
            raise ValueError(k)

        funcs = [{"ps": f["ps"], "ret": f["ret"], "body": ex(f["body"])} for f in self.funcs]
        decls = []
        for d in self.decls:
            if d["k"] == "obj":
                decls.append({"k": "obj", "n": d["n"], "t": d["t"], "size": self.size(d["t"]),
                              "init": [] if d["init"] is None else [ex(d["init"] if isinstance(d["init"], dict) else L(d["init"]))]})
            elif d["k"] == "enum":
                decls += [{"k": "const", "n": n, "v": v} for n, v, _ in d["names"]]
            elif d["k"] == "fn":
                decls.append({"k": "fn", "n": d["n"], "i": d["i"]})
        tys = []
        for i, t in enumerate(self.types):
            y = {"k": t["k"], "to": t.get("to", 0), "n": t.get("n", 0), "pt": self.ptrs.get(i + 1, 0),
                 "ept": t.get("ept", 0), "f": t.get("f", [])}
            tys.append(y)
        main = [i + 1 for i, f in enumerate(self.funcs) if f["n"] == "main"][0]
        return {"types": tys, "nodes": nodes, "decls": decls, "funcs": funcs, "main": main,
                "strs": strs, "straddr": saddr, "fuel": self.fuel}

    # ---- rendering
    def base(self, t):
        """type of which a declarator of t is derived; None where it cannot share a declaration"""
        y = self.types[t - 1]
        if y["k"] == "fn": return None
        if y["k"] in ("arr", "ptr") and not y.get("alias"): return self.base(y["to"])
        return t

    def declist(self, ds):
        """declarations of one base type as one declaration with several declarators"""
        b = self.tname(self.base(ds[0]["t"]))
        r = []
        for d in ds:
            x = self.tname(d["t"], d["n"])
            assert x.startswith(b + " ")
            r.append((x if not r else x[len(b) + 1:]) + (" = " + self.e(d["init"]) if d["init"] else ""))
        return ", ".join(r)

    def tname(self, t, d=""):
        """declaration of d with type t"""
        y = self.types[t - 1]
        if y["k"] == "arr":
            return self.tname(y["to"], "%s[%d]" % (d, y["n"]))
        if y["k"] == "ptr":
            return self.tname(y["to"], "*" + d)
        if y["k"] == "fn":
            return "int (*%s)()" % d
        if y.get("alias"):
            return y["alias"] + (" " + d if d else "")
        b = {"int": "int", "char": "char", "void": "void", "bool": "_Bool"}.get(y["k"]) or (
            y["name"] if y["style"] == "typedef" else "struct " + y["name"])
        return b + (" " + d if d else "")

    def e(self, n, operand=False):
        k = n["k"]
        if k == "lit":
            return n["txt"] or str(n["v"])
        if k == "var": return n["n"]
        if k == "sizeof": return "sizeof(%s)" % self.tname(n["t"])
        if k == "str":
            s = ""
            for b in n["bs"]:
                c = chr(b)
                s += {"\n": "\\n", "\t": "\\t", '"': '\\"', "\\": "\\\\"}.get(c, c)
            return '"%s"' % s
        if k == "flat":
            s = self.e(n["es"][0], True)
            for op, x in zip(n["ops"], n["es"][1:]):
                s += " %s %s" % (op, self.e(x, True))
            return "(" + s + ")" if operand else s
        if k == "un": return n["op"] + self.e(n["a"], True)
        if k == "par": return "(" + self.e(n["a"]) + ")"
        if k == "addr": return "&" + self.e(n["a"], True)
        if k == "deref":
            return "*" + self.e(n["a"], True)
        if k == "mem": return self.e(n["a"], True) + "." + n["f"]
        if k == "arrow": return self.e(n["a"], True) + "->" + n["f"]
        if k == "idx": return "%s[%s]" % (self.e(n["a"], True), self.e(n["b"]))
        if k == "cond":
            s = "%s ? %s : %s" % (self.e(n["c"], n["c"]["k"] == "cond"), self.e(n["a"]), self.e(n["b"]))
            return "(" + s + ")" if operand else s
        if k == "call": return "%s(%s)" % (self.e(n["m"], True) if n.get("m") else n["n"], ", ".join(self.e(a) for a in n["args"]))
        if k == "inc":
            o = "++" if n["d"] == 1 else "--"
            l = self.e(n["a"], True)
            return l + o if n["post"] else o + l
        raise ValueError(k)

    def cnd(self, n):
        return self.e(n)

    def simple(self, s):
        """statement without semicolon"""
        k = s["k"]
        if k == "expr": return self.e(s["a"])
        if k == "asg": return "%s %s= %s" % (self.e(s["l"]), s["op"], self.e(s["e"]))
        if k == "decl":
            d = self.tname(s["t"], s["n"])
            return d + (" = " + self.e(s["init"]) if s["init"] else "")
        if k == "seq": return self.declist(s["ss"])
        raise ValueError(k)

    def s(self, n, ind):
        k = n["k"]
        p = "    " * ind
        if k in ("expr", "asg", "decl", "seq"): return p + self.simple(n) + ";\n"
        if k == "empty": return p + ";\n"
        if k in ("break", "continue"): return p + k + ";\n"
        if k == "return": return p + "return" + (" " + self.e(n["a"]) if n["a"] else "") + ";\n"
        if k == "block":
            return p + "{\n" + "".join(self.s(x, ind + 1) for x in self.grouped(n["ss"])) + p + "}\n"
        if k == "if":
            t = p + "if (%s)\n" % self.cnd(n["c"]) + self.s(n["a"], ind + 1)
            if n["b"]:
                t += p + "else\n" + self.s(n["b"], ind + 1)
            return t
        if k == "while": return p + "while (%s)\n" % self.cnd(n["c"]) + self.s(n["a"], ind + 1)
        if k == "do": return p + "do\n" + self.s(n["a"], ind + 1) + p + "while (%s);\n" % self.cnd(n["c"])
        if k == "for":
            return p + "for (%s; %s; %s)\n" % (self.simple(n["i"]) if n["i"] else "", self.cnd(n["c"]) if n["c"] else "",
                                               self.simple(n["s"]) if n["s"] else "") + self.s(n["a"], ind + 1)
        if k == "switch":
            t = p + "switch (%s) {\n" % self.cnd(n["c"])
            for c in n["cases"]:
                for i, v in enumerate(c["vs"]):
                    t += p + "case %s:\n" % (c["txt"][i] if c["txt"] else v)
                if c["d"]:
                    t += p + "default:\n"
                t += "".join(self.s(x, ind + 1) for x in c["ss"])
            return t + p + "}\n"
        raise ValueError(k)

    join = False     # write neighbouring declarations of one base type together

    def grouped(self, ss):
        if not self.join: return ss
        r = []
        for x in ss:
            b = self.base(x["t"]) if x["k"] == "decl" else None
            if b and r and r[-1]["k"] == "seq" and self.base(r[-1]["ss"][0]["t"]) == b:
                r[-1]["ss"].append(x)
            elif b: r.append(DECLS(x))
            else: r.append(x)
        return r

    OUTF = 'int o(int x)\n{\n    printf("%d\\n", x);\n    return x;\n}\n'

    def sig(self, f):
        return "%s(%s)" % (self.tname(f["ret"], f["n"]), ", ".join(self.tname(p["t"], p["n"]) for p in f["ps"]))

    def text(self):
        self.join = False
        t = self.text1()
        if zlib.crc32(t.encode("latin-1", "replace")) % 3 == 0:
            self.join = True
            t = self.text1()
        return t

    def text1(self):
        t = self.pre
        for d in self.decls:
            if d["k"] == "alias":
                y = self.types[d["t"] - 1]
                t += "typedef %s;\n" % self.tname(y["of"], y["alias"])
            if d["k"] == "struct":
                y = self.types[d["t"] - 1]
                b = "{\n" + "".join("    %s;\n" % self.tname(f["t"], f["n"]) for f in y["f"]) + "}"
                t += "typedef struct %s %s;\n" % (b, y["name"]) if y["style"] == "typedef" else \
                    "struct %s %s;\n" % (y["name"], b)
        t += self.OUTF
        for d in self.decls:
            if d["k"] == "obj":
                t += self.tname(d["t"], d["n"]) + (" = %s" % (d["txt"] or (self.e(d["init"]) if isinstance(d["init"], dict) else d["init"])) if d["init"] is not None else "") + ";\n"
            elif d["k"] == "enum":
                t += "typedef enum { %s } %s;\n" % (", ".join(
                    n + ("" if x is None else " = %d" % x) for n, v, x in d["names"]), d["tn"])
            elif d["k"] == "fn":
                f = self.funcs[d["i"] - 1]
                if d["proto"]:
                    t += self.sig(f) + ";\n"
        # definitions in order
        for d in self.decls:
            if d["k"] == "fn":
                f = self.funcs[d["i"] - 1]
                t += self.sig(f) + "\n" + self.s(f["body"], 0)
        return t
