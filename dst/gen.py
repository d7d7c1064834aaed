"""Random C programs with one defined meaning, in the language the compiler
under test accepts, that a host compiler accepts as well.

A program is a tree of text: a node is either a string (one line) or a list
[header, [children], footer]; that is what the minimiser works on."""
import re

from . import dress

BIN = {"+": 12, "-": 12, "*": 13, "/": 13, "%": 13, "<<": 11, ">>": 11, "<": 10, ">": 10,
       "<=": 10, ">=": 10, "==": 9, "!=": 9, "&": 8, "^": 7, "|": 6, "&&": 5, "||": 4}
CONSTS = [0, 1, 2, 3, 4, 5, 7, 8, 10, 15, 16, 31, 32, 63, 64, 100, 127, 128, 200, 255, 256, 257, 511, 512,
          1000, 1023, 1024, 2047, 2048, 2049, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 100000, 1048575,
          8388607, 16777216, 123456789, 2147483647]


ESC = {10: "\\n", 9: "\\t", 13: "\\r", 0: "\\0", 92: "\\\\", 39: "\\'", 34: "\\\""}
TABLE = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b,
         "<": lambda a, b: int(a < b), ">": lambda a, b: int(a > b), "<=": lambda a, b: int(a <= b),
         ">=": lambda a, b: int(a >= b), "==": lambda a, b: int(a == b), "!=": lambda a, b: int(a != b),
         "&&": lambda a, b: int(bool(a) and bool(b)), "||": lambda a, b: int(bool(a) or bool(b)),
         "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b,
         ">>": lambda a, b: a >> b if 0 <= b < 32 else None,
         "<<": lambda a, b: wrap(a << b) if 0 <= b < 32 and a >= 0 else None,
         "/": lambda a, b: cdiv(a, b), "%": lambda a, b: None if cdiv(a, b) is None else a - cdiv(a, b) * b}


def wrap(x):
    return ((x + (1 << 31)) & 0xffffffff) - (1 << 31)


def cdiv(a, b):
    if not b or (b == -1 and a == -(1 << 31)):
        return None
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def flat_value(vals, ops):
    """what a expression without brackets is worth, None if undefined or
    beyond what an int holds"""
    vals, ops = list(vals), list(ops)
    for prio in sorted({BIN[o] for o in ops}, reverse=True):
        i = 0
        while i < len(ops):
            if BIN[ops[i]] == prio:
                x = TABLE[ops[i]](vals[i], vals[i + 1])
                if x is None or x != wrap(x):
                    return None
                vals[i:i + 2] = [x]
                del ops[i]
            else:
                i += 1
    return vals[0]


def render(nodes, ind=0):
    out = []
    for n in nodes:
        if isinstance(n, str):
            out.append("    " * ind + n)
        else:
            out.append("    " * ind + n[0])
            out.extend(render(n[1], ind + 1))
            out.append("    " * ind + n[2])
    return out


def text(nodes):
    return "\n".join(render(nodes)) + "\n"


class Var:
    def __init__(self, name, kind, **k):
        self.name = name
        self.kind = kind      # int arr chr ptr st stp
        self.n = k.get("n", 0)
        self.st = k.get("st")
        self.glob = k.get("glob", False)
        self.full = k.get("full", 0)     # what an array really has, if more
        self.ro = k.get("ro", False)     # not to be assigned directly
        self.cap = k.get("cap", 12)      # assignments left


class Fn:
    def __init__(self, name, params, ret, pure):
        self.name, self.params, self.ret, self.pure = name, params, ret, pure


class Gen:
    def __init__(self, rng, size=1.0, mem=True, feats=None):
        self.r = rng
        self.size = size
        self.mem = mem
        self.off = set(feats or ())      # features switched off
        self.nid = 0
        self.ids = []
        self.funcs = []
        self.structs = []
        self.globals = []
        self.consts = []
        self.macros = []
        self.pconsts, self.labels, self.strs = [], [], []
        self.out = []
        self.nocpp = 0
        self.data = 0
        self.gpads = []
        self.big = self.on("big", 0.12)

    def id(self, p):
        self.nid += 1
        self.ids.append("%s%d" % (p, self.nid))
        return self.ids[-1]

    def on(self, f, p=1.0):
        return f not in self.off and self.r.random() < p

    # ------------------------------------------------------------ expressions
    def const(self):
        r = self.r
        k = r.randrange(10)
        if k < 5:
            v = r.randrange(0, 20)
        elif k < 9:
            v = r.choice(CONSTS)
        else:
            v = r.randrange(0, 1 << 31)
        if r.random() < 0.15 and v:
            return "-%d" % v, 20
        if 0 <= v < 256 and r.random() < 0.1:
            return "0x%x" % v, 20
        if v > 0 and r.random() < 0.03:
            return "0%o" % v, 20
        if 32 <= v < 127 and v not in (39, 92) and r.random() < 0.3:
            return "'%c'" % v, 20
        if v in ESC and r.random() < 0.4:
            return "'%s'" % ESC[v], 20
        return "%d" % v, 20

    def lv_index(self, v, d):
        """an index expression within v.n (a power of two)"""
        r = self.r
        if v.full and r.random() < 0.4:
            return str(max(0, v.full - 1 - r.choice([0, 0, 1, r.randrange(v.full)])))
        if r.random() < 0.5:
            return str(r.randrange(v.n))
        return self.par(self.expr(min(d, 1)), 20) + " & %d" % (v.n - 1)

    def lval(self, d, write=False):
        """an int object: text, Var (or None)"""
        r = self.r
        c = []
        for v in self.scope:
            if write and v.kind == "int" and (v.ro or v.cap <= 0):
                continue
            if v.kind == "str":
                continue
            if write and self.cur_pure and v.glob:
                continue
            if write and v.kind in ("ptr", "stp", "chp") and self.cur_pure and v.ro:
                continue
            c.append(v)
        if not c:
            return None
        v = r.choice(c)
        if v.kind == "int":
            if write and not v.glob:
                v.cap -= 1
            return v.name
        if v.kind in ("arr", "ptr"):
            return "%s[%s]" % (v.name, self.lv_index(v, d))
        if v.kind in ("chr", "chp"):
            if write:
                return None
            return "%s[%s]" % (v.name, self.lv_index(v, d))
        if v.kind in ("st", "stp"):
            sep = "." if v.kind == "st" else "->"
            f = r.choice(v.st["fields"])
            if f[1] == "int":
                return v.name + sep + f[0]
            if f[1] == "char":
                return None if write else v.name + sep + f[0]
            if f[1] == "arr":
                return "%s%s%s[%s]" % (v.name, sep, f[0], self.lv_index(Var("", "arr", n=f[2]), d))
            if f[1] == "sub":
                g = r.choice([x for x in f[2]["fields"] if x[1] == "int"])
                return "%s%s%s.%s" % (v.name, sep, f[0], g[0])
        return None

    def par(self, e, prio):
        t, p = e
        if p < prio:
            return "(%s)" % t
        return t

    def leaf(self, d):
        r = self.r
        if r.random() < 0.3 or self.tokens < 0:
            if self.consts and r.random() < 0.25:
                return r.choice(self.consts), 20
            if r.random() < 0.05:
                return "sizeof(%s)" % r.choice(["int", "char"]), 20
            return self.const()
        l = self.lval(d)
        if l is None:
            return self.const()
        return l, 20

    def expr(self, d):
        """text, priority"""
        r = self.r
        self.tokens -= 1
        if d <= 0 or self.tokens < 0:
            return self.leaf(0)
        k = r.randrange(100)
        if k < 18:
            return self.leaf(d)
        if k < 56:
            op = r.choice(["+", "-", "*", "+", "-", "&", "|", "^"])
        elif k < 63:
            op = r.choice(["<<", ">>"])
        elif k < 72:
            op = r.choice(["/", "%"])
        elif k < 82:
            op = r.choice(["<", ">", "<=", ">=", "==", "!="])
        elif k < 88:
            op = r.choice(["&&", "||"])
        elif k < 93:
            return self.unary(d)
        elif k < 95 and self.on("ternary"):
            c, a, b = self.expr(d - 1), self.expr(d - 1), self.expr(d - 1)
            return "(%s ? %s : %s)" % (self.par(c, 4), self.par(a, 4), self.par(b, 4)), 20
        else:
            c = self.call(d, pure=True)
            if c:
                return c, 20
            return self.leaf(d)
        p = BIN[op]
        if op in ("<<", ">>"):
            a = self.expr(d - 1)
            if r.random() < 0.6:
                b = str(r.randrange(0, 32)), 20
            else:
                b = "(%s & 31)" % self.par(self.expr(d - 1), 9), 20
        elif op in ("/", "%"):
            a = self.expr(d - 1)
            x = r.randrange(4)
            if x == 0:
                b = str(r.choice([1, 2, 3, 4, 5, 7, 8, 10, 16, 100, 1000, 4096, 65536])), 20
            elif x == 1:
                b = "-%d" % r.choice([2, 3, 5, 7, 10, 16, 255]), 20
            elif x == 2:
                b = "((%s & %d) + %d)" % (self.par(self.expr(d - 1), 9), r.choice([7, 63, 255, 4095]),
                                          r.choice([1, 2, 5])), 20
            else:
                b = "((%s & 127) - 200)" % self.par(self.expr(d - 1), 9), 20
        elif op in ("&&", "||"):
            a, b = self.expr(d - 1), self.expr(d - 1)
        else:
            a, b = self.expr(d - 1), self.expr(d - 1)
        return "%s %s %s" % (self.par(a, p), op, self.par(b, p + 1)), p

    def unary(self, d):
        r = self.r
        k = r.randrange(3)
        if k == 0:
            return "!" + self.par(self.expr(d - 1), 20), 19
        if k == 1:
            return "~" + self.par(self.expr(d - 1), 20), 19
        if r.random() < 0.4:
            return "-(%s)" % self.expr(d - 1)[0], 19
        vs = [v.name for v in self.scope if v.kind == "int"]
        if vs:
            return "-" + r.choice(vs), 19
        return "0 - " + self.par(self.expr(d - 1), 13), 12

    def unary_fix(self, e):
        return e

    def args_for(self, f, d):
        """arguments for f or None"""
        r = self.r
        out = []
        for p in f.params:
            if p.kind == "int":
                e = self.expr(min(d, 2))
                out.append(self.par(e, 4))
            elif p.kind == "ptr":
                c = [v for v in self.scope if v.kind in ("arr", "ptr") and v.n >= p.n and
                     not (self.cur_pure and (v.glob or v.ro) and not p.ro)]
                if not c:
                    return None
                v = r.choice(c)
                k = v.n - p.n
                if k and v.kind == "arr" and r.random() < 0.4 and self.on("ptradd"):
                    out.append(r.choice(["%s + %d", "&%s[%d]"]) % (v.name, r.randrange(k + 1)))
                else:
                    out.append(v.name)
            elif p.kind == "chp":
                c = [v for v in self.scope if v.kind in ("chr", "chp", "str") and v.n >= p.n]
                if not c:
                    return None
                out.append(r.choice(c).name)
            elif p.kind == "stp":
                c = [v for v in self.scope if v.kind in ("st", "stp") and v.st is p.st and
                     not (self.cur_pure and (v.glob or v.ro) and not p.ro)]
                if not c:
                    return None
                v = r.choice(c)
                out.append(("&" if v.kind == "st" else "") + v.name)
        return out

    def call(self, d, pure):
        r = self.r
        c = [f for f in self.funcs if (f.pure or not pure) and f.ret == "int"]
        if not c:
            return None
        for _ in range(3):
            f = r.choice(c)
            a = self.args_for(f, d - 1)
            if a is not None and self.budget_calls > 0:
                self.budget_calls -= 1
                return "%s(%s)" % (f.name, ", ".join(a))
        return None

    # ------------------------------------------------------------ statements
    def assign(self, out):
        r = self.r
        l = self.lval(2, write=True)
        if l is None:
            return
        k = r.randrange(12)
        if k < 6:
            e = self.expr(r.choice([1, 2, 2, 3, 3, 4, 5, 6]))
            out.append("%s = %s;" % (l, e[0]))
        elif k < 10:
            op = r.choice(["+", "-", "*", "&", "|", "^", "<<", ">>", "/", "%"])
            if op in ("<<", ">>"):
                e = str(r.randrange(0, 32))
            elif op in ("/", "%"):
                e = str(r.choice([1, 2, 3, 7, 10, 64, -3, -8]))
            else:
                e = self.expr(r.randrange(1, 3))[0]
            out.append("%s %s= %s;" % (l, op, e))
        else:
            out.append(r.choice(["%s++;", "%s--;", "++%s;", "--%s;"]) % l)

    def show(self, out):
        r = self.r
        n = r.randrange(1, 4)
        es = [self.par(self.expr(r.randrange(0, 3)), 4) for _ in range(n)]
        fmt = r.choice([" ", " ", ",", ""]).join(r.choice(["%d", "%d", "%x", "%d", "%x", "%o", "%5d", "%08x", "%#x", "%12d", "%05d"])
                                                 for _ in range(n))
        if len([1 for _ in es]) and not self.cur_pure:
            out.append('printf("%s\\n", %s);' % (fmt, ", ".join(es)))

    def decl(self, out):
        r = self.r
        if len(self.scope) - self.nglob > 14:
            return
        k = r.randrange(20)
        if k < 11:
            v = Var(self.id("v"), "int")
            e = self.expr(r.randrange(0, 3))
            if r.random() < 0.2:
                w = Var(self.id("v"), "int")
                out.append("int %s = %s, %s;" % (v.name, e[0], w.name))
                out.append("%s = %s;" % (w.name, self.expr(1)[0]))
                self.scope.append(w)
            elif r.random() < 0.2:
                out.append("int %s;" % v.name)
                out.append("%s = %s;" % (v.name, e[0]))
            else:
                out.append("int %s = %s;" % (v.name, e[0]))
            self.scope.append(v)
        elif k < 14:
            n = r.choice([2, 4, 8, 16])
            if r.random() < 0.03:
                n = 1024
            v = Var(self.id("a"), "arr", n=n)
            i = self.id("i")
            out.append("int %s[%d];" % (v.name, n))
            out.append("int %s;" % i)
            out.append("for (%s = 0; %s < %d; %s++) %s[%s] = %s * %d + %d;" %
                       (i, i, n, i, v.name, i, i, r.randrange(1, 50), r.randrange(0, 99)))
            self.scope.append(v)
        elif k < 15:
            n = r.choice([4, 8, 16])
            v = Var(self.id("c"), "chr", n=n)
            i = self.id("i")
            out.append("char %s[%d];" % (v.name, n))
            out.append("int %s;" % i)
            out.append("for (%s = 0; %s < %d; %s++) %s[%s] = %d + ((%s * %d) & 15);" %
                       (i, i, n, i, v.name, i, r.randrange(40, 100) if r.random() < 0.7 else r.randrange(112, 240), i, r.randrange(1, 9)))
            self.scope.append(v)
        elif k < 16 and self.on("ptr"):
            c = [v for v in self.scope if v.kind == "arr" and v.n >= 2 and not (self.cur_pure and v.glob)]
            if c:
                b = r.choice(c)
                v = Var(self.id("p"), "ptr", n=b.n // 2)
                out.append("int *%s = %s;" % (v.name, r.choice([b.name, "%s + %d" % (b.name, b.n // 2),
                                                                 "&%s[%d]" % (b.name, b.n // 2)])))
                self.scope.append(v)
        elif k < 17 and self.on("addr"):
            v = Var(self.id("x"), "int", ro=True)
            w = Var(self.id("p"), "ptr", n=1)
            out.append("int %s = %s;" % (v.name, self.expr(1)[0]))
            out.append("int *%s = &%s;" % (w.name, v.name))
            self.scope.append(w)
            self.scope.append(v)
        elif self.structs and self.on("struct"):
            st = r.choice(self.structs)
            if r.random() < 0.6:
                v = Var(self.id("s"), "st", st=st)
                out.append("%s %s;" % (st["name"], v.name))
                self.init_struct(out, v.name, ".", st)
                self.scope.append(v)
            else:
                c = [v for v in self.scope if v.kind == "st" and v.st is st and not (self.cur_pure and v.glob)]
                if c:
                    v = Var(self.id("q"), "stp", st=st)
                    out.append("%s *%s = &%s;" % (st["name"], v.name, r.choice(c).name))
                    self.scope.append(v)

    def init_struct(self, out, n, sep, st):
        r = self.r
        for f in st["fields"]:
            if f[1] == "int":
                out.append("%s%s%s = %s;" % (n, sep, f[0], self.expr(1)[0]))
            elif f[1] == "char":
                out.append("%s%s%s = %d;" % (n, sep, f[0], r.randrange(1, 127) if r.random() < 0.7 else r.randrange(128, 256)))
            elif f[1] == "arr":
                i = self.id("i")
                out.append("for (int %s = 0; %s < %d; %s++) %s%s%s[%s] = %s + %d;" %
                           (i, i, f[2], i, n, sep, f[0], i, i, r.randrange(100)))
            elif f[1] == "sub":
                for g in f[2]["fields"]:
                    out.append("%s%s%s.%s = %d;" % (n, sep, f[0], g[0], r.randrange(1, 100)))

    def block(self, n, loop, ret, extra=()):
        """statements of a nested block"""
        out = list(extra)
        keep = len(self.scope)
        for _ in range(n):
            self.stmt(out, loop, ret)
        del self.scope[keep:]
        return out

    def cond(self):
        e = self.expr(self.r.randrange(1, 3))
        r = self.r
        if r.random() < 0.12:
            vs = [v for v in self.scope if v.kind == "int" and not v.ro and v.cap > 2 and not (v.glob and self.cur_pure)]
            if vs:
                v = r.choice(vs)
                v.cap -= 1
                if not self.uses(e[0], v.name):
                    t = r.choice(["%s++", "%s--", "++%s", "--%s"]) % v.name
                    k = r.randrange(5)
                    if k == 0:
                        return t
                    if k == 1:
                        return "%s %s %s" % (t, r.choice(["<", ">", "==", "!=", "<=", ">="]), self.par(e, 11))
                    if k == 2:
                        return "%s && %s" % (t, self.par(e, 6))
                    if k == 3:
                        return "%s || %s" % (self.par(e, 6), t)
                    return "%s %s %s" % (self.par(e, 6), r.choice(["&&", "||"]), t)
        return e[0]

    @staticmethod
    def uses(t, name):
        """an expression may depend on a variable: any call does"""
        return re.search(r"\b%s\b|\w\(" % re.escape(name), t) is not None

    def tail(self, out, loop, ret):
        r = self.r
        if loop and self.joins > 0 and r.random() < 0.25:
            self.joins -= 1
            out.append(r.choice(loop) + ";")
        elif ret and r.random() < 0.12:
            out.append(ret())

    def stmt(self, out, loop, ret):
        r = self.r
        self.left -= 1
        if self.left <= 0:
            self.assign(out)
            return
        k = r.randrange(100)
        if k < 16:
            self.decl(out)
        elif k < 46:
            self.assign(out)
        elif k < 56:
            self.show(out)
        elif k < 63:
            c = [f for f in self.funcs if f.pure or not self.cur_pure]
            if c:
                f = r.choice(c)
                a = self.args_for(f, 2)
                if a is not None and self.budget_calls > 0:
                    self.budget_calls -= 1
                    t = "%s(%s)" % (f.name, ", ".join(a))
                    if f.ret == "int":
                        vs = [v for v in self.scope if v.kind == "int" and not v.ro and v.cap > 0 and
                              not (v.glob and self.cur_pure)]
                        if vs and r.random() < 0.7:
                            v = r.choice(vs)
                            v.cap -= 1
                            t = "%s = %s" % (v.name, t)
                    out.append(t + ";")
        elif k < 76:
            if self.joins < 3:
                return
            self.joins -= 2
            b = self.block(r.randrange(1, 4), loop, ret)
            self.tail(b, loop, ret)
            node = ["if (%s) {" % self.cond(), b, "}"]
            if r.random() < 0.4:
                node[2] = "} else {"
                b2 = self.block(r.randrange(1, 3), loop, ret)
                if not self.ends(b) or not b2:
                    self.tail(b2, loop, ret)
                if self.ends(b) and self.ends(b2):
                    b2.pop()
                out.append([node[0], b, "}"])
                if r.random() < 0.3 and self.joins > 4 and not self.ends(b) and not self.ends(b2):
                    self.joins -= 2
                    b3 = self.block(r.randrange(1, 3), loop, ret)
                    out.append(["else if (%s) {" % self.cond(), b3, "}"])
                out.append(["else {", b2, "}"])
            else:
                out.append(node)
        elif k < 84:
            self.for_loop(out, ret)
        elif k < 89:
            self.while_loop(out, ret)
        elif k < 93:
            self.switch(out, loop, ret)
        elif k < 95:
            self.misc(out)
        elif k < 97:
            self.memop(out)
        elif self.on("extra"):
            getattr(self, r.choice(self.EXTRA))(out)

    # ------------------------------------------------------------ large areas
    # so that what is near lands on either side of what an instruction can hold
    PADS = [1, 3, 15, 61, 62, 63, 64, 65, 66, 120, 126, 127, 128, 254, 256, 258, 505, 508, 510, 511, 512, 513, 514, 515, 520,
            1016, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 2040, 2047, 2050]
    HUGE = [4096, 8190, 8192, 16300, 16380, 16381, 16383, 16384, 16385, 20000, 32768, 65530, 66000]

    def pads(self, out, most, glob=False):
        r = self.r
        made = []
        for _ in range(r.randrange(1, most + 1)):
            n = r.choice(self.HUGE if most > 2 and r.random() < 0.25 else self.PADS)
            if r.random() < 0.3:
                n = max(1, n + r.randrange(-4, 5))
            ch = r.random() < 0.25
            v = Var(self.id("gp" if glob else "lp"), "chr" if ch else "arr", n=1 << (n.bit_length() - 1), full=n, glob=glob)
            out.append("%s %s[%d];" % ("char" if ch else "int", v.name, n))
            made.append((v, r.choice([1, 3, 7, 77]), r.randrange(100)))
            if r.random() < 0.5:
                w = Var(self.id("g" if glob else "v"), "int", glob=glob)
                out.append("int %s = %d;" % (w.name, r.randrange(1000)))
                (self.globals if glob else self.scope).append(w)
        return made

    def pad_fill(self, out, made):
        for v, a, b in made:
            i = self.id("i")
            e = "(%s * %d + %d)" % (i, a, b)
            out.append("for (int %s = 0; %s < %d; %s++) %s[%s] = %s;" %
                       (i, i, v.full, i, v.name, i, e + " & 255" if v.kind == "chr" else e))

    def pad_sum(self, out, made):
        s, last = self.id("v"), None
        out.append("int %s = 0;" % s)
        for v, _, _ in made:
            i = self.id("i")
            out.append("for (int %s = 0; %s < %d; %s++) %s = %s * 3 + %s[%s];" % (i, i, v.full, i, s, s, v.name, i))
        return s

    # ------------------------------------------------------------ patterns of real programs
    EXTRA = ("x_forever", "x_while1", "x_list", "x_ptrs", "x_charscalar", "x_macro", "x_cppif", "x_string",
             "x_fnptr", "x_starr", "x_shadow", "x_and_calls", "x_pp", "x_scan", "x_bool", "x_sizeof",
             "x_for2", "x_step", "x_step", "x_fntab", "x_variadic", "x_stmtmac", "x_condpp", "x_condpp", "x_cont", "x_countdown",
             "x_copystr", "x_noarg", "x_enumsw", "x_alias", "x_sort", "x_tree", "x_gstr", "x_ring", "x_bareidx", "x_bareidx")

    def simple(self):
        """a cheap operand: a number or a variable"""
        r = self.r
        vs = [v.name for v in self.scope if v.kind == "int"]
        return r.choice(vs) if vs and r.random() < 0.6 else str(r.randrange(60))

    def x_for2(self, out):
        r = self.r
        if self.joins < 6 or self.nest >= 3:
            return
        self.joins -= 3
        i, j, s = self.id("i"), self.id("i"), self.id("v")
        out.append("int %s = %s;" % (s, self.expr(1)[0]))
        n = r.randrange(2, 12)
        body = ["%s = %s * 3 + %s - %s;" % (s, s, i, j)]
        k = r.randrange(3)
        if k == 0:
            out.append(["for (int %s = 0, %s = %d; %s < %s; %s++) {" % (i, j, n, i, j, i), body + ["%s -= %d;" % (j, r.randrange(0, 2))], "}"])
        elif k == 1:
            out.append(["for (int %s = %d, %s = 1; %s; %s--) {" % (i, n, j, i, i), ["%s += %s;" % (j, i)] + body, "}"])
        else:
            out.append("int %s = %d, %s = 0;" % (i, n, j))
            out.append(["for (; %s > 0;) {" % i, body + ["%s -= %d;" % (i, r.randrange(1, 4)), "%s++;" % j], "}"])
        self.scope.append(Var(s, "int"))

    def x_step(self, out):
        """steps of elements and members inside expressions"""
        r = self.r
        c = []
        for v in self.scope:
            if self.cur_pure and (v.glob or v.kind in ("ptr", "stp")):
                continue
            if v.kind in ("arr", "ptr"):
                c.append("%s[%d]" % (v.name, r.randrange(v.n)))
            elif v.kind in ("st", "stp"):
                f = r.choice(v.st["fields"])
                sep = "." if v.kind == "st" else "->"
                if f[1] == "int":
                    c.append(v.name + sep + f[0])
                elif f[1] == "arr":
                    c.append("%s%s%s[%d]" % (v.name, sep, f[0], r.randrange(f[2])))
        if not c:
            return
        l, v = r.choice(c), self.id("v")
        st = l + r.choice(["++", "--"])
        k = r.randrange(5)
        if k == 0:
            out.append("int %s = %s;" % (v, st))
        elif k == 1:
            out.append("int %s = %s %s %s;" % (v, st, r.choice(["+", "-", "*", "^"]), r.randrange(1, 99)))
        elif k == 2:
            out.append("int %s = %d;" % (v, r.randrange(99)))
            out.append("if (%s > %s) %s += %s;" % (st, r.randrange(99), v, l))
            self.joins -= 1
        elif k == 3 and self.joins > 3:
            self.joins -= 3
            out.append("int %s = %s ? %s : %s;" % (v, self.simple(), st, self.simple()))
            out.append("%s += %s;" % (v, l))
        else:
            out.append("int %s = %d;" % (v, r.randrange(99)))
            out.append("%s += %s;" % (v, st))
            out.append("%s ^= %s;" % (v, l))
        self.scope.append(Var(v, "int"))

    def x_fntab(self, out):
        """functions in an array of structures"""
        r = self.r
        if not self.ops or self.joins < 6 or self.budget_calls < 1:
            return
        st, k = r.choice(self.ops)
        fs = [f for f in self.funcs if f.ret == "int" and (f.pure or not self.cur_pure) and len(f.params) == k and
              all(p.kind == "int" for p in f.params)]
        if not fs:
            return
        self.budget_calls -= 1
        self.joins -= 3
        o, v, i, n = self.id("o"), self.id("v"), self.id("i"), r.randrange(1, 5)
        out.append("%s %s[%d];" % (st, o, n))
        for j in range(n):
            out.append("%s[%d].fn = %s;" % (o, j, r.choice(fs).name))
            out.append("%s[%d].tag = %d;" % (o, j, r.randrange(99)))
        out.append("int %s = %s;" % (v, self.simple()))
        a = ", ".join(r.choice([v, i, "%s & %d" % (v, r.choice([3, 15])), str(r.randrange(9))]) for _ in range(k))
        if r.random() < 0.5:
            out.append(["for (int %s = 0; %s < %d; %s++) {" % (i, i, n, i),
                        ["%s = (%s[%s].fn(%s) & 65535) + %s[%s].tag;" % (v, o, i, a, o, i)], "}"])
        else:
            q = self.id("q")
            out.append(["for (int %s = 0; %s < %d; %s++) {" % (i, i, n, i),
                        ["%s *%s = &%s[%s];" % (st, q, o, i), "%s ^= %s->fn(%s) + %s->tag;" % (v, q, a, q)], "}"])
        self.scope.append(Var(v, "int"))

    def x_variadic(self, out):
        if not self.vmacros or self.cur_pure:
            return
        r = self.r
        m, named, most = r.choice(self.vmacros)
        n = r.randrange(1, most + 1)
        if most == 99:
            n = r.randrange(1, 5)
            fmt = " ".join(r.choice(["%d", "%x"]) for _ in range(n)) + "\\n"
            out.append('%s("%s", %s);' % (m, fmt, ", ".join(self.simple() for _ in range(n))))
        else:
            out.append("%s(%s);" % (m, ", ".join(self.simple() for _ in range(named + most))))

    def x_stmtmac(self, out):
        if not self.smacros or self.cur_pure:
            return
        r = self.r
        m, n = r.choice(self.smacros)
        out.append("%s(%s);" % (m, ", ".join(self.simple() for _ in range(n))))

    def pp_expr(self):
        """a condition of the preprocessor"""
        r = self.r
        for _ in range(40):
            n = r.randrange(1, 5)
            vals = [r.randrange(0, 12) if r.random() < 0.8 else r.choice([100, 255, 4096]) for _ in range(n)]
            ops = [r.choice(["+", "-", "*", "/", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&", "||", "&", "|", "^"])
                   for _ in range(n - 1)]
            if flat_value(vals, ops) is None:
                continue
            t = []
            for i, v in enumerate(vals):
                if self.pconsts and r.random() < 0.3:
                    c, cv = r.choice(self.pconsts)
                    vals[i] = cv
                    x = c
                elif r.random() < 0.2:
                    x = "0x%x" % v
                elif r.random() < 0.15 and (i == 0 or ops[i - 1] in ("&&", "||", "+", "*", "==")):
                    vals[i] = -v
                    x = "-%d" % v
                else:
                    x = str(v)
                t.append(x)
                if i < n - 1:
                    t.append(ops[i])
            if flat_value(vals, ops) is None:
                continue
            return " ".join(t)
        return "1"

    def x_condpp(self, out):
        r = self.r
        if self.nocpp:
            return
        out += self.cond_lines(lambda b: self.assign(b), 0)

    def cond_lines(self, fill, depth):
        r = self.r
        a = r.choice(self.pconsts)[0] if self.pconsts and r.random() < 0.7 else "NO_%d" % r.randrange(9)
        out = [r.choice(["#if %s" % self.pp_expr(), "#if %s" % self.pp_expr(), "#ifdef " + a, "#ifndef " + a, "#if defined(%s)" % a,
                         "#if defined(%s) && %s" % (a, self.pp_expr()) if False else "#if defined(%s) && %d" % (a, r.randrange(2)),
                         "#if defined(%s) || %d" % (a, r.randrange(2))])]

        def part():
            b = []
            for _ in range(r.randrange(1, 3)):
                if depth < 2 and r.random() < 0.3:
                    b += self.cond_lines(fill, depth + 1)
                else:
                    fill(b)
            return b
        out += part()
        if out[0].startswith("#if "):
            for _ in range(r.choice([0, 0, 1, 2])):
                out.append("#elif " + self.pp_expr())
                out += part()
        if r.random() < 0.7:
            out.append("#else")
            out += part()
        out.append("#endif")
        return out

    def x_cont(self, out):
        """continue in loops that test their condition first or last"""
        r = self.r
        if self.joins < 8 or self.nest >= 3:
            return
        self.joins -= 5
        i, s, n = self.id("i"), self.id("v"), r.randrange(3, 15)
        out += ["int %s = %s;" % (i, r.choice(["0", "1", "-2"])), "int %s = %s;" % (s, self.expr(1)[0])]
        m = r.choice([1, 2, 3, 4])
        body = ["%s++;" % i, "if (%s & %d) continue;" % (i, m), "%s += %s;" % (s, i)]
        if r.random() < 0.5:
            body.insert(2, "if (%s > %d) break;" % (i, r.randrange(1, 20)))
        if r.random() < 0.5:
            out.append(["while (%s < %d) {" % (i, n), body, "}"])
        else:
            out.append(["do {", body, "} while (%s < %d);" % (i, n)])
        out.append("%s ^= %s;" % (s, i))
        self.scope.append(Var(s, "int"))

    def x_countdown(self, out):
        r = self.r
        if self.joins < 6 or self.nest >= 3:
            return
        self.joins -= 3
        i, s, n = self.id("i"), self.id("v"), r.randrange(1, 9)
        out += ["int %s = %d;" % (i, n), "int %s = 0;" % s]
        k = r.randrange(4)
        if k == 0:
            out.append("while (%s--) %s = %s * 2 + %s;" % (i, s, s, i))
        elif k == 1:
            out.append("do %s = %s * 2 + %s; while (%s--);" % (s, s, i, i))
        elif k == 2:
            out.append("while (--%s > 0 && %s++ < %d) %s += %s;" % (i, s, r.randrange(50), s, i))
        else:
            out.append("for (; %s-- > 1;) %s ^= %s << 1;" % (i, s, i))
        out.append("%s += %s;" % (s, i))
        self.scope.append(Var(s, "int"))

    def x_copystr(self, out):
        r = self.r
        if self.joins < 6:
            return
        self.joins -= 3
        b, s, i, j = self.id("c"), self.id("s"), self.id("i"), self.id("i")
        t = "".join(r.choice("abcXYZ 0189") for _ in range(r.randrange(0, 12)))
        out += ["char %s[16];" % b, 'char *%s = "%s";' % (s, t), "int %s = 0;" % i]
        k = r.randrange(3)
        if k == 0:
            out += ["int %s = 0;" % j, "while (%s[%s]) %s[%s++] = %s[%s++];" % (s, i, b, j, s, i), "%s[%s] = 0;" % (b, j)]
        elif k == 1:
            out += ["while (*%s) %s[%s++] = *%s++;" % (s, b, i, s), "%s[%s] = 0;" % (b, i)]
        else:
            out += ["for (%s = 0; %s[%s]; %s++) %s[%s] = %s[%s] %s;" % (i, s, i, i, b, i, s, i, r.choice(["", "+ 1", "^ 1"])),
                    "%s[%s] = 0;" % (b, i)]
        if not self.cur_pure:
            out.append('printf("%%s %%d\\n", %s, %s);' % (b, i))
        self.scope.append(Var(i, "int"))

    def x_noarg(self, out):
        r = self.r
        if not self.gets or self.budget_calls < 1:
            return
        self.budget_calls -= 1
        st, fs = r.choice(self.gets)
        o, v = self.id("o"), self.id("v")
        out += ["%s %s;" % (st, o), "%s.get = %s;" % (o, r.choice(fs)), "int %s = %s.get();" % (v, o)]
        if r.random() < 0.5:
            q = self.id("q")
            out += ["%s *%s = &%s;" % (st, q, o), "%s->get = %s;" % (q, r.choice(fs)), "%s = %s * 3 + %s->get();" % (v, v, q)]
        self.scope.append(Var(v, "int"))

    def x_enumsw(self, out):
        r = self.r
        if self.joins < 10 or len(self.labels) < 2 or not self.on("switch"):
            return
        ls = r.sample(self.labels, min(len(self.labels), r.randrange(2, 5)))
        seen, body = set(), []
        v = self.id("v")
        for n, val in ls:
            if val in seen:
                continue
            seen.add(val)
            body.append(["case %s:" % n, ["%s += %d;" % (v, r.randrange(1, 99))] + (["break;"] if r.random() < 0.7 else []), ""])
        for ch, c in (("\\n", 10), ("\\\\", 92), ("z", 122), ("\\0", 0)):
            if c not in seen and r.random() < 0.3:
                seen.add(c)
                body.append(["case '%s':" % ch, ["%s ^= %d;" % (v, r.randrange(1, 99)), "break;"], ""])
        body[-1][1] = [x for x in body[-1][1] if x != "break;"] + ["break;"]
        if r.random() < 0.7:
            body.append(["default:", ["%s -= %d;" % (v, r.randrange(1, 99))], ""])
        self.joins -= len(body) + 2
        out.append("int %s = 0;" % v)
        i = self.id("i")
        vals = sorted(seen) + [r.randrange(300)]
        a = self.id("a")
        out.append("int %s[%d];" % (a, len(vals)))
        for k, x in enumerate(vals):
            out.append("%s[%d] = %d;" % (a, k, x))
        out.append(["for (int %s = 0; %s < %d; %s++) {" % (i, i, len(vals), i), [["switch (%s[%s]) {" % (a, i), body, "}"],
                                                                                     "%s = %s * 2;" % (v, v)], "}"])
        self.scope.append(Var(v, "int"))

    def x_alias(self, out):
        if not self.strs or self.cur_pure:
            return
        r = self.r
        out.append('printf("%%s %%d\\n", %s, strlen(%s));' % (r.choice(self.strs), r.choice(self.strs)))

    def x_sort(self, out):
        r = self.r
        c = [v for v in self.scope if v.kind == "arr" and not v.glob and v.n >= 4]
        if not c or self.joins < 12 or self.nest >= 2:
            return
        self.joins -= 8
        v = r.choice(c)
        n = min(v.n, 8)
        i, j, t = self.id("i"), self.id("i"), self.id("t")
        a = v.name
        if r.random() < 0.5:
            out.append(["for (int %s = 0; %s < %d; %s++) {" % (i, i, n - 1, i),
                        [["for (int %s = 0; %s < %d - %s; %s++) {" % (j, j, n - 1, i, j),
                          [["if (%s[%s] > %s[%s + 1]) {" % (a, j, a, j),
                            ["int %s = %s[%s];" % (t, a, j), "%s[%s] = %s[%s + 1];" % (a, j, a, j), "%s[%s + 1] = %s;" % (a, j, t)], "}"]],
                          "}"]], "}"])
        else:
            out.append(["for (int %s = 1; %s < %d; %s++) {" % (i, i, n, i),
                        ["int %s = %s[%s];" % (t, a, i), "int %s = %s - 1;" % (j, i),
                         ["while (%s >= 0 && %s[%s] > %s) {" % (j, a, j, t), ["%s[%s + 1] = %s[%s];" % (a, j, a, j), "%s--;" % j], "}"],
                         "%s[%s + 1] = %s;" % (a, j, t)], "}"])

    def x_tree(self, out):
        r = self.r
        if not self.trees or not self.mem or self.joins < 6 or self.cur_pure or self.nest:
            return
        self.joins -= 3
        t = r.choice(self.trees)
        p, i, v = self.id("p"), self.id("i"), self.id("v")
        out += ["%s_t *%s = %s_mk(%d);" % (t, p, t, r.randrange(100)),
                "for (int %s = 0; %s < %d; %s++) %s_ins(%s, (%s * %d + %d) %% 101);" %
                (i, i, r.randrange(1, 14), i, t, p, i, r.choice([7, 37, 53]), r.randrange(50)),
                "int %s = %s_sum(%s, 1);" % (v, t, p)]
        self.scope.append(Var(v, "int"))

    def x_gstr(self, out):
        """global pointers and arrays of pointers"""
        r = self.r
        if not self.gptrs or self.cur_pure:
            return
        k, n, m = r.choice(self.gptrs)
        if k == "s":
            t = "".join(r.choice("abcdef 123") for _ in range(r.randrange(1, 9)))
            out.append('%s[%d] = "%s";' % (n, r.randrange(m), t))
            i = r.randrange(m)
            out.append('if (%s[%d]) printf("%%s %%c\\n", %s[%d], %s[%d][0]);' % (n, i, n, i, n, i))
            self.joins -= 1
        elif k == "p":
            c = [v for v in self.globals if v.kind == "arr" and v.n >= 2]
            if not c:
                return
            g = r.choice(c)
            v = self.id("v")
            out.append("%s = %s;" % (n, r.choice([g.name, "&%s[%d]" % (g.name, r.randrange(g.n - 1)), "%s + 1" % g.name if g.n > 2 else g.name])))
            out.append("%s[%d] = %s;" % (n, r.randrange(2 if g.n > 3 else 1), self.expr(1)[0]))
            out.append("int %s = %s[0];" % (v, n))
            self.scope.append(Var(v, "int"))
        else:
            i, q, v = r.randrange(m), self.id("q"), self.id("v")
            f = [x[0] for x in k["fields"] if x[1] == "int"]
            out.append("%s[%d].%s = %s;" % (n, i, r.choice(f), self.expr(1)[0]))
            out.append("%s *%s = &%s[%d];" % (k["name"], q, n, i))
            out.append("int %s = %s->%s;" % (v, q, r.choice(f)))
            if i + 1 < m:
                out += ["%s++;" % q, "%s->%s ^= %s;" % (q, r.choice(f), v)]
            self.scope.append(Var(v, "int"))

    def x_ring(self, out):
        """a queue in an array, as real programs have them"""
        r = self.r
        if self.joins < 8 or self.nest >= 2:
            return
        self.joins -= 5
        q, h, t, i, s = self.id("a"), self.id("v"), self.id("v"), self.id("i"), self.id("v")
        n = r.choice([4, 8])
        out += ["int %s[%d];" % (q, n), "int %s = 0;" % h, "int %s = 0;" % t, "int %s = 0;" % s]
        out.append(["for (int %s = 0; %s < %d; %s++) {" % (i, i, r.randrange(4, 20), i),
                    [["if (%s - %s < %d && (%s & %d)) {" % (t, h, n, i, r.choice([1, 3, 5])),
                      ["%s[%s & %d] = %s * %d;" % (q, t, n - 1, i, r.randrange(1, 9)), "%s++;" % t], "}"],
                     ["else if (%s > %s) {" % (t, h), ["%s += %s[%s & %d];" % (s, q, h, n - 1), "%s++;" % h], "}"]], "}"])
        out.append("%s = %s * 16 + (%s - %s);" % (s, s, t, h))
        self.scope.append(Var(s, "int"))

    def x_forever(self, out):
        r = self.r
        if self.joins < 6 or self.nest >= 3:
            return
        self.joins -= 4
        i, acc = self.id("i"), self.id("v")
        self.nest += 1
        self.scope.append(Var(i, "int", ro=True))
        b = self.block(r.randrange(1, 3), None, None)
        self.scope.pop()
        self.nest -= 1
        out.append("int %s = 0;" % i)
        out.append("int %s = %s;" % (acc, self.expr(1)[0]))
        lim = r.randrange(1, 8)
        if r.random() < 0.5:
            body = ["if (%s >= %d) break;" % (i, lim)] + b + ["%s += %s;" % (acc, i), "%s++;" % i]
        else:
            body = b + ["%s++;" % i, "if (%s > %d) break;" % (i, lim), "%s ^= %s << 2;" % (acc, i)]
        out.append([r.choice(["for (;;) {", "while (1) {"]), body, "}"])
        self.scope.append(Var(acc, "int"))

    def x_while1(self, out):
        r = self.r
        if self.joins < 8 or self.nest >= 3:
            return
        self.joins -= 5
        a, b, n = self.id("v"), self.id("v"), self.id("v")
        out += ["int %s = %s & 4095;" % (a, self.par(self.expr(1), 9)),
                "int %s = (%s & 1023) + 1;" % (b, self.par(self.expr(1), 9)), "int %s = 0;" % n]
        out.append(["while (%s) {" % b, ["int t%s = %s %% %s;" % (n, a, b), "%s = %s;" % (a, b), "%s = t%s;" % (b, n),
                                          "%s++;" % n, r.choice(["if (%s > 40) break;" % n, "if (%s & 64) continue;" % a])], "}"])
        self.scope += [Var(a, "int"), Var(n, "int")]

    def x_list(self, out):
        r = self.r
        if not self.mem or self.joins < 10 or not self.nodes:
            return
        self.joins -= 6
        nd = r.choice(self.nodes)
        h, p, i, s = self.id("h"), self.id("p"), self.id("i"), self.id("v")
        n = r.randrange(1, 7)
        out.append("%s_t *%s = NULL;" % (nd, h))
        out.append("int %s;" % i)
        out.append("%s_t *%s;" % (nd, p))
        out.append(["for (%s = 0; %s < %d; %s++) {" % (i, i, n, i),
                    ["%s = malloc(sizeof(%s_t));" % (p, nd), "%s->val = %s * %s + %d;" % (p, i, i, r.randrange(50)),
                     "%s->next = %s;" % (p, h), "%s = %s;" % (h, p)], "}"])
        if r.random() < 0.5:
            q, t = self.id("q"), self.id("q")
            out += ["%s_t *%s = NULL;" % (nd, q), "%s_t *%s;" % (nd, t),
                    ["while (%s) {" % h, ["%s = %s->next;" % (t, h), "%s->next = %s;" % (h, q),
                                          "%s = %s;" % (q, h), "%s = %s;" % (h, t)], "}"], "%s = %s;" % (h, q)]
        out.append("int %s = 0;" % s)
        if r.random() < 0.5:
            out.append("for (%s = %s; %s; %s = %s->next) %s = %s * 3 + %s->val;" % (p, h, p, p, p, s, s, p))
        else:
            out.append("for (%s = %s; %s != NULL; %s = %s->next) %s += %s->val;" % (p, h, p, p, p, s, p))
        if n > 1 and r.random() < 0.5:
            out.append("%s += %s->next->val;" % (s, h))
        out.append(["while (%s) {" % h, ["%s = %s->next;" % (p, h), "free(%s);" % h, "%s = %s;" % (h, p)], "}"])
        self.scope.append(Var(s, "int"))

    def x_ptrs(self, out):
        r = self.r
        c = [v for v in self.scope if v.kind == "arr" and v.n >= 2 and not (self.cur_pure and v.glob)]
        if len(c) < 1:
            return
        a, i, s = self.id("ap"), self.id("i"), self.id("v")
        n = r.choice([2, 4])
        out.append("int *%s[%d];" % (a, n))
        for k in range(n):
            v = r.choice(c)
            out.append("%s[%d] = %s;" % (a, k, r.choice([v.name, "&%s[%d]" % (v.name, r.randrange(v.n - 1)),
                                                         "%s + %d" % (v.name, r.randrange(v.n - 1))])))
        out.append("int %s = 0;" % s)
        out.append("for (int %s = 0; %s < %d; %s++) %s += %s[%s][%s & 1];" % (i, i, n, i, s, a, i, i))
        if r.random() < 0.5:
            out.append("%s[%d][%d] = %s;" % (a, r.randrange(n), r.randrange(2), self.expr(1)[0]))
        if r.random() < 0.5:
            pp = self.id("pp")
            out.append("int **%s = %s;" % (pp, a))
            out.append("%s ^= %s[%d][%d];" % (s, pp, r.randrange(n), r.randrange(2)))
        self.scope.append(Var(s, "int"))

    def x_pp(self, out):
        """walks over an array with a pointer"""
        r = self.r
        c = [v for v in self.scope if v.kind == "arr" and v.n >= 4]
        if not c:
            return
        v = r.choice(c)
        p, i, s = self.id("p"), self.id("i"), self.id("v")
        out += ["int *%s = %s;" % (p, v.name), "int %s = 0;" % s]
        k = r.randrange(3)
        if k == 0:
            out.append(["for (int %s = 0; %s < %d; %s++) {" % (i, i, v.n, i), ["%s += *%s;" % (s, p), "%s++;" % p], "}"])
        elif k == 1:
            out.append(["for (int %s = 0; %s < %d; %s++) {" % (i, i, v.n // 2, i), ["%s = %s * 2 + p0%s;" % (s, s, p) if False else
                        "%s = %s * 2 + %s[1];" % (s, s, p), "%s = %s + 2;" % (p, p) if v.n >= 4 else ";"], "}"])
        else:
            out.append("%s = %s + %d;" % (p, p, v.n - 1))
            out.append(["for (int %s = 0; %s < %d; %s++) {" % (i, i, v.n - 1, i), ["%s ^= %s[0] + %s;" % (s, p, i), "%s--;" % p], "}"])
        self.scope.append(Var(s, "int"))

    def x_charscalar(self, out):
        r = self.r
        c, s = self.id("ch"), self.id("v")
        out.append("char %s = %s & 127;" % (c, self.par(self.expr(1), 9)))
        out.append("int %s = %s + %d;" % (s, c, r.randrange(100)))
        if r.random() < 0.5:
            out.append("if (%s >= 'a' && %s <= 'z') %s = %s - 32;" % (c, c, c, c))
            out.append("%s += %s;" % (s, c))
        if not self.cur_pure and r.random() < 0.5:
            out.append("%s = 32 + (%s & 63);" % (c, c))
            out.append('printf("[%%c] %%d\\n", %s, %s);' % (c, c))
        self.scope.append(Var(s, "int"))

    def x_bool(self, out):
        b, s = self.id("b"), self.id("v")
        out.append("int %s = 0;" % s)
        out.append("_Bool %s = %s;" % (b, "%s < %s" % (self.par(self.expr(1), 11), self.par(self.expr(1), 11))))
        out.append("if (%s) %s = 5; else %s = 9;" % (b, s, s))
        out.append("if (!%s && %s > %s) %s++;" % (b, s, self.par(self.expr(0), 11), s))
        self.joins -= 3
        self.scope.append(Var(s, "int"))

    def x_macro(self, out):
        if not self.fmacros:
            return
        r = self.r
        m, n = r.choice(self.fmacros)
        v = self.id("v")
        vs = [x.name for x in self.scope if x.kind == "int"]
        a = [r.choice(vs) if vs and r.random() < 0.6 else "%d" % r.randrange(60) for _ in range(n)]
        out.append("int %s = %s(%s);" % (v, m, ", ".join(a)))
        self.scope.append(Var(v, "int"))

    def x_cppif(self, out):
        r = self.r
        if self.nocpp:
            return
        a = r.choice(self.consts) if self.consts else "int"
        form = r.choice(["#if defined(%s)" % a, "#ifdef %s" % a, "#ifndef %s" % a,
                         "#if defined(NOT_%s)" % a, "#ifdef NOT_%s" % a])
        x, y = [], []
        self.assign(x)
        self.assign(y)
        out.append(form)
        out += x
        if r.random() < 0.6:
            out.append("#else")
            out += y
        out.append("#endif")

    def x_string(self, out):
        r = self.r
        if self.joins < 6:
            return
        self.joins -= 3
        s, i, h = self.id("s"), self.id("i"), self.id("v")
        t = "".join(r.choice(["a", "B", "7", " ", "\\t", "\\n", "\\\\", "\\\"", "\\'", "%%", "_", "}", "{", ";"]) for _ in range(r.randrange(0, 18)))
        t = t.replace("%%", "%")
        out.append('char *%s = "%s";' % (s, t))
        out.append("int %s = %d;" % (h, r.randrange(5000)))
        out.append("int %s;" % i)
        out.append("for (%s = 0; %s[%s]; %s++) %s = %s * 31 + %s[%s];" % (i, s, i, i, h, h, s, i))
        if not self.cur_pure:
            out.append('printf("%%s|%%d|%%d\\n", %s, %s, strlen(%s));' % (s, i, s))
        self.scope.append(Var(h, "int"))

    def x_bareidx(self, out):
        """elements read again and again with a variable as it is for subscript"""
        r = self.r
        c = [v for v in self.scope if v.kind in ("arr", "ptr", "chr") and v.n >= 4 and not v.full]
        if len(self.scope) - self.nglob > 12:
            return
        if not c or r.random() < 0.4:
            a = Var(self.id("c"), "chr", n=r.choice([4, 8]))
            out.append("char %s[%d];" % (a.name, a.n))
            for i in range(a.n):
                out.append("%s[%d] = %d;" % (a.name, i, r.randrange(1, 120)))
        else:
            a = r.choice(c)
        gs = [v for v in self.scope if v.kind == "int" and v.glob] if not self.cur_pure else []
        if gs and r.random() < 0.6:
            x = r.choice(gs).name
        else:
            x = self.id("ix")
            out.append("int %s;" % x)
        acc = self.id("v")
        out.append("int %s = %d;" % (acc, r.randrange(9)))
        at = r.randrange(a.n)
        out.append("%s = %d;" % (x, at))
        write = a.kind != "ptr" and not (a.glob and self.cur_pure) and not a.ro
        for _ in range(r.randrange(2, 7)):
            k = r.randrange(6)
            if k < 2:
                at = r.randrange(a.n)
                out.append("%s = %d;" % (x, at))
            elif k == 2 and at + 1 < a.n:
                at += 1
                out.append(r.choice(["%s++;", "%s += 1;", "++%s;"]) % x)
            elif k == 3:
                at ^= 1
                out.append("%s ^= 1;" % x)
            elif k == 4 and write:
                out.append("%s[%s] = %s & 127;" % (a.name, x, acc))
            t = "%s[%s]" % (a.name, x)
            out.append(r.choice(["%s = %s + %s;", "%s = %s * 3 + %s;", "%s = %s ^ %s;"]) % (acc, acc, t) if r.random() < 0.8 else
                       "%s = %s + %s * %s;" % (acc, t, acc, t))
        self.scope.append(Var(acc, "int"))

    def x_scan(self, out):
        r = self.r
        if self.joins < 8:
            return
        self.joins -= 4
        s, p, n = self.id("s"), self.id("p"), self.id("v")
        t = "".join(r.choice("abc 019,.") for _ in range(r.randrange(1, 20)))
        out.append('char *%s = "%s";' % (s, t))
        out.append("char *%s = %s;" % (p, s))
        out.append("int %s = 0;" % n)
        if r.random() < 0.5:
            out.append(["while (*%s) {" % p, ["if (*%s == '%c') %s++;" % (p, r.choice(t), n), "%s++;" % p], "}"])
        else:
            out.append(["while (%s[0] && %s[0] != '%c') {" % (p, p, r.choice("bc9.x")), ["%s++;" % p, "%s += 2;" % n], "}"])
        self.scope.append(Var(n, "int"))

    def x_fnptr(self, out):
        r = self.r
        if not self.ops:
            return
        st, k = r.choice(self.ops)
        fs = [f for f in self.funcs if f.ret == "int" and (f.pure or not self.cur_pure) and len(f.params) == k and
              all(p.kind == "int" for p in f.params)]
        if not fs or self.budget_calls <= 0:
            return
        self.budget_calls -= 1
        o, v = self.id("o"), self.id("v")
        f = r.choice(fs)
        out.append("%s %s;" % (st, o))
        out.append("%s.tag = %s;" % (o, self.expr(1)[0]))
        out.append("%s.fn = %s;" % (o, f.name))
        if r.random() < 0.5 and len(fs) > 1:
            out.append("if (%s) %s.fn = %s;" % (self.cond(), o, r.choice(fs).name))
            self.joins -= 1
        a = ", ".join(self.par(self.expr(1), 4) for _ in range(k))
        if r.random() < 0.5:
            out.append("int %s = %s.fn(%s);" % (v, o, a))
        else:
            q = self.id("q")
            out.append("%s *%s = &%s;" % (st, q, o))
            out.append("int %s = %s->fn(%s);" % (v, q, a))
        out.append("%s += %s.tag;" % (v, o))
        self.scope.append(Var(v, "int"))

    def x_starr(self, out):
        r = self.r
        c = [s for s in self.structs if any(f[1] == "int" for f in s["fields"])]
        if not c or self.joins < 6:
            return
        self.joins -= 3
        st = r.choice(c)
        fs = [f[0] for f in st["fields"] if f[1] == "int"]
        a, i, s = self.id("sa"), self.id("i"), self.id("v")
        n = r.choice([2, 3, 4, 8])
        out.append("%s %s[%d];" % (st["name"], a, n))
        out.append(["for (int %s = 0; %s < %d; %s++) {" % (i, i, n, i),
                    ["%s[%s].%s = %s * %d + %d;" % (a, i, f, i, r.randrange(1, 9), r.randrange(50)) for f in fs], "}"])
        out.append("int %s = %s[%d].%s;" % (s, a, r.randrange(n), r.choice(fs)))
        j = self.id("i")
        out.append("for (int %s = 0; %s < %d; %s++) %s += %s[%s].%s;" % (j, j, n, j, s, a, j, r.choice(fs)))
        if r.random() < 0.5:
            q = self.id("q")
            out.append("%s *%s = &%s[%d];" % (st["name"], q, a, r.randrange(n)))
            out.append("%s->%s += %s;" % (q, r.choice(fs), self.expr(1)[0]))
            out.append("%s ^= %s->%s;" % (s, q, r.choice(fs)))
        self.scope.append(Var(s, "int"))

    def x_shadow(self, out):
        r = self.r
        vs = [v for v in self.scope if v.kind == "int" and not v.ro and not v.glob and v.cap > 1]
        if not vs or not self.on("shadow"):
            return
        v = r.choice(vs)
        w = r.choice([x for x in vs])
        w.cap -= 1
        b = ["int %s = %d;" % (v.name, r.randrange(100))]
        if w is not v:
            b += ["%s += %s;" % (w.name, v.name)]
        b.append("%s++;" % v.name)
        if not self.cur_pure:
            b.append('printf("%%d\\n", %s);' % v.name)
        out.append(["{", b, "}"])

    def x_and_calls(self, out):
        r = self.r
        if self.joins < 6 or self.budget_calls < 2:
            return
        self.joins -= 4
        a, b = self.call(2, self.cur_pure), self.call(2, self.cur_pure)
        if not a or not b:
            return
        v = self.id("v")
        op = r.choice(["&&", "||"])
        out.append("int %s = %d;" % (v, r.randrange(9)))
        k = r.randrange(3)
        if k == 0:
            out.append("if (%s %s %s) %s = %s;" % (a, op, b, v, self.expr(1)[0]))
        elif k == 1:
            out.append("%s = %s %s %s %s %s;" % (v, self.par(self.expr(1), 6), op, a, op, b))
        else:
            out.append("if (%s > %s %s !%s) %s++; else %s += 2;" % (a, self.par(self.expr(1), 11), op, b, v, v))
        self.scope.append(Var(v, "int"))

    def x_sizeof(self, out):
        if not self.structs:
            return
        v = self.id("v")
        st = self.r.choice(self.structs)
        if all(f[1] in ("int", "arr") for f in st["fields"]):
            out.append("int %s = sizeof(%s) + %s;" % (v, st["name"], self.par(self.expr(1), 13)))
            self.scope.append(Var(v, "int"))

    @staticmethod
    def ends(b):
        return bool(b) and isinstance(b[-1], str) and b[-1].split(";")[0].split(" ")[0] in ("break", "continue", "return")

    def for_loop(self, out, ret):
        r = self.r
        if self.joins < 6 or self.nest >= 3:
            return
        self.joins -= 3
        i = Var(self.id("i"), "int", ro=True)
        n = r.choice([1, 2, 3, 5, 8]) if self.nest else r.choice([1, 2, 4, 7, 12])
        self.nest += 1
        self.budget_calls -= 0
        self.scope.append(i)
        old = self.budget_calls
        self.budget_calls = min(old, 2)
        b = self.block(r.randrange(1, 5), ["break", "continue"], ret)
        if not self.ends(b):
            self.tail_cond(b)
        self.budget_calls = old - 1
        self.scope.remove(i)
        self.nest -= 1
        form = r.randrange(4)
        if form == 0:
            out.append(["for (int %s = 0; %s < %d; %s++) {" % (i.name, i.name, n, i.name), b, "}"])
        elif form == 1:
            out.append("int %s;" % i.name)
            out.append(["for (%s = %d; %s > 0; %s--) {" % (i.name, n, i.name, i.name), b, "}"])
        elif form == 2:
            out.append("int %s;" % i.name)
            s = r.randrange(1, 4)
            out.append(["for (%s = %d; %s <= %d; %s += %d) {" % (i.name, -n, i.name, n, i.name, s), b, "}"])
        else:
            out.append(["for (int %s = 0; %s < %d && %s != %d; ++%s) {" %
                        (i.name, i.name, n, i.name, r.randrange(20), i.name), b, "}"])

    def tail_cond(self, b):
        r = self.r
        if r.random() < 0.3 and self.joins > 2:
            self.joins -= 2
            b.append(["if (%s) {" % self.cond(), [r.choice(["break;", "continue;"])], "}"])
            if r.random() < 0.6:
                self.assign(b)

    def while_loop(self, out, ret):
        r = self.r
        if self.joins < 6 or self.nest >= 3:
            return
        self.joins -= 3
        i = Var(self.id("w"), "int", ro=True)
        n = r.choice([1, 2, 3, 6, 9])
        self.nest += 1
        self.scope.append(i)
        old = self.budget_calls
        self.budget_calls = min(old, 2)
        b = self.block(r.randrange(1, 4), ["break"], ret)
        self.budget_calls = old - 1
        if not self.ends(b):
            b.append(r.choice(["%s--;", "%s -= 1;", "--%s;", "%s = %s - 1;" .replace("%s", "\0")]).replace("\0", i.name)
                     .replace("%s", i.name))
        self.scope.remove(i)
        self.nest -= 1
        out.append("int %s = %d;" % (i.name, n))
        if r.random() < 0.5 and not self.ends(b):
            out.append(["do {", b, "} while (%s > 0);" % i.name])
        elif r.random() < 0.3:
            out.append(["while (%s > 0 && %s) {" % (i.name, self.par(self.expr(1), 6)), b, "}"])
        else:
            out.append(["while (%s) {" % i.name, b, "}"])

    def switch(self, out, loop, ret):
        r = self.r
        if self.joins < 8 or not self.on("switch"):
            return
        n = r.randrange(1, 5)
        self.joins -= n + 2
        vals = r.sample([0, 1, 2, 3, 4, 5, 6, 7, 65, 66, 100], n)
        body = []
        e = self.expr(1)
        sel = "%s & 7" % self.par(e, 9) if r.random() < 0.7 else e[0]
        inner = [x for x in (loop or []) if x == "continue"]
        for j, v in enumerate(vals):
            self.nocpp += 1
            b = self.block(r.randrange(1, 3), None, ret)
            self.nocpp -= 1
            lab = "case %s:" % (("'%c'" % v) if v in (65, 66) and r.random() < 0.5 else v)
            if not self.ends(b) and r.random() < 0.75:
                b.append("break;")
            elif self.ends(b) is False and j == n - 1 and r.random() < 0.5:
                b.append("break;")
            body.append([lab, b, ""])
        if r.random() < 0.6:
            self.nocpp += 1
            body.append(["default:", self.block(r.randrange(1, 3), None, ret), ""])
            self.nocpp -= 1
        out.append(["switch (%s) {" % sel, body, "}"])
        del inner

    def misc(self, out):
        """postfix and prefix steps inside expressions, swaps, chains"""
        r = self.r
        vs = [v for v in self.scope if v.kind == "int" and not v.ro and not v.glob and v.cap > 2]
        if len(vs) < 2:
            return
        a, b = r.sample(vs, 2)
        a.cap -= 1
        b.cap -= 1
        k = r.randrange(5)
        if k == 0:
            out.append("%s = %s%s;" % (a.name, b.name, r.choice(["++", "--"])))
        elif k == 1:
            out.append("%s = %s%s;" % (a.name, r.choice(["++", "--"]), b.name))
        elif k == 2:
            out.append("%s = %s++ + %s;" % (a.name, b.name, self.const()[0]))
        elif k == 3:
            out.append("if (%s > %s) { %s = %s; } else %s = %s;" %
                       (a.name, b.name, a.name, self.par(self.expr(1), 4), b.name, self.expr(1)[0]))
            self.joins -= 1
        elif self.on("ternary"):
            c = self.par(self.expr(1), 4)
            x, y = self.par(self.expr(1), 4), self.par(self.expr(1), 4)
            out.append("%s = %s ? %s : %s;" % (a.name, c, x, y))

    def memop(self, out):
        r = self.r
        if not self.mem:
            return
        k = r.randrange(4)
        if k == 0:
            p, i = self.id("m"), self.id("i")
            n = r.choice([1, 3, 8, 20, 100])
            s = self.id("v")
            v = Var(s, "int")
            out.append("int *%s = malloc(%d * sizeof(int));" % (p, n))
            out.append("for (int %s = 0; %s < %d; %s++) %s[%s] = %s ^ %d;" % (i, i, n, i, p, i, i, r.randrange(1000)))
            out.append("int %s = %s[%d] + %s[%d];" % (s, p, r.randrange(n), p, r.randrange(n)))
            out.append("free(%s);" % p)
            self.scope.append(v)
        elif k == 1:
            q, n = self.id("z"), r.choice([1, 4, 9, 33])
            v = Var(self.id("v"), "int")
            out.append("int *%s = calloc(%d, sizeof(int));" % (q, n))
            i = r.randrange(n)
            out.append("%s[%d] += %s;" % (q, i, self.expr(1)[0]))
            out.append("int %s = %s[%d] + %s[%d];" % (v.name, q, r.randrange(n), q, i))
            out.append("free(%s);" % q)
            self.scope.append(v)
        elif k == 2:
            c = [v for v in self.scope if v.kind == "chr" and v.n >= 8 and not (self.cur_pure and v.glob)]
            if c and not self.cur_pure:
                v = r.choice(c)
                s = "".join(r.choice("abcxyz0189") for _ in range(r.randrange(1, min(v.n - 1, 200))))
                out.append('strcpy(%s, "%s");' % (v.name, s))
                out.append('printf("%%s %%d %%c\\n", %s, strlen(%s), %s[0]);' % (v.name, v.name, v.name))
                out.append('printf("%%d\\n", strcmp(%s, "%s") == 0);' % (v.name, s[:-1]))
        else:
            c = [v for v in self.scope if v.kind == "arr" and not (self.cur_pure and v.glob)]
            if len(c) >= 2:
                a, b = r.sample(c, 2)
                out.append("memcpy(%s, %s, %d);" % (a.name, b.name, 4 * min(a.n, b.n)))

    # ------------------------------------------------------------ top level
    def header(self):
        r = self.r
        for _ in range(r.randrange(0, 4)):
            n, x = self.id("K"), r.choice(CONSTS)
            if r.random() < 0.1:
                self.out.append("#define %s %d" % (n, r.choice(CONSTS)))
                self.out.append("#undef %s" % n)
            self.out.append(("#define %s 0x%x" if r.random() < 0.1 else "#define %s %d") % (n, x))
            self.consts.append(n)
            if x < 5000:
                self.pconsts.append((n, x))
            self.labels.append((n, x))
            if r.random() < 0.2:
                m = self.id("K")
                self.out.append("#define %s %s" % (m, n))
                self.consts.append(m)
        if r.random() < 0.2:
            n = self.id("SK")
            self.out.append('#define %s "%s"' % (n, r.choice(["text", "123", "a b", "x", "%d"]) if r.random() < 0.8 else ""))
            self.strs.append(n)
        if r.random() < 0.2:
            self.out.append(r.choice(["#include <stdio.h>", "#include <stdlib.h>", "#define %s" % self.id("G")]))
        if r.random() < 0.25:
            self.cur_pure = False

            def fill(b):
                n = self.id("g")
                b.append("int %s = %s;" % (n, self.ginit()))
                made.append(n)
            made = []
            lines = self.cond_lines(fill, 0)
            if r.random() < 0.2:
                lines.insert(1, "#error never") if lines[0].startswith("#ifdef NO_") else None
            self.out += lines
        if r.random() < 0.5:
            names = [self.id("E") for _ in range(r.randrange(2, 5))]
            vals = []
            nxt = 0
            for n in names:
                if r.random() < 0.3:
                    nxt = r.randrange(nxt, nxt + 200)
                    vals.append("%s = %d" % (n, nxt))
                else:
                    vals.append(n)
                self.labels.append((n, nxt))
                nxt += 1
            self.out.append("typedef enum { %s } %s;" % (", ".join(vals), self.id("en")))
            self.consts += names
        if self.on("struct"):
            for _ in range(r.randrange(0, 4)):
                fs = []
                for _ in range(r.randrange(1, 6)):
                    k = r.randrange(10)
                    if k < 6:
                        fs.append((self.id("f"), "int"))
                    elif k < 7:
                        fs.append((self.id("f"), "char"))
                    elif k < 9 or not self.structs or "sub" in self.off:
                        fs.append((self.id("f"), "arr", r.choice([2, 4, 8])))
                    else:
                        sub = [s for s in self.structs if all(f[1] == "int" for f in s["fields"])]
                        if sub:
                            fs.append((self.id("f"), "sub", r.choice(sub)))
                if not any(f[1] == "int" for f in fs):
                    fs.append((self.id("f"), "int"))
                st = {"name": self.id("st"), "fields": fs}
                lines = []
                for f in fs:
                    if f[1] == "arr":
                        lines.append("int %s[%d];" % (f[0], f[2]))
                    elif f[1] == "sub":
                        lines.append("%s %s;" % (f[2]["name"], f[0]))
                    else:
                        lines.append("%s %s;" % (f[1], f[0]))
                self.out.append("typedef struct { %s } %s;" % (" ".join(lines), st["name"]))
                self.structs.append(st)
        self.nodes, self.fmacros, self.ops = [], [], []
        self.vmacros, self.smacros, self.gets, self.trees, self.gptrs = [], [], [], [], []
        if self.on("extra"):
            self.more_header()
            for _ in range(r.randrange(0, 3)):
                n = self.id("nd")
                body = r.choice(["int val; struct %s *next;", "struct %s *next; int val;", "int pad; int val; struct %s *next;"]) % n
                self.out.append("struct %s { %s };" % (n, body))
                self.out.append("typedef struct %s %s_t;" % (n, n))
                self.nodes.append(n)
            for _ in range(r.randrange(0, 3)):
                m, a, b = self.id("MAC"), self.id("ma"), self.id("mb")
                two = r.random() < 0.6
                t = r.choice(["((%s) * (%s))", "((%s) > (%s) ? (%s) : (%s))", "((%s) + 3 * (%s) - 1)", "((%s) << 2) + (%s)"])
                ar = [a, b] if two else [a, a]
                self.out.append("#define %s(%s) %s" % (m, ", ".join([a, b] if two else [a]),
                                                         t % tuple((ar * 2)[:t.count("%s")])))
                self.fmacros.append((m, 2 if two else 1))
            for _ in range(r.randrange(0, 2)):
                n, k = self.id("op"), r.choice([1, 2, 2, 3])
                self.out.append("typedef struct { %s } %s;" % (r.choice(["int tag; int (*fn)(%s);", "int (*fn)(%s); int tag;"]) %
                                ", ".join("int z%d" % i for i in range(k)), n))
                self.ops.append((n, k))
        for _ in range(r.randrange(0, 6)):
            k = r.randrange(8)
            if k < 4:
                v = Var(self.id("g"), "int", glob=True)
                if r.random() < 0.6:
                    self.out.append("int %s = %s;" % (v.name, r.choice([str(r.choice(CONSTS)), "-%d" % r.randrange(1, 9999),
                                    "'%c'" % r.choice("azAZ09 "), self.ginit(), self.ginit()])))
                else:
                    self.out.append("int %s;" % v.name)
            elif k < 6:
                n = r.choice([4, 8, 16, 64, 512])
                v = Var(self.id("g"), "arr", n=n, glob=True)
                self.out.append("int %s[%d];" % (v.name, n))
            elif k < 7:
                n = r.choice([8, 16])
                v = Var(self.id("g"), "chr", n=n, glob=True)
                self.out.append("char %s[%d];" % (v.name, n))
            elif self.structs and self.on("gstruct"):
                st = r.choice(self.structs)
                v = Var(self.id("g"), "st", st=st, glob=True)
                self.out.append("%s %s;" % (st["name"], v.name))
            else:
                continue
            self.globals.append(v)
        if self.big and r.random() < 0.6:
            self.gpads = self.pads(self.out, 4, True)
            for v, _, _ in self.gpads:
                self.globals.insert(r.randrange(len(self.globals) + 1), v)

    def more_header(self):
        r = self.r
        if r.random() < 0.3:
            m = self.id("VM")
            b, nl = r.choice([("printf(__VA_ARGS__)", 0), ("do { printf(__VA_ARGS__); } while (0)", 0),
                              ("do { \\\n        printf(__VA_ARGS__); \\\n    } while (0)", 1)])
            self.out.append("#define %s(...) %s" % (m, b))
            self.vmacros.append((m, 0, 99))
        if r.random() < 0.2:
            m, n, a = self.id("VM"), r.randrange(1, 4), self.id("ma")
            self.out.append('#define %s(%s, ...) do { printf("%s\\n", %s + 1, __VA_ARGS__); } while (0)' %
                            (m, a, " ".join(["%d"] * (n + 1)), a))
            self.vmacros.append((m, 1, n))
        if r.random() < 0.3:
            m, a, b = self.id("SM"), self.id("ma"), self.id("mb")
            self.out.append(r.choice([
                "#define %s(%s, %s) \\\n    do { \\\n        printf(\"%%d\\n\", %s - %s); \\\n    } while (0)" % (m, a, b, a, b),
                "#define %s(%s, %s) printf(\"%%d %%x\\n\", %s, %s)" % (m, a, b, a, b)]))
            self.smacros.append((m, 2))
        if r.random() < 0.25:
            n = self.id("gt")
            self.out.append("typedef struct { %s } %s;" % (r.choice(["int (*get)(); int tag;", "int tag; int (*get)();"]), n))
            fs = []
            for _ in range(r.randrange(1, 3)):
                f = self.id("f")
                self.out.append(["int %s() {" % f, ["return %d;" % r.choice(CONSTS)], "}"])
                fs.append(f)
            self.gets.append((n, fs))
        if r.random() < 0.15 and self.mem:
            t = self.id("tr")
            self.out.append("typedef struct %s { %s } %s_t;" % (t, r.choice(["int v; struct %s *l; struct %s *r;",
                                                                          "struct %s *l; struct %s *r; int v;"]) % (t, t), t))
            self.out.append(["%s_t *%s_mk(int v) {" % (t, t), ["%s_t *n = malloc(sizeof(%s_t));" % (t, t), "n->v = v;", "n->l = NULL;",
                                                               "n->r = NULL;", "return n;"], "}"])
            self.out.append(["void %s_ins(%s_t *t, int v) {" % (t, t),
                             ["if (v < t->v) {", ["if (t->l) %s_ins(t->l, v);" % t, "else t->l = %s_mk(v);" % t], "}"][0:0] or
                             [["if (v < t->v) {", ["if (t->l) %s_ins(t->l, v); else t->l = %s_mk(v);" % (t, t)], "}"],
                              ["else {", ["if (t->r) %s_ins(t->r, v); else t->r = %s_mk(v);" % (t, t)], "}"]], "}"])
            self.out.append(["int %s_sum(%s_t *t, int d) {" % (t, t),
                             ["if (!t) return 0;", "return t->v * d + %s_sum(t->l, d + 1) - %s_sum(t->r, d + 1);" % (t, t)], "}"])
            self.trees.append(t)
        if r.random() < 0.25:
            k, m = r.randrange(3), r.choice([2, 3, 4])
            n = self.id("gq")
            if k == 0:
                self.out.append("char *%s[%d];" % (n, m))
                self.gptrs.append(("s", n, m))
            elif k == 1:
                self.out.append("int *%s;" % n)
                self.gptrs.append(("p", n, m))
            else:
                c = [s for s in self.structs if any(f[1] == "int" for f in s["fields"])]
                if c:
                    st = r.choice(c)
                    self.out.append("%s %s[%d];" % (st["name"], n, m))
                    self.gptrs.append((st, n, m))

    def ginit(self):
        """an initial value of a global, within what is supported there"""
        r = self.r
        for _ in range(20):
            n = r.randrange(2, 6)
            vals = [r.randrange(0, 20) if r.random() < 0.7 else r.choice([100, 255, 1000, 65536]) for _ in range(n)]
            ops = [r.choice(["+", "-", "*", "/", "%", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&", "||"]) for _ in range(n - 1)]
            t = []
            for i, v in enumerate(vals):
                x = str(v)
                if r.random() < 0.15:
                    vals[i] = -v
                    x = "-%d" % v
                elif 33 <= v < 127 and v not in (39, 92) and r.random() < 0.5:
                    x = "'%c'" % v
                elif r.random() < 0.1:
                    x = "0x%x" % v
                elif r.random() < 0.1:
                    x = "(%d)" % v
                t.append(x)
                if i < n - 1:
                    t.append(ops[i])
            if flat_value(vals, ops) is None:
                continue
            if r.random() < 0.2:
                t += ["?", str(r.randrange(99)), ":", "-%d" % r.randrange(1, 99)]
            return " ".join(t)
        return "7"

    def start(self, params, pure, stmts):
        self.cur_pure = pure
        self.scope = list(self.globals) + params
        self.nglob = len(self.globals)
        self.left = stmts
        self.joins = 34
        self.tokens = 220
        self.nest = 0
        self.budget_calls = 5

    def function(self):
        r = self.r
        pure = r.random() < 0.6
        np = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8])
        params = []
        for _ in range(np):
            k = r.randrange(12)
            if k < 9:
                params.append(Var(self.id("n"), "int"))
            elif k < 10:
                params.append(Var(self.id("pa"), "ptr", n=r.choice([2, 4]), ro=True))
            elif k < 11:
                params.append(Var(self.id("pc"), "chp", n=4, ro=True))
            elif self.structs:
                params.append(Var(self.id("ps"), "stp", st=r.choice(self.structs), ro=True))
        if pure:
            for p in params:
                p.ro = p.kind != "int"
        else:
            for p in params:
                p.ro = False
        ret = "int" if r.random() < 0.85 or pure else "void"
        name = self.id("f")
        self.start(params, pure, int(r.randrange(4, 22) * self.size))
        body = []

        def rets():
            return "return %s;" % self.expr(1)[0] if ret == "int" else "return;"
        n = r.randrange(2, 9)
        made = []
        if self.big and r.random() < 0.3:
            made = self.pads(body, 1)
            self.pad_fill(body, made)
            self.scope += [v for v, _, _ in made]
        rec = not made and pure and params and params[0].kind == "int" and all(p.kind == "int" for p in params) and r.random() < 0.25
        if rec:
            body.append(["if (%s <= 0) {" % params[0].name, ["return %s;" % self.expr(1)[0]], "}"])
            params[0].ro = True
        for _ in range(n):
            self.stmt(body, None, rets)
        if rec:
            a = ["%s - %d" % (params[0].name, r.randrange(1, 3))] + [self.par(self.expr(1), 4) for _ in params[1:]]
            v = self.id("v")
            body.append("int %s = %s(%s);" % (v, name, ", ".join(a)))
            self.scope.append(Var(v, "int"))
        if ret == "int":
            e = self.expr(2)
            if made:
                e = ("%s ^ %s" % (self.par(e, 8), self.pad_sum(body, made)), 7)
            body.append("return %s;" % e[0])
        decls = []
        for p in params:
            if p.kind == "int":
                decls.append("int " + p.name)
            elif p.kind == "ptr":
                decls.append("int *" + p.name)
            elif p.kind == "chp":
                decls.append("char *" + p.name)
            else:
                decls.append("%s *%s" % (p.st["name"], p.name))
        self.out.append(["%s %s(%s) {" % (ret, name, ", ".join(decls)), body, "}"])
        for p in params:
            p.ro = p.ro or pure
        f = Fn(name, params, ret, pure)
        if rec:
            # keep the depth small
            w = self.id("f")
            ps = ["int " + self.id("n") for _ in params]
            ns = [x.split(" ")[1] for x in ps]
            self.out.append(["int %s(%s) {" % (w, ", ".join(ps)),
                             ["return %s(%s);" % (name, ", ".join(["%s & 7" % ns[0]] + ns[1:]))], "}"])
            f = Fn(w, [Var(x, "int") for x in ns], "int", True)
        self.funcs.append(f)

    def edges(self):
        """a function about operands at the edge of what an instruction takes;
        lines that call it with values far apart and near"""
        r = self.r
        f, n, m = self.id("ed"), self.id("n"), self.id("m")

        def const(nonzero=False):
            k = r.random()
            v = 0 if k < 0.3 else r.choice([1, -1, 2, 31]) if k < 0.5 else r.choice(
                [4, 8, 16, 255, 256, 257, 2047, 2048, 2049, 4095, 4096, 4097, 65535, 65536, 1 << 20, (1 << 31) - 1] if k < 0.9 else [r.randrange(1 << 31)])
            if r.random() < 0.25:
                v = -v
            if nonzero and v in (0, 1, -1):     # (the host compiler may turn a / 1 into a / -1)
                v = r.choice([2, -2, 3, 10, 4096])
            return str(v)

        def piece():
            k = r.randrange(12)
            if k < 3:
                return "%s %s %s" % (r.choice([const(), const(), m]), r.choice(["<<", ">>"]), n)
            if k < 5:
                return "%s %s %s" % (m, r.choice(["/", "%"]), r.choice([const(True), "(%s + 2)" % n]))
            if k < 6:
                return "%s %s (%s + 2)" % (const(), r.choice(["/", "%"]), n)
            if k < 7:
                return r.choice(["-%s", "~%s", "!%s"]) % r.choice([m, n])
            op = r.choice(["+", "-", "*", "&", "|", "^", "<", ">", "<=", ">=", "==", "!=", "&&", "||"])
            a, b = r.choice([(m, n), (n, m), (m, const()), (const(), m), (n, const()), (const(), n), (m, m)])
            return "%s %s %s" % (a, op, b)
        if r.random() < 0.5:
            body = ["return %s;" % piece()]
        else:
            x = self.id("v")
            body = ["int %s = %s;" % (x, piece())]
            for _ in range(r.randrange(1, 6)):
                t = piece()
                body.append(r.choice(["%s = %s * 31 + (%s);" % (x, x, t), "%s = %s ^ (%s);" % (x, x, t),
                                      "if (%s) %s = %s + %d;" % (t, x, x, r.randrange(1, 99)), "%s = %s - (%s);" % (x, x, t)]))
            body.append("return %s;" % x)
        self.out.append(["int %s(int %s, int %s) {" % (f, n, m), body, "}"])

        def wide():
            return r.choice(["0", "1", "-1", "5", "-7", "2147483647", "-2147483647", "0x80000000", "2000000000", "-2000000000", "-65536",
                             "4096", str(r.randrange(1 << 31)), "-%d" % r.randrange(1, 1 << 31)])
        return ['printf("%s=%%d,%%d,%%d\\n", %s);' % (f, ", ".join("%s(%d, %s)" % (f, r.choice([0, 1, 2, 5, 31, r.randrange(32)]), wide()) for _ in range(3)))
                for _ in range(r.randrange(1, 3))]

    def mutual(self):
        """two functions that call each other, the second declared ahead"""
        r = self.r
        a, b, n, m = self.id("f"), self.id("f"), self.id("n"), self.id("n")
        self.start([Var(n, "int", ro=True), Var(m, "int")], True, 4)
        self.out.append("int %s(int %s, int %s);" % (b, n, m))
        e = [self.par(self.expr(1), 4) for _ in range(4)]
        self.out.append(["int %s(int %s, int %s) {" % (a, n, m),
                         ["if (%s <= 0) return %s;" % (n, e[0]), "return %s(%s - 1, %s) + %s;" % (b, n, e[1], self.par(self.expr(1), 13))], "}"])
        self.out.append(["int %s(int %s, int %s) {" % (b, n, m),
                         ["if (%s < 1) return %s;" % (n, e[2]), "%s ^= %s;" % (m, e[3]), "return %s(%s - 2, %s);" % (a, n, m)], "}"])
        w = self.id("f")
        self.out.append(["int %s(int %s, int %s) {" % (w, n, m), ["return %s(%s & 15, %s);" % (a, n, m)], "}"])
        self.funcs.append(Fn(w, [Var(n, "int"), Var(m, "int")], "int", True))

    def program(self):
        r = self.r
        self.header()
        for _ in range(max(1, int(r.randrange(1, 7) * self.size))):
            if self.on("extra", 0.06):
                self.mutual()
            self.function()
        edges = self.edges() + self.edges() if self.on("edges", 0.3) else []
        self.start([], False, int(r.randrange(6, 26) * self.size))
        self.budget_calls = 12
        self.tokens = 320
        body = []
        made = []
        if self.big and r.random() < 0.7:
            made = self.pads(body, 4)
            self.pad_fill(body, made)
            self.scope += [v for v, _, _ in made]
        self.pad_fill(body, self.gpads)
        for v in self.globals:
            if v.kind == "chr" and not v.full:
                i = self.id("i")
                body.append("for (int %s = 0; %s < %d; %s++) %s[%s] = %d + %s;" %
                            (i, i, v.n, i, v.name, i, r.randrange(33, 90), i))
            elif v.kind == "st":
                pass
        body += edges
        for _ in range(r.randrange(4, 14)):
            self.stmt(body, None, None)
        for f in self.funcs:
            self.budget_calls = 2
            self.tokens = 15
            a = self.args_for(f, 2)
            if a is None:
                continue
            if f.ret == "int":
                body.append('printf("%s=%%d\\n", %s(%s));' % (f.name, f.name, ", ".join(a)))
            else:
                body.append("%s(%s);" % (f.name, ", ".join(a)))
        for v in self.globals:
            if v.kind == "int":
                body.append('printf("%s=%%d\\n", %s);' % (v.name, v.name))
            elif v.kind in ("arr", "chr"):
                i = self.id("i")
                body.append('for (int %s = 0; %s < %d; %s += %d) printf("%%d ", %s[%s]);' %
                            (i, i, v.n, i, max(1, v.n // 8), v.name, i))
        if made or self.gpads:
            body.append('printf("pads=%%d\\n", %s);' % self.pad_sum(body, made + self.gpads))
        body.append("return %s & 127;" % self.par(self.expr(1), 9))
        self.out.append(["int main() {", body, "}"])
        return self.out


def generate(rng, size=1.0, off=(), mem=True):
    g = Gen(rng, size, mem, off)
    t = g.program()
    if "dress" not in g.off and rng.random() < 0.35:
        t = dress.dress(t, rng, g.ids)
    return t


if __name__ == "__main__":
    import random
    import sys
    print(text(generate(random.Random(sys.argv[1] if len(sys.argv) > 1 else 1))))
