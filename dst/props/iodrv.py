"""A program that performs input and output as told by the simulated machine,
and a small reference model of what that has to do."""
from .. import core, iogen, lib

BUF = 320

DRIVER = """
%(head)s
int main(int argc, char **argv) {
    int op[8];
    char *f[8];
    char buf[320];
    char *q;
    int s;
    int r;
    %(pre)s
    for (int i = 0; i < 8; i++) f[i] = NULL;
    while (__syscall(5000, op)) {
        s = op[1];
        if (op[0] == 1) {
            r = __syscall(5006, buf, op[2], 300);
            buf[r] = 0;
            if (op[3]) f[s] = %(open)s(buf, "wb");
            else f[s] = %(open)s(buf, "rb");
            __syscall(5001, 1, s, f[s]);
        } else if (op[0] == 2) {
            r = fputc(op[2], f[s]);
            __syscall(5001, 2, s, r);
        } else if (op[0] == 3) {
            r = fclose(f[s]);
            __syscall(5001, 3, s, r);
        } else if (op[0] == 4) {
            r = %(getc)s(f[s]);
            __syscall(5001, 4, s, r);
        } else if (op[0] == 5) {
            __syscall(5002, buf, 320, op[3]);
            q = fgets(buf, op[2], f[s]);
            r = 2;
            if (q == buf) r = 1;
            if (!q) r = 0;
            __syscall(5001, 5, s, r);
            __syscall(5005, buf, 320, 5);
        } else if (op[0] == 6) {
            r = __syscall(5006, buf, op[5], 300);
            buf[r] = 0;
            r = 0 - 1;
            switch (op[2]) {
%(printf)s
            default:
                break;
            }
            __syscall(5001, 6, op[2], r);
        } else if (op[0] == 7) {
            char str[320];
            r = __syscall(5006, str, op[5], 300);
            str[r] = 0;
            __syscall(5002, buf, 320, op[6]);
            r = 0 - 1;
            switch (op[2]) {
%(sprintf)s
            default:
                break;
            }
            __syscall(5001, 7, op[2], r);
            __syscall(5005, buf, 320, 7);
        } else if (op[0] == 8) {
            %(exit)s
        } else if (op[0] == 9) {
            put_all(op[2], op[3], f[s]);
            __syscall(5001, 9, s, bad);
        }
    }
    __syscall(5001, 10);
    return 0;
}
"""
HEAD = """int bad;
int my_getc(char *f) { int c = fgetc(f); return c; }
char *my_open(char *n, char *m) { if (!n) return NULL; return fopen(n, m); }
void put_all(int c, int n, char *f) {
    bad = 0;
    while (n > 0) { if (fputc(c, f) == -1) bad++; n--; }
}
"""


def formats(rng):
    """what the program's printf calls print: text of the format and its parts"""
    out = []
    for _ in range(rng.randrange(1, 5)):
        parts = []
        for k in range(rng.choice([0, 1, 2, 3, 3])):
            parts.append("".join(rng.choice("abcXYZ .,:;-_()[]") for _ in range(rng.randrange(0, 9))))
            if rng.random() < 0.15:
                parts.append("%%")
            parts.append("%" + (rng.choice(["d", "x", "c", "o", "5d", "05d", "8x", "08x", "#x", "#o", "12d", "03o"]) if k < 2 else "s"))
        parts.append(rng.choice(["", "\n", "!\n", "end", "\n\n"]))
        out.append(parts)
    return out


def driver(rng, fm):
    def lit(parts):
        return "".join(parts).replace("\n", "\\n")

    def args(parts, s):
        k = len([p for p in parts if p.startswith("%") and p != "%%"])
        return "".join(", " + x for x in ["op[3]", "op[4]", s][:k])
    pr, sp = "", ""
    for n, p in enumerate(fm):
        pr += "            case %d:\n                r = printf(\"%s\"%s);\n                break;\n" % (n, lit(p), args(p, "buf"))
        sp += "            case %d:\n                r = sprintf(buf, \"%s\"%s);\n                break;\n" % (n, lit(p), args(p, "str"))
    return DRIVER % {"head": HEAD, "pre": rng.choice(["", "", "char pad[1000]; pad[3] = 2;"]),
                     "open": rng.choice(["fopen", "my_open"]), "getc": rng.choice(["fgetc", "my_getc"]),
                     "printf": pr, "sprintf": sp, "exit": rng.choice(["exit(op[2]);", "return op[2];"])}


def expand(parts, vals):
    """the text a format gives"""
    o, vals = "", list(vals)
    for p in parts:
        if p == "%%":
            o += "%"
        elif p.startswith("%"):
            v = vals.pop(0)
            if p == "%s":
                o += v
            elif p == "%c":
                o += chr(v & 255)
            elif p[-1] in "xo":
                v &= 0xffffffff
                if p == "%#o":
                    o += "%o" % v if v == 0 else "0%o" % v
                elif p == "%#x":
                    o += "0" if v == 0 else "0x%x" % v
                else:
                    o += p % v
            else:
                o += p % v
        else:
            o += p
    return o


class Model:
    """files, descriptors and what every operation has to answer"""

    def __init__(self, files, stdin):
        self.files = {k: v for k, v in files.items() if isinstance(v, bytes)}
        self.dirs = {k for k, v in files.items() if not isinstance(v, bytes)}
        self.fd = {}
        self.out = b""
        self.stdin = stdin
        self.inpos = 0
        self.ended = None

    def write(self, s, data):
        if s not in self.fd or not self.fd[s][1]:
            return False
        name, w, pos = self.fd[s]
        d = self.files[name]
        self.files[name] = d[:pos] + data + d[pos + len(data):]
        self.fd[s] = (name, w, pos + len(data))
        return True

    def rest(self, s):
        if s == 7:
            return self.stdin[self.inpos:]
        if s not in self.fd or self.fd[s][1]:
            return b""
        name, w, pos = self.fd[s]
        return self.files[name][pos:]

    def skip(self, s, n):
        if s == 7:
            self.inpos += n
        elif s in self.fd and not self.fd[s][1]:
            name, w, pos = self.fd[s]
            self.fd[s] = (name, w, pos + n)


def groups(g):
    """the history cut into one list of lines per operation"""
    out, cur = [], []
    for l in g.lines():
        if not l:
            continue
        cur.append(l)
        t = l.split()
        if t[0] == "R":
            out.append((t, cur))
            cur = []
        elif t[0] == "B" and out:
            out[-1][1].append(l)
            cur = [x for x in cur if x is not l]
    return out, cur


def judge(g, ops, fm, payloads, files, stdin, strict=False):
    """(what, detail) of the first thing wrong, or None; and the statistics"""
    m = Model(files, stdin)
    gs, tail = groups(g)
    seen = {"faults": 0, "ops": 0, "denied": 0}
    gi = 0

    def faulted(lines, name):
        return [l for l in lines if l.startswith("S ") and l.split()[2] == name and l.endswith(" FAULT")]

    def calls(lines, name):
        return [l.split() for l in lines if l.startswith("S ") and l.split()[2] == name]
    for o in ops:
        if o[0] == 8:
            m.ended = o[2] & 255
            break
        if gi >= len(gs):
            return ("input or output program stops", "%s, at operation %s" % (lib.out_of(g), o)), seen
        t, lines = gs[gi]
        gi += 1
        k, s, r = int(t[2]), int(t[3]), int(t[4])
        if k != o[0]:
            return ("input or output program goes astray", "%s for %s" % (t, o)), seen
        seen["ops"] += 1
        tag = "operation %d %s answered %d" % (gi - 1, o, r)
        if k == 1:
            name = payloads[o[2]].decode("latin-1")
            fl = [l for l in lines if l.startswith("S ") and l.split()[2] == "open"]
            bad = bool(faulted(lines, "open")) or (not o[3] and name not in m.files) or name in m.dirs and o[3]
            if faulted(lines, "open"):
                seen["faults"] += 1
            if bad:
                m.fd.pop(o[1], None)
                if r > 0:
                    return ("failed open is not reported", tag), seen
                if r != 0:
                    # KF2: a negative number instead of NULL
                    seen["denied"] += 1
                    if strict:
                        return ("failed open is not reported as NULL", tag), seen
                if not fl:
                    return ("open makes no attempt", tag), seen
            else:
                if r <= 0:
                    return ("open fails without reason", tag), seen
                if o[3]:
                    m.files[name] = m.files.get(name, b"") if o[3] == 2 else b""
                m.fd[o[1]] = (name, bool(o[3]), 0)
        elif k == 2:
            bad = faulted(lines, "write")
            seen["faults"] += len(bad)
            full = [c for c in calls(lines, "write") if int(c[7]) < 0]
            if bad or full or o[1] not in m.fd or not m.fd[o[1]][1]:
                if r != -1:
                    return ("failed output is not reported", tag), seen
            else:
                if r != o[2]:
                    return ("output reports something else", tag), seen
                m.write(o[1], bytes([o[2] & 255]))
        elif k == 3:
            if o[1] in m.fd and r != 0 and not faulted(lines, "close"):
                return ("close fails without reason", tag), seen
            if o[1] in m.fd and not calls(lines, "close"):
                return ("close does not close", tag), seen
            if faulted(lines, "close"):
                seen["faults"] += 1
                if r == 0 and strict:
                    return ("failed close is not reported", tag), seen
            m.fd.pop(o[1], None)
        elif k == 4:
            bad = faulted(lines, "read")
            seen["faults"] += len(bad)
            d = m.rest(o[1])
            if bad:
                if r != -1:
                    return ("failed input is taken for data", tag), seen
            elif not d:
                if r != -1:
                    return ("data after the end", tag), seen
            else:
                if r != d[0]:
                    return ("wrong character read", tag + ", expected %d" % d[0]), seen
                m.skip(o[1], 1)
        elif k == 5:
            d = m.rest(o[1])
            n = o[2]
            bad = faulted(lines, "read")
            seen["faults"] += len(bad)
            e = d[:n - 1]
            if b"\n" in e:
                e = e[:e.index(b"\n") + 1]
            if bad:
                # what arrived before the failure
                got = sum(max(0, int(c[7])) for c in calls(lines, "read") if "FAULT" not in c)
                e = e[:got]
            blk = [l for l in lines if l.startswith("B ")]
            buf = bytes.fromhex(blk[-1].split()[3])
            ref = lib.fill_bytes(BUF, o[3])
            if not e and n > 1:
                if r != 0:
                    return ("line after the end", tag), seen
                if buf != ref:
                    return ("buffer changed though nothing was read", tag), seen
            elif n > 1:
                if r != 1:
                    return ("line reports something else", tag), seen
                if buf[:len(e)] != e:
                    return ("wrong line read", tag + ": %r, expected %r" % (buf[:len(e) + 8], e)), seen
                if buf[len(e)] != 0:
                    return ("line not terminated", tag), seen
                if buf[len(e) + 1:] != ref[len(e) + 1:]:
                    return ("memory behind the line changed", tag), seen
                m.skip(o[1], len(e))
        elif k == 6:
            x = expand(fm[o[2]], [o[3], o[4], payloads[o[5]].decode("latin-1")]).encode("latin-1")
            bad = faulted(lines, "write")
            ret = [int(c[7]) for c in calls(lines, "write")]
            if bad and all(v < 0 for v in ret):
                seen["faults"] += 1
                if r >= 0:
                    return ("failed output is not reported", tag), seen
            else:
                short = [v for v in ret if 0 <= v < len(x)]
                if r != len(x) and not short:
                    return ("print reports something else", tag + ", expected %d" % len(x)), seen
                if short and len(ret) == 1:
                    return ("part of an output is lost", tag), seen
                m.out += x
        elif k == 7:
            x = expand(fm[o[2]], [o[3], o[4], payloads[o[5]].decode("latin-1")]).encode("latin-1")
            blk = [l for l in lines if l.startswith("B ")]
            buf = bytes.fromhex(blk[-1].split()[3])
            ref = lib.fill_bytes(BUF, o[6])
            if r != len(x) or buf[:len(x)] != x or buf[len(x)] != 0:
                return ("wrong formatted text", tag + ": %r, expected %r" % (buf[:len(x) + 4], x)), seen
            if buf[len(x) + 1:] != ref[len(x) + 1:]:
                return ("memory behind the formatted text changed", tag), seen
        elif k == 9:
            w = calls(lines, "write")
            bad = [c for c in w if int(c[7]) < 0]
            seen["faults"] += len(faulted(lines, "write"))
            if o[1] not in m.fd or not m.fd[o[1]][1]:
                if r != o[3]:
                    return ("failed output is not reported", tag), seen
            else:
                if r != len(bad):
                    return ("failed output is not reported" if r < len(bad) else "output reports something else", tag + ", %d failed" % len(bad)), seen
                m.write(o[1], bytes([o[2] & 255]) * (o[3] - r))
    if m.ended is None:
        m.ended = 0
    if g.status != "exit":
        return ("input or output program does not end as it should", lib.out_of(g)), seen
    if g.code & 255 != m.ended:
        return ("wrong status", lib.out_of(g)), seen
    if g.stdout != m.out:
        return ("standard output is not what was printed", lib.diff_text(g.stdout, m.out)), seen
    for n, d in sorted(m.files.items()):
        if g.files.get(n) != d:
            return ("file is not what was written", "%s: %s" % (n, lib.diff_text(g.files.get(n, b""), d))), seen
    for n in sorted(g.files):
        if n not in m.files and not n.startswith("\x01"):
            return ("file from nowhere", n), seen
    want = len(m.fd) + 3
    if g.num.get("openfds", want) != want and not seen["faults"]:
        return ("files left open or closed", "%d, expected %d" % (g.num["openfds"], want)), seen
    return None, seen


NAMES = ["a", "b.txt", "d/c", "d/e/long-name-%s" % ("n" * 60), "./x", "o1", "o2", "o3", "o4", "o5"]


def scenario(rng, steps, reading, fm):
    """operations with the strings and files they use"""
    payloads, ops = [], []
    files = {"d": None, "d/e": None}
    ins = []
    for n in ["in0", "in1", "d/in2"]:
        k = rng.choice([0, 1, 2, 10, 100, 600])
        al = rng.choice([None, [10, 65, 66, 67], [10], list(range(32, 127)) + [10, 10], list(range(256))])
        b = bytes(rng.choice(al) if al else rng.randrange(256) for _ in range(k))
        files[n] = b.decode("latin-1")
        ins.append(n)
    stdin = bytes(rng.choice([10, 97, 98, 0, 255, 200, 1]) for _ in range(rng.choice([0, 1, 30, 200]))).decode("latin-1")

    def payload(t):
        payloads.append(t)
        return len(payloads) - 1
    strs = [payload(iogen.blob(rng, n, list(range(1, 256)) if rng.random() < 0.4 else list(range(32, 127)))) for n in (0, 1, 5, 30, 60)]
    wr, rd, fresh, done = {}, {}, list(dict.fromkeys(NAMES)), []
    wshare = 0.25 if reading else 0.75
    left = 1

    def val(p):
        if p in ("%d", "%x", "%o", "%#x", "%#o", "%08x", "%8x"):
            return rng.choice([0, 1, -1, 7, 10, 255, 4096, 2147483647, -2147483648, rng.randrange(-1 << 31, 1 << 31)])
        if p == "%c":
            return rng.randrange(1, 256)
        return rng.choice([0, 1, 9, 10, 99, 12345, 99999, rng.randrange(1 << 31)])
    for _ in range(steps):
        w = rng.random() < wshare
        k = rng.random()
        if w:
            if (k < 0.12 or not wr) and fresh and len(wr) + len(rd) < 7:
                s = rng.choice([x for x in range(7) if x not in wr and x not in rd])
                n = fresh.pop(rng.randrange(len(fresh)))
                ops.append([1, s, payload(n), 1])
                wr[s] = n
            elif k < 0.2 and wr:
                s = rng.choice(sorted(wr))
                ops.append([3, s])
                done.append(wr.pop(s).replace("./", ""))
            elif k < 0.6 and wr:
                s = rng.choice(sorted(wr))
                ops.append([2, s, rng.choice([0, 10, 65, 127, 128, 255, rng.randrange(256)])])
            elif k < 0.7 and wr:
                ops.append([9, rng.choice(sorted(wr)), rng.randrange(1, 256), rng.choice([1, 3, 40, 300])])
            else:
                f = rng.randrange(len(fm))
                ph = [p for p in fm[f] if p.startswith("%") and p != "%%"] + ["%d", "%d"]
                a, b = val(ph[0]), val(ph[1])
                if rng.random() < 0.7:
                    ops.append([6, 0, f, a, b, rng.choice(strs)])
                else:
                    ops.append([7, 0, f, a, b, rng.choice(strs), rng.randrange(1 << 20)])
        else:
            src = ins + done
            if (k < 0.12 or not rd) and len(wr) + len(rd) < 7:
                s = rng.choice([x for x in range(7) if x not in wr and x not in rd])
                n = rng.choice(src + (["none"] if rng.random() < 0.2 else []))
                ops.append([1, s, payload(n), 0])
                rd[s] = n
            elif k < 0.18 and rd:
                s = rng.choice(sorted(rd))
                ops.append([3, s])
                rd.pop(s)
            else:
                s = 7 if rng.random() < 0.15 or not rd else rng.choice(sorted(rd))
                if rng.random() < 0.5:
                    ops.append([4, s])
                else:
                    ops.append([5, s, rng.choice([2, 3, 5, 16, 80, 256, 300]), rng.randrange(1 << 20)])
    k = rng.randrange(4)
    if k == 0:
        for s in sorted(wr) + sorted(rd):
            ops.append([3, s])
    elif k == 1:
        ops.append([8, 0, rng.randrange(0, 256)])
    return {"ops": ops, "payloads": payloads, "files": files, "stdin": stdin}


def valid(ops):
    """operations only on open files, as generated"""
    op = {7}
    for o in ops:
        if o[0] == 1:
            if o[1] in op:
                return False
            op.add(o[1])
        elif o[0] in (2, 3, 4, 5, 9):
            if o[1] not in op:
                return False
            if o[0] == 3:
                op.discard(o[1])
    return True


def faults(rng, which):
    out = []
    for _ in range(rng.randrange(0, 4)):
        n = rng.choice(which)
        arg = rng.choice({"read": [5, 4, 11], "write": [5, 28, 4, 32], "open": [2, 13, 24, 5, 4]}[n])
        nth = 0 if rng.random() < 0.04 else rng.choice([1, 2, 3, rng.randrange(1, 30), rng.randrange(1, 400)])
        out.append([n, nth, "err", arg])
    return out


def execute(sc, run, img, ctx):
    """run one history and judge it"""
    s = run["io"]
    files = {k: (("dir", b"") if v is None else v.encode("latin-1")) for k, v in s["files"].items()}
    fs = dict(files)
    pl = [p.encode("latin-1") for p in s["payloads"]]
    for n, p in enumerate(pl):
        fs["\x01payload%d" % n] = p
    g = lib.run_image(ctx, img, env=run["env"], files=fs, stdin=s["stdin"], ops=s["ops"], faults=run["faults"], hist=True)
    # names as the file system knows them
    norm = [p[2:] if p.startswith(b"./") else p for p in pl]
    v, seen = judge(g, s["ops"], sc["fm"], norm, {k: v for k, v in files.items()}, s["stdin"].encode("latin-1"),
                    sc.get("strict", False))
    return g, v, seen


def shrink(sc, same, limit, last):
    if same(sc):
        c = dict(sc, runs=[sc["runs"][last]])
        if same(c):
            sc = c
    if len(sc["runs"]) == 1:
        run = sc["runs"][0]
        for k in sorted(run["env"]):
            t = dict(run, env={a: b for a, b in run["env"].items() if a != k})
            if same(dict(sc, runs=[t])):
                run = t
        for f in list(run["faults"]):
            t = dict(run, faults=[x for x in run["faults"] if x is not f])
            if same(dict(sc, runs=[t])):
                run = t
        c = lib.shrink_list(dict(sc, o=run["io"]["ops"]), "o",
                            lambda c: valid(c["o"]) and same(dict(sc, runs=[dict(run, io=dict(run["io"], ops=c["o"]))])), limit - 8)
        run = dict(run, io=dict(run["io"], ops=c["o"]))
        sc = dict(sc, runs=[run])
    return sc
