"""Random programs that do input and output: files, standard input and output,
arguments and the heap, with every result looked at."""
from . import gen


def io_program(rng, helpers=True):
    """program tree; files in0 in1 in2 are read, out0..out3 written"""
    g = gen.Gen(rng, 0.5, True)
    r = rng
    g.header()
    for _ in range(r.randrange(1, 3)):
        g.function()
    out = g.out
    n = [0]

    def nid(p):
        n[0] += 1
        return "%sz%d" % (p, n[0])

    def copy():
        f, a, b, c, k = nid("copy"), nid("a"), nid("b"), nid("c"), nid("k")
        tr = r.choice(["%s" % c, "%s ^ 1" % c, "(%s & 95) + 1" % c])
        out.append(["int %s(char *src, char *dst) {" % f, [
            "FILE *%s = fopen(src, \"rb\");" % a, "FILE *%s = fopen(dst, \"wb\");" % b,
            "int %s;" % c, "int %s = 0;" % k,
            ["while ((%s = fgetc(%s)) != -1) {" % (c, a), ["if (fputc(%s, %s) == -1) break;" % (tr, b), "%s++;" % k], "}"]
            if r.random() < 0.0 else
            ["for (%s = fgetc(%s); %s != -1; %s = fgetc(%s)) {" % (c, a, c, c, a),
             ["if (fputc(%s, %s) == -1) break;" % (tr, b), "%s++;" % k], "}"],
            "fclose(%s);" % a, "fclose(%s);" % b, "return %s;" % k], "}"])
        return "%s(\"%s\", \"out%d\")" % (f, r.choice(["in0", "in1", "in2", "none"]), r.randrange(4))

    def lines():
        f = nid("lines")
        k = r.choice([2, 5, 16, 80, 256])
        out.append(["int %s(char *src) {" % f, [
            "FILE *f = fopen(src, \"rb\");", "char buf[%d];" % max(k, 4), "int n = 0;", "int h = 7;", "int i;",
            ["while (fgets(buf, %d, f)) {" % k, ["n++;", "for (i = 0; buf[i]; i++) h = h * 33 + buf[i];",
                                                 "if (n > %d) break;" % r.choice([3, 1000])] +
             (["printf(\"%d:%s\", n, buf);"] if k <= 80 and r.random() < 0.6 else []), "}"],
            "printf(\"%d %d\\n\", n, h);", "fclose(f);", "return n;"], "}"])
        return "%s(\"%s\")" % (f, r.choice(["in0", "in1", "in2", "none"]))

    def puts_():
        f = nid("puts")
        out.append(["int %s(char *dst, char *s) {" % f, [
            "FILE *f = fopen(dst, \"wb\");", "int i;", "int e = 0;",
            "for (i = 0; s[i]; i++) { if (fputc(s[i], f) == -1) e++; }",
            "fclose(f);", "return i - e * 100;"], "}"])
        return "%s(\"out%d\", \"%s\")" % (f, r.randrange(4), "".join(r.choice(["a", "b", "c", " ", "\\n", "."]) for _ in range(r.randrange(30))))

    def heap():
        f = nid("heap")
        k = r.choice([1, 3, 7])
        out.append(["int %s(int n) {" % f, [
            "int *p[8];", "int i;", "int s = 0;",
            ["for (i = 0; i < %d; i++) {" % k, ["p[i] = malloc((n + i * %d) * 4);" % r.choice([1, 10, 900]),
                                                "if (!p[i]) { printf(\"none\\n\"); return -1; }", "p[i][0] = i + n;", "p[i][n - 1] = i;"], "}"],
            ["for (i = 0; i < %d; i++) {" % k, ["s += p[i][0] * 3 + p[i][n - 1];"], "}"],
            ["for (i = %d; i >= 0; i--) {" % (k - 1), ["free(p[i]);"], "}"], "return s;"], "}"])
        return "%s(%d)" % (f, r.choice([1, 2, 30, 500, 3000]))

    def fmt():
        f = nid("fmt")
        out.append(["int %s(int v) {" % f, [
            "char b[100];", "int k = sprintf(b, \"<%s>\", v, v);" % r.choice(["%d|%x", "%5d,%05d", "%o %#x", "%c%d"]),
            "printf(\"%s %d\\n\", b, k);", "int q = snprintf(b, %d, \"%%s-%%d\", \"abc\", v & 7);" % r.choice([3, 5, 20]),
            "printf(\"%s %d\\n\", b, q);", "return k + q;"], "}"])
        return "%s(%s)" % (f, r.choice(["65", "97 + 2", "66"]))
    edges = [e for _ in range(r.randrange(1, 4)) for e in g.edges()] if r.random() < 0.4 else []
    calls = [r.choice([copy, lines, puts_, heap, fmt, copy, lines])() for _ in range(r.randrange(2, 7))]
    body = ["int s = argc;"]
    if r.random() < 0.5:
        body.append("for (int i = 0; i < argc; i++) printf(\"[%s]\", argv[i]);")
    g.start([], True, 8)
    body += edges
    for c in calls:
        body.append(r.choice(["s += %s;", "s = s * 3 + %s;", "printf(\"%%d\\n\", %s);"]) % c)
        if r.random() < 0.3:
            a = g.call(2, True)
            if a:
                body.append("s ^= %s;" % a)
        if r.random() < 0.1:
            body.append("if ((s & 7) == %d) exit(s & 63);" % r.randrange(8))
    body.append("printf(\"%d\\n\", s);")
    body.append(r.choice(["return s & 63;", "exit(s & 63);", "return 0;"]))
    out.append(["int main(int argc, char **argv) {", body, "}"])
    return out


def blob(rng, n, alphabet=None):
    return "".join(chr(rng.choice(alphabet) if alphabet else rng.randrange(1, 128)) for _ in range(n))


def io_files(rng):
    """inputs for io_program"""
    f = {}
    for k in ("in0", "in1", "in2"):
        n = rng.choice([0, 1, 2, 10, 60, 300])
        f[k] = blob(rng, n, [10, 32, 65, 97, 98, 10] if rng.random() < 0.7 else None)
    if rng.random() < 0.3:
        f["out0"] = ""
    return f


SYS = ["read", "write", "open", "close", "mmap", "munmap"]


def io_faults(rng, most=4):
    out = []
    for _ in range(rng.randrange(0, most + 1)):
        n = rng.choice(SYS)
        kind = "err"
        arg = rng.choice({"read": [5, 4, 11, 21], "write": [5, 28, 4, 32], "open": [2, 13, 24, 5], "close": [5, 4],
                          "mmap": [12], "munmap": [22]}[n])
        if n in ("read", "write") and rng.random() < 0.3:
            kind, arg = "short", 0 if n == "write" else rng.choice([0, 1])
        nth = 0 if rng.random() < 0.05 and n != "mmap" else rng.choice([1, 2, 3, 5, rng.randrange(1, 12), rng.randrange(1, 400)])
        out.append([n, nth, kind, arg])
    return out
