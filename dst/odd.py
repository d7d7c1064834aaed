"""Sources whose constants, characters and lines are at the edge of what they
may be: no program needs them, but every compiler gives the same answer."""

NUMBERS = ["0", "1", "2", "31", "32", "33", "63", "255", "256", "4095", "4096", "65535", "65536", "0x7fffffff", "0x80000000",
           "0xffffffff", "2147483647", "2147483648", "4294967295", "0777", "0b101", "037777777777", "0x0", "00", "0b0", "1000000007"]


def number(rng):
    return rng.choice(NUMBERS + [str(rng.randrange(1 << 31)), hex(rng.randrange(1 << 32)), "0%o" % rng.randrange(1 << 31),
                                 "0b" + bin(rng.randrange(1 << 20))[2:]])


def char(rng):
    k = rng.random()
    if k < 0.4:
        return chr(rng.choice([128, 129, 160, 200, 254, 255, rng.randrange(128, 256)]))
    if k < 0.7:
        return rng.choice(["\\n", "\\t", "\\r", "\\0", "\\\\", "\\'", '\\"'])
    return rng.choice("abz09 _#%*/")


OPS = ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "<", ">", "<=", ">=", "==", "!=", "&&", "||"]


def source(rng):
    o, names = [], []
    n = rng.randrange(2, 14)
    for i in range(n):
        k = rng.randrange(8)
        if k == 0:
            op = rng.choice(["+", "-", "*", "/", "%", "<<", ">>", "<", ">", "==", "!=", "&&", "||"])
            o.append("int g%d = %s %s %s;" % (i, number(rng), op, number(rng)))
            names.append("g%d" % i)
        elif k == 1:
            o.append("int h%d = %s%s;" % (i, rng.choice(["", "-"]), number(rng)))
            names.append("h%d" % i)
        elif k == 2:
            o.append("#define N%d %s" % (i, number(rng)))
            names.append("N%d" % i)
        elif k == 3:
            o.append("char c%d[%s];" % (i, rng.choice(["1", "2", "3", "5", "17", "255", "1000"])))
            names.append("c%d[0]" % i)
        elif k == 4:
            o.append("#if %s %s %s\nint i%d;\n#else\nint i%d = 3;\n#endif" % (
                number(rng), rng.choice(["<", ">", "==", "!=", "<=", ">=", "&&", "||"]), number(rng), i, i))
            names.append("i%d" % i)
        elif k == 5:
            o.append("enum { E%d = %s, F%d } ;" % (i, rng.choice(["0", "7", "1000000", "255"]), i) if rng.random() < 0.1 else
                     "typedef enum { E%d = %d, F%d } e%d_t;" % (i, rng.randrange(1 << rng.choice([3, 8, 20, 30])), i, i))
            if o[-1].startswith("typedef"):
                names += ["E%d" % i, "F%d" % i]
        elif k == 6:
            o.append("/*%s*/" % "".join(char(rng).replace("*", "+").replace("/", "|") for _ in range(rng.choice([0, 3, 60, 250, 260, 520]))))
        else:
            o.append("typedef struct { %s } s%d_t;" % (" ".join("%s m%d%s;" % (rng.choice(["char", "int", "int *", "char *", "_Bool"]), j, rng.choice(["", "", "[3]", "[5]"])) for j in range(rng.randrange(1, 6))), i))
    if not names:
        names = ["7"]
    o.append("int use(int a, int b)\n{\n    return a + b;\n}")
    o.append("int main()\n{\n    int r = 0;\n    char k;")
    for _ in range(rng.randrange(2, 16)):
        k = rng.randrange(7)
        if k == 0:
            o.append("    r = r + (%s %s %s);" % (rng.choice(names + [number(rng)]), rng.choice(OPS), number(rng)))
        elif k == 1:
            o.append("    r = r ^ '%s';" % char(rng))
        elif k == 2:
            o.append("    printf(\"%s\");" % "".join(char(rng) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 30, 90]))))
        elif k == 3:
            o.append("    r = use(%s, %s);" % (number(rng), rng.choice(names)))
        elif k == 4:
            o.append("    k = '%s';\n    r = r + (k %s %s);" % (char(rng), rng.choice(OPS), number(rng)))
        elif k == 5:
            o.append("    int v%d = %s%s;\n    r = r %s v%d;" % (len(o), rng.choice(["", "-", "~", "!"]), number(rng), rng.choice(OPS), len(o)))
        else:
            o.append("    switch (r) {\n    case %s:\n        r = %s;\n        break;\n    case '%s':\n        r = 2;\n        break;\n    default:\n        break;\n    }" % (
                number(rng), number(rng), rng.choice("abc")))
    o.append("    return r;\n}")
    return "\n".join(o) + "\n"
