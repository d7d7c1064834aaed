"""The same program in another dress: other names, another layout, comments.
Works on the tree of text that gen.py makes and keeps its shape."""
import re

TOK = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|0[xX][0-9a-fA-F]+|\w+|\.\.\.|<<=|>>=|<<|>>|<=|>=|==|!=|&&|\|\||\+\+|--|->|[-+*/%&|^]=|\s+|.')
WORDS = ["main_", "main", "int_", "i", "iff", "forx", "whiles", "do_", "char_", "returns", "elsewhere", "struct_", "exit_",
         "printf_", "malloc_", "free", "strlen", "_", "__", "x", "Z", "sizeofx", "break_", "case_x", "typedefs", "void_", "l", "O",
         "a_rather_long_name_of_some", "enum_", "switch_", "bool_", "null", "arg", "argc_", "R", "t", "sp", "gp"]


def each(nodes, f):
    return [f(n) if isinstance(n, str) else [f(n[0]), each(n[1], f), f(n[2])] for n in nodes]


def rename(nodes, rng, ids):
    """consistently other names; string literals are left alone"""
    style = rng.randrange(4)
    used = set(ids)
    m = {}
    n = 0
    for i in ids:
        if i.isupper():
            continue
        while True:
            n += 1
            if style == 0:
                new = "%s%d" % (rng.choice(WORDS), n)
            elif style == 1:
                new = "a_common_prefix_of_names_%d" % n
            elif style == 2:
                new = rng.choice(WORDS) + "".join(rng.choice("abXY_01") for _ in range(rng.randrange(0, 6)))
            else:
                new = "".join(rng.choice("lI1O0_o") for _ in range(rng.randrange(1, 9)))
            if len(new) > 30 or new in used or not re.match(r"[A-Za-z_]", new) or new in WORDS or new.startswith("__"):
                continue
            break
        used.add(new)
        m[i] = new
    def f(s):
        return "".join(m.get(t, t) for t in TOK.findall(s)) if "\n" not in s else s
    return each(nodes, f)


COMMENTS = ["/**/", "/***/", "/* x */", "/* ** / */", "/*/ */", "/* // */", "/*\n * lines\n */", "/* \"quote */", "/* don't */",
            "/* { ( [ */", "/* #if 0 */", "/*\t*/", "/* a\n\n b */", "/* \\ */"]
ENDS = [" // note\n", " // */ /* \n", "\n", "\n\n\n", " \n\t", " // it's \"open\n", "\t// {\n"]
TIGHT = set("(){}[];,")


def layout(nodes, rng):
    k = rng.randrange(5)
    # how often what is put between two tokens
    rate = rng.choice([0.01, 0.03, 0.1, 0.3])
    tight = rng.random() < 0.3

    def f(s):
        if not s or s.lstrip().startswith("#") or "\n" in s:
            return s
        out = []
        toks = TOK.findall(s)
        for i, t in enumerate(toks):
            if tight and t.isspace() and 0 < i < len(toks) - 1 and (toks[i - 1] in TIGHT or toks[i + 1] in TIGHT):
                continue
            out.append(t)
            if rng.random() < rate and i < len(toks) - 1:
                j = rng.choice([0, 1, 2, 3, 4]) if k == 4 else k
                if j == 0:
                    out.append(rng.choice([" ", "   ", "\t", " \t "]))
                elif j == 1:
                    out.append(" " + rng.choice(COMMENTS) + rng.choice(["", " "]))
                elif j == 2:
                    out.append(rng.choice(ENDS))
                elif j == 3:
                    out.append(rng.choice([" \\\n ", " \\\n", " \\\n\\\n"]))
        return "".join(out)
    return each(nodes, f)


def dress(nodes, rng, ids):
    if rng.random() < 0.5:
        nodes = rename(nodes, rng, ids)
    if rng.random() < 0.6:
        nodes = layout(nodes, rng)
    return nodes
