"""C15: programs start and end by the platform's conventions."""
import random
import re

from .. import core, gen, iogen, lib
from ..runner import Check
from . import c15elf


def s32(v):
    v &= 0xffffffff
    return v - (1 << 32) if v >> 31 else v


def fingerprint(b):
    h = 7
    for c in b:
        h = s32(h * 31 + c)
    return h


def program(rng):
    """(source, plan): a program that shows what it was given and ends in one
    of the ways there are; plan says what decides its status"""
    r = rng
    way = r.choice(["return", "return", "exit", "exit", "deep", "call", "branch", "loop", "switch", "again", "abort",
                    "syscall", "argc", "global", "argvlen", "heap"])
    form = r.choice(["int main(int argc, char **argv)", "int main(int argc, char *argv[])"])
    if way in ("return", "exit", "deep", "global") and r.random() < 0.25:
        form = r.choice(["int main()", "int main(int argc)"])
    status = r.choice([0, 1, 2, 42, 127, 128, 255, 256, -1, -128, 1000, 65535, r.randrange(-70000, 70000)])
    o = []
    gl = []
    for k in range(r.randrange(0, 6)):
        n = "gv%d" % k
        j = r.randrange(4)
        if j == 0:
            v = r.choice([0, 1, -5, 123456, 0x7fffffff, -2147483647, r.randrange(-99999, 99999)])
            o.append("int %s = %d;" % (n, v))
            gl.append(("%s" % n, v))
        elif j == 1:
            o.append("int %s;" % n)
            gl.append((n, 0))
        elif j == 2:
            size = r.choice([1, 5, 100, 1030, 5000, 20000])
            o.append("int %s[%d];" % (n, size))
            gl.append(("%s[%d]" % (n, r.randrange(size)), 0))
        else:
            size = r.choice([1, 3, 4, 5, 257, 4099])
            o.append("char %s[%d];" % (n, size))
            gl.append(("%s[%d]" % (n, r.randrange(size)), 0))
    if r.random() < 0.3:
        o.append("int gstat = %d;" % status)
    else:
        o.append("int gstat = %d + %d;" % (status - 7, 7))
    o += ["void show(char *s) { int h = 7; int i; for (i = 0; s[i]; i++) h = h * 31 + (s[i] & 255); printf(\"%d %d\\n\", i, h); }",
          "int deep(int n) { int pad[%d]; pad[0] = n; if (n > 0) return deep(n - 1) + pad[0] - n; exit(gstat); return 0; }" % r.choice([1, 9, 200, 1200]),
          "int give(int v) { return v; }"]
    pre = []
    main = []
    if "argv" in form:
        main += ["printf(\"%d\\n\", argc);", "for (int i = 0; i < argc; i++) show(argv[i]);", "printf(\"%d\\n\", !argv[argc]);",
                 "int ne = 0;", "for (int j = argc + 1; argv[j]; j++) { show(argv[j]); ne++; }", "printf(\"%d\\n\", ne);"]
    elif "argc" in form:
        main += ["printf(\"%d\\n\", argc);"]
    for e, v in gl:
        main.append("printf(\"%%d \", %s);" % e)
    if r.random() < 0.2:
        size = r.choice([10, 1022, 1025, 3000])
        main.insert(0, "int pad[%d]; pad[%d] = 5; gstat = gstat + pad[%d] - 5;" % (size, size - 1, size - 1))
    if r.random() < 0.3 or way == "heap":
        main.append("char *hp = malloc(%d); char *hq = malloc(%d);" % (r.choice([10, 5000]), r.choice([1, 300])))
        if r.random() < 0.6:
            main.append("free(%s);" % r.choice(["hp", "hq"]))
        if r.random() < 0.3:
            main.append("hp = malloc(20);" if r.random() < 0.5 else "hq = calloc(3, 50);")
    plan = {"way": way, "status": status, "globals": [v for _, v in gl], "form": form}
    e = r.choice(["gstat", "%d" % status if status >= 0 else "0 - %d" % -status, "give(gstat)"])
    if way == "return":
        main.append("return %s;" % e)
    elif way == "exit" or way == "heap":
        main.append("exit(%s);" % e)
        if r.random() < 0.5:
            main.append("printf(\"not here\"); return 3;")
        else:
            main.append("return 9;")
    elif way == "deep":
        plan["depth"] = r.choice([0, 1, 10, 300])
        main += ["deep(%d);" % plan["depth"], "return 5;"]
    elif way == "call":
        main.append("return give(%s);" % e)
    elif way == "branch":
        main.append("if (argc > 1) return gstat; else return gstat + 1;")
    elif way == "loop":
        main.append("for (int q = 0; ; q++) { if (q == %d) return gstat; }" % r.randrange(5))
        main.append("return 77;")
    elif way == "switch":
        main.append("switch (argc) { case 1: return gstat; case 2: exit(gstat + 1); default: break; }")
        main.append("return gstat + 2;")
    elif way == "again":
        main = ["if (argc > 1) return main(argc - 1, argv) + 1;", "return gstat;"]
    elif way == "abort":
        main += ["abort();", "return 1;"]
    elif way == "syscall":
        main += ["#", "return 4;"]
    elif way == "argc":
        main.append("return argc;")
    elif way == "global":
        main += ["gstat++;", "return gstat;"]
    elif way == "argvlen":
        main.append("return strlen(argv[argc - 1]);")
    body = "\n    ".join(main)
    if way == "syscall":
        o.append("#if defined(__arm__)\n#define SYSEXIT 1\n#else\n#define SYSEXIT 93\n#endif")
        body = body.replace("#", "__syscall(SYSEXIT, gstat);")
    m = "%s {\n    %s\n}\n" % (form, body)
    place = r.randrange(3)
    parts = o + [m] if place == 0 else o[:-3] + ["void show(char *s);", "int deep(int n);", "int give(int v);"] + \
        [x for x in o[-1:] if x.startswith("#if")] + [m] + o[-3:] if place == 1 and not o[-1].startswith("#if") else o + [m] + ["int last(int a) { return a * 3; }"]
    src = "\n".join(parts) + "\n"
    if r.random() < 0.6:
        # other names, those of the start-up and exit path's neighbourhood among them
        old = ["show", "deep", "give", "last", "gstat"] + ["gv%d" % k for k in range(6)]
        new = r.sample(NAMES, len(old))
        m = dict(zip(old, new))
        src = re.sub(r"\b(%s)\b" % "|".join(old), lambda x: m[x.group(1)], src)
    return src, plan


NAMES = ["main_", "main2", "mainly", "_main", "Main", "MAIN", "domain", "remain", "mai", "ma", "m", "main_loop", "start", "_start",
         "__start", "exit_", "_exit", "_fini", "init", "_init", "argc_", "argv2", "__main", "mainframe", "abort_", "syscall", "e",
         "quit", "entry", "exit2", "text", "bss", "data", "end", "_end", "edata", "environ", "stack", "sp", "lr", "r0", "a0"]


def arguments(rng):
    n = rng.choice([0, 0, 1, 1, 2, 3, 7, rng.randrange(1, 30), 300 if rng.random() < 0.2 else 4])
    out = [rng.choice(["prog", "./prog", "", "/a/b/" + "p" * rng.randrange(100)])]
    for _ in range(n):
        k = rng.randrange(6)
        out.append("" if k == 0 else "-o" if k == 1 else iogen.blob(rng, rng.randrange(1, 10), list(range(1, 256))) if k < 4 else
                   "x" * rng.choice([1, 3, 4, 200, 4095, 5000]) if k == 4 else "%d" % rng.randrange(1000))
    return out


class C15(Check):
    id = "C15"
    rule = ("programs that print argc, every argument, the terminator, the whole environment behind it and their globals' first "
            "values, and end in one of 16 ways (return from anywhere, exit at any depth, abort, a direct system call, main "
            "calling itself, with and without heap blocks), are executed from random initial stacks (place, alignment, number "
            "and length of strings), initial registers and mapping placements, with interrupts; output and the status given to "
            "the kernel are compared with what Python computes from the inputs. Every executable, also those of generated and "
            "corpus sources, is read by a strict ELF loader. Non-trivial: the program ran to its end.")
    real = lib.REAL_COMPILER + lib.REAL_GUEST
    stub = lib.STUB_COMPILER + lib.STUB_GUEST

    def count(self, tier):
        return 1500 if tier == "quick" else 60000

    def make(self, i, rng, tier):
        arch, opts = lib.config(rng)
        if i % 6 == 5:
            src = lib.any_source(rng, 0.6)
            return {"src": lib.source(src), "plan": None, "arch": arch, "opts": list(opts), "runs": [],
                    "nolibc": rng.random() < 0.3, "host": core.host_env(rng)}
        src, plan = program(rng)
        runs = []
        for _ in range(4):
            e = core.guest_env(rng, irq=rng.random() < 0.3)
            e["environ"] = [iogen.blob(rng, rng.randrange(1, 8), list(range(65, 91))) + "=" + iogen.blob(rng, rng.choice([0, 1, 5, 300]), list(range(1, 256)))
                            for _ in range(rng.choice([0, 0, 1, 2, 20, 200 if rng.random() < 0.2 else 3]))]
            runs.append([arguments(rng), e])
        return {"src": src, "plan": plan, "arch": arch, "opts": list(opts), "runs": runs, "nolibc": False, "host": core.host_env(rng)}

    def want(self, p, args, env):
        """(output, status) by the conventions"""
        raw = [a.encode("latin-1") for a in args]
        envs = [a.encode("latin-1") for a in env]
        o = ""
        st = p["status"]
        if p["way"] == "again":
            return b"", (st + len(args) - 1) & 255
        if "argv" in p["form"]:
            o += "%d\n" % len(raw)
            for a in raw:
                o += "%d %d\n" % (len(a), fingerprint(a))
            o += "1\n"
            for a in envs:
                o += "%d %d\n" % (len(a), fingerprint(a))
            o += "%d\n" % len(envs)
        elif "argc" in p["form"]:
            o += "%d\n" % len(raw)
        for v in p["globals"]:
            o += "%d " % v
        w = p["way"]
        if w == "branch" and len(raw) <= 1:
            st += 1
        elif w == "switch":
            st += {1: 0, 2: 1}.get(len(raw), 2)
        elif w == "abort":
            o += "Abnormal program termination\n"
            st = -1
        elif w == "argc":
            st = len(raw)
        elif w == "global":
            st += 1
        elif w == "argvlen":
            st = len(raw[-1])
        return o.encode("latin-1"), st & 255

    def run(self, sc, ctx, out):
        opts = list(sc["opts"])
        src = sc["src"]
        if sc["nolibc"]:
            opts.append("--no-libc")
            src = lib.STANDIN + src
        r, img = lib.build(ctx, sc["arch"], opts, src, sc["host"])
        tag = "%s %s: " % (sc["arch"], " ".join(opts))
        if img is None:
            if sc["plan"] and not lib.capacity(lib.refused(ctx, sc["arch"], opts, src)):
                return {"what": "valid program rejected", "detail": tag + lib.out_of(r)}
            ctx.stats.inc("skipped: not compiled")
            return None
        e = c15elf.problem(img, sc["arch"])
        if e:
            return {"what": "malformed executable", "detail": tag + e}
        ctx.stats.inc("executables read strictly")
        for n, (args, env) in enumerate(sc["runs"]):
            self.last = n
            w, st = self.want(sc["plan"], args, env.get("environ", []))
            g = lib.run_image(ctx, img, args=args, env=env)
            out.saw(g, g.status == "exit")
            if g.status != "exit":
                return {"what": "program does not end as it should", "detail": tag + lib.out_of(g)}
            if g.stdout != w:
                return {"what": "arguments, environment or first values are not what they should be", "detail": tag + lib.diff_text(g.stdout, w)}
            if g.code & 255 != st:
                return {"what": "the kernel sees another status", "detail": tag + "%d, expected %d" % (g.code & 255, st)}
        return None

    def shrink(self, sc, same, limit):
        self.last = None
        if sc["runs"] and same(sc) and self.last is not None:
            c = dict(sc, runs=[sc["runs"][self.last]])
            if same(c):
                sc = c
            if len(sc["runs"]) == 1:
                a, e = sc["runs"][0]
                for k in sorted(e):
                    if k == "environ":
                        continue
                    t = {x: y for x, y in e.items() if x != k}
                    if same(dict(sc, runs=[[a, t]])):
                        e = t
                for t in ([], e.get("environ", [])[:1]):
                    if same(dict(sc, runs=[[a, dict(e, environ=t)]])):
                        e = dict(e, environ=t)
                        break
                for t in (["p"], a[:2]):
                    if same(dict(sc, runs=[[t, e]])):
                        a = t
                        break
                sc = dict(sc, runs=[[a, e]])
        elif not sc["runs"]:
            return lib.shrink_program(sc, "src", same, limit, need_clean=lambda s: True)
        return sc


CHECK = C15()
