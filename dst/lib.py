"""Pieces the property modules share."""
import glob
import json
import os
import random

from . import core, gen, oracle, shrink

TARGETS = [("arm", ()), ("arm", ("+m",)), ("riscv", ()), ("riscv", ("+m",))]
CORPUS = os.path.join(core.VERIF, "corpus")
_corpus = []

REAL_COMPILER = ("the whole compiler (src/*.c with the target's code generator, libc.inc made from lib/c.c by "
                 "tools/inliner.c), compiled from /repo's working tree with basic-block counting",)
STUB_COMPILER = ("the C library of the host below the compiler: malloc/calloc/realloc/free, stdio files, remove, "
                 "rename, environment, stack residue (sim/host/simrt.c)",)
REAL_GUEST = ("every instruction of the compiled program, including the C library of lib/c.c linked into it",)
STUB_GUEST = ("the CPU (ARMv7-A / RV32IM interpreter) and the Linux kernel below it: loader, memory mappings, files, "
              "signals' stack use (sim/guest/simguest.cpp)",)


def corpus():
    """(name, source, exit status, output or None) of the tests' programs"""
    if not _corpus:
        for p in sorted(glob.glob(CORPUS + "/t*.c")):
            b = p[:-2]
            with open(p, "rb") as f:
                src = f.read()
            with open(b + ".rc") as f:
                rc = int(f.read().strip())
            out = None
            if os.path.exists(b + ".out"):
                with open(b + ".out", "rb") as f:
                    out = f.read()
            _corpus.append((os.path.basename(b), src.decode("latin-1"), rc, out))
    return _corpus


_features = []


def features():
    """(name, source, exit status, output) of small programs, each about one feature of the language"""
    if not _features:
        with open(CORPUS + "/features.json") as f:
            _features.extend(json.load(f))
    return _features


_ref = []


def reference():
    if not _ref:
        _ref.append(oracle.Reference())
    return _ref[0]


def program(rng, size=1.0, **kw):
    return gen.generate(rng, size, **kw)


def source(nodes):
    return nodes if isinstance(nodes, str) else gen.text(nodes)


CAPACITY = (b"Too many ", b" too long", b"Too much ", b"too large", b"too deep")


class Refused(Exception):
    pass


def build(ctx, arch, opts, src, env=None, name="t.c", extra=None, steps=400000000):
    """compile src; (result, image or None)"""
    files = {name: src.encode("latin-1") if isinstance(src, str) else src}
    files.update(extra or {})
    e = dict(env or {})
    r = ctx.compile(arch, files, list(opts) + ["-o", "prog", name], env=e, steps=steps)
    return r, (r.files.get("prog") if r.ok() else None)


def refused(ctx, arch, opts, src, name="t.c", extra=None):
    """why the compiler says it does not take this program"""
    files = {name: src.encode("latin-1") if isinstance(src, str) else src}
    files.update(extra or {})
    r = ctx.compile(arch, files, list(opts) + ["-o", "prog", name], env={"stdoutmode": 1})
    return r.stdout + r.stderr


def capacity(text):
    return any(c in text for c in CAPACITY)


def run_image(ctx, img, insns=6000000, big=600000000, **kw):
    """run; a program that reaches the first limit gets the second one"""
    r = ctx.execute(img, insns=insns, **kw)
    if r.status == "limit":
        r = ctx.execute(img, insns=big, **kw)
    return r


def out_of(r):
    return "%s stdout=%r stderr=%r why=%s" % (r.end(), r.stdout[-600:], r.stderr[-200:], r.why)


def diff_text(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return "first difference at byte %d: %r / %r (lengths %d, %d)" % (i, a[i:i + 24], b[i:i + 24], len(a), len(b))


def clean_program(src):
    """no undefined behaviour: what every minimised program still has to be"""
    return reference().clean({"t.c": src.encode("latin-1")}, "t.c")


def compiles(src):
    """the host compiler takes it, and warns of nothing that matters"""
    import subprocess
    p = subprocess.run(["gcc", "-fsyntax-only", "-x", "c", "-O1", "-std=gnu11", "-Werror=implicit-function-declaration",
                        "-Werror=return-type", "-Werror=uninitialized", "-Werror=int-conversion", "-"],
                       input=(oracle.PRE + src).encode("latin-1"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return p.returncode == 0 and "int main(" in src


def shrink_program(sc, key, same, limit, need_clean=clean_program):
    """minimise the program tree at sc[key]; what need_clean says has to stay true"""
    import copy
    import time
    end = time.time() + limit
    if not isinstance(sc[key], str):
        def bad(t):
            c = dict(sc)
            c[key] = t
            return same(c) and need_clean(gen.text(t))
        t = shrink.tree(sc[key], bad, limit * 0.6)
        sc = dict(sc)
        sc[key] = gen.text(t)

    def badt(s):
        c = dict(sc)
        c[key] = s
        return same(c) and need_clean(s)
    if isinstance(sc[key], str) and end - time.time() > 3:
        s = shrink.tokens(sc[key], badt, end - time.time())
        sc = dict(sc)
        sc[key] = s
    return copy.deepcopy(sc)


def shrink_list(sc, key, same, limit):
    def bad(t):
        c = dict(sc)
        c[key] = t
        return same(c)
    if len(sc.get(key) or []) > 0:
        c = dict(sc)
        c[key] = shrink.seq(sc[key], bad, limit)
        return c
    return sc


def shrink_env(sc, key, same):
    """drop settings of an environment that do not matter"""
    e = dict(sc[key])
    for k in sorted(e):
        t = {a: b for a, b in e.items() if a != k}
        c = dict(sc)
        c[key] = t
        if same(c):
            e = t
    c = dict(sc)
    c[key] = e
    return c


# ------------------------------------------------------------ more sources
def corpus_source(rng):
    if rng.random() < 0.3:
        return rng.choice(features())[1]
    return rng.choice(corpus())[1]


def any_source(rng, gen_share=0.6, size=None):
    """a generated or a corpus program, as a tree or text"""
    if rng.random() < gen_share:
        return program(rng, size or rng.choice([0.3, 0.7, 1.2]))
    return corpus_source(rng)


def image_of(ctx, arch, opts, src, calm_seed=1, **kw):
    """the image an undisturbed compilation gives, or None"""
    return build(ctx, arch, opts, src, env={"seed": calm_seed, "residue": 0, "stackres": 0, "hplace": 0}, **kw)


def config(rng):
    """(arch, opts) of one of the four configurations"""
    return rng.choice(TARGETS)


def bytes_of(src):
    return source(src).encode("latin-1")


# a stand-in for the library: programs that are only compiled need no more
STANDIN = ("#define NULL 0\n#define bool _Bool\n#define true 1\n#define false 0\n#define INT_MAX 0x7fffffff\n#define INT_MIN 0x80000000\nint printf(char *f, ...) { return 0; }\nint sprintf(char *b, char *f, ...) { return 0; }\n"
           "int snprintf(char *b, int n, char *f, ...) { return 0; }\n"
           "void exit(int c) { for (;;) ; }\nvoid abort() { exit(1); }\nchar *malloc(int n) { return 0; }\n"
           "char *calloc(int n, int m) { return 0; }\nvoid free(char *p) { }\n"
           "int strlen(char *s) { return 0; }\nint strcmp(char *a, char *b) { return 0; }\n"
           "int strncmp(char *a, char *b, int n) { return 0; }\nchar *strcpy(char *a, char *b) { return a; }\n"
           "char *strncpy(char *a, char *b, int n) { return a; }\n"
           "char *memcpy(char *a, char *b, int n) { return a; }\nint memcmp(void *a, void *b, int n) { return 0; }\n"
           "void *memset(void *a, int v, int n) { return a; }\nint puts(char *s) { return 0; }\n"
           "int putchar(int c) { return c; }\nint getchar() { return 0; }\n"
           "int isdigit(char c) { return 0; }\nint isalpha(char c) { return 0; }\nint isalnum(char c) { return 0; }\n"
           "int isxdigit(char c) { return 0; }\nint isblank(char c) { return 0; }\n")


def pin(chk, sc, same):
    """keep only the plan that failed, with as few faults as needed"""
    if not sc["only"] and same(sc):
        c = dict(sc, only=[chk.last])
        if same(c):
            sc = c
    if sc["only"] and len(sc["only"]) == 1:
        f, e = sc["only"][0]
        c = shrink_list(dict(sc, p=f), "p", lambda c: same(dict(sc, only=[[c["p"], e]])), 5)
        sc = dict(sc, only=[[c["p"], e]])
    c = dict(sc, env={})
    if same(c):
        sc = c
    return sc


def hurt(r):
    """something failed, and was not just cut short"""
    return [k for k in r.inj if ":err" in k or k in ("write:diskfull", "alloc:fail", "stdout:fail", "kill")]


def fill_bytes(n, seed):
    """what the simulated machine fills a block with (system call 5002)"""
    m = (1 << 64) - 1
    s, o = (seed & 0xffffffff) + 1, bytearray()
    for _ in range(n):
        s = (s + 0x9E3779B97F4A7C15) & m
        z = s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & m
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & m
        o.append((z ^ (z >> 31)) & 255)
    return bytes(o)
