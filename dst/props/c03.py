"""C03: both targets, with and without +m, show one I/O history."""
import re

from .. import core, iogen, lib
from ..runner import Check

LINE = re.compile(r"^S \d+ (\w+) (\S+) (\S+) (\S+) -> (-?\d+) (\w+)( FAULT)?$")


def history(r):
    """system calls without what legitimately differs: addresses"""
    out, maps = [], {}
    for l in r.lines():
        m = LINE.match(l)
        if not m:
            t = l.split(" ")
            if t[0] == "S" and t[2] == "exit":
                out.append("exit " + t[3])
            elif t[0] in ("P", "U", "X"):
                out.append(" ".join(t[:1] + (t[1:] if t[0] == "P" else t[2:])))
            continue
        n, a, b, c, ret, pay, fl = m.groups()
        ret = int(ret)
        if n == "mmap":
            if not fl and not -4096 < ret < 0:
                maps[ret & 0xffffffff] = len(maps)
                ret = "map%d" % maps[ret & 0xffffffff]
            a = "0"
        elif n == "munmap":
            a = "map%s" % maps.get(int(a, 16), "?")
        if n == "open":
            a = b = ""          # the line before has the path and the flags
        elif n == "close":
            b = c = ""
        elif n == "munmap":
            c = ""
        out.append("%s %s %s %s -> %s %s%s" % (n, a, b, c, ret, pay, fl or ""))
    return out


class C03(Check):
    id = "C03"
    rule = ("a seeded random program that reads and writes files, prints, uses arguments and the heap is compiled for both "
            "targets with and without +m and executed with the same files and the same sequence of failing or short system "
            "calls; the normalised system call histories (order, arguments, payload hashes, results), files, output and "
            "status must agree. Non-trivial: at least 3 system calls were made.")
    assumptions = ("mapping and stack addresses may differ between targets and are replaced by their order of appearance",)
    real = lib.REAL_COMPILER + lib.REAL_GUEST
    stub = lib.STUB_COMPILER + lib.STUB_GUEST

    def count(self, tier):
        return 1100 if tier == "quick" else 40000

    def make(self, i, rng, tier):
        if rng.random() < 0.7:
            src = iogen.io_program(rng)
        else:
            src = lib.program(rng, 1.0)
        return {"src": src, "files": iogen.io_files(rng), "args": [iogen.blob(rng, rng.randrange(0, 6), [97, 98, 45]) for _ in
                range(rng.randrange(0, 4))], "stdin": iogen.blob(rng, rng.randrange(0, 30)),
                "plans": [[]] + [iogen.io_faults(rng) for _ in range(3)],
                "env": core.guest_env(rng)}

    def run(self, sc, ctx, out):
        src = lib.source(sc["src"])
        imgs = []
        for arch, opts in lib.TARGETS:
            r, img = lib.build(ctx, arch, opts, src)
            if img is None:
                t = lib.refused(ctx, arch, opts, src)
                if lib.capacity(t):
                    ctx.stats.inc("skipped: capacity diagnostic")
                    return None
                if imgs or lib.refused(ctx, "riscv" if arch == "arm" else "arm", opts, src) != t:
                    return {"what": "accepted for one target only", "detail": "%s %s: %s" % (arch, opts, lib.out_of(r))}
                return {"what": "valid program rejected", "detail": "%s %s" % (arch, t[-300:])}
            imgs.append(img)
        for plan in sc["plans"]:
            res = []
            for (arch, opts), img in zip(lib.TARGETS, imgs):
                r = lib.run_image(ctx, img, args=["prog"] + sc["args"], files=sc["files"], stdin=sc["stdin"], faults=plan,
                                  env=sc["env"], hist=True, insns=4000000, big=150000000)
                if r.status == "limit":
                    ctx.stats.inc("skipped: too long")
                    res = []
                    break
                out.saw(r, sum(r.sys.values()) > 2)
                res.append((r, history(r)))
            for k in range(1, len(res)):
                (a, ha), (b, hb) = res[0], res[k]
                tag = "%s%s and %s%s, faults %s: " % (lib.TARGETS[0] + lib.TARGETS[k] + (plan,))
                if a.status != b.status or a.code & 255 != b.code & 255:
                    return {"what": "different endings", "detail": tag + lib.out_of(a) + " / " + lib.out_of(b)}
                if a.stdout != b.stdout:
                    return {"what": "different output", "detail": tag + lib.diff_text(a.stdout, b.stdout)}
                if a.files != b.files:
                    return {"what": "different files", "detail": tag + repr([(x, a.files.get(x), b.files.get(x)) for x in
                            sorted(set(a.files) | set(b.files)) if a.files.get(x) != b.files.get(x)])[:1500]}
                if ha != hb:
                    i = 0
                    while i < min(len(ha), len(hb)) and ha[i] == hb[i]:
                        i += 1
                    return {"what": "different histories", "detail": tag + "at call %d: %s / %s" %
                            (i, ha[i:i + 3], hb[i:i + 3])}
        return None

    def shrink(self, sc, same, limit):
        sc = lib.shrink_list(sc, "plans", same, 5)
        for j in range(len(sc["plans"])):
            c = lib.shrink_list(dict(sc, p=sc["plans"][j]), "p", lambda c: same(dict(sc, plans=sc["plans"][:j] + [c["p"]] + sc["plans"][j + 1:])), 8)
            sc = dict(sc, plans=sc["plans"][:j] + [c["p"]] + sc["plans"][j + 1:])
        c = dict(sc, env={})
        if same(c):
            sc = c
        return lib.shrink_program(sc, "src", same, limit - 15, need_clean=lib.compiles)


CHECK = C03()
