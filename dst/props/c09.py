"""C09: the compiler touches only the files it was told to."""
import random
import re

from .. import core, gen, iogen, lib
from ..runner import Check
from .damage import damage
from .split import split, norm

DUMPS = ("CFG.dot", "DOM.dot")


def broken(rng, text):
    """a source that has to be rejected"""
    k = rng.randrange(9)
    if k == 0:
        return text + "\nint unf(int a) { return undefined_thing_%d(a); }\n" % rng.randrange(99)
    if k == 1:
        return text + "\nint unv() { return nowhere%d + 1; }\n" % rng.randrange(99)
    if k == 2:
        return text + "\n#include \"not-there-%d.h\"\n" % rng.randrange(99)
    if k == 3:
        return text.replace("int main(", "int mian(")
    if k == 4:
        return text + "\nint half(int a) { if (a) { return"
    if k == 5:
        return text + "\n#error stop\n"
    if k == 6:
        p = [m.start() for m in re.finditer(";", text)]
        a = rng.choice(p)
        return text[:a] + text[a + 1:]
    if k == 7:
        return text + "\nint two() { break; }\n"
    return damage(rng, text)


class C09(Check):
    id = "C09"
    rule = ("an accepted, invalid or damaged source is compiled among other files (an older output, dumps, backups, the other "
            "default names), sometimes while reads and writes fail, on the host-built or the self-compiled compiler. Files that "
            "are not the output or an asked-for dump may not change or appear; a source rejected without an injected output "
            "fault leaves the older output as it was. Non-trivial: a file existed that could have been hurt.")
    assumptions = ("a dump file counts as asked for when --dump-ir is given",)
    real = lib.REAL_COMPILER + lib.REAL_GUEST
    stub = lib.STUB_COMPILER + lib.STUB_GUEST

    def count(self, tier):
        return 4000 if tier == "quick" else 120000

    def make(self, i, rng, tier):
        arch, opts = lib.config(rng)
        opts = list(opts)
        guest = rng.random() < 0.05
        src = lib.any_source(rng, 0.5, 0.5)
        if rng.random() < 0.75 or guest:
            opts.append("--no-libc")
            src = lib.STANDIN + lib.source(src)
        src = lib.source(src)
        if rng.random() < 0.6:
            src = broken(rng, src)
        files, main = split(rng, src, 0 if rng.random() < 0.6 else None)
        files = {k: (v.decode("latin-1") if isinstance(v, bytes) else "/dir") for k, v in files.items()}
        dump = not guest and rng.random() < 0.25
        outs = [None, "prog", "prog", "d/prog", "out.elf"]
        out = rng.choice(outs)
        other = {}
        for n in ["prog", "a.out", "CFG.dot", "DOM.dot", "prog.o", "prog.tmp", "d/prog", "d/x", "t.o", "out.elf", ".shecc", "tmp"]:
            if rng.random() < 0.5:
                other[n] = iogen.blob(rng, rng.choice([0, 5, 40])) * rng.choice([1, 1, 300])
        f = []
        if rng.random() < 0.3:
            for _ in range(rng.randrange(1, 3)):
                n = rng.choice(["read", "open", "write", "close"])
                f.append([n, rng.choice([0, 1, 2, 3, rng.randrange(1, 9)]), "err", rng.choice([5, 28, 13, 4])])
        env = core.guest_env(rng) if guest else dict(core.host_env(rng), stdoutmode=rng.randrange(2))
        if not guest and rng.random() < 0.08:
            env["stdclosed"] = rng.choice([2, 2, 3, 6, 7])
        return {"files": files, "main": main, "arch": arch, "opts": opts, "dump": dump, "out": out, "other": other,
                "guest": rng.choice(core.ARCHES) if guest else None, "faults": f,
                "env": env}

    def run(self, sc, ctx, out):
        files = {k: (("dir", b"") if v == "/dir" else v.encode("latin-1")) for k, v in sc["files"].items()}
        files.setdefault("d", ("dir", b""))
        for k, v in sc["other"].items():
            files.setdefault(k, v.encode("latin-1"))
        name = sc["out"] or "a.out"
        args = sc["opts"] + (["--dump-ir"] if sc["dump"] else []) + (["-o", sc["out"]] if sc["out"] else []) + [sc["main"]]
        if sc["guest"]:
            r = ctx.execute(ctx.tree.stage1(sc["guest"], sc["arch"]), args=["shecc"] + args, files=files, env=sc["env"],
                            faults=sc["faults"], insns=3000000000)
        else:
            r = ctx.compile(sc["arch"], files, args, env=sc["env"], faults=sc["faults"])
        out.saw(r, bool(sc["other"]))
        before = {k: v for k, v in files.items() if not isinstance(v, tuple)}
        may = {name} | (set(DUMPS) if sc["dump"] else set())
        if not r.ok() and not lib.hurt(r) and r.status != "limit":
            may.discard(name)
            ctx.stats.inc("rejected sources")
        # with only reads failing nothing was wrong with the output
        if not r.ok() and all(k.startswith("read:") for k in lib.hurt(r)):
            may.discard(name)
        tag = "%s %s%s: " % (sc["guest"] or "host", sc["arch"], " " + " ".join(args))
        for k in sorted(set(before) | set(r.files)):
            if k in may:
                continue
            if k not in r.files:
                return {"what": "file removed", "detail": tag + k + " (" + lib.out_of(r) + ")"}
            if k not in before:
                return {"what": "file created", "detail": tag + k + " (" + lib.out_of(r) + ")"}
            if before[k] != r.files[k]:
                return {"what": "rejected source changed the output" if k == name else "file changed",
                        "detail": tag + k + " (" + lib.out_of(r) + ")"}
        return None

    def shrink(self, sc, same, limit):
        sc = lib.shrink_list(sc, "faults", same, 5)
        for k in sorted(sc["other"]):
            c = dict(sc, other={a: b for a, b in sc["other"].items() if a != k})
            if same(c):
                sc = c
        c = dict(sc, env={})
        if same(c):
            sc = c
        main = norm(sc["main"])
        c = dict(sc, src=sc["files"][main])
        c = lib.shrink_program(c, "src", lambda c: same(dict({k: v for k, v in c.items() if k != "src"}, files=dict(c["files"], **{main: c["src"]}))),
                               limit - 10, need_clean=lambda s: True)
        sc = dict(c, files=dict(c["files"], **{main: c["src"]}))
        sc.pop("src")
        return sc


CHECK = C09()
