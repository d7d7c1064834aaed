"""C11: a torn or damaged source is handled in bounded time and memory."""
import random

from .. import core, gen, iogen, lib
from ..runner import Check
from .damage import damage
from . import c15elf

LIMIT = 120000000
PER_BYTE = 4000


class C11(Check):
    id = "C11"
    rule = ("a random source is damaged the way crashes and bad copies do (cut at any byte, blocks lost, repeated, overwritten, "
            "exchanged, bits flipped, tokens lost or moved) and compiled with byte-exact bounds on every heap block and the "
            "address sanitizer on everything else, in a random environment; sometimes on the self-compiled compiler. Required: "
            "an end within %d + %d per byte basic blocks, no store outside allocated memory, and no success without an executable a strict "
            "loader takes. Non-trivial: the source was really changed." % (LIMIT, PER_BYTE))
    assumptions = ("ending by a signal counts as rejecting the source",)
    real = lib.REAL_COMPILER + lib.REAL_GUEST
    stub = lib.STUB_COMPILER + lib.STUB_GUEST

    def count(self, tier):
        return 1500 if tier == "quick" else 60000

    def make(self, i, rng, tier):
        arch, opts = lib.config(rng)
        opts = list(opts)
        src = lib.any_source(rng, 0.6, rng.choice([0.3, 0.8]))
        if rng.random() < 0.8:
            opts.append("--no-libc")
            src = lib.STANDIN + lib.source(src)
        src = lib.source(src)
        k = rng.random()
        if k < 0.04:
            # a block of the disk repeated very often: larger than the compiler's own buffer
            a = rng.randrange(len(src))
            src = src[:a] + (src[a:a + 4096] + "\n") * rng.choice([50, 130, 400])
        elif k < 0.06:
            src = "/" * 2 + iogen.blob(rng, 700000, [97, 98, 32]) + "\n" + src
        versions = [damage(rng, src) for _ in range(5)]
        if rng.random() < 0.5:
            # twice damaged
            versions.append(damage(rng, damage(rng, src)))
        if k >= 0.06 and rng.random() < 0.3:
            # whole cut series around one place
            a = rng.randrange(len(src))
            versions += [src[:a + j] for j in range(6)]
        return {"versions": versions, "arch": arch, "opts": opts, "env": dict(core.host_env(rng), stdoutmode=rng.randrange(2)),
                "dump": rng.random() < 0.05, "guest": rng.choice(core.ARCHES) if rng.random() < 0.05 and k > 0.06 else None, "split": None}

    def run(self, sc, ctx, out):
        for n, v in enumerate(sc["versions"]):
            files = {"t.c": v.encode("latin-1"), "other": b"keep"}
            args = sc["opts"] + (["--dump-ir"] if sc["dump"] else []) + ["-o", "prog", "t.c"]
            tag = "%s %s version %d: " % (sc["arch"], " ".join(args), n)
            r = ctx.compile(sc["arch"], files, args, env=sc["env"], checked=True, steps=LIMIT + PER_BYTE * len(v))
            out.saw(r)
            self.last = n
            if r.status == "limit":
                return {"what": "compiler does not end", "detail": tag}
            if r.num["badstore"] or r.num["canary"] or r.num["badfree"]:
                return {"what": "store outside allocated memory", "detail": tag + lib.out_of(r)}
            if r.num["badload"]:
                ctx.stats.inc("loads outside allocated memory")
            if r.status == "signal" and r.why != "abort":
                ctx.stats.inc("ended by a signal")
            if r.ok():
                e = c15elf.problem(r.files.get("prog"), sc["arch"])
                if e:
                    return {"what": "success without a loadable executable", "detail": tag + e}
            if sc["guest"] and n < 2 and (r.status == "exit" or r.why == "abort"):
                g = ctx.execute(ctx.tree.stage1(sc["guest"], sc["arch"]), args=["shecc"] + args, files=files, insns=3000000000)
                out.saw(g)
                if g.status == "limit":
                    return {"what": "self-compiled compiler does not end", "detail": tag}
                if g.num["codewrites"]:
                    return {"what": "self-compiled compiler writes its own code", "detail": tag}
                if g.ok():
                    e = c15elf.problem(g.files.get("prog"), sc["arch"])
                    if e:
                        return {"what": "success without a loadable executable", "detail": tag + e}
        return None

    def shrink(self, sc, same, limit):
        if same(sc):
            c = dict(sc, versions=[sc["versions"][self.last]])
            if same(c):
                sc = c
        sc = lib.shrink_env(sc, "env", same)
        if len(sc["versions"]) == 1:
            c = dict(sc, v=sc["versions"][0])
            if len(c["v"]) > 100000:
                return sc
            c = lib.shrink_program(c, "v", lambda c: same(dict({k: x for k, x in c.items() if k != "v"}, versions=[c["v"]])),
                                   limit - 5, need_clean=lambda s: True)
            sc = dict(sc, versions=[c["v"]])
        return sc


CHECK = C11()
