"""C14: dumps, messages and standard output never affect the executable."""
import random

from .. import core, gen, iogen, lib
from ..runner import Check
from .c09 import DUMPS


def arrange(rng, arch_opts, dump, out, main):
    """the options in another order, some given again"""
    o = [[x] for x in arch_opts]
    if dump:
        o += [["--dump-ir"]] * rng.choice([1, 1, 2])
    if rng.random() < 0.3 and arch_opts:
        o.append([rng.choice(arch_opts)])
    outs = [["-o", out]]
    if rng.random() < 0.15:
        o.append(["-o", out])
    o += outs + [[main]]
    rng.shuffle(o)
    return [x for y in o for x in y]


class C14(Check):
    id = "C14"
    rule = ("a random source is compiled plainly and then with options in other orders, repeated, with --dump-ir, with standard "
            "output closed (its number given to the next file), failing at once or after some bytes, in small pieces, on a disk with little space, with dump files "
            "that cannot be opened, written or closed, and while the dump is written over older ones. Every reported success has "
            "to come with the plain executable; the same arrangement without failures has to succeed. Non-trivial: a dump was "
            "made or standard output failed.")
    real = lib.REAL_COMPILER
    stub = lib.STUB_COMPILER

    def count(self, tier):
        return 900 if tier == "quick" else 40000

    def make(self, i, rng, tier):
        arch, opts = lib.config(rng)
        opts = list(opts)
        src = lib.any_source(rng, 0.7, rng.choice([0.3, 0.6, 1.0]))
        if rng.random() < 0.6:
            opts.append("--no-libc")
            src = lib.STANDIN + lib.source(src)
        plans = []
        for _ in range(7):
            dump = rng.random() < 0.75
            env = core.host_env(rng)
            faults = []
            k = rng.randrange(7)
            if k < 2:
                env["stdoutcap"] = "%d %d" % (rng.choice([0, 0, 1, 100, rng.randrange(20000)]), rng.choice([28, 5, 9, 32]))
            elif k == 2:
                env["diskcap"] = rng.choice([0, 4096, rng.randrange(300000)])
            elif k == 3:
                faults.append([rng.choice(["open", "write", "close"]), rng.choice([1, 2, 3, 4, rng.randrange(1, 200)]), "err", rng.choice([5, 13, 28])])
            elif k == 4:
                # descriptors that are closed are given to the files opened next
                env["stdclosed"] = rng.choice([2, 2, 2, 3, 6, 7, 1, 4])
            env["stdoutmode"] = rng.randrange(2)
            plans.append([faults, env, arrange(rng, opts, dump, "prog", "t.c"), rng.random() < 0.3])
        return {"src": src, "arch": arch, "opts": opts, "plans": plans, "only": None}

    def run(self, sc, ctx, out):
        files = {"t.c": lib.bytes_of(sc["src"])}
        base, img = lib.build(ctx, sc["arch"], sc["opts"], files["t.c"], env={"seed": 1, "residue": 0})
        if img is None:
            ctx.stats.inc("skipped: not compiled")
            return None
        for p in sc["only"] or sc["plans"]:
            self.last = p
            faults, env, args, old = p
            f = dict(files)
            if old:
                f.update({"CFG.dot": b"digraph old { }" * 4000, "DOM.dot": b"x", "prog": b"old" * 9})
            r = ctx.compile(sc["arch"], f, args, env=env, faults=faults)
            dump = "--dump-ir" in args
            bad = bool(lib.hurt(r)) or "stdoutcap" in env or "stdclosed" in env
            out.saw(r, dump or bad)
            tag = "%s %s %s %s: " % (sc["arch"], " ".join(args), faults, {k: v for k, v in env.items() if k in ("stdoutcap", "diskcap", "stdclosed")})
            if r.status == "limit":
                return {"what": "compiler does not end", "detail": tag}
            if r.ok():
                if r.files.get("prog") != img:
                    return {"what": "dump or standard output changes the executable", "detail": tag + lib.diff_text(img, r.files.get("prog", b""))}
                if r.files.get("t.c") != files["t.c"]:
                    return {"what": "source changed", "detail": tag}
            elif not bad:
                return {"what": "arrangement of options is rejected", "detail": tag + lib.out_of(r)}
        return None

    def shrink(self, sc, same, limit):
        if not sc["only"] and same(sc):
            c = dict(sc, only=[self.last])
            if same(c):
                sc = c
        if sc["only"]:
            f, e, a, o = sc["only"][0]
            for k in sorted(e):
                t = {x: y for x, y in e.items() if x != k}
                if same(dict(sc, only=[[f, t, a, o]])):
                    e = t
            sc = dict(sc, only=[[f, e, a, o]])
        return lib.shrink_program(sc, "src", same, limit - 10, need_clean=lambda s: True)


CHECK = C14()
