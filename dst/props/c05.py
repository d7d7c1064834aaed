"""C05: the compiler's output depends on the source and the options only."""
from .. import core, gen, iogen, lib
from ..runner import Check
from .damage import damage


class C05(Check):
    id = "C05"
    rule = ("one source (generated, from the tests, or damaged at random) is compiled with the same options in one calm "
            "environment and several random ones: residue in heap and stack, placement of blocks, stack address, environment "
            "variables, lengths of reads and writes, clock, process number and random numbers differ; executable, status and "
            "messages must not. Non-trivial: the compiler ran through more than 100000 basic blocks.")
    assumptions = ("of a damaged source that makes the compiler end by a signal only that no executable results is compared",)
    real = lib.REAL_COMPILER
    stub = lib.STUB_COMPILER

    def count(self, tier):
        return 1300 if tier == "quick" else 40000

    def make(self, i, rng, tier):
        arch, opts = lib.config(rng)
        opts = list(opts)
        k = rng.random()
        sc = {"arch": arch, "dump": rng.random() < 0.2}
        if k < 0.55:
            src = lib.any_source(rng, 0.7)
        elif k < 0.7:
            src = iogen.io_program(rng)
        else:
            src = damage(rng, lib.source(lib.any_source(rng, 0.5)))
        if rng.random() < 0.4:
            opts.append("--no-libc")
            src = lib.STANDIN + lib.source(src)
        sc["src"] = src
        sc["opts"] = opts
        sc["mode"] = rng.randrange(2)
        sc["envs"] = [core.host_env(rng) for _ in range(5 if tier == "quick" else 10)]
        return sc

    def run(self, sc, ctx, out):
        files = {"t.c": lib.bytes_of(sc["src"])}
        args = sc["opts"] + (["--dump-ir"] if sc["dump"] else []) + ["-o", "prog", "t.c"]
        calm = {"seed": 1, "residue": 0, "stackres": 0, "hplace": 0, "stdoutmode": sc["mode"]}
        base = ctx.compile(sc["arch"], files, args, env=calm)
        if base.status == "limit":
            ctx.stats.inc("skipped: too long")
            return None
        out.saw(base, base.num["steps"] > 100000)
        for e in sc["envs"]:
            r = ctx.compile(sc["arch"], files, args, env=dict(e, stdoutmode=sc["mode"]))
            out.saw(r, r.num["steps"] > 100000)
            tag = "%s %s in %s: " % (sc["arch"], " ".join(sc["opts"]), e)
            if base.ok() != r.ok():
                return {"what": "accepted in one environment only", "detail": tag + base.end() + " / " + lib.out_of(r)}
            if base.ok():
                if base.files.get("prog") != r.files.get("prog"):
                    return {"what": "executables differ", "detail": tag + lib.diff_text(base.files["prog"], r.files.get("prog", b""))}
            elif base.status == "signal" or r.status == "signal":
                # a message may not have left the buffer when abort() was called
                if base.why == "abort" and r.why == "abort" and base.stdout != r.stdout:
                    return {"what": "messages differ", "detail": tag + lib.diff_text(base.stdout, r.stdout)}
                continue
            if base.end() != r.end():
                return {"what": "endings differ", "detail": tag + base.end() + " / " + lib.out_of(r)}
            if base.stdout != r.stdout or base.stderr != r.stderr:
                return {"what": "messages differ", "detail": tag + lib.diff_text(base.stdout + base.stderr, r.stdout + r.stderr)}
        return None

    def shrink(self, sc, same, limit):
        sc = lib.shrink_list(sc, "envs", same, 8)
        if len(sc["envs"]) == 1:
            c = lib.shrink_env(dict(sc, e=sc["envs"][0]), "e", lambda c: same(dict(sc, envs=[c["e"]])))
            sc = dict(sc, envs=[c["e"]])
        return lib.shrink_program(sc, "src", same, limit - 12, need_clean=lambda s: True)


CHECK = C05()
