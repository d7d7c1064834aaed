"""C06: the compiler produces the same code wherever it runs."""
from .. import core, lib, odd
from ..runner import Check
from .damage import damage


class C06(Check):
    id = "C06"
    rule = ("the compiler is compiled by itself for both machines and for both targets; each of these four compilers, running on "
            "the simulated machine with random placement of its memory, compiles seeded random programs, programs of the "
            "tests, damaged ones, and sources of extreme constants, characters and lines. The executable has to be the one the host-built compiler gives, and what is rejected "
            "has to be rejected by both. Each compiler also compiles the compiler itself, giving itself. Non-trivial: "
            "more than a million instructions of the compiler were executed.")
    assumptions = ("programs that the host-built compiler itself crashes on (signal other than abort) are left out",)
    real = lib.REAL_COMPILER + lib.REAL_GUEST
    stub = lib.STUB_COMPILER + lib.STUB_GUEST
    wall = {"quick": 400, "thorough": 6000}

    def count(self, tier):
        return 520 if tier == "quick" else 12000

    def make(self, i, rng, tier):
        # bootstrap: each machine by itself, and (thorough) for the other one
        boot = [("arm", "arm", False), ("riscv", "riscv", False)]
        if tier != "quick":
            boot += [("arm", "riscv", False), ("riscv", "arm", False), ("arm", "arm", True), ("riscv", "riscv", True)]
        if i < len(boot):
            h, t, m = boot[i]
            return {"kind": "bootstrap", "host": h, "target": t, "hostmul": False, "opts": ["+m"] if m else [],
                    # the compiler needs over a gigabyte for itself: nothing that breaks up the address space
                    "env": {"seed": rng.randrange(1, 1 << 30), "stackshift": rng.randrange(4096) & ~15}}
        t = rng.choice(core.ARCHES)
        sc = {"kind": "program", "host": rng.choice(core.ARCHES), "target": t, "hostmul": rng.random() < 0.5,
              "opts": rng.choice([[], ["+m"]]), "env": core.guest_env(rng)}
        k = rng.random()
        if k < 0.15:
            src = odd.source(rng)
            sc["kind"] = "odd"
        elif k < 0.6:
            src = lib.program(rng, rng.choice([0.3, 0.7, 1.2]))
        elif k < 0.85:
            src = lib.corpus_source(rng)
        else:
            src = damage(rng, lib.source(lib.any_source(rng, 0.5)), ["cut", "lose", "token", "token", "token"])
            sc["kind"] = "damaged"
        if rng.random() < 0.85:
            sc["opts"] = sc["opts"] + ["--no-libc"]
            src = lib.STANDIN + lib.source(src)
        sc["src"] = src
        return sc

    def run(self, sc, ctx, out):
        if sc["kind"] == "bootstrap":
            files = {k: v for k, v in ctx.tree.sources(sc["target"]).items()}
            files["src"] = ("dir", b"")
            files["out"] = ("dir", b"")
            name = "src/main.c"
        else:
            files = {"t.c": lib.bytes_of(sc["src"])}
            name = "t.c"
        args = list(sc["opts"]) + ["-o", "prog", name]
        want = ctx.compile(sc["target"], files, args, env={"stdoutmode": 1, "hplace": 0}, steps=20000000000 if sc["kind"] == "bootstrap" else 300000000)
        if want.status == "limit" or want.status == "signal" and want.why != "abort":
            ctx.stats.inc("skipped: compiler in trouble")
            return None
        try:
            img = ctx.tree.stage1(sc["host"], sc["target"], sc["hostmul"])
        except core.CheckError as e:
            return {"what": "the compiler does not compile itself", "detail": str(e)[-1500:]}
        r = ctx.execute(img, args=["shecc"] + args, files=files, env=sc["env"],
                        insns=30000000000 if sc["kind"] == "bootstrap" else 6000000000)
        out.saw(r, r.num["insn"] > 1000000)
        tag = "on %s%s for %s %s: " % (sc["host"], "+m" if sc["hostmul"] else "", sc["target"], sc["opts"])
        if want.ok() != r.ok():
            return {"what": "accepted on one host only", "detail": tag + lib.out_of(want) + " / " + lib.out_of(r)}
        if want.ok():
            if want.files["prog"] != r.files.get("prog"):
                return {"what": "executables differ", "detail": tag + lib.diff_text(want.files["prog"], r.files.get("prog", b""))}
        elif not r.stdout.startswith(want.stdout) and sc["kind"] != "damaged":     # (its abort() adds a line)
            return {"what": "messages differ", "detail": tag + lib.diff_text(want.stdout, r.stdout)}
        return None

    def shrink(self, sc, same, limit):
        if sc["kind"] == "bootstrap":
            return sc
        c = dict(sc, env={})
        if same(c):
            sc = c
        return lib.shrink_program(sc, "src", same, limit, need_clean=lambda s: True)


CHECK = C06()
