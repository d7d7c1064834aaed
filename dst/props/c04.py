"""C04: compiled programs stay inside their own memory."""
from .. import core, gen, iogen, lib
from ..runner import Check


def churn(rng):
    """a program whose functions are called over and over: argument count
    decides how often"""
    g = gen.Gen(rng, 0.25, True)
    g.header()
    for _ in range(rng.randrange(1, 4)):
        g.function()
    g.start([], False, 6)
    g.budget_calls = 20
    g.tokens = 60
    n = rng.choice([2500, 4000])
    body = ["int n = %d;" % n, "if (argc == 2) n = %d;" % (2 * n), "if (argc > 2) n = %d;" % (4 * n), "int s = 0;"]
    calls = []
    for f in g.funcs:
        if f.ret != "int":
            a = g.args_for(f, 1)
            if a is not None:
                calls.append("%s(%s);" % (f.name, ", ".join(a)))
            continue
        for _ in range(2):
            a = g.args_for(f, 1)
            if a is not None:
                calls.append(rng.choice(["s += %s(%s);", "s ^= %s(%s) + i;", "if (%s(%s) > i) s++;"]) % (f.name, ", ".join(a)))
    body.append(["for (int i = 0; i < n; i++) {", calls[:4] + ["s = s * 3 + i;"], "}"])
    body += ["printf(\"%d\\n\", s);", "return 0;"]
    g.out.append(["int main(int argc, char **argv) {", body, "}"])
    return g.out


class C04(Check):
    id = "C04"
    rule = ("a seeded random program is compiled for both targets and executed with random placement of mappings and failing "
            "allocations and system calls while the machine watches every store into code, every mapping call and every "
            "system call number; for programs that call their functions over and over, the stack "
            "used must not grow with the number of calls. Non-trivial: more than 500 instructions were executed.")
    assumptions = ("after a failed allocation a program that does not check it may end by a signal (known finding of C16)",)
    real = lib.REAL_COMPILER + lib.REAL_GUEST
    stub = lib.STUB_COMPILER + lib.STUB_GUEST

    def count(self, tier):
        return 700 if tier == "quick" else 25000

    def make(self, i, rng, tier):
        k = rng.random()
        sc = {"args": [], "files": {}, "faults": [], "env": core.guest_env(rng, irq=rng.random() < 0.2)}
        if k < 0.35:
            sc["src"] = churn(rng)
            sc["kind"] = "churn"
        elif k < 0.65:
            sc["src"] = iogen.io_program(rng)
            sc["files"] = iogen.io_files(rng)
            sc["faults"] = iogen.io_faults(rng, 2)
            sc["kind"] = "io"
        else:
            sc["src"] = lib.program(rng, rng.choice([0.6, 1.2]))
            sc["kind"] = "plain"
        return sc

    def watch(self, r, tag):
        if r.num.get("codewrites"):
            return {"what": "program writes its own code", "detail": tag + lib.out_of(r)}
        if r.num.get("foreignunmap"):
            return {"what": "program unmaps memory that is not its own", "detail": tag + lib.out_of(r)}
        if r.num.get("unknownsys"):
            return {"what": "program makes an unknown system call", "detail": tag + lib.out_of(r)}
        bad = [k for k in r.sys if k not in ("read", "write", "open", "close", "mmap", "munmap", "exit")]
        if bad:
            return {"what": "program makes an unexpected system call", "detail": tag + repr(bad)}
        if r.num.get("holeunmap") and not r.inj:
            return {"what": "program unmaps what is not mapped", "detail": tag + lib.out_of(r)}
        return None

    def run(self, sc, ctx, out):
        src = lib.source(sc["src"])
        for arch, opts in lib.TARGETS:
            r, img = lib.build(ctx, arch, opts, src)
            if img is None:
                ctx.stats.inc("skipped: not compiled")
                return None
            tag = "%s%s: " % (arch, "".join(opts))
            if sc["kind"] == "churn":
                # the stack that 1, 2 and 4 times as many calls take
                used, n = [], 0
                for args in (["prog"], ["prog", "x"], ["prog", "x", "y"]):
                    a = ctx.execute(img, args=args, env=dict(sc["env"], stackshift=0), insns=30000000)
                    out.saw(a, a.num["insn"] > 500)
                    v = self.watch(a, tag)
                    if v:
                        return v
                    if a.status == "limit":
                        break
                    if a.status == "signal":
                        return {"what": "program ends by a signal", "detail": tag + lib.out_of(a)}
                    used.append(a.num["stackused"])
                if len(used) < 3:
                    ctx.stats.inc("skipped: too long")
                    continue
                if used[1] - used[0] >= 8192 and used[2] - used[1] >= 1.5 * (used[1] - used[0]):
                    return {"what": "stack grows with the number of calls", "detail": tag + "%r bytes" % used}
            else:
                a = ctx.execute(img, args=["prog"], files=sc["files"], faults=sc["faults"], env=sc["env"], insns=8000000)
                out.saw(a, a.num["insn"] > 500)
                v = self.watch(a, tag)
                if v:
                    return v
                if a.status == "signal" and not any(k.startswith("mmap") for k in a.inj):
                    return {"what": "program ends by a signal", "detail": tag + lib.out_of(a)}
        return None

    def shrink(self, sc, same, limit):
        sc = lib.shrink_list(sc, "faults", same, 8)
        c = dict(sc, env={})
        if same(c):
            sc = c
        return lib.shrink_program(sc, "src", same, limit - 10, need_clean=lib.compiles)


CHECK = C04()
