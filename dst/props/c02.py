"""C02: an interrupt between any two instructions cannot be noticed."""
from .. import core, iogen, lib
from ..runner import Check
from .c03 import history


class C02(Check):
    id = "C02"
    rule = ("a seeded random program (computing, or reading and writing files, or from the test suite, or the compiler itself "
            "compiling a program) is executed once undisturbed and then under interrupt schedules: at every instruction, at "
            "every instruction of a window, periodically, or at random ones, each overwriting 4 to 4096 bytes below the stack "
            "pointer with random data. System call history, output, files and status must be those of the undisturbed "
            "execution. Non-trivial: at least one interrupt arrived.")
    assumptions = ("interrupts start after the first %d instructions: before a program's first frame exists nobody can have "
                   "installed a handler" % core.START,)
    real = lib.REAL_COMPILER + lib.REAL_GUEST
    stub = lib.STUB_COMPILER + lib.STUB_GUEST

    def count(self, tier):
        return 800 if tier == "quick" else 25000

    def make(self, i, rng, tier):
        k = rng.random()
        sc = {"args": [], "files": {}}
        if i % 100 == 50:
            sc["src"] = "int main() { return %d; }\n" % rng.randrange(100)
            sc["self"] = 1
        elif k < 0.5:
            sc["src"] = lib.program(rng, rng.choice([0.5, 1.0, 1.5]))
        elif k < 0.75:
            sc["src"] = iogen.io_program(rng)
            sc["files"] = iogen.io_files(rng)
            sc["args"] = [iogen.blob(rng, rng.randrange(0, 6), [97, 98]) for _ in range(rng.randrange(0, 4))]
        else:
            n, src, rc, o = rng.choice(lib.corpus())
            sc["src"] = src
        t = lib.TARGETS if "self" not in sc else [rng.choice(lib.TARGETS)]
        sc["targets"] = [[a, list(o)] for a, o in t]
        env = core.guest_env(rng)
        sc["env"] = env
        plans = []
        if "self" in sc:
            plans = [["every", rng.randrange(500, 4000), 64, 0.0, 1.0]]
        else:
            plans.append(["every", 1, rng.choice([4, 8, 32]), 0.0, 1.0])
            plans.append(["every", rng.randrange(2, 40), rng.choice([64, 512, 4096]), rng.random() * 0.5, 1.0])
            plans.append(["points", [[rng.random(), rng.choice([4, 64, 1024])] for _ in range(rng.randrange(1, 6))]])
        sc["plans"] = plans
        return sc

    def opts(self, plan, n):
        """settings for a plan, scaled to an execution of n instructions"""
        lo = core.START
        if plan[0] == "every":
            a = lo + int(plan[3] * max(0, n - lo))
            b = lo + int(plan[4] * max(0, n - lo)) + 1
            # bound the work of long executions
            step = max(plan[1], (b - a) // 400000)
            return {"irqevery": "%d %d %d %d" % (step, plan[2], a, b)}
        return {"irq": ["%d %d" % (lo + int(p * max(1, n - lo)), d) for p, d in plan[1]]}

    def run(self, sc, ctx, out):
        src = lib.source(sc["src"])
        for arch, opts in sc["targets"]:
            if "self" in sc:
                img = ctx.tree.stage1(arch)
                files = {"t.c": src}
                args = ["shecc"] + opts + ["-o", "prog", "t.c"]
            else:
                r, img = lib.build(ctx, arch, opts, src)
                if img is None:
                    ctx.stats.inc("skipped: not compiled")
                    return None
                files, args = sc["files"], ["prog"] + sc["args"]
            kw = dict(args=args, files=files, stdin="", hist="self" not in sc, insns=30000000 if "self" not in sc else 1000000000)
            a = ctx.execute(img, env=sc["env"], **kw)
            if a.status == "limit":
                ctx.stats.inc("skipped: too long")
                return None
            out.saw(a, False)
            ha = history(a)
            for plan in sc["plans"]:
                e = dict(sc["env"])
                e.update(self.opts(plan, a.num["insn"]))
                b = ctx.execute(img, env=e, **dict(kw, insns=kw["insns"] + 1000000))
                out.saw(b, b.num.get("irqs", 0) > 0)
                tag = "%s%s, interrupts %s: " % (arch, "".join(opts), self.opts(plan, a.num["insn"]))
                if (a.status, a.code) != (b.status, b.code):
                    return {"what": "ends differently when interrupted", "detail": tag + lib.out_of(a) + " / " + lib.out_of(b)}
                if a.stdout != b.stdout or a.stderr != b.stderr:
                    return {"what": "output differs when interrupted", "detail": tag + lib.diff_text(a.stdout, b.stdout)}
                if a.files != b.files:
                    return {"what": "files differ when interrupted", "detail": tag}
                if ha != history(b):
                    return {"what": "history differs when interrupted", "detail": tag + repr((ha[-3:], history(b)[-3:]))}
        return None

    def shrink(self, sc, same, limit):
        sc = lib.shrink_list(sc, "targets", same, 8)
        sc = lib.shrink_list(sc, "plans", same, 8)
        for i, p in enumerate(sc["plans"]):
            if p[0] == "points":
                c = lib.shrink_list(dict(sc, p=p[1]), "p", lambda c: same(dict(sc, plans=[["points", c["p"]]])), 5)
                sc = dict(sc, plans=[["points", c["p"]]])
            elif len(sc["plans"]) == 1:
                # one interrupt is enough when its place is right
                lo, hi = p[3], p[4]
                for _ in range(24):
                    m = (lo + hi) / 2
                    for a, b in ((lo, m), (m, hi)):
                        c = dict(sc, plans=[["every", 1, p[2], a, b]])
                        if same(c):
                            sc, lo, hi = c, a, b
                            break
                    else:
                        break
        c = dict(sc, env={})
        if same(c):
            sc = c
        if "self" in sc:
            return sc
        return lib.shrink_program(sc, "src", same, limit - 20, need_clean=lib.compiles)


CHECK = C02()
