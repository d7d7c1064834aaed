"""C17: output of compiled programs is exact and in order."""
from .. import core, lib
from ..runner import Check
from . import iodrv


class C17(Check):
    id = "C17"
    rule = ("random histories of opening, fputc (single and in loops), printf and sprintf with random formats, reading back and "
            "closing, over several files and standard output, run through the real library on the simulated machine while opens "
            "and writes fail, the disk is full and interrupts strike. Every answer, every file's bytes, standard output and the "
            "status are compared with a reference model of files. Non-trivial: something was written.")
    assumptions = ("an answer of at most 0 from fopen counts as reporting the failure (KF2: it is not NULL)",
                   "writes cut short are left out of the search (KF5), as are files that exist when opened for writing (KF1)")
    real = lib.REAL_COMPILER + lib.REAL_GUEST
    stub = lib.STUB_COMPILER + lib.STUB_GUEST
    reading = False
    which = ["write", "write", "open"]

    def count(self, tier):
        return 1400 if tier == "quick" else 70000

    def make(self, i, rng, tier):
        arch, opts = lib.config(rng)
        fm = iodrv.formats(rng)
        runs = []
        for _ in range(5):
            io = iodrv.scenario(rng, rng.choice([5, 20, 60, 150]), self.reading, fm)
            env = core.guest_env(rng, irq=rng.random() < 0.2)
            f = iodrv.faults(rng, self.which) if rng.random() < 0.6 else []
            if not self.reading and rng.random() < 0.1:
                env["diskcap"] = rng.choice([0, 1, 5, 100, 1000])
            runs.append({"io": io, "env": env, "faults": f})
        return {"src": iodrv.driver(rng, fm), "fm": fm, "arch": arch, "opts": list(opts), "runs": runs}

    def run(self, sc, ctx, out):
        r, img = lib.build(ctx, sc["arch"], sc["opts"], sc["src"], env={"seed": 1})
        tag = "%s %s: " % (sc["arch"], " ".join(sc["opts"]))
        if img is None:
            return {"what": "valid program rejected", "detail": tag + lib.out_of(r)}
        for n, run in enumerate(sc["runs"]):
            self.last = n
            g, v, seen = iodrv.execute(sc, run, img, ctx)
            out.saw(g, g.sys.get("read" if self.reading else "write", 0) > 0)
            for k, x in seen.items():
                ctx.stats.inc("io " + k, x)
            if v:
                return {"what": v[0], "detail": tag + v[1]}
        return None

    def known(self, sc, viol):
        """only what the dedicated scenarios show: the search avoids these"""
        runs = sc["runs"]
        if viol["what"] == "part of an output is lost" and any(f[2] == "short" for q in runs for f in q["faults"]):
            return "KF5"
        if viol["what"] == "failed open is not reported as NULL" and sc.get("strict"):
            return "KF2"
        if viol["what"] == "failed close is not reported" and sc.get("strict"):
            return "KF6"
        if viol["what"] == "file is not what was written" and any(
                o[0] == 1 and o[3] == 1 and len(q["io"]["files"].get(q["io"]["payloads"][o[2]]) or "") for q in runs for o in q["io"]["ops"]):
            return "KF1"
        return None

    def shrink(self, sc, same, limit):
        return iodrv.shrink(sc, same, limit, self.last)


CHECK = C17()
