"""C01: compiled programs mean what their source says, on every machine."""
import glob
import json
import os

from .. import core, lib
from ..runner import Check


class C01(Check):
    id = "C01"
    rule = ("a seeded random program with one defined meaning (or one of the test suite's programs, or one about a single feature) is compiled for both "
            "targets with and without +m in a random host environment and executed on the simulated machine in a random "
            "machine environment (mapping placement, stack position, initial registers, environment strings, interrupts "
            "that overwrite everything below the stack pointer); output and exit status are compared with the host "
            "compiler's. Non-trivial: the program ran to its end and printed something or the exit status is not 0.")
    assumptions = ("gcc -O0 -fwrapv decides what a generated program means; programs are generated so that they have one "
                   "meaning (checked with sanitizers whenever a violation is minimised)",
                   "an external interrupt overwrites only memory below the stack pointer, as a signal frame does")
    real = lib.REAL_COMPILER + lib.REAL_GUEST
    stub = lib.STUB_COMPILER + lib.STUB_GUEST

    def count(self, tier):
        return 2400 if tier == "quick" else 30000

    def make(self, i, rng, tier):
        sc = {}
        if i % 8 in (1, 5) and i // 4 < len(lib.features()):
            n, src, rc, out = lib.features()[i // 4]
            sc = {"src": src, "want": [rc, out], "name": n}
        elif i % 8 == 7:
            c = lib.corpus()
            n, src, rc, out = c[(i // 8) % len(c)]
            sc = {"src": src, "want": [rc, None if out is None else out.decode("latin-1")], "name": n}
        else:
            size = rng.choice([0.5, 1.0, 1.0, 1.0, 1.6] if tier == "quick" else [0.5, 1.0, 1.0, 2.0, 3.0])
            sc = {"src": lib.program(rng, size)}
        sc["runs"] = []
        for arch, opts in lib.TARGETS:
            sc["runs"].append({"arch": arch, "opts": list(opts), "host": core.host_env(rng, calm=rng.random() < 0.7),
                               "guest": core.guest_env(rng, irq=rng.random() < 0.35)})
        return sc

    def run(self, sc, ctx, out):
        src = lib.source(sc["src"])
        if "want" in sc:
            want = (sc["want"][0], None if sc["want"][1] is None else sc["want"][1].encode("latin-1"))
        else:
            want, why = lib.reference().run({"t.c": src.encode("latin-1")}, "t.c")
            if want is None:
                ctx.stats.inc("skipped: no reference")
                return None
        for q in sc["runs"]:
            r, img = lib.build(ctx, q["arch"], q["opts"], src, q["host"])
            tag = "%s%s" % (q["arch"], "".join(q["opts"]))
            if img is None:
                if lib.capacity(lib.refused(ctx, q["arch"], q["opts"], src)):
                    ctx.stats.inc("skipped: capacity diagnostic")
                    return None
                return {"what": "valid program rejected", "detail": "%s: %s" % (tag, lib.out_of(r))}
            g = lib.run_image(ctx, img, env=q["guest"])
            out.saw(g, g.status == "exit" and (g.stdout != b"" or g.code != 0))
            if g.status != "exit":
                return {"what": "program does not end as it should",
                        "detail": "%s: %s, expected exit %d" % (tag, lib.out_of(g), want[0])}
            if g.code & 255 != want[0] & 255:
                return {"what": "wrong exit status", "detail": "%s: %s, expected %d" % (tag, lib.out_of(g), want[0])}
            if want[1] is not None and g.stdout != want[1]:
                return {"what": "wrong output", "detail": "%s: %s" % (tag, lib.diff_text(g.stdout, want[1]))}
        return None

    def known(self, sc, viol):
        """a known finding is one exact program"""
        src = lib.source(sc["src"])
        for f in glob.glob(os.path.join(core.VERIF, "known", "*.json")):
            k = json.load(open(f))
            if k["property"] == "C01" and k["scenario"]["src"] == src:
                return os.path.basename(f)[:-5]
        return None

    def shrink(self, sc, same, limit):
        sc = lib.shrink_list(sc, "runs", same, 5)
        for k in ("host", "guest"):
            q = dict(sc["runs"][0])
            q[k] = {}
            c = dict(sc, runs=[q] + sc["runs"][1:])
            if same(c):
                sc = c
            elif len(sc["runs"]) == 1:
                s2 = lib.shrink_env(dict(sc, e=q.get(k) or sc["runs"][0][k]), "e",
                                    lambda c: same(dict(sc, runs=[dict(sc["runs"][0], **{k: c["e"]})])))
                sc = dict(sc, runs=[dict(sc["runs"][0], **{k: s2["e"]})])
        if "want" in sc:
            return sc
        return lib.shrink_program(sc, "src", same, limit - 10)


CHECK = C01()
