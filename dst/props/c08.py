"""C08: success means the whole source was read."""
import random

from .. import core, gen, iogen, lib
from ..runner import Check
from .split import split


class C08(Check):
    id = "C08"
    rule = ("a random source, spread over included files, is compiled by the host-built compiler while opening or reading one of "
            "the files fails, files are missing or unreadable, or reads are cut short. If success is reported the executable "
            "has to be the one of the undisturbed files. Non-trivial: a fault was injected or a file was taken away.")
    assumptions = ("the search runs the host-built compiler; the self-compiled one cannot tell a file that cannot be opened or read "
                   "from an empty one: known findings KF2-C08 and KF6-C08",)
    real = lib.REAL_COMPILER + lib.REAL_GUEST
    stub = lib.STUB_COMPILER + lib.STUB_GUEST

    def count(self, tier):
        return 2500 if tier == "quick" else 25000

    def make(self, i, rng, tier):
        arch, opts = lib.config(rng)
        opts = list(opts)
        src = lib.any_source(rng, 0.7, 0.6)
        if rng.random() < 0.7:
            opts.append("--no-libc")
            src = lib.STANDIN + lib.source(src)
        src = lib.source(src)
        # trailing lines that change the program when they are lost without a syntax error
        if rng.random() < 0.5:
            src += "int tail%d() { return %d; }\n" % (i, i) * 1
        return {"src": src, "arch": arch, "opts": opts, "env": core.host_env(rng), "seed": rng.randrange(1 << 30), "plans": 9,
                "guest": None, "only": None}

    def plan(self, rng, files, reads):
        f, gone = [], []
        k = rng.randrange(6)
        if k < 3:
            f.append(["read", rng.choice([1, reads, 0, rng.randrange(1, reads + 2)]), "err", rng.choice([5, 4, 11, 21, 116])])
        elif k == 3:
            f.append(["open", rng.randrange(1, len(files) + 2), "err", rng.choice([2, 13, 24, 5, 23])])
        elif k == 4:
            gone.append([rng.choice(sorted(files)), rng.choice(["missing", "noread", "dir"])])
        else:
            f.append(["read", rng.choice([0, 1, rng.randrange(1, reads + 2)]), "short", rng.choice([1, 2, 255])])
            if rng.random() < 0.5:
                f.append(["read", rng.randrange(1, reads + 3), "err", 5])
        return [f, gone]

    def run(self, sc, ctx, out):
        rng = random.Random(sc["seed"])
        files, main = split(rng, sc["src"]) if "files" not in sc else (sc["files"], sc["main"])
        texts = {p: v for p, v in files.items() if not isinstance(v, tuple)}
        args = sc["opts"] + ["-o", "prog", main]
        base = ctx.compile(sc["arch"], files, args, env={"residue": 0, "seed": 1})
        if not base.ok():
            ctx.stats.inc("skipped: not compiled")
            return None
        img = base.files["prog"]
        sub = random.Random(sc["seed"] + 1)
        plans = sc["only"] or [self.plan(sub, texts, base.sys.get("read", 1)) for _ in range(sc["plans"])]
        for f, gone in plans:
            self.last = [f, gone]
            fl = dict(files)
            for p, how in gone:
                if how == "missing":
                    fl.pop(p, None)
                elif how == "dir":
                    fl[p] = ("dir", b"")
                else:
                    fl[p] = ("noread", texts[p])
            if sc["guest"]:
                # only for the known findings: see the assumptions
                r = ctx.execute(ctx.tree.stage1(sc["guest"], sc["arch"]), args=["shecc"] + args, files=fl, env=sc["env"], faults=f,
                                insns=4000000000)
            else:
                r = ctx.compile(sc["arch"], fl, args, env=sc["env"], faults=f)
            out.saw(r, bool(lib.hurt(r)) or bool(gone) or "short" in str(f))
            tag = "%s %s faults %s %s: " % (sc["arch"], " ".join(args), f, gone)
            if r.status == "limit":
                return {"what": "compiler does not end", "detail": tag}
            if r.ok() and r.files.get("prog") != img:
                return {"what": "success though not everything was read", "detail": tag + lib.diff_text(img, r.files.get("prog", b""))}
            if r.ok() and gone and any(p in (main,) or True for p, _ in gone):
                return {"what": "success without a file", "detail": tag}
            if not r.ok() and not gone and not lib.hurt(r):
                return {"what": "failure without a cause", "detail": tag + lib.out_of(r)}
        return None

    def known(self, sc, viol):
        if sc["guest"] and viol["what"].startswith("success"):
            return "KF2-C08" if sc["only"] and sc["only"][0][1] else "KF6-C08"
        return None

    def shrink(self, sc, same, limit):
        sc = lib.pin(self, sc, same)
        return lib.shrink_program(sc, "src", same, limit - 5, need_clean=lambda s: True)


CHECK = C08()
