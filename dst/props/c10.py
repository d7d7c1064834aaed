"""C10: running out of memory never yields a wrong executable."""
import random

from .. import core, gen, iogen, lib
from ..runner import Check


class C10(Check):
    id = "C10"
    rule = ("a random source is compiled while one allocation fails, all allocations from one on fail, or a memory limit is "
            "reached, by the host-built compiler (with byte-exact bounds on every heap block and the address sanitizer on "
            "everything else) and by the self-compiled one (failing mappings, memory limit). A reported success has to come with "
            "the undisturbed executable; other files stay; no store outside allocated memory. Non-trivial: an allocation failed.")
    assumptions = ("ending by a signal on a null pointer counts as ending without success",)
    real = lib.REAL_COMPILER + lib.REAL_GUEST
    stub = lib.STUB_COMPILER + lib.STUB_GUEST

    def count(self, tier):
        return 550 if tier == "quick" else 20000

    def make(self, i, rng, tier):
        arch, opts = lib.config(rng)
        opts = list(opts)
        guest = rng.random() < 0.1
        src = lib.any_source(rng, 0.7, 0.6)
        if rng.random() < 0.8 or guest:
            opts.append("--no-libc")
            src = lib.STANDIN + lib.source(src)
        return {"src": src, "arch": arch, "opts": opts, "seed": rng.randrange(1 << 30), "guest": rng.choice(core.ARCHES) if guest else None,
                "env": core.guest_env(rng) if guest else core.host_env(rng), "plans": 4 if guest else 14, "only": None,
                "old": rng.random() < 0.3}

    def run(self, sc, ctx, out):
        files = {"t.c": lib.bytes_of(sc["src"]), "other": b"keep"}
        args = sc["opts"] + ["-o", "prog", "t.c"]
        base = ctx.compile(sc["arch"], files, args, env={"residue": 0, "seed": 1})
        if not base.ok():
            ctx.stats.inc("skipped: not compiled")
            return None
        img = base.files["prog"]
        n, total = base.num["allocs"], base.num["allocbytes"]
        rng = random.Random(sc["seed"])
        plans = sc["only"]
        if sc["guest"]:
            stage1 = ctx.tree.stage1(sc["guest"], sc["arch"])
            g = ctx.execute(stage1, args=["shecc"] + args, files=files, env=sc["env"], insns=4000000000)
            n = g.sys.get("mmap", 1)
            total = g.num.get("memused", 1 << 28)
        if not plans:
            plans = []
            for _ in range(sc["plans"]):
                k = rng.randrange(6)
                if k < 2:
                    # the tables obtained at the start and everything later are equally likely
                    plans.append([[["alloc", rng.choice([rng.randrange(1, min(n, 40) + 1), rng.randrange(1, n + 1)]), 0]], 0])
                elif k < 4:
                    plans.append([[["alloc", rng.choice([rng.randrange(1, min(n, 40) + 1), rng.randrange(1, n + 1)]), 1]], 0])
                else:
                    plans.append([[["limit", rng.choice([rng.randrange(1, total), total - rng.randrange(1, 100000), total >> rng.randrange(1, 12)]), 0]], 0])
        for p in plans:
            self.last = p
            tag = "%s %s %s %s: " % (sc["guest"] or "host", sc["arch"], " ".join(args), p)
            if sc["guest"]:
                env, f = dict(sc["env"]), []
                for kind, v, sticky in p[0]:
                    if kind == "limit":
                        env["memlimit"] = max(v, 1 << 20)
                    else:
                        f += [["mmap", v + j, "err", 12] for j in range(30 if sticky else 1)]
                r = ctx.execute(stage1, args=["shecc"] + args, files=files, env=env, faults=f, insns=4000000000)
            else:
                env = dict(sc["env"])
                for kind, v, sticky in p[0]:
                    if kind == "limit":
                        env["alloclimit"] = v
                    else:
                        env["allocfail"] = "%d%s" % (v, " sticky" if sticky else "")
                fl = dict(files, prog=b"old") if sc["old"] else files
                r = ctx.compile(sc["arch"], fl, args, env=env, checked=True)
            out.saw(r, bool(lib.hurt(r)) or sc["guest"] is not None)
            if r.num.get("badstore") or r.num.get("canary") or r.num.get("badfree"):
                return {"what": "store outside allocated memory", "detail": tag + lib.out_of(r)}
            if r.num.get("codewrites"):
                return {"what": "self-compiled compiler writes its own code", "detail": tag + lib.out_of(r)}
            if r.status == "limit":
                return {"what": "compiler does not end", "detail": tag}
            if r.ok() and r.files.get("prog") != img:
                return {"what": "success with a wrong executable", "detail": tag + lib.diff_text(img, r.files.get("prog", b""))}
            if r.files.get("other") != b"keep" or r.files.get("t.c") != files["t.c"]:
                return {"what": "other file changed", "detail": tag}
        return None

    def shrink(self, sc, same, limit):
        sc = lib.pin(self, sc, same)
        return lib.shrink_program(sc, "src", same, limit - 8, need_clean=lambda s: True)


CHECK = C10()
