"""C07: success means a complete executable was written."""
import random

from .. import core, iogen, lib
from ..runner import Check

ERR = [28, 5, 27, 122, 4, 11]


class C07(Check):
    id = "C07"
    rule = ("a random source is compiled while writes, the close or the opening of the output fail or are cut short, or the disk "
            "is full, on the host-built compiler and (in one of twelve scenarios) on the self-compiled one running on either "
            "machine. If success is reported the output has to be the undisturbed executable. Non-trivial: a fault was injected.")
    assumptions = ("stdio of the host follows POSIX: short writes are continued, errors are reported by fputc or fclose",)
    real = lib.REAL_COMPILER + lib.REAL_GUEST
    stub = lib.STUB_COMPILER + lib.STUB_GUEST

    def count(self, tier):
        return 700 if tier == "quick" else 25000

    def make(self, i, rng, tier):
        arch, opts = lib.config(rng)
        opts = list(opts)
        src = lib.any_source(rng, 0.6, 0.5)
        guest = rng.random() < 0.08
        if rng.random() < 0.7 or guest:
            opts.append("--no-libc")
            src = lib.STANDIN + lib.source(src)
        return {"src": src, "arch": arch, "opts": opts, "out": rng.choice(["prog", "prog", "d/prog", None]),
                "old": rng.choice([None, None, 0, 17, 100000]), "guest": rng.choice(core.ARCHES) if guest else None,
                "env": core.guest_env(rng) if guest else core.host_env(rng), "seed": rng.randrange(1 << 30),
                "plans": 4 if guest else 9, "only": None}

    def plan(self, rng, size, guest):
        """faults and settings of one disturbed compilation"""
        f, e = [], {}
        k = rng.randrange(8)
        # the host writes blocks of 4096 bytes, the library of lib/c.c single ones
        calls = size if guest else (size + 4095) // 4096
        nth = rng.choice([1, max(calls, 1), rng.randrange(1, calls + 2), 0])
        if k < 3:
            f.append(["write", nth, "err", rng.choice(ERR)])
        elif k == 3:
            f.append(["close", rng.choice([0, 1, 2, 3]), "err", rng.choice(ERR)] if not guest else ["write", calls, "err", 28])
        elif k == 4:
            f.append(["open", rng.choice([2, 2, 3]), "err", rng.choice([13, 28, 24, 30, 2])])
        elif k == 5:
            e["diskcap"] = rng.choice([0, 1, size - 1, size // 2, max(0, size - 4096), size, rng.randrange(size)])
        elif k == 6 and not guest:
            f.append(["write", nth or 1, "short", rng.choice([1, 3, 100])])
            if rng.random() < 0.5:
                f.append(["write", nth + 1, "err", rng.choice(ERR)])
        else:
            for _ in range(rng.randrange(1, 4)):
                n = rng.choice(["write", "write", "close", "open"] if not guest else ["write"])
                f.append([n, rng.randrange(1, calls + 2) if n == "write" else rng.randrange(1, 4), "err", rng.choice(ERR)])
        if not guest and rng.random() < 0.12:
            # closed descriptors are given to the files opened next
            e["stdclosed"] = rng.choice([2, 2, 3, 6, 7])
        return [f, e]

    def run(self, sc, ctx, out):
        src = lib.bytes_of(sc["src"])
        name = sc["out"] or "a.out"
        files = {"t.c": src, "d": ("dir", b"")}
        args = sc["opts"] + (["-o", sc["out"]] if sc["out"] else []) + ["t.c"]
        base = ctx.compile(sc["arch"], files, args, env={"residue": 0, "seed": 1})
        if not base.ok():
            ctx.stats.inc("skipped: not compiled")
            return None
        img = base.files.get(name)
        if img is None:
            return {"what": "no executable written", "detail": " ".join(args)}
        if sc["old"] is not None:
            files[name] = b"\x55" * sc["old"]
        rng = random.Random(sc["seed"])
        plans = sc["only"] or [self.plan(rng, len(img), sc["guest"]) for _ in range(sc["plans"])]
        for f, e in plans:
            self.last = [f, e]
            env = dict(sc["env"], **e)
            if sc["guest"]:
                # (KF1: the library does not cut an older output off)
                fl = {k: v for k, v in files.items() if k != name or sc.get("keepold")}
                r = ctx.execute(ctx.tree.stage1(sc["guest"], sc["arch"]), args=["shecc"] + args, files=fl, env=env, faults=f,
                                insns=4000000000)
            else:
                r = ctx.compile(sc["arch"], files, args, env=env, faults=f)
            out.saw(r, bool(lib.hurt(r)) or "short" in str(f))
            tag = "%s %s faults %s %s: " % (sc["arch"], " ".join(args), f, e)
            if r.status == "limit":
                return {"what": "compiler does not end", "detail": tag}
            if r.ok():
                got = r.files.get(name)
                if got is None:
                    return {"what": "success without an executable", "detail": tag}
                if got != img:
                    return {"what": "success with a wrong executable", "detail": tag + lib.diff_text(img, got)}
            elif not lib.hurt(r):
                return {"what": "failure without a cause", "detail": tag + lib.out_of(r)}
        return None

    def known(self, sc, viol):
        if viol["what"] == "success with a wrong executable" and sc.get("keepold") and sc["guest"]:
            return "KF1-C07"
        return None

    def shrink(self, sc, same, limit):
        sc = lib.pin(self, sc, same)
        for k, v in (("old", None), ("guest", None), ("out", "prog")):
            c = dict(sc)
            c[k] = v
            if same(c):
                sc = c
        return lib.shrink_program(sc, "src", same, limit - 5, need_clean=lambda s: True)


CHECK = C07()
