"""C12: a compilation killed at any point can simply be repeated."""
import random

from .. import core, gen, iogen, lib
from ..runner import Check
from .split import split, norm


class C12(Check):
    id = "C12"
    rule = ("a random source, often spread over several files, is compiled with or without dumps over older files and killed at a "
            "random basic block (host-built compiler) or instruction (self-compiled compiler), or at or right after its nth open, "
            "read, write or close, up to three times in a row, each over what the one before left. Sources and all other files "
            "have to be as before, nothing new may exist but what was asked for, and one more run over the leftovers has to "
            "succeed with exactly the undisturbed executable. Non-trivial: at least one run was really killed.")
    assumptions = ("the machine itself keeps running: what a write call took stays written; what the process buffered is lost",)
    real = lib.REAL_COMPILER + lib.REAL_GUEST
    stub = lib.STUB_COMPILER + lib.STUB_GUEST

    def count(self, tier):
        return 550 if tier == "quick" else 30000

    def make(self, i, rng, tier):
        arch, opts = lib.config(rng)
        opts = list(opts)
        guest = rng.random() < 0.06
        src = lib.any_source(rng, 0.5, 0.5)
        if rng.random() < 0.6 or guest:
            opts.append("--no-libc")
            src = lib.STANDIN + lib.source(src)
        files, main = split(rng, lib.source(src), 0 if rng.random() < 0.5 else None)
        files = {k: (v.decode("latin-1") if isinstance(v, bytes) else "/dir") for k, v in files.items()}
        old = rng.choice([None, None, "small", "large", "torn"])
        if guest and old == "large":
            old = None      # KF1: output longer than the new one is not cut
        return {"files": files, "main": main, "arch": arch, "opts": opts, "out": rng.choice([None, "prog", "d/prog"]),
                "dump": not guest and rng.random() < 0.2, "seed": rng.randrange(1 << 30), "old": old,
                "guest": rng.choice(core.ARCHES) if guest else None, "plans": 2 if guest else 7, "only": None,
                "env": core.guest_env(rng) if guest else core.host_env(rng)}

    def run(self, sc, ctx, out):
        files = {k: (("dir", b"") if v == "/dir" else v.encode("latin-1")) for k, v in sc["files"].items()}
        files.setdefault("d", ("dir", b""))
        files["other"] = b"keep"
        name = sc["out"] or "a.out"
        args = sc["opts"] + (["--dump-ir"] if sc["dump"] else []) + (["-o", sc["out"]] if sc["out"] else []) + [sc["main"]]
        base = ctx.compile(sc["arch"], files, args, env={"seed": 1, "residue": 0})
        if not base.ok():
            ctx.stats.inc("skipped: not compiled")
            return None
        new = {k: v for k, v in base.files.items() if k not in files}
        img = new.get(name)
        steps = base.num["steps"]
        insns = 0
        start = dict(files)
        if sc["old"]:
            start[name] = {"small": b"old", "large": b"\x7fOLD" * (len(img) // 2), "torn": img[:len(img) // 2]}[sc["old"]]
            if sc["dump"]:
                start["CFG.dot"] = b"x" * (1 << 16)
        if sc["guest"]:
            stage1 = ctx.tree.stage1(sc["guest"], sc["arch"])
            g = ctx.execute(stage1, args=["shecc"] + args, files=start, env=sc["env"], insns=4000000000)
            insns = g.num.get("insn", 1)

        def go(fs, kill, env):
            env, f = dict(env), []
            if kill:
                if kill[0] == "at":
                    env["kill"] = max(1, int(kill[1] * (insns if sc["guest"] else steps)))
                else:
                    f = [[kill[0], kill[1], kill[2], 0]]
            if sc["guest"]:
                return ctx.execute(stage1, args=["shecc"] + args, files=fs, env=env, faults=f, insns=4000000000)
            return ctx.compile(sc["arch"], fs, args, env=env, faults=f)

        rng = random.Random(sc["seed"])
        plans = sc["only"]
        if not plans:
            plans = []
            for _ in range(sc["plans"]):
                p = []
                for _ in range(rng.choice([1, 1, 2, 3])):
                    k = rng.randrange(8)
                    if k < 2:
                        p.append(["at", rng.random()])
                    elif k < 4:
                        # while the output is written
                        p.append(["at", 1 - rng.random() ** 3 * 0.1])
                    elif k < 7:
                        p.append(["write", rng.choice([1, 1, 2, 3, rng.randrange(1, 60)]), rng.choice(["kill", "killafter"])])
                    else:
                        p.append([rng.choice(["open", "close", "read"]), rng.randrange(1, 8), rng.choice(["kill", "killafter"])])
                plans.append([p, dict(sc["env"], writechunk=rng.choice([0, 0, 1, 7, 512, 4096])) if not sc["guest"] else sc["env"]])
        for plan in plans:
            self.last = plan
            tag = "%s %s %s: " % (sc["guest"] or "host", sc["arch"], plan)
            now, killed = dict(start), 0
            for kill in plan[0]:
                r = go(now, kill, plan[1])
                killed += r.status == "killed"
                out.saw(r, r.status == "killed")
                v = self.look(sc, start, r, name, tag)
                if v:
                    return v
                now = {k: v for k, v in now.items() if isinstance(v, tuple)}
                now.update(r.files)
            if killed:
                ctx.stats.inc("repeated after %d kills" % killed)
            r = go(now, None, plan[1])
            v = self.look(sc, start, r, name, tag + "repeated, ")
            if v:
                return v
            if not r.ok():
                return {"what": "compilation can not be repeated", "detail": tag + lib.out_of(r)}
            if r.files.get(name) != img:
                return {"what": "repeated compilation gives another executable", "detail": tag + lib.diff_text(img, r.files.get(name, b""))}
        return None

    def look(self, sc, start, r, name, tag):
        may = {name} | ({"CFG.dot", "DOM.dot"} if sc["dump"] else set())
        for k in sorted(set(k for k, v in start.items() if not isinstance(v, tuple)) | set(r.files)):
            if k in may:
                continue
            if start.get(k) != r.files.get(k):
                return {"what": "file changed by a killed compilation", "detail": tag + "%s (%s)" % (k, lib.out_of(r))}
        return None

    def shrink(self, sc, same, limit):
        sc = lib.pin(self, sc, same)
        if sc["only"]:
            return sc
        return sc


CHECK = C12()
