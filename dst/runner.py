"""Runs one property's seeded search: many scenarios over the workers, the
gate every violation has to pass, minimisation, replay files, evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time

from . import core

KNOWN = os.path.join(core.VERIF, "known_findings.txt")
DEPTH_NOTE = "one worker process per core, each with its own simulator processes"


class Check:
    """What a property module provides (as CHECK)."""
    id = ""
    level = "exploration"
    technique = "deterministic simulation with fault injection: seeded search over environments, schedules and faults"
    note = ""
    rule = ""
    assumptions = ()
    real = ()
    stub = ()
    wall = {"quick": 240, "thorough": 3000}

    def count(self, tier):
        return 100

    def make(self, i, rng, tier):
        """scenario number i, as plain data"""
        raise NotImplementedError

    def run(self, sc, ctx, out):
        """None, or {"what": class of violation, "detail": text}. out collects
        sigs (what makes runs distinct) and nontrivial (a count)"""
        raise NotImplementedError

    def shrink(self, sc, same, limit):
        return sc

    def known(self, sc, viol):
        """the known finding a violation is, or None"""
        return None

    def show(self, sc):
        t = json.dumps(sc)
        return t if len(t) < 1500 else t[:1500] + "..."


class Out:
    def __init__(self):
        self.sigs = []
        self.nt = []

    def saw(self, r, nontrivial=True):
        s = "%s/%d" % (r.hash[:12], r.num.get("irqs", 0))
        self.sigs.append(s)
        if nontrivial:
            self.nt.append(s)


def load(pid):
    return importlib.import_module("dst.props." + pid.lower()).CHECK


def rng_for(seed, pid, tier, i):
    return random.Random("%s/%s/%s/%d" % (seed, pid, "x", i))


_w = {}


def _init(pid, seed, tier):
    _w["tree"] = core.build_tree()
    _w["ctx"] = core.Ctx(_w["tree"])
    _w["chk"] = load(pid)
    _w["seed"], _w["tier"], _w["pid"] = seed, tier, pid


def _work(a):
    i, until = a
    if time.time() > until:
        return i, None, None, [], [], {}
    chk, ctx = _w["chk"], _w["ctx"]
    out = Out()
    try:
        sc = chk.make(i, rng_for(_w["seed"], _w["pid"], _w["tier"], i), _w["tier"])
        v = chk.run(sc, ctx, out)
    except core.CheckError as e:
        ctx.close()
        return i, "error", str(e), [], [], ctx.stats.take()
    except Exception as e:     # the check's own trouble, never a verdict
        import traceback
        ctx.close()
        return i, "error", traceback.format_exc(), [], [], ctx.stats.take()
    if v:
        return i, "viol", (sc, v), out.sigs, out.nt, ctx.stats.take()
    return i, "ok", None, out.sigs, out.nt, ctx.stats.take()


def once(pid, sc, ctx=None):
    """one execution of a scenario with everything fresh"""
    own = ctx is None
    if own:
        ctx = core.Ctx(core.build_tree())
    try:
        return load(pid).run(sc, ctx, Out())
    finally:
        if own:
            ctx.close()


def dump_scenario(pid, sc, v, path):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump({"property": pid, "violation": v, "scenario": sc}, f, indent=1, sort_keys=True)
        f.write("\n")


def replay_fresh(path):
    p = subprocess.run([sys.executable, os.path.join(core.VERIF, "replay.py"), path],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def known_list(pid):
    """(id, text, scenario file) of the known findings of a property"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                rest = l.split(" ", 2)[2]
                kid, text = rest.split(" ", 1)
                out.append((kid.split("=", 1)[1], text, os.path.join(core.VERIF, "known", kid.split("=", 1)[1] + ".json")))
    return out


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    chk = load(pid)
    try:
        tree = core.build_tree()
    except core.CheckError as e:
        print("cannot build: %s" % e)
        return 2
    n = chk.count(tier)
    wall = chk.wall[tier]
    until = t0 + wall
    procs = int(os.environ.get("DST_PROCS", "8"))
    stats, sigs, nontrivial, done, viols, errors = {}, set(), set(), 0, [], []
    sampled = []
    ev = 0
    with mp.get_context("fork").Pool(procs, _init, (pid, seed, tier)) as pool:
        for i, st, x, sg, nt, d in pool.imap_unordered(_work, ((i, until) for i in range(n)), 1):
            for k, v in d.items():
                stats[k] = stats.get(k, 0) + v
            if st is None:
                continue
            done += 1
            ev += len(sg)
            sigs.update(sg)
            nontrivial.update(nt)
            if st == "viol":
                k = chk.known(*x)
                if k and any(k == q[0] for q in known_list(pid)):
                    stats["known:" + k] = stats.get("known:" + k, 0) + 1
                    continue
                viols.append((i, x))
                if len(viols) >= 3:
                    pool.terminate()
                    break
            elif st == "error":
                errors.append((i, x))
                if len(errors) > 5:
                    pool.terminate()
                    break
    search_s = time.time() - t0
    rc = 0
    ctx = core.Ctx(tree)
    # known findings: shown when they still happen
    shown = []
    for kid, text, path in known_list(pid):
        sc = json.load(open(path))["scenario"]
        v = once(pid, sc, ctx)
        if v and chk.known(sc, v) == kid:
            print("KNOWN-FINDING: property=%s %s %s" % (pid, kid, text))
            shown.append(kid)
        elif v:
            # the scenario of a known finding now shows something else
            viols.append((-1, (sc, v)))
    reported = 0
    seen = set()
    for i, (sc, v) in sorted(viols, key=lambda a: a[0]):
        if v["what"] in seen:
            continue
        # gate: the same verdict twice more, from scratch
        a = once(pid, sc)
        b = once(pid, sc, ctx)
        if not a or not b or a["what"] != v["what"] or b["what"] != v["what"]:
            print("not reproducible: scenario %d of %s: %s / %s / %s" % (i, pid, v, a, b))
            rc = rc or 3
            continue
        seen.add(v["what"])
        steps = [0]

        def same(c):
            steps[0] += 1
            try:
                w = once(pid, c, ctx)
            except core.CheckError:
                ctx.close()
                return False
            return bool(w) and w["what"] == v["what"] and not chk.known(c, w)
        try:
            small = chk.shrink(sc, same, 75 if not reported else 25)
            w = once(pid, small)
            if not w or w["what"] != v["what"]:
                small, w = sc, v
        except Exception:       # what can not be minimised is reported as it is
            small, w = sc, v
        name = hashlib.sha256(json.dumps(small, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(core.VERIF, "replays", "%s-%s.json" % (pid, name))
        dump_scenario(pid, small, w, path)
        code, o = replay_fresh(path)
        if code != 1:
            dump_scenario(pid, sc, v, path)
            code, o = replay_fresh(path)
        if code != 1:
            print("replay does not reproduce: %s\n%s" % (path, o))
            rc = rc or 3
            continue
        print("seed %d scenario %d: %s\n%s" % (seed, i, w["what"], w.get("detail", "")[:3000]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        reported += 1
    if reported:
        rc = 1
    if errors and not reported:
        for i, x in errors[:3]:
            print("trouble in scenario %d: %s" % (i, x))
        rc = 2
    # self-test of determinism: the same scenario twice gives the same hashes
    det = 0
    for i in range(max(0, n - 3), n):
        try:
            sc = chk.make(i, rng_for(seed, pid, tier, i), tier)
            h = []
            for _ in range(2):
                o = Out()
                chk.run(sc, ctx, o)
                h.append(o.sigs)
            if h[0] != h[1]:
                print("simulation is not deterministic: scenario %d" % i)
                rc = rc or 3
            det += 1
        except core.CheckError:
            pass
    rng = rng_for(seed, pid, tier, 0)
    sampled = []
    try:
        sampled.append(chk.show(chk.make(0, rng_for(seed, pid, tier, 0), tier)))
        if n > 1:
            sampled.append(chk.show(chk.make(1, rng_for(seed, pid, tier, 1), tier)))
    except Exception:
        pass
    ctx.close()
    runs = sum(v for k, v in stats.items() if k.startswith("runs:"))
    cov = {
        "evaluations": ev,
        "distinct_nontrivial": len(nontrivial),
        "rule": chk.rule,
        "samples": sampled or ["-"],
        "scenarios_planned": n,
        "scenarios_executed": done,
        "simulated_runs": runs,
        "simulated_runs_per_hour": int(runs * 3600 / max(search_s, 0.001)),
        "seeds_per_hour": int(done * 3600 / max(search_s, 0.001)),
        "distinct_executions": len(sigs),
        "distinct_executions_measure": "hash over every event, the final registers or step count, all output and every file",
        "simulated_time": {k[5:]: v for k, v in stats.items() if k.startswith("time:")},
        "simulated_time_unit": "compile: basic blocks of the compiler executed; execute: machine instructions executed",
        "faults_injected": {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")},
        "run_endings": {k[4:]: v for k, v in sorted(stats.items()) if k.startswith("end:")},
        "other": {k: v for k, v in sorted(stats.items()) if k.split(":")[0] not in ("runs", "time", "fault", "end")},
        "determinism_self_tests": det,
        "real_components": list(chk.real),
        "stub_components": list(chk.stub),
        "known_findings_reproduced": shown,
    }
    evd = {"property": pid, "tier": tier, "seed": seed, "level": chk.level, "coverage": cov,
           "assumptions": list(chk.assumptions), "wall_s": round(time.time() - t0, 2), "violations": reported}
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evd, f, indent=1, sort_keys=True)
        f.write("\n")
    print("%s %s: %d scenarios, %d simulated runs, %d distinct executions, %.0f s, exit %d" %
          (pid, tier, done, runs, len(sigs), time.time() - t0, rc))
    return rc
