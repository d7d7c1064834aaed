"""Shared machinery: builds the system under simulation from /repo's working
tree, talks to the two simulators and parses what they report."""
import hashlib
import os
import random
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SHECC_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
ARCHES = ("arm", "riscv")
CONFIG = {
    "arm": ('/* target: ARM */\n#define ARCH_PREDEFINED "__arm__" /* defined by GNU C and RealView */\n'
            "#define ELF_MACHINE 0x28 /* up to ARMv7/Aarch32 */\n#define ELF_FLAGS 0x5000200\n"),
    "riscv": ('/* target: RISCV */\n#define ARCH_PREDEFINED "__riscv" '
              "/* Older versions of the GCC toolchain defined __riscv__ */\n"
              "#define ELF_MACHINE 0xf3\n#define ELF_FLAGS 0\n"),
}


class CheckError(Exception):
    """The check itself could not do its work."""


def sh(cmd, cwd=None, timeout=600, what=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode:
        raise CheckError("%s failed:\n%s" % (what or " ".join(cmd),
                         p.stdout.decode("utf-8", "replace")[-3000:]))
    return p.stdout


def _digest(paths, extra=b""):
    h = hashlib.sha256(extra)
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\1")
    return h.hexdigest()[:16]


def build_sims():
    """The simulators themselves; independent of /repo."""
    g = os.path.join(VERIF, "sim/guest/simguest.cpp")
    r = os.path.join(VERIF, "sim/host/simrt.c")
    key = _digest([g, r])
    d = os.path.join(BUILD, "sim-" + key)
    if not os.path.exists(os.path.join(d, "ok")):
        os.makedirs(d, exist_ok=True)
        a = subprocess.Popen(["g++", "-O2", "-w", "-o", d + "/simguest.tmp", g])
        b = subprocess.Popen(["gcc", "-O2", "-w", "-c", "-o", d + "/simrt.o.tmp", r])
        if a.wait() or b.wait():
            raise CheckError("the simulators do not build")
        os.rename(d + "/simguest.tmp", d + "/simguest")
        os.rename(d + "/simrt.o.tmp", d + "/simrt.o")
        open(d + "/ok", "w").close()
    return d


def repo_files():
    out = []
    for sub in ("src", "lib", "tools"):
        base = os.path.join(REPO, sub)
        for root, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                if f == "codegen.c":
                    continue
                if f.endswith((".c", ".h", ".inc")):
                    out.append(os.path.join(root, f))
    return out


class Tree:
    """One build of /repo's working tree for both targets."""

    def __init__(self, d, simdir):
        self.dir = d
        self.simdir = simdir
        self.guest = simdir + "/simguest"
        self.host = {a: "%s/%s/simhost" % (d, a) for a in ARCHES}
        self.checked = {a: "%s/%s/simhosta" % (d, a) for a in ARCHES}
        self.native = {a: "%s/%s/out/shecc" % (d, a) for a in ARCHES}
        self._stage1 = {}

    def mirror(self, arch):
        return "%s/%s" % (self.dir, arch)

    def sources(self, arch):
        """The compiler's own sources as a path -> bytes map."""
        m = self.mirror(arch)
        out = {}
        for f in sorted(os.listdir(m + "/src")):
            with open(m + "/src/" + f, "rb") as fh:
                out["src/" + f] = fh.read()
        for f in ("out/libc.inc", "config"):
            with open(m + "/" + f, "rb") as fh:
                out[f] = fh.read()
        return out

    def stage1(self, arch, target=None, mul=False):
        """The compiler compiled by itself: runs on arch, produces code for
        target (its own machine unless said otherwise)."""
        target = target or arch
        k = (arch, target, mul)
        p = "%s/stage1-%s-%s%s.elf" % (self.dir, arch, target, "m" if mul else "")
        if k not in self._stage1:
            if not os.path.exists(p):
                tmp = p + ".%d" % os.getpid()
                sh([self.native[arch]] + (["+m"] if mul else []) +
                   ["-o", tmp, "src/main.c"], cwd=self.mirror(target),
                   timeout=120, what="compiling the compiler with itself")
                os.rename(tmp, p)
            self._stage1[k] = p
        return p


def build_tree():
    simdir = build_sims()
    files = repo_files()
    own = [os.path.join(VERIF, "sim/host", f) for f in ("sim.h", "unit.c")]
    key = _digest(files + own, open(os.path.join(VERIF, "dst/core.py"), "rb").read() + simdir.encode())
    d = os.path.join(BUILD, "tree-" + key)
    if not os.path.exists(d + "/ok"):
        # keep the disk small: older trees go
        if os.path.isdir(BUILD):
            olds = sorted((os.path.getmtime(os.path.join(BUILD, x)), x)
                          for x in os.listdir(BUILD) if x.startswith("tree-"))
            for _, x in olds[:-3]:
                shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
        tmp = d + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        sh(["gcc", "-O1", "-w", "-o", tmp + "/inliner", REPO + "/tools/inliner.c"])
        jobs = []
        for a in ARCHES:
            m = tmp + "/" + a
            os.makedirs(m + "/out")
            shutil.copytree(REPO + "/src", m + "/src",
                            ignore=shutil.ignore_patterns("codegen.c", "*.o", ".*"))
            shutil.copyfile("%s/src/%s-codegen.c" % (REPO, a), m + "/src/codegen.c")
            with open(m + "/config", "w") as f:
                f.write(CONFIG[a])
            sh([tmp + "/inliner", REPO + "/lib/c.c", m + "/out/libc.inc"])
            own_inc = os.path.join(VERIF, "sim/host")
            jobs.append(("simulated compiler", subprocess.Popen(
                "gcc -O1 -g -w -fwrapv -fno-strict-aliasing -fsanitize-coverage=trace-pc "
                "-include %s/sim.h -I%s -c %s/unit.c -o %s/unit.o && "
                "gcc -o %s/simhost %s/unit.o %s/simrt.o" %
                (own_inc, m, own_inc, m, m, m, simdir), shell=True,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
            jobs.append(("simulated compiler with checks", subprocess.Popen(
                "gcc -O1 -g -w -fwrapv -fno-strict-aliasing -fsanitize-coverage=trace-pc -fsanitize=address -fsanitize-recover=address "
                "-include %s/sim.h -I%s -c %s/unit.c -o %s/unita.o && "
                "gcc -fsanitize=address -o %s/simhosta %s/unita.o %s/simrt.o" %
                (own_inc, m, own_inc, m, m, m, simdir), shell=True,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
            jobs.append(("compiler", subprocess.Popen(
                ["gcc", "-O1", "-w", "-fwrapv", "-fno-strict-aliasing", "-o", m + "/out/shecc", m + "/src/main.c"],
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for what, p in jobs:
            o = p.communicate()[0]
            if p.returncode:
                raise CheckError("%s does not build:\n%s" % (what, o.decode("utf-8", "replace")[-3000:]))
        open(tmp + "/ok", "w").close()
        shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, d)
    return Tree(d, simdir)


# ---------------------------------------------------------------- simulators
class Result:
    __slots__ = ("status", "code", "addr", "num", "sys", "inj", "trace", "hash",
                 "stdout", "stderr", "hist", "files", "why")

    def __init__(self):
        self.num = {}
        self.sys = {}
        self.inj = {}
        self.files = {}
        self.stdout = self.stderr = self.hist = b""
        self.why = ""
        self.status = "?"
        self.code = self.addr = 0
        self.trace = self.hash = ""

    def end(self):
        return "%s %d" % (self.status, self.code)

    def ok(self):
        return self.status == "exit" and self.code == 0

    def lines(self):
        return self.hist.decode("latin-1").split("\n")


class Server:
    """A simulator process that runs one scenario after another."""

    def __init__(self, path):
        self.path = path
        self.p = None
        self.runs = 0

    def start(self):
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, bufsize=1 << 16)

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            self.p.stdout.close()
            self.p.wait()
            self.p = None

    def run(self, data):
        if self.p is None:
            self.start()
        self.runs += 1
        try:
            self.p.stdin.write(data)
            self.p.stdin.flush()
            return self._read()
        except (OSError, ValueError, IndexError) as e:
            raise CheckError("simulator %s broke down: %r" % (self.path, e))

    def _read(self):
        r = Result()
        f = self.p.stdout
        while True:
            l = f.readline()
            if not l:
                raise CheckError("simulator %s ended unexpectedly" % self.path)
            t = l[:-1].split(b" ")
            k = t[0]
            if k == b"end":
                break
            if k == b"status":
                r.status, r.code, r.addr = t[1].decode(), int(t[2]), int(t[3])
            elif k == b"why":
                r.why = l[4:-1].decode("latin-1")
            elif k == b"sys":
                r.sys[t[1].decode()] = int(t[2])
            elif k == b"inj":
                r.inj[t[1].decode()] = r.inj.get(t[1].decode(), 0) + int(t[2])
            elif k == b"trace":
                r.trace = t[1].decode()
            elif k == b"hash":
                r.hash = t[1].decode()
            elif k in (b"stdout", b"stderr", b"hist", b"file"):
                nl, dl = int(t[1]), int(t[2])
                name = f.read(nl)
                d = f.read(dl)
                f.read(1)
                if k == b"file":
                    r.files[name.decode("latin-1")] = d
                else:
                    setattr(r, k.decode(), d)
            else:
                r.num[k.decode()] = int(t[1])
        if r.status in ("simerror", "watchdog", "?"):
            raise CheckError("simulator trouble: %s %s %s" % (self.path, r.end(), r.why))
        return r


def enc(args=(), env=(), files=None, stdin=None, opts=(), faults=(), ops=(), elf=None):
    """Scenario text for either simulator. files: path -> bytes or
    (flag, bytes) with flag rw|ro|noread|dir."""
    o = []
    if elf is not None:
        if isinstance(elf, bytes):
            o.append(b"elfdata %d\n%s\n" % (len(elf), elf))
        else:
            o.append(b"elf %s\n" % elf.encode())
    for k, v in (("arg", args), ("env", env)):
        for x in v:
            x = x.encode("latin-1") if isinstance(x, str) else x
            o.append(b"%s %d\n%s\n" % (k.encode(), len(x), x))
    for p, d in (files or {}).items():
        fl = "rw"
        if isinstance(d, tuple):
            fl, d = d
        if isinstance(d, str):
            d = d.encode("latin-1")
        p = p.encode("latin-1")
        o.append(b"file %s %d %d\n%s%s\n" % (fl.encode(), len(p), len(d), p, d))
    if stdin is not None:
        stdin = stdin.encode("latin-1") if isinstance(stdin, str) else stdin
        o.append(b"stdin %d\n%s\n" % (len(stdin), stdin))
    for x in opts:
        o.append(x.encode() + b"\n")
    for x in faults:
        o.append(("fault %s %d %s %d\n" % tuple(x)).encode())
    for x in ops:
        o.append(("op " + " ".join(str(int(v)) for v in x) + "\n").encode())
    o.append(b"run\n")
    return b"".join(o)


class Ctx:
    """What one worker has at hand."""

    def __init__(self, tree):
        self.tree = tree
        self._h = {}
        self._g = None
        self.stats = Stats()

    def host(self, arch, checked=False):
        k = (arch, checked)
        if k not in self._h:
            self._h[k] = Server((self.tree.checked if checked else self.tree.host)[arch])
        return self._h[k]

    def guest(self):
        if self._g is None:
            self._g = Server(self.tree.guest)
        return self._g

    def close(self):
        for s in self._h.values():
            s.close()
        if self._g:
            self._g.close()
        self._h, self._g = {}, None

    # one simulated compilation
    def compile(self, arch, files, args, env=None, steps=400000000, faults=(), hist=False, checked=False):
        env = env or {}
        opts = ["maxsteps %d" % steps]
        for k, v in sorted(env.items()):
            if k == "environ":
                continue
            opts.append("%s %s" % (k, v))
        if hist:
            opts.append("hist 1")
        r = self.host(arch, checked).run(enc(args=["shecc"] + list(args), env=env.get("environ", ()),
                                    files=files, opts=opts, faults=faults))
        self.stats.add("compile", r, r.num.get("steps", 0))
        return r

    # one simulated execution of an image
    def execute(self, elf, args=("prog",), env=None, files=None, stdin=None, insns=50000000,
                faults=(), ops=(), hist=False):
        env = env or {}
        opts = ["maxinsn %d" % insns]
        for k, v in sorted(env.items()):
            if k == "environ":
                continue
            for x in (v if isinstance(v, list) else [v]):
                opts.append("%s %s" % (k, x))
        if hist:
            opts.append("hist 1")
        r = self.guest().run(enc(args=args, env=env.get("environ", ()), files=files, stdin=stdin,
                                 opts=opts, faults=faults, ops=ops, elf=elf))
        self.stats.add("execute", r, r.num.get("insn", 0))
        return r


class Stats:
    def __init__(self):
        self.d = {}

    def inc(self, k, n=1):
        self.d[k] = self.d.get(k, 0) + n

    def add(self, kind, r, t):
        self.inc("runs:" + kind)
        self.inc("time:" + kind, t)
        self.inc("end:%s:%s" % (kind, r.status))
        for k, v in r.inj.items():
            self.inc("fault:%s:%s" % (kind, k), v)
        if r.num.get("irqs"):
            self.inc("fault:%s:interrupt" % kind, r.num["irqs"])

    def take(self):
        d, self.d = self.d, {}
        return d


def host_env(rng, calm=False):
    """A random environment for the host-built compiler."""
    e = {"seed": rng.randrange(1, 1 << 30)}
    e["residue"] = 0 if calm else rng.choice([0, 1, 2, 2, 2, 3, 4, 5])
    e["hplace"] = rng.randrange(4)
    e["stackres"] = rng.choice([0, 1, 2, 2, 3, 4])
    e["stackshift"] = rng.choice([0, 16, 64, 4096, rng.randrange(0, 60000) & ~15])
    e["readchunk"] = rng.choice([0, 0, -1, 1, 2, 7, 255, 256, 257, 4095])
    e["writechunk"] = rng.choice([0, 0, -1, 1, 3, 511])
    e["environ"] = rng.choice([[], ["PATH=/bin"], ["LANG=C.UTF-8", "TERM=xterm", "X=" + "y" * rng.randrange(300)]])
    if calm:
        e["readchunk"] = e["writechunk"] = 0
    return e


# Variables without an initial value live on the initial stack, whose pages the
# kernel hands over as zeros: a program's first instructions take them into its
# frame, and before that no handler can have been installed by anyone.
START = 60


def guest_env(rng, irq=False):
    """A random environment for a compiled program."""
    e = {"seed": rng.randrange(1, 1 << 30)}
    e["place"] = rng.choice(["down", "up", "random", "gap", "mixed"])
    e["stacktop"] = rng.choice([0xff000000, 0x80000000, 0xbf000000, 0x7fff0000, 0xc0000000])
    e["mmapbase"] = rng.choice([0xf7000000, 0xb6f00000, 0x76f00000])
    e["stackshift"] = rng.choice([0, 16, 256, rng.randrange(0, 65536) & ~15])
    e["regzero"] = rng.choice([0, 0, 1])
    e["environ"] = rng.choice([[], ["PATH=/bin"], ["A=1", "HOME=/root", "Z=" + "z" * rng.randrange(200)]])
    if irq:
        k = rng.randrange(4)
        if k == 0:
            e["irqevery"] = "1 %d %d" % (rng.choice([4, 16, 64]), START)
        elif k == 1:
            e["irqevery"] = "%d %d %d" % (rng.randrange(2, 97), rng.choice([8, 64, 256]), START)
        elif k == 2:
            a = rng.randrange(START, 3000)
            e["irqevery"] = "1 %d %d %d" % (rng.choice([8, 128]), a, a + rng.randrange(50, 4000))
        else:
            e["irq"] = ["%d %d" % (rng.randrange(START, 20000), rng.choice([4, 64, 512])) for _ in range(rng.randrange(1, 40))]
    return e
