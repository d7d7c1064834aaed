"""C16: the heap of compiled programs hands out disjoint, lasting memory."""
import random
import re

from .. import core, gen, lib
from ..runner import Check

SLOTS = 64

# Takes operations from the simulated machine (system calls 5000..5004 exist on
# it only) and reports what the heap answers; the blocks are filled and looked
# at by the machine.
DRIVER = """
%(head)s
int main(int argc, char **argv) {
    int op[8];
    char *p[64];
    char *q;
    int s;
    %(pre)s
    for (int i = 0; i < 64; i++) p[i] = NULL;
    while (__syscall(5000, op)) {
        s = op[1];
        if (op[0] == 1) {
            q = %(malloc)s(op[2]);
            p[s] = q;
            __syscall(5001, 1, s, q, op[2]);
            if (q) __syscall(5002, q, op[2], op[3]);
        } else if (op[0] == 2) {
            q = p[s];
            __syscall(5003, q, op[2], op[3]);
            __syscall(5001, 2, s, q, op[2]);
            %(free)s(q);
            p[s] = NULL;
        } else if (op[0] == 3) {
            q = %(calloc)s(op[4], op[5]);
            p[s] = q;
            __syscall(5001, 3, s, q, op[2]);
            if (q) { __syscall(5004, q, op[2]); __syscall(5002, q, op[2], op[3]); }
        } else if (op[0] == 4) {
            __syscall(5003, p[s], op[2], op[3]);
        } else if (op[0] == 5) {
            free(NULL);
            __syscall(5001, 5, 0, malloc(0), malloc(0 - 5));
        } else {
            %(noise)s
        }
    }
    __syscall(5001, 9);
    %(end)s
}
"""
HELPERS = """char *my_malloc(int n) { char *r = malloc(n); return r; }
void my_free(char *p) { if (p) free(p); }
char *my_calloc(int a, int b) { return calloc(a, b); }
int gk = 3;"""


def driver(rng):
    own = rng.random() < 0.5
    return DRIVER % {
        "head": HELPERS, "pre": rng.choice(["", "printf(\"start\\n\");", "char big[3000]; big[5] = 1;"]),
        "malloc": "my_malloc" if own else "malloc", "free": "my_free" if own else "free", "calloc": "my_calloc" if own else "calloc",
        "noise": rng.choice(["printf(\"%d\\n\", s);", "gk = gk * 5 + s;", "char t[40]; sprintf(t, \"%d-%s\", s, \"x\");"]),
        "end": rng.choice(["return 0;", "exit(0);"])}


def size(rng, style):
    while True:
        if style == 0:
            n = rng.randrange(1, 200)
        elif style == 1:
            n = rng.choice([4080, 4081, 4083, 4084, 4097, 4100, 8176, 8180, 8193, 12288 + rng.randrange(1, 3000)])
        elif style == 2:
            n = rng.randrange(1, 60000)
        else:
            n = rng.choice([1, 2, 3, 4, 12, 13, 16, 100, 4000, 4084, 5000, 9000, 30000, 100000, rng.randrange(1, 1 << 20)])
        # KF4: a released block may be taken for one up to 12 bytes longer
        if 0 < n % 4096 < 4085:
            return n


def history(rng, steps):
    """a list of operations, balanced or not"""
    ops, live, free = [], {}, list(range(SLOTS))
    style = rng.randrange(4)
    policy = rng.choice(["lifo", "fifo", "random", "phases", "one"])
    few = [size(rng, style) for _ in range(rng.choice([1, 2, 5]))] if rng.random() < 0.3 else None
    most = rng.choice([1, 2, 5, 20, SLOTS])
    order, grow = [], True
    for _ in range(steps):
        k = rng.random()
        if k < 0.05:
            ops.append([6, rng.randrange(1000)])
            continue
        if k < 0.06:
            ops.append([5, 0])
            continue
        if k < 0.15 and live:
            s = rng.choice(sorted(live))
            ops.append([4, s, live[s][0], live[s][1]])
            continue
        if policy == "phases":
            if len(live) >= most:
                grow = False
            if not live:
                grow = True
            add = grow
        else:
            add = rng.random() < 0.55
        if (add and len(live) < most) or not live:
            s = free.pop(rng.randrange(len(free)))
            sd = rng.randrange(1 << 28)
            if rng.random() < 0.35:
                a = rng.choice([1, 2, 3, 4, 8, 10, 24])
                n = rng.choice(few) if few else size(rng, style)
                b = max(1, n // a)
                n = a * b
                if not 0 < n % 4096 < 4085:
                    a, b, n = 1, 7, 7
                if rng.random() < 0.5:
                    a, b = b, a
                ops.append([3, s, n, sd, a, b])
            else:
                n = rng.choice(few) if few else size(rng, style)
                ops.append([1, s, n, sd])
            live[s] = (n, sd)
            order.append(s)
        else:
            if policy == "lifo":
                s = order[-1]
            elif policy == "fifo":
                s = order[0]
            else:
                s = rng.choice(order)
            order.remove(s)
            ops.append([2, s, live[s][0], live[s][1]])
            del live[s]
            free.append(s)
    for s in order:
        ops.append([4, s, live[s][0], live[s][1]])
    if rng.random() < 0.5:
        for s in order:
            ops.append([2, s, live[s][0], live[s][1]])
    return ops


class C16(Check):
    id = "C16"
    rule = ("random histories of malloc, calloc and free (sizes from 1 byte to 1 MB, around page boundaries; last-in-first-out, "
            "first-in-first-out, random, in phases; up to 64 live blocks) run through the real library on the simulated machine, "
            "with random placement of mappings, interrupts and failing mappings. The machine fills every block and checks it before "
            "its release; live blocks must be disjoint, aligned to words and inside mapped memory, zeroed ones zero; no new "
            "mapping may be made for a request that a released block could have served. Non-trivial: at least one released "
            "block was used again.")
    assumptions = ("requests whose size modulo 4096 is 0 or above 4084 are left out of the search: known finding KF4",)
    real = lib.REAL_COMPILER + lib.REAL_GUEST
    stub = lib.STUB_COMPILER + lib.STUB_GUEST

    def count(self, tier):
        return 1000 if tier == "quick" else 80000

    def make(self, i, rng, tier):
        arch, opts = lib.config(rng)
        f = []
        if rng.random() < 0.06:
            f = [["mmap", rng.choice([1, 2, 3, rng.randrange(3, 30)]), "err", 12]]
        return {"src": driver(rng), "arch": arch, "opts": list(opts), "faults": f,
                "histories": [[history(rng, rng.choice([5, 20, 60, 200, 500])), core.guest_env(rng, irq=rng.random() < 0.2)] for _ in range(4)]}

    def run(self, sc, ctx, out):
        r, img = lib.build(ctx, sc["arch"], sc["opts"], sc["src"], env={"seed": 1})
        tag = "%s %s: " % (sc["arch"], " ".join(sc["opts"]))
        if img is None:
            return {"what": "valid program rejected", "detail": tag + lib.out_of(r)}
        for n, (ops, env) in enumerate(sc["histories"]):
            self.last = n
            self.addr = None
            g = lib.run_image(ctx, img, env=env, ops=ops, faults=sc["faults"], hist=True)
            v, reused = self.judge(g, ops)
            out.saw(g, reused > 0)
            ctx.stats.inc("blocks reused", reused)
            if v:
                return {"what": v[0], "detail": tag + v[1]}
            if g.status != "exit":
                self.addr = g.addr
                fail = any(k.startswith("mmap") for k in g.inj)
                return {"what": "a failing mapping crashes the program" if fail else "heap operation crashes the program",
                        "detail": tag + lib.out_of(g) + " at %#x" % g.addr, "addr": g.addr}
            if g.code & 255:
                return {"what": "heap program fails", "detail": tag + lib.out_of(g)}
        return None

    def judge(self, g, ops):
        live, freed, maps, reused = {}, {}, 0, 0
        mapped, last = [], 0
        done = 0
        for l in g.lines():
            t = l.split()
            if not t:
                continue
            if t[0] == "S" and t[2] == "mmap":
                # arguments and result in hex and decimal
                ret = int(t[7]) & 0xffffffff
                if ret < 0xfffff000:
                    mapped.append([ret, ret + ((int(t[4], 16) + 4095) & ~4095)])
                    last += 1
            elif t[0] == "R":
                k, s, p, n = int(t[2]), int(t[3]), int(t[4]) & 0xffffffff, int(t[5])
                if k in (1, 3):
                    if p == 0:
                        if not g.inj:
                            return ("allocation without an answer", l), reused
                        last = 0
                        continue
                    if p % 4:
                        return ("block not aligned", l), reused
                    if not any(a <= p and p + n <= b for a, b in mapped):
                        return ("block not within a mapping", "%s at %#x size %d, mappings %s" % (l, p, n, [[hex(a), hex(b)] for a, b in mapped[-6:]])), reused
                    for q, m in live.values():
                        if p < q + m and q < p + n:
                            return ("live blocks overlap", "%s: %#x+%d and %#x+%d" % (l, p, n, q, m)), reused
                    # mappings made by the first call are the library's own
                    could = [q for q, m in freed.items() if m >= n]
                    if could and last:
                        return ("new mapping though a released block would do", "%s: %d bytes, %s free" % (l, n, [(hex(q), freed[q]) for q in could[:4]])), reused
                    if p in freed:
                        reused += 1
                    for q in [q for q, m in freed.items() if p < q + m and q < p + n]:
                        del freed[q]
                    live[s] = (p, n)
                elif k == 2:
                    if s in live:
                        q, m = live.pop(s)
                        freed[q] = m
                elif k == 5:
                    if p or n:
                        return ("memory of no size given", l), reused
                elif k == 9:
                    done = 1
                last = 0
            elif t[0] in "KFZ":
                d = dict(x.split("=") for x in t if "=" in x)
                if int(d.get("bad", 0)):
                    return ("block in memory that is not there", l), reused
                if int(d.get("diff", 0)):
                    return ("block changed while it was live" if t[0] == "K" else "zeroed block is not zero", l), reused
        if g.ok() and not done:
            return ("heap program ends early", lib.out_of(g)), reused
        return None, reused

    def known(self, sc, viol):
        if viol["what"] == "a failing mapping crashes the program":
            a = viol.get("addr", 1 << 20)
            if a >= 0xfffffff0 or a <= 16:
                return "KF3"
        # only sizes the search leaves out
        if viol["what"] in ("block not within a mapping", "block in memory that is not there", "live blocks overlap",
                            "block changed while it was live", "heap operation crashes the program") and any(
                o[0] in (1, 3) and not 0 < o[2] % 4096 < 4085 for h, _ in sc["histories"] for o in h):
            return "KF4"
        return None

    def shrink(self, sc, same, limit):
        import copy
        if same(sc):
            c = dict(sc, histories=[sc["histories"][self.last]])
            if same(c):
                sc = c
        if len(sc["histories"]) == 1:
            ops, env = sc["histories"][0]
            for k in sorted(env):
                t = {a: b for a, b in env.items() if a != k}
                if same(dict(sc, histories=[[ops, t]])):
                    env = t

            def valid(ops):
                live = {}
                for o in ops:
                    if o[0] in (1, 3):
                        if o[1] in live:
                            return False
                        live[o[1]] = o[2:4]
                    elif o[0] in (2, 4):
                        if live.get(o[1]) != o[2:4]:
                            return False
                        if o[0] == 2:
                            del live[o[1]]
                return True
            c = lib.shrink_list(dict(sc, o=ops), "o", lambda c: valid(c["o"]) and same(dict(sc, histories=[[c["o"], env]])), limit - 10)
            sc = dict(sc, histories=[[c["o"], env]])
        return sc


CHECK = C16()
