"""C13: how a source is spread over files does not matter."""
import random

from .. import core, gen, iogen, lib
from ..runner import Check
from .split import split, norm, cuts


def respell(rng, path, dirs):
    """the same file named in another way"""
    p = path
    for _ in range(rng.randrange(0, 4)):
        k = rng.randrange(5)
        if k == 0 and not p.startswith("/"):
            p = "./" + p
        elif k == 1 and not p.startswith("/") and dirs:
            d = rng.choice(dirs)
            if not d.startswith("/") and not d.startswith(".."):
                p = d + "/" + "../" * (d.count("/") + 1) + p
        elif k == 2 and "/" in p:
            i = rng.choice([i for i, c in enumerate(p) if c == "/"])
            p = p[:i] + "/" + p[i:]
        elif k == 3 and "/" in p:
            i = rng.choice([i for i, c in enumerate(p) if c == "/"])
            p = p[:i] + "/." + p[i:]
    if "/" in p and rng.random() < 0.2:
        # as long as a path may be
        i = rng.choice([i for i, c in enumerate(p) if c == "/"])
        p = p[:i] + rng.choice(["/.", "//", "/./"]) * rng.choice([60, 120, 124, 128, 250, 600]) + p[i:]
    return p


def guarded(rng, text):
    """text with a guarded header repeated all over, and that header"""
    cs = cuts(text)
    if len(cs) < 3:
        return text, None
    k = rng.randrange(1, min(4, len(cs) - 1) + 1)
    n = rng.randrange(99)
    if rng.random() < 0.5:
        head = "#ifndef HG%d_H\n#define HG%d_H\n%s#endif\n" % (n, n, text[:cs[k]])
        if any(l.startswith(("#if", "#el", "#endif")) for l in text[:cs[k]].split("\n")):
            return text, None
    else:
        head, k = "#define AGAIN%d %d\n#undef AGAIN%d\n\n" % (n, n, n), 0
    rest = cs[k:]
    at = sorted(rng.choice(rest) for _ in range(rng.choice([1, 2, 5, 40])))
    o, a = [head] if k else [], cs[k]
    for p in at:
        o += [text[a:p], head]
        a = p
    o.append(text[a:])
    return "".join(o), head


def repeated(rng, text):
    """a function made of the same lines again and again, and those lines"""
    f = "rep%d" % rng.randrange(99)
    m = rng.random() < 0.3
    k = "RK%d" % rng.randrange(9)
    if m:
        body = "    x = x * 3 + %s;\n" % k
    else:
        body = "".join("    x = x %s %d;\n" % (rng.choice(["+", "*", "-", "^"]), rng.randrange(1, 99)) for _ in range(rng.randrange(1, 4)))
    o = ["#define %s 1\n" % k] if m else []
    o.append("int %s(int x)\n{\n" % f)
    for i in range(rng.choice([2, 2, 3, 6, 17])):
        o.append(body)
        j = rng.randrange(4)
        if j == 0:
            o.append("    x = x + %d;\n" % i)
        elif j == 1 and m:
            o.append("#undef %s\n#define %s %d\n" % (k, k, i + 2))
        elif j == 2:
            o.append("    if (x > %d) {\n%s    }\n" % (rng.randrange(1000), body))
    o.append("    return x;\n}\n")
    return "".join(o) + text, body


def noise(rng, body):
    """a file with comments that say nothing: of any length, about inclusion,
    on lines of their own and after inclusions"""
    cs = cuts(body)
    at = sorted(set([0] + cs)) if body.endswith("\n") or not body else [0]
    o, a = [], 0
    for p in sorted(rng.choice(at) for _ in range(rng.choice([1, 1, 2, 5]))):
        n = rng.choice([rng.randrange(0, 40), rng.randrange(225, 262), rng.randrange(480, 520), rng.randrange(760, 780), 2000])
        fill = "".join(rng.choice("abc =;(){}'x") for _ in range(n))
        com = fill + rng.choice(["", '#include "nothing.h"', '#include "nothing.h" ' + fill])
        com = "/*" + com + "*/" if rng.random() < 0.7 else "//" + com.replace("\\", "")
        o += [body[a:p], com + "\n"]
        a = p
    o.append(body[a:])
    lines = "".join(o).split("\n")
    for k, l in enumerate(lines):
        if l.startswith('#include "') and l.endswith('"') and rng.random() < 0.4:
            n = rng.choice([0, 5, rng.randrange(200, 260), rng.randrange(470, 520), 1500])
            fill = "".join(rng.choice("abc =;(){}'\"x") for _ in range(n))
            lines[k] = l + rng.choice([" ", "\t", "", "   "]) + rng.choice(["/* %s */", "// %s", "/* %s */ // x"]) % fill
    return "\n".join(lines)


class C13(Check):
    id = "C13"
    rule = ("a random source is spread over a tree of included files (several directories and depths, guarded headers and pieces of functions included "
            "many times, long chains, empty files, comments of any length about inclusion and after inclusions), named by a random spelling of its path, with reads delivering it in random "
            "pieces, in a random environment; on the host-built compiler, sometimes the self-compiled one. The executable has to "
            "be that of the source in one piece. Non-trivial: at least one inclusion.")
    real = lib.REAL_COMPILER + lib.REAL_GUEST
    stub = lib.STUB_COMPILER + lib.STUB_GUEST

    def count(self, tier):
        return 900 if tier == "quick" else 40000

    def make(self, i, rng, tier):
        arch, opts = lib.config(rng)
        opts = list(opts)
        guest = rng.random() < 0.03
        src = lib.any_source(rng, 0.6, 0.5)
        if rng.random() < 0.7 or guest:
            opts.append("--no-libc")
            src = lib.STANDIN + lib.source(src)
        text = lib.source(src)
        if not text.endswith("\n"):
            text += "\n"
        versions = []
        head = again = None
        if rng.random() < 0.25:
            text, again = repeated(rng, text)
        if rng.random() < 0.4:
            text, head = guarded(rng, text)
        for _ in range(1 if guest else 5):
            files, main = split(rng, text)
            if head and rng.random() < 0.9:
                # the repeated header as one file, used from wherever it stood
                q = "guard.h"
                d = main[:main.rindex("/") + 1] if "/" in main else ""
                if norm(d + q) not in files:
                    for k in list(files):
                        if isinstance(files[k], bytes) and norm(k).rpartition("/")[0] == norm(d).rstrip("/"):
                            files[k] = files[k].replace(head.encode("latin-1"), b'#include "guard.h"\n')
                    files[norm(d + q)] = head.encode("latin-1")
            if again:
                # the repeated lines as one file
                for k in list(files):
                    if isinstance(files[k], bytes) and again.encode("latin-1") in files[k]:
                        d = k[:k.rindex("/") + 1] if "/" in k else ""
                        if norm(d + "again.inc") in files:
                            continue
                        one = b'#include "again.inc"\n'
                        if rng.random() < 0.5:
                            files[k] = files[k].replace(again.encode("latin-1"), one)
                        else:
                            files[k] = b"".join(p + (rng.choice([one, again.encode("latin-1")]) if i < n else b"") for n in [files[k].count(again.encode("latin-1"))]
                                                for i, p in enumerate(files[k].split(again.encode("latin-1"))))
                        files[norm(d + "again.inc")] = again.encode("latin-1")
            if rng.random() < 0.15:
                # a long chain below the main file
                d = main[:main.rindex("/") + 1] if "/" in main else ""
                n = rng.choice([3, 20, 60, 200])
                body = files[norm(main)]
                files[norm(d + "chain0")] = body
                for j in range(1, n):
                    files[norm(d + "chain%d" % j)] = b'#include "chain%d"\n' % (j - 1)
                files[norm(main)] = b'#include "chain%d"\n' % (n - 1)
            if rng.random() < 0.2:
                d = main[:main.rindex("/") + 1] if "/" in main else ""
                files[norm(d + "empty.h")] = b""
                files[norm(main)] = b'#include "empty.h"\n' + files[norm(main)] + rng.choice([b"", b'#include "empty.h"\n', b'#include "empty.h"'])
            if rng.random() < 0.35:
                for k in sorted(files):
                    if isinstance(files[k], bytes) and files[k] and rng.random() < 0.6:
                        files[k] = noise(rng, files[k].decode("latin-1")).encode("latin-1")
            dirs = [k for k, v in files.items() if isinstance(v, tuple)]
            name = respell(rng, main, dirs)
            versions.append({"files": {k: (v.decode("latin-1") if isinstance(v, bytes) else "/dir") for k, v in files.items()},
                             "main": name, "env": core.guest_env(rng) if guest else core.host_env(rng)})
        return {"text": text, "versions": versions, "arch": arch, "opts": opts, "guest": rng.choice(core.ARCHES) if guest else None}

    def run(self, sc, ctx, out):
        base, img = lib.build(ctx, sc["arch"], sc["opts"], sc["text"], env={"seed": 1, "residue": 0})
        if img is None:
            ctx.stats.inc("skipped: not compiled")
            return None
        for n, v in enumerate(sc["versions"]):
            self.last = n
            files = {k: (("dir", b"") if d == "/dir" else d.encode("latin-1")) for k, d in v["files"].items()}
            args = sc["opts"] + ["-o", "prog", v["main"]]
            if sc["guest"]:
                r = ctx.execute(ctx.tree.stage1(sc["guest"], sc["arch"]), args=["shecc"] + args, files=files, env=v["env"], insns=4000000000)
            else:
                r = ctx.compile(sc["arch"], files, args, env=v["env"])
            out.saw(r, len([k for k, d in v["files"].items() if d != "/dir"]) > 1)
            tag = "%s %s %s: " % (sc["guest"] or "host", sc["arch"], " ".join(args))
            if not r.ok():
                return {"what": "source in several files is rejected", "detail": tag + lib.out_of(r)}
            if r.files.get("prog") != img:
                return {"what": "source in several files gives another executable", "detail": tag + lib.diff_text(img, r.files.get("prog", b""))}
        return None

    def shrink(self, sc, same, limit):
        if same(sc):
            c = dict(sc, versions=[sc["versions"][self.last]])
            if same(c):
                sc = c
        if len(sc["versions"]) == 1:
            c = dict(sc, versions=[dict(sc["versions"][0], env={})])
            if same(c):
                sc = c
        return sc


CHECK = C13()
