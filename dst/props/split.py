"""Spreads a source over included files."""


def cuts(text):
    """offsets between top-level lines: outside braces, continued lines,
    strings, comments and conditional sections"""
    out, depth, cond, com = [0], 0, 0, False
    pos = 0
    for line in text.split("\n")[:-1]:
        s = line.strip()
        i, q = 0, None
        while i < len(line):
            c = line[i]
            if com:
                if line.startswith("*/", i):
                    com = False
                    i += 1
            elif q:
                if c == "\\":
                    i += 1
                elif c == q:
                    q = None
            elif line.startswith("/*", i):
                com = True
                i += 1
            elif c in "\"'":
                q = c
            elif c in "{(":
                depth += 1
            elif c in "})":
                depth -= 1
            i += 1
        if s.startswith("#if"):
            cond += 1
        elif s.startswith("#endif"):
            cond -= 1
        pos += len(line) + 1
        if depth == 0 and cond == 0 and not com and not line.endswith("\\"):
            # something declared over several lines ends with ; or } or is a directive
            if not s or s.endswith((";", "}", "*/")) or s.startswith("#"):
                out.append(pos)
    return out


NAMES = ["a.h", "b.c", "inc.h", "x", "part-1.h", "a.b.c", "UP.H", "l" * 60 + ".h"]


def split(rng, text, levels=None):
    """(files, main): a tree of files whose inclusion gives text"""
    if not text.endswith("\n"):
        text += "\n"
    files, used = {}, set()
    root = rng.choice(["", "", "", "src/", "a/b/", "./", "/w/", "../up/", "a//b/", "a/../b/"])
    n = [0]

    def adddirs(p):
        parts = norm(p).split("/")[:-1]
        for i in range(1, len(parts) + 1):
            d = "/".join(parts[:i])
            if d:
                files[d] = ("dir", b"")

    def put(path, data):
        adddirs(path)
        files[norm(path)] = data.encode("latin-1")

    def name():
        while True:
            x = "%s%s%s" % (rng.choice(["", "", "", "sub/", "./", "d1/d2/", "../x/", "sub//"]), rng.choice(["", "m", "z%d" % n[0]]), rng.choice(NAMES))
            n[0] += 1
            return x

    def emit(path, body, depth):
        d = path[:path.rindex("/") + 1] if "/" in path else ""
        cs = cuts(body)
        if depth > 0 and len(cs) > 2:
            k = rng.randrange(1, min(5, len(cs) - 1) + 1)
            pts = sorted(rng.sample(cs[1:], min(k, len(cs) - 1)))
            segs, a = [], 0
            for p in pts + ([len(body)] if pts[-1] != len(body) else []):
                segs.append(body[a:p])
                a = p
            o = []
            for s in segs:
                if s and rng.random() < 0.6:
                    for _ in range(20):
                        x = name()
                        q = norm(d + x)
                        if q not in used and q not in files and len(d + x) < 200 and not any(u.startswith(q + "/") or q.startswith(u + "/") for u in used):
                            break
                    else:
                        o.append(s)
                        continue
                    used.add(q)
                    # the last line of an included file need not be ended when nothing follows on the line
                    o.append("#include \"%s\"\n" % x)
                    emit(d + x, s, depth - 1)
                else:
                    o.append(s)
            put(path, "".join(o))
        else:
            put(path, body)
    main = root + rng.choice(["t.c", "main.c", "m.c"])
    used.add(norm(main))
    adddirs(main)
    emit(main, text, rng.randrange(1, 4) if levels is None else levels)
    return files, main


def norm(p):
    out = []
    for c in p.split("/"):
        if c in ("", "."):
            continue
        if c == "..":
            if out:
                out.pop()
            continue
        out.append(c)
    return ("/" if p.startswith("/") else "") + "/".join(out)
