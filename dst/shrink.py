"""Minimisation: trees of program text, lists of operations and faults."""
import time


def _paths(nodes, pre=()):
    for i, n in enumerate(nodes):
        yield pre + (i,)
        if not isinstance(n, str):
            yield from _paths(n[1], pre + (i,))


def _get(nodes, path):
    for i in path[:-1]:
        nodes = nodes[i][1]
    return nodes, path[-1]


def _copy(nodes):
    return [n if isinstance(n, str) else [n[0], _copy(n[1]), n[2]] for n in nodes]


def tree(nodes, bad, limit=40.0):
    """remove nodes while bad(nodes) stays true"""
    end = time.time() + limit
    nodes = _copy(nodes)
    progress = True
    while progress and time.time() < end:
        progress = False
        # runs of siblings first, then single nodes, then unwrapping
        for p in sorted(_paths(nodes), key=lambda q: (len(q), q), reverse=False):
            if time.time() > end:
                break
            try:
                l, i = _get(nodes, p)
                l[i]
            except (IndexError, TypeError):
                continue
            if not isinstance(l, list):
                continue
            for n in (8, 3, 1):
                if n > 1 and i + n > len(l):
                    continue
                t = _copy(nodes)
                tl, ti = _get(t, p)
                del tl[ti:ti + n]
                if bad(t):
                    nodes = t
                    progress = True
                    break
            else:
                if not isinstance(l[i], str) and l[i][1]:
                    t = _copy(nodes)
                    tl, ti = _get(t, p)
                    tl[ti:ti + 1] = tl[ti][1]
                    if bad(t):
                        nodes = t
                        progress = True
    return nodes


def seq(items, bad, limit=30.0):
    """delta debugging on a list"""
    end = time.time() + limit
    items = list(items)
    n = 2
    while len(items) >= 1 and time.time() < end:
        k = max(1, len(items) // n)
        i = 0
        hit = False
        while i < len(items) and time.time() < end:
            t = items[:i] + items[i + k:]
            if bad(t):
                items = t
                hit = True
            else:
                i += k
        if not hit:
            if k == 1:
                break
            n = min(len(items), n * 2)
        else:
            n = max(2, n - 1)
    return items


def tokens(text, bad, limit=60.0):
    """remove runs of tokens from program text while bad(text) stays true"""
    import re
    end = time.time() + limit
    toks = re.findall(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|\w+|\n|#|[-+*/%&|^<>=!]+|\S| +', text)
    n = 24
    while n >= 1 and time.time() < end:
        i = len(toks) - n
        hit = False
        while i >= 0 and time.time() < end:
            t = toks[:i] + toks[i + n:]
            d = 0
            for x in toks[i:i + n]:
                d += (x in "([{" and len(x) == 1) - (x in ")]}" and len(x) == 1)
            if d == 0 and any(x.strip() for x in toks[i:i + n]) and bad("".join(t)):
                toks = t
                hit = True
                i -= n
            else:
                i -= 1
        if not hit:
            n = n - 1 if n < 6 else n * 3 // 4
    return "".join(toks)
