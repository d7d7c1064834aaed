"""What a crash, a full disk or a bad copy leaves of a source file."""


def damage(rng, text, kinds=None):
    k = rng.choice(kinds or ["cut", "cut", "lose", "repeat", "zero", "overwrite", "swap", "token", "token", "flip"])
    n = len(text)
    if n < 4:
        return text
    if k == "cut":
        return text[:rng.randrange(n)]
    if k in ("lose", "repeat", "overwrite", "swap", "zero"):
        bs = rng.choice([1, 2, 8, 32, 64, 512])
        a = rng.randrange(n)
        if bs >= 32:
            a -= a % bs
        b = min(n, a + bs)
        if k == "lose":
            return text[:a] + text[b:]
        if k == "repeat":
            m = rng.choice([2, 2, 3, 40])
            return text[:a] + text[a:b] * m + text[b:]
        if k == "zero":
            # what a lost block reads as; never in the middle of what counts as text
            return text[:a] + " " * (b - a) + text[b:]
        c = rng.randrange(n)
        d = min(n, c + (b - a))
        if k == "overwrite":
            return text[:a] + text[c:d] + text[b:]
        if b <= c:
            return text[:a] + text[c:d] + text[b:c] + text[a:b] + text[d:]
        return text[:a] + text[c:d] + text[b:]
    if k == "flip":
        a = rng.randrange(n)
        return text[:a] + chr(ord(text[a]) ^ (1 << rng.randrange(7)) or 1) + text[a + 1:]
    import re
    toks = [m.span() for m in re.finditer(r"\w+|\S", text)]
    if not toks:
        return text
    a, b = rng.choice(toks)
    c, d = rng.choice(toks)
    j = rng.randrange(3)
    if j == 0:
        return text[:a] + text[b:]
    if j == 1:
        return text[:a] + text[c:d] + text[b:]
    return text[:a] + text[c:d] + " " + text[a:]
