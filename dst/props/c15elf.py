"""What a strict loader, and the tools that look at executables, insist on."""
import struct

MACHINE = {"arm": 40, "riscv": 243}


def problem(img, arch):
    """the first thing wrong with an executable, or None"""
    if img is None:
        return "no file"
    if len(img) < 52:
        return "shorter than a header"
    if img[:4] != b"\x7fELF":
        return "bad magic"
    if img[4] != 1 or img[5] != 1 or img[6] != 1:
        return "bad class, byte order or version"
    (typ, mach, ver, entry, phoff, shoff, flags, ehsize, phes, phn, shes, shn, shstr) = struct.unpack_from("<HHIIIIIHHHHHH", img, 16)
    if typ != 2 or ver != 1 or ehsize != 52:
        return "bad type, version or header size"
    if mach != MACHINE[arch]:
        return "machine %d" % mach
    if arch == "arm" and flags >> 24 != 5:
        return "no EABI version 5 in flags %#x" % flags
    if arch == "riscv" and flags & ~0x1f:
        return "flags %#x" % flags
    if phn < 1 or phes != 32 or phoff + phn * 32 > len(img):
        return "program headers outside of the file"
    loads = []
    for i in range(phn):
        t, off, va, pa, fs, ms, fl, al = struct.unpack_from("<8I", img, phoff + 32 * i)
        if t != 1:
            continue
        if fs > ms or off + fs > len(img):
            return "segment %d larger than the file" % i
        if al > 1 and (al & (al - 1) or (va - off) % al):
            return "segment %d not congruent to its alignment" % i
        if (va - off) % 4096:
            return "segment %d not congruent to pages" % i
        if va + ms > 0xc0000000 or va < 4096:
            return "segment %d at a bad address" % i
        loads.append((va, ms, off, fs, fl))
    if not loads:
        return "nothing to load"
    if not any(va <= entry < va + fs and fl & 1 for va, ms, off, fs, fl in loads):
        return "entry %#x outside executable segments" % entry
    if entry % 4:
        return "entry not aligned"
    if not all(fl & 4 for *_, fl in loads):
        return "segment not readable"
    if shn:
        if shes != 40 or shoff + shn * 40 > len(img) or shstr >= shn:
            return "section headers outside of the file"
        secs = [struct.unpack_from("<10I", img, shoff + 40 * i) for i in range(shn)]
        st = secs[shstr]
        if st[1] != 3:
            return "section names are not a string table"
        names = []
        for i, (nm, t, fl, ad, off, sz, link, info, al, es) in enumerate(secs):
            if t not in (0, 8) and off + sz > len(img):
                return "section %d outside of the file" % i
            if link >= shn:
                return "section %d has a bad link" % i
            if t:
                if nm >= st[5]:
                    return "section %d has its name outside of the table" % i
                e = img.find(b"\0", st[4] + nm)
                if e < 0 or e >= st[4] + st[5]:
                    return "section %d has an endless name" % i
                names.append(img[st[4] + nm:e])
            if fl & 2 and t == 1:
                if not any(va <= ad and ad + sz <= va + ms and ad - va == off - o for va, ms, o, fs, f in loads):
                    return "section %d (%s) not where it is loaded" % (i, names[-1].decode("latin-1"))
            if t == 2:
                if es != 16 or sz % 16 or secs[link][1] != 3:
                    return "bad symbol table"
                so, ss = secs[link][4], secs[link][5]
                if info > sz // 16:
                    return "first global symbol outside of the table"
                for k in range(sz // 16):
                    sn, val, size, inf, oth, shx = struct.unpack_from("<IIIBBH", img, off + 16 * k)
                    if sn >= ss and sn:
                        return "symbol %d has its name outside of the table" % k
                    if 0 < shx < 0xff00:
                        if shx >= shn:
                            return "symbol %d in no section" % k
                        if secs[shx][3] and not secs[shx][3] <= val <= secs[shx][3] + secs[shx][5]:
                            return "symbol %d outside of its section" % k
            if t == 3 and sz and (img[off] or img[off + sz - 1]):
                return "string table %d not delimited" % i
        for n in (b".text", b".data", b".shstrtab"):
            if n not in names:
                return "no section %s" % n.decode()
    return None
