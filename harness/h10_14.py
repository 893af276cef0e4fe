import struct

from harness.base import Harness, free, header, put


def with_info(B, fix, flags=2, hi=2**31 - 1):
    """Header and link information; fix gives known bytes of the latter."""
    t = header(flags=flags)
    n = B.int("n", 76 + 64, hi)
    for off, data in fix.items():
        put(t, 76 + off, data)
    return B.bytes("f", n, t)


def u32(v):
    return struct.pack("<I", v)


def c10(tier):
    def h(name, what, fix, cp=None, more=None, budget=60):
        def build(B):
            d = with_info(B, fix)
            if more:
                more(B, d)
            return {"data": d, "cp": cp}

        return Harness(name, "local_info", build, what + "; any size and file length below 2^31", summary=True, budget=budget)

    vol = {12: u32(36), 40: u32(3), 48: u32(16)}

    def drive(B, d):
        B.require(B.num(d, 76 + 12, 4) == 28)
        B.require(B.num(d, 76 + 28 + 12, 4) == 16)

    hs = [
        h("fields", "flags, volume id offset, drive type, serial and label offset symbolic, header size 0x1C, no paths",
          {4: u32(28), 16: u32(0), 24: u32(0)}),
        h("paths", "header size and all path offsets symbolic", {**vol, 8: u32(1)}),
        h("paths-net", "header size and all path offsets symbolic, network flag set", {**vol, 8: u32(3)}, cp="cp437"),
        h("label", "volume id and label offsets symbolic, extended header", {4: u32(36), 8: u32(1), 16: u32(0), 24: u32(0)}),
    ]
    if tier != "quick":
        hs.append(h("all", "everything symbolic", {}, budget=90))
    hs.append(Harness("unused", "unused_info", lambda B: {"data": with_unused(B)},
                      "ForceNoLinkInfo and content flags symbolic; any size and file length below 2^31", summary=True))
    return hs


def with_unused(B):
    t = header(flags=2)
    free(t, 20, 24)
    d = B.bytes("f", B.int("n", 76 + 32, 2**31 - 1), t)
    B.require((B.num(d, 20, 4) & 0xFFFFFEFF) == 2)
    return d


def c11(tier):
    from sx.values import b_or

    def h(name, what, fix, cp=None, more=None, budget=60, finding=None):
        def build(B):
            d = with_info(B, fix)
            if more:
                more(B, d)
            return {"data": d, "cp": cp}

        return Harness(name, "network_info", build, what + "; any size and file length below 2^31", summary=True,
                       budget=budget, finding=finding)

    base = {4: u32(28), 8: u32(2), 16: u32(0), 20: u32(28)}

    def prov(B, d):
        p = B.num(d, 76 + 28 + 16, 4)
        B.require(p != 0x20000)

    hs = [
        h("provider", "provider type (any but 0x20000) and flags symbolic", {**base, 24: u32(0), 36: u32(20), 40: u32(0)}, more=prov),
        h("provider-0x20000", "provider type 0x20000, valid", {**base, 24: u32(0), 32: u32(2), 36: u32(20), 40: u32(0), 44: u32(0x20000)},
          finding="provider-0x20000"),
        h("names", "offset of the structure and of all its names symbolic", {4: u32(28), 8: u32(2), 16: u32(0), 24: u32(0)}, more=noprov),
        h("names-cp", "offset of the structure and of all its names symbolic, code page 437", {4: u32(28), 8: u32(2), 16: u32(0), 24: u32(0)},
          cp="cp437", more=noprov),
        h("front", "link information flags, header size and suffix offsets symbolic",
          {16: u32(0), 20: u32(40), 48: u32(20), 52: u32(0), 44: u32(0)}),
    ]
    return hs


def noprov(B, d):
    """No provider type where the structure is."""
    r = B.num(d, 76 + 20, 4)
    B.require(r + 28 <= 2**31)
    f = B.num(d, r + 76 + 4, 4)
    B.require((f & 2) == 0)


def c12(tier):
    def f(B, flags, mask, cp="cp1252"):
        t = header(flags=flags)
        free(t, 20, 24)
        d = B.bytes("f", B.int("n", 76, 2**31 - 1), t)
        B.require((B.num(d, 20, 4) & (0xFFFFFFFF ^ mask)) == flags)
        return {"data": d, "cp": cp}

    return [
        Harness("first-three", "strings", lambda B: f(B, 0, 0x9C), "name, relative path, working directory and IsUnicode flags "
                "symbolic, any counts and file length below 2^31", summary=True, budget=60),
        Harness("last-two", "strings", lambda B: f(B, 0, 0xE0, "cp437"), "arguments, icon location and IsUnicode flags symbolic, any counts",
                summary=True, budget=60),
        Harness("mixed", "strings", lambda B: f(B, 0, 0xB4), "name, working directory, arguments and IsUnicode flags symbolic, any counts", summary=True, budget=60),
        Harness("all-ansi", "strings", lambda B: f(B, 0x7C, 0, "cp437"), "all strings present, ANSI, any counts", summary=True, budget=60),
        Harness("all-wide", "strings", lambda B: f(B, 0xFC, 0), "all strings present, Unicode, any counts", summary=True, budget=60),
    ] + ([] if tier == "quick" else [
        Harness("all-flags", "strings", lambda B: f(B, 0, 0xFC), "all flags symbolic, any counts", summary=True, budget=90)])


def c13(tier):
    def f(B, n, wide, cp):
        t = header(flags=0xA0 if wide else 0x20)
        put(t, 76, struct.pack("<H", n // 2 if wide else n))
        put(t, 78 + n, bytes(4))
        return {"data": B.bytes("f", 82 + n, t), "n": n, "wide": wide, "cp": cp}

    hs = []
    for cp in (None, "cp1250", "cp437", "latin-1", "ascii", "utf-8"):
        for n in ((0, 1, 2, 3, 6) if tier == "quick" else (0, 1, 2, 3, 4, 5, 6, 8, 12)):
            hs.append(Harness("ansi-%s-%d" % (cp, n), "field_text", lambda B, n=n, cp=cp: f(B, n, False, cp),
                              "%d arbitrary bytes, code page %s" % (n, cp), budget=30))
    def long(B, n, wide, at, cp=None):
        t = header(flags=0xA0 if wide else 0x20)
        put(t, 76, struct.pack("<H", n // 2 if wide else n))
        put(t, 78, (b"a\0" if wide else b"a") * n)
        put(t, 78 + n, bytes(4))
        free(t, 78 + at, 78 + at + 2)
        return {"data": B.bytes("f", 82 + n, t), "n": n, "wide": wide, "cp": cp}

    for n in (70, 300, 1100, 5000):
        for wide in (False, True):
            for at in (0, n // 4 * 2, n - 2):
                hs.append(Harness("long-%s-%d-%d" % ("wide" if wide else "ansi", n, at), "field_text",
                                  lambda B, n=n, wide=wide, at=at: long(B, n, wide, at),
                                  "text of %d bytes, two of them at %d of any value, %s" % (n, at, "Unicode" if wide else "ANSI"), budget=30))
    for n in ((0, 2, 4, 6, 8, 10) if tier == "quick" else (0, 2, 4, 6, 8, 10, 12, 14)):
        hs.append(Harness("wide-%d" % n, "field_text", lambda B, n=n: f(B, n, True, None), "%d arbitrary bytes, Unicode" % n, budget=30))
    return hs


def layout(kind, wide):
    """(file, free ranges, where its parts are)"""
    from harness.base import CLSID

    f = bytearray(76)
    free = []
    at = {"kind": kind, "wide": wide, "items": [], "blocks": [], "inner": []}

    def text(n, unicode=False):
        a = len(f)
        f.extend(b"x" * n)
        free.append((a, a + n))

    def file_item(lst, t):
        a = len(f)
        f.extend(struct.pack("<HBBIIH", 24, t, 0, 0x1234, 0, 0x20))
        text(10)
        lst.append((a, a + 24))

    f[20:24] = u32(0x7F | (0x80 if wide else 0))
    start = len(f)
    f.extend(b"..")
    file_item(at["items"], 0x32)
    file_item(at["items"], 0x36)
    a = len(f)
    f.extend(struct.pack("<HB", 25, 0x2F))
    text(22)
    at["items"].append((a, a + 25))
    a = len(f)
    f.extend(struct.pack("<HBBIHHB", 44, 0, 0, 0x11223344, 8, 16, 65))
    text(31)
    at["items"].append((a, a + 44))
    a = len(f)
    f.extend(struct.pack("<HBBHI", 72, 0x74, 0, 28, 0x46534643))
    file_item([], 0x32)
    f.extend(bytes(38))
    at["items"].append((a, a + 72))
    f.extend(bytes(2))
    f[start : start + 2] = struct.pack("<H", len(f) - start - 2)
    at["info"] = a = len(f)
    if kind == "Local":
        f.extend(struct.pack("<IIIIIIIII", 0, 36, 1, 36, 64, 0, 80, 96, 112))
        f.extend(struct.pack("<IIII", 28, 3, 7, 16))
        text(12)
    else:
        f.extend(struct.pack("<IIIIIIIII", 0, 36, 2, 0, 64, 36, 80, 96, 112))
        f.extend(struct.pack("<IIIII", 28, 1, 20, 88, 0))
    text(76)
    text(16)
    f.extend(bytes(4))
    f[a : a + 4] = u32(len(f) - a)
    at["strings"] = len(f)
    for n in (3, 5, 4, 7, 6):
        f.extend(struct.pack("<H", n))
        text(n * (2 if wide else 1))

    def block(sig, n, at_=()):
        a = len(f)
        f.extend(u32(n) + u32(sig) + bytes(n - 8))
        free.extend((a + x, a + y) for x, y in at_)
        if sig != 0xA0000006:
            at["blocks"].append((a, a + n))
        return a

    block(0xA0000001, 788, [(8, 788)])
    block(0xA0000007, 788, [(8, 788)])
    a = block(0xA0000003, 96, [(16, 32)])
    f[a + 8 : a + 12] = u32(0x58)
    at["darwin"] = a = block(0xA0000006, 788, [(8, 268)])
    d = "!!!!!!!!!!!!!!!!!!!!F<".encode("utf-16-le")
    f[a + 268 : a + 268 + len(d)] = d
    block(0xA0000008, 136, [(8, 136)])
    a = len(f)
    f.extend(u32(0) + u32(0xA000000C))
    file_item(at["inner"], 0x31)
    file_item(at["inner"], 0x35)
    f.extend(bytes(2))
    f[a : a + 4] = u32(len(f) - a)
    at["blocks"].append((a, len(f)))
    f.extend(bytes(4))
    f[:20] = u32(0x4C) + CLSID
    return f, free, at


def c14(tier):
    import codecs

    def f(B, kind, wide, cp):
        d, fr, at = layout(kind, wide)
        t = dict(enumerate(d))
        for a, b in fr:
            free(t, a, b)
        return {"data": B.bytes("f", len(d), t), "cp": cp, "at": at}

    hs = []
    some = (None, "cp1250", "cp437", "shift_jis", "latin-1")
    for cp in some if tier == "quick" else some + ("cp1251", "utf-8", "gbk", "ascii", "cp866"):
        for kind in ("Local", "Network"):
            for wide in (False, True):
                hs.append(Harness("%s-%s-%s" % (cp, kind, "wide" if wide else "ansi"), "everywhere",
                                  lambda B, kind=kind, wide=wide, cp=cp: f(B, kind, wide, cp),
                                  "a file with ANSI strings in every section at fixed places, %s link information, %s string data, any text, code page %s"
                                  % (kind, "Unicode" if wide else "ANSI", cp), summary=True))
    from harness import h07_09

    for cp in (None, "cp1250"):
        hs.append(Harness("network-item-%s" % cp, "one_item", lambda B, cp=cp: dict(h07_09.network(B, 2), cp=cp),
                          "network location with 2 bytes of text, code page %s" % cp))
    from harness import h30

    return hs + h30.recoded(tier)


HARNESSES = {"C14": c14, "C10": c10, "C11": c11, "C12": c12, "C13": c13}
