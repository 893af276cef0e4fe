from harness.base import Harness, free, header, put


def tail_bytes():
    """name string, console code page block, terminator"""
    return b"\x03\x00abc" + bytes.fromhex("0c000000 040000a0 e4040000") + bytes(4)


def c01(tier):
    def scal(B, lo, hi, tail):
        t = header(flags=4 if tail else 0)
        n = 76
        if tail:
            tb = tail_bytes()
            put(t, 76, tb)
            n += len(tb)
        for a, b in zip(lo, hi):
            free(t, a, b)
        return {"data": B.bytes("f", n, t)}

    hs = [
        Harness("ids-flags", "header_scalars", lambda B: scal(B, (4, 52), (28, 60), False),
                "76-byte file: class id, both flag words, size and icon index symbolic"),
        Harness("reserved", "header_scalars", lambda B: scal(B, (66,), (76,), False),
                "76-byte file: reserved fields symbolic"),
        Harness("hotkey", "header_scalars", lambda B: scal(B, (60,), (76,), False) if tier != "quick" else
                scal(B, (64,), (76,), False), "76-byte file: hot key and reserved fields symbolic"),
        Harness("times", "header_scalars", lambda B: scal(B, (24,), (60,), False),
                "76-byte file: file flags, times, size and icon index symbolic"),
        Harness("with-sections", "header_scalars", lambda B: scal(B, (4, 24, 52, 66), (20, 28, 64, 76), True),
                "97-byte file with string and extra block: class, attributes, size, icon, window style, reserved symbolic"),
    ]
    if tier != "quick":
        hs += [
            Harness("flags-free", "header_scalars", lambda B: scal(B, (4, 52), (28, 76), False),
                    "76-byte file, all header bytes except header size and times symbolic"),
            Harness("times-free", "header_scalars", lambda B: scal(B, (4, 24), (20, 76), False),
                    "76-byte file, all header bytes except header size and link flags symbolic"),
            Harness("sections-free", "header_scalars", lambda B: scal(B, (4, 24, 52), (20, 28, 76), True),
                    "97-byte file with string and extra block, all header bytes except size, flags, times symbolic"),
        ]
    for a, b, nm in ((4, 20, "class"), (66, 68, "reserved0"), (68, 72, "reserved1"), (72, 76, "reserved2")):
        hs.append(Harness("warn-" + nm, "header_warnings", lambda B, a=a, b=b: scal(B, (a,), (b,), False),
                          "bytes %d..%d symbolic, rest standard" % (a, b - 1)))
    return hs


def c02(tier):
    def full(B):
        return {"data": B.bytes("f", 76, free(header(), 20, 28))}

    hs = [Harness("words-free", "flag_names", full, "both 32-bit flag words symbolic, 76-byte file", budget=60)]

    def window(B, off, k, n):
        t = header()
        free(t, off, off + 4)
        d = B.bytes("f", 76, t)
        from sx.values import int_from_terms
        w = int_from_terms([d.term(off + i) for i in range(4)])
        B.require((w & (0xFFFFFFFF ^ (((1 << n) - 1) << k))) == 0)
        return {"data": d}

    for off in (20, 24):
        for k in range(0, 32, 4):
            hs.append(Harness("window-%d-%d" % (off, k), "flag_names",
                              lambda B, off=off, k=k: window(B, off, k, 5 if k < 28 else 4),
                              "flag word at %d: bits %d.. symbolic, others zero" % (off, k), budget=30))
    return hs


def c03(tier):
    def f(B, a, b):
        return {"data": B.bytes("f", 76, free(header(), a, b))}

    return [
        Harness("show", "style_and_key", lambda B: f(B, 60, 64), "show command symbolic (32 bits)"),
        Harness("hotkey", "style_and_key", lambda B: f(B, 64, 66), "hot key symbolic (16 bits)", budget=60),
        Harness("both", "style_and_key", lambda B: f(B, 60, 66), "show command and hot key symbolic", budget=90),
    ]


def c04(tier):
    def f(B, off):
        from spec.ref import LAST_TENTHS
        from sx.values import b_or, int_from_terms

        d = B.bytes("f", 76, free(header(), off, off + 8))
        v = int_from_terms([d.term(off + i) for i in range(8)])
        B.require(b_or(v <= LAST_TENTHS - 1000, v > LAST_TENTHS + 1000))
        return {"data": d, "off": off}

    return [
        Harness("time-%d" % off, "header_time", lambda B, off=off: f(B, off), "FILETIME at %d symbolic (64 bits, except 0.1 ms around the end of year 9999)" % off,
                budget=60, query_ms=30000)
        for off in (28, 36, 44)
    ]


def c05(tier):
    import struct

    def f(B, name, typ):
        t = header(flags=1)
        item = struct.pack("<HBBI", 14 + len(name), typ, 0, 0x1234) + bytes(4) + struct.pack("<H", 0x20) + name
        lst = item + b"\0\0"
        put(t, 76, struct.pack("<H", len(lst)) + lst)
        off = 78 + 8
        free(t, off, off + 4)
        return {"data": B.bytes("f", 78 + len(lst), t), "off": off}

    return [
        Harness("ansi", "item_time", lambda B: f(B, b"a.txt\0", 0x32), "DOS date-time of a file entry symbolic (32 bits)",
                budget=60),
        Harness("wide", "item_time", lambda B: f(B, "b".encode("utf-16-le") + b"\0\0", 0x35),
                "DOS date-time of a Unicode directory entry symbolic (32 bits)", budget=60),
    ]


HARNESSES = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05}
