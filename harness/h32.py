"""Well-formed content gives no warning; damaged content costs only itself."""
import struct

from harness import h30, shapes
from harness.base import Harness, free, header, put
from harness.h30 import Body, STRINGS, a_block, a_list, a_string, an_info, head, split
from harness.shapes import u16, u32

# ---------------------------------------------------------------- C32


def dos(B, d, at):
    """A DOS date-time at an offset, absent or valid in every month."""
    from sx.values import b_and, b_or

    day, time = B.num(d, at, 2), B.num(d, at + 2, 2)
    return b_or(
        b_and(day == 0, time == 0),
        b_and((day & 0x1F) >= 1, (day & 0x1F) <= 28, ((day >> 5) & 0xF) >= 1, ((day >> 5) & 0xF) <= 12,
              (time >> 11) <= 23, ((time >> 5) & 0x3F) <= 59, (time & 0x1F) <= 29),
    )


ORDER = (0x00, 0x42, 0x44, 0x4C, 0x48, 0x50, 0x54, 0x58, 0x60, 0x68, 0x78, 0x80)
KNOWN_TYPES = (0, 1, 2, 3, 11, 30, 31, 64)


def whole(B, d, at, to):
    """No surrogates in the UTF-16 text of a range."""
    from sx.values import b_or, byte_int

    for i in range(at + 1, min(to, len(d)), 2):
        c = byte_int(d.term(i))
        B.require(b_or(c < 0xD8, c >= 0xE0))


# the UTF-16 texts of a shape
WIDE = {
    "item-file-wide": ((92, 104),),
    "item-cpl-wide": ((102, 112),),
    "info-local-wide": ((136, 156), (135, 156)),
    "info-share-wide": ((134, 151), (133, 151)),
    "block-store": ((139, 144), (140, 144)),
    "block-store-named": ((147, 152), (148, 152)),
}


def one_of(v, values):
    from sx.values import b_or

    return b_or(*[v == x for x in values])


# what makes the content of a shape well-formed: offsets in the file
FORMED = {
    "item-root": lambda B, d: one_of(B.num(d, 81, 1), ORDER),
    "item-file": lambda B, d: dos(B, d, 86),
    "item-file-wide": lambda B, d: dos(B, d, 86),
    "item-category": lambda B, d: B.num(d, 86, 4) <= 11,
    "block-item-list": lambda B, d: dos(B, d, 92),
}


def c32(tier):
    hs = []

    def add(name, what, build, **k):
        hs.append(Harness(name, "silent", build, what, budget=30, **k))

    for group, shapes_ in (("item", shapes.ITEMS), ("info", shapes.INFOS), ("block", shapes.BLOCKS)):
        for nm, what, make in shapes_:
            name = group + "-" + nm
            if nm in ("unknown", "delegate", "darwin"):
                continue

            def b(B, make=make, name=name):
                t, n = make()
                d = B.bytes("f", n, t)
                if name in FORMED:
                    B.require(FORMED[name](B, d))
                for at, to in WIDE.get(name, ()):
                    whole(B, d, at, to)
                return {"data": d, "cp": "latin-1"}

            add(name, what + ", with any content that is documented", b, summary=True)

    def info_header(B):
        t, n = shapes.info(76, {4: 28, 8: 1, 12: 44, 16: 68, 24: 70, 44: 24, 48: 3, 56: 16}, [(4, 8)])
        d = B.bytes("f", n, t)
        from sx.values import b_and, b_or

        size = B.num(d, 80, 4)
        B.require(b_or(size == 28, b_and(size >= 36, size <= 44)))
        return {"data": d, "cp": "latin-1"}

    add("info-header-size", "link information with a header of 28 bytes, or of 36 to 44", info_header)

    def fixed(B, sig, n, opens):
        t = header()
        put(t, 76, u32(n) + u32(sig) + bytes(n - 8) + bytes(4))
        if sig == 0xA0000003:
            put(t, 84, u32(88) + u32(0))
        for a, b in opens:
            free(t, 76 + a, 76 + b)
        d = B.bytes("f", 76 + n + 4, t)
        for at, to in {1: ((344, 864),), 2: (), 7: ((344, 864),), 8: ((84, 212),)}.get(sig & 15, ()):
            whole(B, d, at, to)
        return {"data": d, "cp": "latin-1"}

    for sig, n, opens in ((0xA0000001, 788, [(8, 788)]), (0xA0000002, 204, [(8, 204)]), (0xA0000003, 96, [(16, 96)]), (0xA0000004, 12, [(8, 12)]),
                          (0xA0000005, 16, [(8, 16)]), (0xA0000007, 788, [(8, 788)]), (0xA0000008, 136, [(8, 136)]), (0xA000000B, 28, [(8, 28)])):
        add("fixed-%x" % (sig & 15), "a block %08X of any content (tracker: of the mandated length and version)" % sig,
            lambda B, sig=sig, n=n, opens=opens: fixed(B, sig, n, opens), summary=True)

    for lo, hi in ((20, 21), (21, 22), (22, 23), (23, 24), (24, 25), (25, 26), (26, 28), (28, 36), (36, 44), (44, 52), (52, 60), (60, 64), (64, 65), (65, 66)):
        def one(B, lo=lo, hi=hi):
            d = B.bytes("f", 80, free(put(header(), 76, bytes(4)), lo, hi))
            if 28 <= lo < 52:
                B.require(B.num(d, lo, 8) < 2650467743999990000)
            if lo == 20:
                # any flags but those that promise a section
                B.require((B.num(d, 20, 1) & 0x7F) == 0)
            return {"data": d}

        add("header-%d" % lo, "any header bytes %d to %d that promise no section; times before the year 10000" % (lo, hi), one)

    def strings(B, bit, wide, n):
        t = header(flags=bit | (0x80 if wide else 0))
        w = 2 if wide else 1
        put(t, 76, u16(n) + bytes(n * w) + bytes(4))
        free(t, 78, 78 + n * w)
        d = B.bytes("f", 82 + n * w, t)
        if wide:
            whole(B, d, 78, 78 + n * w)
        return {"data": d, "cp": "latin-1"}

    for bit, nm in STRINGS:
        for wide in (False, True):
            for n in (0, 3, 260):
                add("%s-%d%s" % (nm, n, "-unicode" if wide else ""), "a string of %d characters" % n,
                    lambda B, bit=bit, wide=wide, n=n: strings(B, bit, wide, n), summary=True)
    # texts that every code page has
    for cp in (None, "cp437", "shift_jis"):
        for wide in (False, True):
            def text(B, wide=wide, cp=cp):
                from sx.values import b_and, b_or, byte_int

                d = strings(B, 4, wide, 3)
                for i in range(3):
                    c = byte_int(d["data"].term(78 + i * (2 if wide else 1)))
                    if not wide:
                        B.require(b_and(c >= 0, c <= 127))
                    else:
                        h = byte_int(d["data"].term(79 + i * 2))
                        B.require(b_or(b_and(h >= 0, h < 0xD8), b_and(h >= 0xE0, h <= 255)))
                return dict(d, cp=cp)

            add("text-%s%s" % (cp, "-unicode" if wide else ""), "3 characters of ASCII or of the Unicode range without surrogates, code page %s" % cp, text)
    return hs


# ---------------------------------------------------------------- C33
AN_ITEM = u16(20) + b"\x2e\0" + bytes(range(16))
LAST = u16(20) + b"\x1f\x50" + bytes(range(32, 48))


def inner_among(B, kind, n, place=1):
    """An item of a type and size with two others in a block."""
    b = Body()
    b.add(u32(8 + 40 + n + 2) + u32(0xA000000C) + (AN_ITEM + LAST)[: 20 * place])
    at = b.add(u16(n) + bytes([kind]) + bytes(n - 3), [(3, n)])
    b.add((AN_ITEM + LAST)[20 * place :] + bytes(2))
    b.add(a_block(0xA0000005)[0])
    b.add(bytes(4))
    calm = u16(n) + b"\x61" + bytes(n - 3)
    return {"data": b.data(B, head(0)), "at": (76 + at[0], 76 + at[1]), "calm": calm, "kind": "inner", "place": place, "cp": "latin-1"}


def item_among(B, kind, n, tail=b"", place=1):
    """An item of a type and size with two others."""
    body = bytearray(u16(n) + bytes([kind]) + bytes(n - 3))
    for i, c in enumerate(tail):
        body[4 + i] = c
    b = Body()
    b.add(u16(40 + n + 2))
    b.add((AN_ITEM + LAST)[: 20 * place])
    at = b.add(bytes(body), [(3, 4), (4 + len(tail), n)] if n > 3 else [])
    b.add((AN_ITEM + LAST)[20 * place :] + bytes(2))
    b.add(split(lambda: shapes.info(60, {**shapes.BASE, 32: 3}, []))[0])
    b.add(a_string(False)[0])
    b.add(a_block(0xA0000005)[0])
    b.add(bytes(4))
    calm = u16(n) + b"\x61" + bytes(n - 3)
    return {"data": b.data(B, head(7)), "at": (76 + at[0], 76 + at[1]), "calm": calm, "kind": "item", "place": place, "cp": "latin-1"}


def block_among(B, sig, body, opens):
    """A block between others."""
    b = Body()
    b.add(a_list()[0])
    b.add(an_info("Local")[0])
    b.add(a_string(True)[0])
    b.add(a_block(0xA000000B if sig != 0xA000000B else 0xA0000004)[0])
    n = 8 + len(body)
    at = b.add(u32(n) + u32(sig) + bytes(body), [(8 + x, 8 + y) for x, y in opens])
    b.add(a_block(0xA0000005 if sig != 0xA0000005 else 0xA0000004)[0])
    b.add(bytes(4))
    calm = u32(n) + u32(0xA00000AA) + bytes(n - 8)
    return {"data": b.data(B, head(0x87)), "at": (76 + at[0], 76 + at[1]), "calm": calm, "kind": "block", "signature": sig, "cp": "latin-1"}


def any_block(B, n):
    """A block of any signature but those of its neighbours."""
    d = block_among(B, 0xA0000001, bytes(n), [(0, n)])
    del d["signature"]
    return d


def info_among(B, size, words, opens, texts=False):
    """Link information between other sections, all without texts."""
    b = Body()
    b.add(u16(22) + AN_ITEM + bytes(2))
    x = bytearray(size)
    x[0:4] = u32(size)
    for off, v in words.items():
        x[off : off + 4] = u32(v)
    at = b.add(x, opens)
    if texts:
        for _ in STRINGS:
            b.add(a_string(False)[0])
    b.add(a_block(0xA000000B)[0])
    b.add(a_block(0xA0000005)[0])
    b.add(bytes(4))
    calm = u32(size) + u32(28) + bytes(size - 8)
    d = b.data(B, head(0x7F if texts else 3))
    return {"data": d, "at": (76 + at[0], 76 + at[1]), "calm": calm, "kind": "info", "cp": "latin-1" if texts else None}


def string_among(B, i, wide, cp):
    b = Body()
    b.add(a_list()[0])
    b.add(an_info("Network")[0])
    for j, _ in enumerate(STRINGS):
        x = b.add(*(h30.free_string(wide) if i == j else a_string(wide)))
        at = x if i == j else (at if j > i else x)
    b.add(a_block(0xA0000005)[0])
    b.add(bytes(4))
    name = ("description", "relative_path", "working_directory", "command_line_arguments", "icon_location")[i]
    return {"data": b.data(B, head(0x7F | (0x80 if wide else 0))), "at": (76 + at[0], 76 + at[1]), "calm": a_string(wide)[0], "kind": "string",
            "string": name, "cp": cp}


def list_among(B, n, types):
    """A target list of one declared size, of items of any sizes."""
    from sx.values import b_or, byte_int

    b = Body()
    at = b.add(u16(n) + bytes(n), [(2, 2 + n)])
    b.add(an_info("Local")[0])
    b.add(a_string(False)[0])
    b.add(a_block(0xA0000005)[0])
    b.add(bytes(4))
    d = b.data(B, head(7))
    for i in range(2, n):
        # any could be a type
        c = byte_int(d.term(78 + i))
        B.require(b_or(*[c == t for t in types]))
    return {"data": d, "at": (76 + at[0], 76 + at[1]), "calm": u16(n) + bytes(n), "kind": "list", "cp": "latin-1"}


def c33(tier):
    hs = []

    def add(name, what, build, **k):
        hs.append(Harness(name, "own_damage", build, what, budget=30, **k))

    sizes = (3, 4, 6, 12, 16, 22, 26) if tier == "quick" else (3, 4, 5, 6, 8, 10, 12, 14, 16, 18, 20, 22, 26, 36)
    for kind in (0x00, 0x01, 0x1F, 0x2E, 0x2F, 0x31, 0x36, 0x41, 0x71, 0x74, 0x99):
        for n in sizes:
            if (kind in (0x41, 0x74) and n > 16 or kind == 0 and n > 22) and tier == "quick":
                continue
            add("item-%02x-%d" % (kind, n), "an item of type %02X and %d bytes of any content, between two others" % (kind, n),
                lambda B, kind=kind, n=n: item_among(B, kind, n))
            add("inner-%02x-%d" % (kind, n), "the same in a shell item block", lambda B, kind=kind, n=n: inner_among(B, kind, n))
        for place, where in ((0, "before"), (2, "after")):
            for n in (3, 6) if tier == "quick" else (3, 4, 6, 12):
                add("item-%s-%02x-%d" % (where, kind, n), "an item of type %02X and %d bytes of any content, %s two others" % (kind, n, where),
                    lambda B, kind=kind, n=n, place=place: item_among(B, kind, n, place=place))
                add("inner-%s-%02x-%d" % (where, kind, n), "the same in a shell item block", lambda B, kind=kind, n=n, place=place: inner_among(B, kind, n, place))
    add("item-network-bits", "a network item of 8 bytes with descriptions promised", lambda B: item_among(B, 0x42, 8))
    if tier != "quick":
        add("item-delegate-30", "a delegate item of 30 bytes of any content", lambda B: item_among(B, 0x74, 30))
    for nm, n, opens in (("size", 12, ((0, 2), (10, 12))), ("kind", 8, ((2, 3), (6, 8))), ("few", 5, ((2, 5),))):
        add("block-c-list-" + nm, "a shell item block of %d bytes, of any content at %s" % (n, opens),
            lambda B, n=n, opens=opens: block_among(B, 0xA000000C, u16(n - 2) + b"\x31" + bytes(n - 3), opens))
    for sig in range(0xA0000001, 0xA000000D):
        for n in (0, 1, 4, 7, 12, 20, 27):
            if sig == 0xA0000006 and n > 12 or sig in (0xA000000C, 0xA0000009) and n > 4 and tier == "quick":
                continue
            add("block-%x-%d" % (sig & 15, n), "a block %08X with %d bytes of any content, between two others" % (sig, n),
                lambda B, sig=sig, n=n: block_among(B, sig, bytes(n), [(0, n)]))
    for n in (8, 10) if tier == "quick" else (8, 10, 14, 18):
        add("store-%d" % n, "a property store with %d bytes of any content in its storage" % n,
            lambda B, n=n: block_among(B, 0xA0000009, u32(24 + n) + u32(0x53505331) + bytes(16) + bytes(n) + bytes(4), [(0, 2), (24, 24 + n)]))
    for nm, size, words, opens in (
        ("short", 12, {}, [(4, 12)]), ("cut", 20, {8: 1}, [(4, 8), (12, 20)]), ("none", 32, {4: 28}, [(8, 9), (16, 18), (28, 30)]), ("none-far", 32, {4: 28}, [(8, 9), (19, 20), (23, 24), (31, 32)]),
        ("local", 40, {8: 1, 16: 0, 24: 0}, [(4, 8), (12, 16), (28, 40)]), ("local-path", 40, {4: 28, 8: 1, 12: 0}, [(16, 20), (24, 28)]),
        ("network", 48, {4: 28, 8: 2, 20: 28, 24: 0}, [(28, 36)]), ("network-at", 48, {4: 28, 8: 2, 24: 0, 28: 20}, [(20, 24), (36, 40)]), ("network-net", 48, {4: 28, 8: 2, 20: 28, 24: 0, 28: 20}, [(36, 48)]), ("network-names", 52, {4: 28, 8: 2, 20: 28, 24: 0, 28: 24}, [(32, 52)]),
        ("wide", 44, {8: 1, 12: 0, 16: 0, 24: 0}, [(4, 5), (28, 44)]),
    ):
        add("info-" + nm, "link information of %d bytes, the bytes %s of any value, between others" % (size, opens),
            lambda B, size=size, words=words, opens=opens: info_among(B, size, words, opens), summary=True)
        if nm in ("local", "network-names") and tier == "quick":
            continue
        add("info-texts-" + nm, "the same before strings", lambda B, size=size, words=words, opens=opens: info_among(B, size, words, opens, True))
    for i, (bit, nm) in enumerate(STRINGS):
        for wide in (False, True):
            for cp in (None, "shift_jis") if not wide else (None,):
                add("%s-%s%s" % (nm, cp, "-unicode" if wide else ""), "a string of 2 characters of any content (code page %s), among all others" % cp,
                    lambda B, i=i, wide=wide, cp=cp: string_among(B, i, wide, cp))
    add("list-plain", "a target list of 8 bytes: any item sizes, types without content", lambda B: list_among(B, 8, (0, 0x61, 0x80, 4)))
    add("list-mixed", "a target list of 6 bytes: any item sizes, types 1F, 31, 41, 74", lambda B: list_among(B, 6, (0x1F, 0x31, 0x41, 0x74, 0, 4)))
    return hs


# ---------------------------------------------------------------- C34
def cuts(B, flags, wide=False, sections=3):
    """A file of fixed content which ends anywhere after the header."""
    b = Body()
    marks = [76]
    if flags & 1:
        a, z = b.add(u16(42) + AN_ITEM + LAST + bytes(2))
        marks += [76 + a, 77 + a, 78 + a, 98 + a, 118 + a, 76 + z]
    if flags & 2:
        a, z = b.add(an_info("Local" if sections & 1 else "Network")[0])
        marks += [76 + a + i for i in (1, 4, 8, 9, 12, 16, 20, 24, 28)] + [76 + z]
    for bit, _ in STRINGS:
        if flags & bit:
            a, z = b.add(a_string(wide)[0])
            marks += [76 + a, 77 + a, 78 + a, 76 + z]
    a, z = b.add(a_block(0xA0000005)[0])
    block = (76 + a, 76 + z)
    marks += [76 + a + i for i in (0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16)]
    b.add(bytes(4))
    d = b.data(B, head(flags | (0x80 if wide else 0)))
    names = ("description", "relative_path", "working_directory", "command_line_arguments", "icon_location")
    return {"data": d, "cut": B.int("cut", 76, len(d)), "marks": sorted(set(marks)), "list": flags & 1, "info": flags & 2, "block": block,
            "strings": [n for n, (bit, _) in zip(names, STRINGS) if flags & bit]}


def c34(tier):
    hs = []
    for h in c33(tier):
        if not h.name.startswith(("list-", "store-", "info-none")):
            h.scen = "announced"
            hs.append(h)
    for n in range(4, 8):
        def short(B, n=n):
            b = Body()
            b.add(a_block(0xA000000B)[0])
            b.add(u32(n) + bytes(n - 4), [(4, n)])
            b.add(a_block(0xA0000005)[0])
            b.add(bytes(4))
            return {"data": b.data(B, head(0)), "kind": "block"}

        hs.append(Harness("block-of-%d" % n, "announced", short, "a block of %d bytes, too short for a signature" % n))
    for nm, flags, wide, info in (
        ("blocks", 0, False, 1), ("list", 1, False, 1), ("local", 2, False, 1), ("network", 2, False, 0), ("strings", 0x7C, False, 1), ("strings-unicode", 0x7C, True, 1),
        ("all", 0x7F, False, 1), ("all-network", 0x7F, True, 0),
    ):
        hs.append(Harness("cut-" + nm, "announced_cut", lambda B, flags=flags, wide=wide, info=info: cuts(B, flags, wide, info),
                          "a file with the sections %02x, cut at any point after the header" % flags, budget=40))
    return hs


HARNESSES = {"C32": c32, "C33": c33, "C34": c34}
