"""Bytes the format leaves undefined."""
from harness import shapes
from harness.base import Harness
from harness.h30 import Body, STRINGS, a_block, a_list, a_string, an_info, head
from harness.shapes import u16, u32


def two(B, b, holes, flags, cp=None, full=True, warn=True):
    """A file, and one with other bytes in the holes. Warnings are not compared
    where a reader of all texts may try to decode what follows the last."""
    for lo, hi in holes:
        b.open.append((lo, hi))
    d = b.data(B, head(flags))
    n = sum(hi - lo for lo, hi in holes)
    return {"data": d, "unused": B.bytes("g", n), "holes": [(76 + lo, 76 + hi) for lo, hi in holes], "cp": cp, "full": full, "warn": warn and full}


def in_item(B, body, opens, holes, block, warn):
    """An item between two others."""
    b = Body()
    other = u16(20) + b"\x31\0" + u32(77) + bytes(4) + u16(16) + b"other\0"
    it = u16(2 + len(body)) + body
    size = len(it) + 2 * len(other) + 2
    b.add(u32(size + 8) + u32(0xA000000C) if block else u16(size))
    b.add(other)
    at, _ = b.add(it, [(2 + lo, 2 + hi) for lo, hi in opens])
    b.add(other + bytes(2) + (b"" if block else bytes(4)))
    if block:
        b.add(bytes(4))
    return two(B, b, [(at + 2 + lo, at + 2 + hi) for lo, hi in holes], 0 if block else 1, warn=warn)


def in_block(B, sig, body, opens, holes, warn):
    """A block between two others."""
    b = Body()
    b.add(*a_block(0xA0000004 if sig != 0xA0000004 else 0xA0000005))
    b.add(u32(8 + len(body)) + u32(sig))
    at, _ = b.add(body, opens)
    b.add(*a_block(0xA000000B if sig != 0xA000000B else 0xA0000003))
    b.add(bytes(4))
    return two(B, b, [(at + lo, at + hi) for lo, hi in holes], 0, warn=warn)


def in_info(B, size, words, texts, opens, holes, more=0, warn=False):
    """Link information, then strings."""
    body = bytearray(size)
    body[0:4] = u32(size)
    for off, v in words.items():
        body[off : off + 4] = u32(v)
    for off, s in texts.items():
        body[off : off + len(s)] = s
    b = Body()
    at, _ = b.add(bytes(body), opens)
    b.add(*a_string(False))
    b.add(*a_block(0xA0000004))
    b.add(bytes(4))
    return two(B, b, [(at + lo, at + hi) for lo, hi in holes], 2 | 4 | more, warn=warn)


def wide(s):
    return s.encode("utf-16-le")


def fill(n, parts):
    b = bytearray(n)
    for off, s in parts.items():
        b[off : off + len(s)] = s
    return bytes(b)


# type, bytes after the size; free values; undefined bytes
ITEMS = [
    ("root", "what follows the identifier of a root folder", fill(30, {0: b"\x1f"}), [(1, 18)], [(18, 30)]),
    ("volume", "what follows the name of a volume", fill(30, {0: b"\x2f", 1: b"C:\\\0"}), [(1, 2)], [(5, 30)]),
    ("volume-id", "the second byte of a volume with an identifier, and what follows", fill(26, {0: b"\x2e"}), [(2, 18)], [(1, 2), (18, 26)]),
    ("file", "the second byte of a file entry, and what follows its name", fill(36, {0: b"\x31", 12: b"abc\0"}), [(2, 6), (10, 12)], [(1, 2), (16, 36)]),
    ("file-wide", "the same of a Unicode file entry", fill(42, {0: b"\x36", 12: wide("abc\0")}), [(2, 6), (10, 12)], [(1, 2), (20, 42)]),
    ("network", "the second byte of a network location, and what follows its name", fill(11, {0: b"\x41", 3: b"\\\\s\0"}), [], [(1, 2), (7, 11)]),
    ("network-both", "the same of one with a description and comments", fill(17, {0: b"\x41", 2: b"\xc0", 3: b"\\\\s\0de\0co\0"}), [], [(1, 2), (13, 17)]),
    ("network-description", "the same of one with a description", fill(14, {0: b"\x42", 2: b"\x80", 3: b"\\\\s\0de\0"}), [], [(1, 2), (10, 14)]),
    ("panel", "what precedes the identifier of a control panel item, and what follows", fill(36, {0: b"\x71"}), [(14, 30)], [(1, 14), (30, 36)]),
    ("category", "the second byte of a control panel category, and what follows", fill(20, {0: b"\x01", 2: u32(0x39DE2184), 6: u32(3)}), [(6, 10)], [(1, 2), (10, 20)]),
    ("cpl", "the second byte of a control panel file, and what follows its texts", fill(30, {0: b"\0", 2: u32(0xFFFFFF9C), 6: u16(2) + u16(4), 10: b"p\0n\0c\0"}), [(2, 6)], [(1, 2), (16, 30)]),
    ("cpl-wide", "the unused bytes of a Unicode control panel file, and what follows its texts",
     fill(44, {0: b"\0", 2: u32(0xFFFFFF9C), 18: u16(2) + u16(4), 22: wide("p\0n\0c\0")}), [(2, 6)], [(1, 2), (6, 10), (11, 18), (34, 44)]),
    ("delegate", "the unused bytes of a delegate item and of its file entry",
     fill(90, {0: b"\x74", 2: u16(44), 4: b"CFSF", 8: u16(24) + b"\x31\0" + u32(5) + bytes(4) + u16(16) + b"nm\0"}),
     [(12, 16), (48, 80)], [(1, 2), (11, 12), (25, 48), (80, 90)]),
    ("volume-empty", "what follows the empty name of a volume", fill(30, {0: b"\x2f"}), [], [(2, 30)]),
    ("file-empty", "what follows the empty name of a file entry", fill(24, {0: b"\x32"}), [(2, 6)], [(1, 2), (13, 24)]),
    ("file-wide-empty", "what follows the empty name of a Unicode file entry", fill(24, {0: b"\x35"}), [(2, 6)], [(1, 2), (14, 24)]),
    ("network-empty", "what follows the empty name of a network location", fill(8, {0: b"\x42"}), [], [(1, 2), (4, 8)]),
    ("network-comments", "what follows the texts of a network location with comments", fill(13, {0: b"\x42", 2: b"\x40", 3: b"\\s\0co\0"}), [], [(1, 2), (9, 13)]),
    ("cpl-no-comments", "what follows the texts of a control panel file without comments", fill(30, {0: b"\0", 2: u32(0xFFFFFF9C), 6: u16(2) + u16(0), 10: b"p\0n\0"}), [(2, 6)], [(1, 2), (14, 30)]),
    ("internet", "the content of an item without fields", fill(16, {0: b"\x61"}), [], [(1, 16)]),
    ("places", "the content of an item without fields", fill(16, {0: b"\x73"}), [], [(1, 16)]),
    ("printers", "the content of an item without fields", fill(16, {0: b"\x72"}), [], [(1, 16)]),
    ("zip", "the content of an item without fields", fill(16, {0: b"\x52"}), [], [(1, 16)]),
]


def store(values):
    v = b"".join(u32(4 + len(x)) + x for x in values) + bytes(4)
    return u32(24 + len(v)) + u32(0x53505331) + bytes(16) + v


# signature, body; free values; undefined bytes
BLOCKS = [
    ("environment", "what follows the texts of an environment block", 0xA0000001, fill(790, {0: b"%X%\0", 260: wide("%X%\0")}), [], [(4, 260), (268, 780), (780, 790)]),
    ("icon", "what follows the texts of an icon block", 0xA0000007, fill(780, {0: b"i.ico\0", 260: wide("i.ico\0")}), [], [(6, 260), (272, 780)]),
    ("icon-empty", "what follows the empty texts of an icon block", 0xA0000007, bytes(780), [], [(1, 260), (262, 780)]),
    ("environment-empty", "what follows the empty texts of an environment block", 0xA0000001, bytes(780), [], [(1, 260), (262, 780)]),
    ("console-empty", "what follows an empty font name", 0xA0000002, bytes(196), [], [(16, 24), (38, 100)]),
    ("tracker-empty", "what follows an empty machine name", 0xA0000003, fill(88, {0: u32(88)}), [(24, 88)], [(9, 24)]),
    ("shim-empty", "what follows an empty shim layer", 0xA0000008, bytes(20), [], [(2, 20)]),
    ("darwin", "what follows the descriptor", 0xA0000006,
     fill(780, {0: b"w_1^VX!!!!!!!!!MKKSkE<\0", 260: wide("w_1^VX!!!!!!!!!MKKSkE>tW{~$4Q]c@II=l2xaTO5Z\0")}), [], [(23, 260), (260 + 88, 780)]),
    ("console", "the unused bytes of a console block, and what follows its font name", 0xA0000002, fill(200, {36: wide("Font\0")}), [(0, 16), (24, 36), (100, 136)], [(16, 24), (46, 100), (196, 200)]),
    ("tracker", "what follows the machine name of a tracker block, and the block", 0xA0000003, fill(100, {0: u32(88), 8: b"host\0"}), [(24, 88)], [(13, 24), (88, 100)]),
    ("code-page", "what follows the code page", 0xA0000004, fill(12, {}), [(0, 4)], [(4, 12)]),
    ("special", "what follows the fields of a special folder", 0xA0000005, fill(14, {}), [(0, 8)], [(8, 14)]),
    ("known", "what follows the fields of a known folder", 0xA000000B, fill(28, {}), [(0, 20)], [(20, 28)]),
    ("shim", "what follows a shim layer", 0xA0000008, fill(40, {0: wide("WIN7\0")}), [], [(10, 40)]),
    ("items", "what follows the items of a shell item block", 0xA000000C, u16(20) + b"\x31\0" + u32(77) + bytes(4) + u16(16) + b"other\0" + bytes(12), [(4, 8)], [(3, 4), (22, 32)]),
    ("store", "the unused bytes of values, and what follows a text and the store", 0xA0000009,
     store([u32(3) + b"\0" + u16(2) + bytes(2) + u16(7) + bytes(2), u32(4) + b"\0" + u16(31) + bytes(2) + u32(6) + wide("ab\0cde")]) + bytes(4) + bytes(8),
     [(28, 32), (37, 39)], [(32, 33), (39, 41), (49, 50), (64, 70), (78, 86)]),
    ("store-named", "the same with names", 0xA0000009,
     None, [], []),
]


def named():
    def val(name, x):
        return u32(9 + len(name) + len(x)) + u32(len(name)) + b"\0" + name + x
    v1 = val(wide("na\0m"), u16(2) + bytes(2) + u16(7) + bytes(2))
    v2 = val(wide("x\0"), u16(31) + bytes(2) + u32(4) + wide("ab\0c"))
    v = v1 + v2 + bytes(4)
    body = u32(24 + len(v)) + u32(0x53505331) + shapes.NAMED + v + bytes(4) + bytes(6)
    a = 24
    z = 24 + len(v1)
    return body, [], [(a + 8, a + 9), (a + 9 + 6, a + 9 + 8), (a + 17 + 6, a + 17 + 8), (z + 8, z + 9), (z + 13 + 8 + 6, z + 13 + 8 + 8), (len(body) - 6, len(body))]


INFOS = [
    ("local", "the space between the parts of local link information and around its texts", 100,
     {4: 28, 8: 1, 12: 32, 16: 60, 24: 72, 32: 26, 36: 3, 44: 16}, {48: b"lab\0", 60: b"C:\\a\0", 72: b"x\0"}, [(40, 44)], [(28, 32), (52, 60), (65, 72), (74, 100)]),
    ("local-wide", "the same with Unicode texts, and a longer header", 140,
     {4: 44, 8: 1, 12: 48, 16: 90, 24: 98, 28: 104, 32: 120, 48: 40, 52: 3, 60: 20, 64: 26},
     {74: wide("lab\0"), 90: b"C:\\\0", 98: b"x\0", 104: wide("C:\\\0"), 120: wide("x\0")}, [(56, 60)],
     [(36, 48), (68, 74), (82, 90), (94, 98), (100, 104), (112, 120), (124, 140)]),
    ("network", "the space between the parts of network link information and around its texts", 90,
     {4: 28, 8: 2, 20: 32, 24: 76, 32: 40, 36: 3, 40: 20, 44: 30, 48: 0x1A0000}, {52: b"\\\\s\0", 62: b"X:\0", 76: b"x\0"}, [],
     [(28, 32), (56, 62), (65, 76), (78, 90)]),
    ("network-wide", "the same with Unicode texts", 110,
     {4: 28, 8: 2, 20: 32, 24: 104, 32: 70, 36: 3, 40: 28, 44: 32, 48: 0x1A0000, 52: 42, 56: 60},
     {60: b"s\0", 64: b"d\0", 74: wide("sh\0"), 92: wide("X:\0"), 104: b"x\0"}, [],
     [(28, 32), (62, 64), (66, 74), (80, 92), (98, 104), (106, 110)]),
    ("local-empty", "what follows the empty texts of local link information", 70,
     {4: 28, 8: 1, 12: 28, 16: 50, 24: 60, 28: 22, 32: 3, 40: 16}, {}, [(36, 40)], [(45, 50), (51, 60), (61, 70)]),
    ("network-no-device", "the device and provider of network link information without them", 80,
     {4: 28, 8: 2, 20: 28, 24: 60, 28: 32, 32: 0, 36: 20, 40: 0}, {48: b"\\\\s\0", 60: b"\0"}, [], [(52, 60), (61, 80)]),
]


NO_TEXT = ("root", "volume-id", "panel", "category", "internet", "places", "printers", "zip", "code-page", "special", "known")


def c35(tier):
    hs = []
    for nm, what, body, opens, holes in ITEMS:
        for block in (False, True):
            hs.append(Harness("item-%s-%s" % (nm, "block" if block else "list"), "unused",
                              lambda B, nm=nm, body=body, opens=opens, holes=holes, block=block: in_item(B, body, opens, holes, block, nm in NO_TEXT),
                              "%s, between two others in a %s" % (what, "shell item block" if block else "target list"), budget=40))
    for nm, what, sig, body, opens, holes in BLOCKS:
        if body is None:
            body, opens, holes = named()
        hs.append(Harness("block-" + nm, "unused", lambda B, nm=nm, sig=sig, body=body, opens=opens, holes=holes: in_block(B, sig, body, opens, holes, nm in NO_TEXT),
                          what + ", between two others", budget=40))
    for nm, what, size, words, texts, opens, holes in INFOS:
        hs.append(Harness("info-" + nm, "unused", lambda B, size=size, words=words, texts=texts, opens=opens, holes=holes: in_info(B, size, words, texts, opens, holes),
                          what + ", before a string and a block", budget=40))
        hs.append(Harness("ignored-" + nm, "unused", lambda B, size=size, words=words, texts=texts: in_info(B, size, words, texts, [], [(4, size)], 0x100, True),
                          "link information that the flags say to ignore, before a string and a block", budget=40))

    def after(B, n):
        b = Body()
        it = u16(20) + b"\x31\0" + u32(77) + bytes(4) + u16(16) + b"other\0"
        b.add(u16(22 + n) + it + bytes(2))
        at, end = b.add(bytes(n))
        b.add(*an_info("Local"))
        b.add(bytes(4))
        return two(B, b, [(at, end)], 3)

    def reserved(B):
        b = Body()
        b.add(*a_list())
        b.add(*an_info("Network"))
        for bit, _ in STRINGS:
            b.add(*a_string(False))
        b.add(*a_block(0xA0000003))
        b.add(bytes(4))
        return two(B, b, [(-10, 0)], 0x7F, full=False)


    hs.append(Harness("list-end", "unused", lambda B: after(B, 10), "what follows the last item of a target list", budget=40))
    hs.append(Harness("reserved", "unused", reserved, "the reserved bytes of the header, in the reduced report", budget=40))
    return hs


HARNESSES = {"C35": c35}
