"""Files of a fixed length with one structure of free content each."""
import struct

from harness.base import free, header, put

NAMED = bytes.fromhex("05d5cdd59c2e1b10939708002b2cf9ae")


def u16(v):
    return struct.pack("<H", v)


def u32(v):
    return struct.pack("<I", v)


def laid(flags, body, open_at):
    """A template: header, body, terminator; ranges of the body are free."""
    t = header(flags=flags)
    put(t, 76, bytes(body) + bytes(4))
    for a, b in open_at:
        free(t, 76 + a, 76 + b)
    return t, 76 + len(body) + 4


def item(n, fixed):
    """One item of n bytes in a list; only the given bytes are fixed."""
    body = u16(n + 2) + u16(n) + bytes(n)
    opens = [i for i in range(4, 2 + n)]
    body = bytearray(body)
    for off, data in fixed.items():
        for i, c in enumerate(data):
            body[2 + off + i] = c
            opens.remove(2 + off + i)
    return laid(1, bytes(body), [(i, i + 1) for i in opens])


def info(size, words, opens):
    """Link information: words by offset; free ranges."""
    body = bytearray(size)
    body[0:4] = u32(size)
    for off, v in words.items():
        body[off : off + 4] = u32(v)
    return laid(2, bytes(body), opens)


def block(sig, body, opens):
    """An extra block; opens are ranges of its body (after the signature)."""
    return laid(0, u32(8 + len(body)) + u32(sig) + bytes(body), [(8 + a, 8 + b) for a, b in opens])


def storage(fmt, values):
    b = bytes(4) + fmt + b"".join(values) + bytes(4)
    return u32(len(b) + 4) + b


def metadata(named):
    """A property store of one storage with a number, a text and a date."""
    if named:
        def val(body):
            return u32(13 + len(body)) + u32(4) + b"\0" + b"x\0\0\0" + body
        head = 13
    else:
        def val(body):
            return u32(9 + len(body)) + bytes(5) + body
        head = 9
    vals = [val(u16(2) + bytes(4)), val(u16(31) + bytes(2) + u32(2) + bytes(4)), val(u16(64) + bytes(10))]
    store = storage(NAMED if named else bytes(16), vals)
    opens = [] if named else [(8, 20)]
    pos = 24
    for v in vals:
        if not named:
            opens.append((pos + 4, pos + 9))
        opens.append((pos + head + (2 if len(v) != head + 12 or head != 9 else 2), pos + head + 4))
        opens.append((pos + len(v) - 4, pos + len(v)))
        pos += len(v)
    # the word after the type is padding and the text has a length of 2
    return block(0xA0000009, store + bytes(4), opens)


def darwin():
    s = "w_1^VX!!!!!!!!!MKKSkEXCELFiles>tW{~$4Q]c@II=l2xaTO5Z".encode("utf-16-le").ljust(520, b"\0")
    at = 260
    return block(0xA0000006, bytes(260) + s, [(0, 4), (at + 44, at + 45)])


def item_block():
    it = u16(24) + b"\x31" + bytes(21)
    return block(0xA000000C, it + bytes(2), [(3, 24)])


ITEMS = [
    ("root", "a root folder item", lambda: item(20, {2: b"\x1f"})),
    ("volume", "a volume item with a name", lambda: item(25, {2: b"\x2f"})),
    ("volume-id", "a volume item with an identifier", lambda: item(24, {2: b"\x2e"})),
    ("file", "a file entry with any date and attributes", lambda: item(24, {2: b"\x31"})),
    ("file-wide", "a Unicode file entry with any date", lambda: item(26, {2: b"\x36"})),
    ("network", "a network location", lambda: item(9, {2: b"\x41"})),
    ("panel", "a control panel item", lambda: item(32, {2: b"\x71"})),
    ("category", "a control panel category", lambda: item(12, {2: b"\x01"})),
    ("cpl", "a control panel file", lambda: item(20, {2: b"\0", 8: b"\2\0\4\0"})),
    ("cpl-wide", "a Unicode control panel file", lambda: item(34, {2: b"\0", 12: b"\0", 20: b"\1\0\2\0"})),
    ("delegate", "a delegate item", lambda: item(80, {2: b"\x74", 4: u16(40), 10: u16(32), 12: b"\x31"})),
    ("unknown", "an item of an undefined type", lambda: item(6, {2: b"\x99"})),
]

BASE = {4: 28, 8: 1, 12: 28, 16: 52, 20: 0, 24: 58, 28: 24, 40: 16}
WIDE = {4: 36, 8: 1, 12: 36, 16: 66, 20: 0, 24: 68, 28: 70, 32: 76, 36: 30, 48: 20, 52: 24}
SHARE = {4: 28, 8: 2, 12: 0, 16: 0, 20: 28, 24: 56, 28: 28, 32: 2, 36: 20, 40: 24}
SHARE_WIDE = {4: 28, 8: 2, 12: 0, 16: 0, 20: 28, 24: 70, 28: 42, 32: 2, 36: 28, 40: 0, 48: 30, 52: 36}

INFOS = [
    ("drive", "local link information with any drive type and serial number", lambda: info(60, BASE, [(32, 40)])),
    ("local", "local link information with any texts", lambda: info(60, {**BASE, 32: 3}, [(44, 51), (52, 57)])),
    ("local-wide", "local link information with any Unicode texts and label", lambda: info(84, {**WIDE, 40: 2}, [(60, 65), (70, 75), (76, 80)])),
    ("provider", "network link information with any provider type and flags", lambda: info(60, SHARE, [(32, 36), (44, 48)])),
    ("share", "network link information with any texts", lambda: info(60, SHARE, [(48, 51), (52, 55), (56, 59)])),
    ("share-wide", "network link information with any Unicode texts", lambda: info(76, SHARE_WIDE, [(58, 63), (64, 69), (70, 75)])),
]


def opaque():
    return block(0xA00000FF, bytes(7), [(0, 7)])


def appended():
    t = header()
    put(t, 76, bytes(4))
    return t, 76 + 4 + 5


def several():
    """Two blocks, one with an undefined signature."""
    b = u32(12) + u32(0xA0000004) + bytes(4) + u32(13) + u32(0xA0000055) + bytes(5)
    return laid(0, b, [(8, 12), (20, 25)])


BLOCKS = [
    ("opaque", "a block with an undefined signature", opaque),
    ("several", "a known block and one with an undefined signature", several),
    ("store", "a property store of a number, a text and a date with integer names", lambda: metadata(False)),
    ("store-named", "a property store of a number, a text and a date with string names", lambda: metadata(True)),
    ("darwin", "a Darwin descriptor with a free feature character", darwin),
    ("item-list", "a shell item block with a file entry", item_block),
    ("appended", "appended data", appended),
]



def short_blocks():
    """Blocks that end before the fields of their layout."""
    out = []
    for sig in range(0xA0000001, 0xA000000D):
        for n in (0, 3) if sig == 0xA000000C else (0, 3, 7):
            out.append(("short-%x-%d" % (sig & 15, 8 + n), "a block %08X of %d bytes" % (sig, 8 + n), lambda sig=sig, n=n: block(sig, bytes(n), [(0, n)])))
    return out


ALL = ITEMS + INFOS + BLOCKS


def made(B, make):
    t, n = make()
    return {"data": B.bytes("f", n, t), "fits": False}


def harness(name, scen, make, what, budget=30, **k):
    """A harness over one shape; texts are opaque unless the code looks into
    them."""
    from harness.base import Harness

    return Harness(name, scen, lambda B: dict(made(B, make), **k), what, summary="darwin" not in name, budget=budget)
