import struct

from harness.base import Harness, free, header, put


def listed(B, types, n_hi=78 + 2**17, fix=None):
    """Header, then an ID list of symbolic size; the type byte of its first
    item is one of types (None: any); fix gives known bytes of the item."""
    t = header(flags=1)
    for off, data in (fix or {}).items():
        put(t, 78 + off, data)
    n = B.int("n", 78, n_hi)
    d = B.bytes("f", n, t)
    if types is not None:
        from sx.values import b_or, byte_int

        c = byte_int(d.buf.byte(80))
        B.require(b_or(*[c == x for x in types]))
    return d


def one(types, mn, closed=True, what="", budget=60, warn=False, fix=None):
    return dict(build=lambda B: {"data": listed(B, types, fix=fix), "min": mn, "closed": closed, "warn": warn},
                bounds="one item of any size from %d, %s; any file length below 2^17" % (mn, what), summary=True, budget=budget)


FILE = [t for t in range(256) if t & 0x70 == 0x30]
VOLUME = [t for t in range(256) if t & 0x70 == 0x20]
NETWORK = [t for t in range(256) if t & 0x70 == 0x40]
OTHER = [0, 1, 0x1E, 0x1F, 0x52, 0x61, 0x70, 0x71, 0x72, 0x73, 0x74]
UNKNOWN = [t for t in range(256) if t not in FILE + VOLUME + NETWORK + OTHER]


def c07(tier):
    hs = []
    for nm, ts, mn in (("classes", [0x52, 0x61, 0x72, 0x73], 3), ("unknown", UNKNOWN, 3), ("volume", VOLUME, 23),
                       ("file", [0x31, 0x32, 0x35, 0x36, 0xB1], 15), ("other", [0, 1, 0x1F, 0x70], 40)):
        hs.append(Harness("open-" + nm, "one_item", **one(ts, mn, False, "type byte among %d values, item ends with the list" % len(ts), warn=nm in ("classes", "unknown"))))
    k = 2 if tier == "quick" else 4
    hs.append(Harness("walk", "item_walk", lambda B: {"data": listed(B, None), "items": k},
                      "up to %d items of any size from 3 and any type without content; any list size and file length below 2^17" % k,
                      summary=True, budget=60))
    for nm, ts, nested in (("bare", [0x52, 0x61, 0x72, 0x73] + UNKNOWN, False), ("volume", VOLUME, False), ("file", [0x31, 0x36], False),
                           ("root", [0x1F], False), ("panel", [0x70], False), ("category", [1], False), ("cpl", [0], False),
                           ("delegate", [0x74], True)):
        hs.append(Harness("own-" + nm, "own_bytes", lambda B, ts=ts, nested=nested: {"data": listed(B, ts, fix={8: bytes(4), 18: bytes(4)} if nm == "file" else {18: bytes(4), 4: b"\x28\0"} if nested else None), "nested": nested},
                          "an item of any size from 3, type byte among %d values, followed by another item; with and without what follows; any file length below 2^17" % len(ts),
                          summary=True, budget=60))
    hs.append(Harness("own-overlong", "own_bytes", lambda B: {"data": listed(B, [0x74], fix={18: bytes(4), 4: b"\x28\0"}), "nested": "overlong"},
                      "a delegate item of any size from 78 whose file entry says it is longer than the item, followed by another item; any file length below 2^17",
                      summary=True, budget=60))
    for dec in (False, True):
        hs.append(Harness("block-decoded" if dec else "block", "item_block", lambda B, dec=dec: {"data": block(B), "items": k, "decoded": dec},
                          "shell item block with up to %d items of any size, %s; any block size and file length below 2^31" %
                          (k, "types 31, 2E and 70" if dec else "types without content"), summary=True, budget=60))
    return hs


def block(B):
    t = header()
    put(t, 80, struct.pack("<I", 0xA000000C))
    return B.bytes("f", B.int("n", 90, 2**31 - 1), t)


def network(B, n, ts=(0x41, 0x46)):
    """Network location with n bytes of text, any content flags"""
    from sx.values import b_or, byte_int

    m = 5 + n
    t = header(flags=1)
    put(t, 76, struct.pack("<HH", m + 2, m))
    put(t, 78 + m, bytes(2))
    d = B.bytes("f", 80 + m, t)
    c = byte_int(d.term(80))
    B.require(b_or(*[c == x for x in ts]))
    return {"data": d, "min": m, "closed": True, "warn": False}


def c08(tier):
    return [
        Harness("root", "one_item", **one([0x1E, 0x1F], 20, True, "type 1E or 1F", warn=True)),
        Harness("volume", "one_item", **one(VOLUME, 23, True, "every volume type byte")),
        Harness("file", "one_item", **one(FILE, 15, True, "every file entry type byte", 90)),
    ]


def c09(tier):
    return [
        Harness("panel", "one_item", **one([0x70, 0x71], 32, True, "type 70 or 71")),
        Harness("category", "one_item", **one([1], 12, True, "type 01", warn=True)),
        Harness("cpl", "one_item", **one([0], 13, True, "type 00")),
        Harness("delegate", "one_item", **one([0x74], 52, True, "type 74, no date", fix={18: bytes(4)})),
        Harness("delegate-date", "one_item", **one([0x74], 52, True, "type 74, nested type 32", fix={12: b"\x32"})),
    ] + [
        Harness("network-%d" % n, "one_item", lambda B, n=n: network(B, n), "network location with %d bytes of text, any content" % n, budget=60)
        for n in ((0, 1, 2, 3, 4, 5) if tier == "quick" else range(9))
    ]


HARNESSES = {"C07": c07, "C08": c08, "C09": c09}
