"""Nothing after the header makes parsing fail, and every walk ends."""
from harness.base import Harness, free, header, put
from harness.h06 import big
from harness.h07_09 import FILE, NETWORK, OTHER, UNKNOWN, VOLUME
from harness.h15_19 import u32
from harness.shapes import u16

BIG = 2**31 - 1


def typed(d, at, types):
    """The byte at an offset, if the file has it, is one of types."""
    from sx.values import b_or, byte_int

    c = byte_int(d.buf.byte(at))
    return b_or(*[c == x for x in types])


def c21(tier):
    deep = tier != "quick"

    def h(name, region, build, what, budget=40, summary=True, hi=None, **k):
        def b(B):
            d = {"data": build(B), "region": region}
            d.update(k)
            return d

        return Harness(name, "normal", b, what, summary=summary, budget=budget)

    def targets(name, types, count, what, **k):
        def b(B):
            d = big(B, 1, 0, **k)
            if types is not None:
                B.require(typed(d, 80, types))
            return d

        return h("targets-" + name, "targets", b, "ID list of up to %d items of any size and content, %s, cut anywhere; any file length below 2^31" % (count, what),
                 count=count)

    hs = [
        targets("bare", [0x52, 0x61, 0x72, 0x73], 1, "types without content"),
        targets("unknown", UNKNOWN, 1, "undefined types"),
        targets("root", [0x1E, 0x1F], 1, "types 1E, 1F"),
        targets("volume", VOLUME, 1, "volume types"),
        targets("file-narrow", [x for x in FILE if not x & 4], 1, "8-bit file entry types, no date", fix={86: bytes(4)}),
        targets("file-wide", [x for x in FILE if x & 4], 1, "Unicode file entry types, no date", fix={86: bytes(4)}),
        targets("file-dated", FILE, 1, "file entry types, item of 36 bytes", fix={76: u16(40), 78: u16(36)}),
        targets("panel", [0x70, 0x71, 1], 1, "control panel types"),
        targets("cpl", [0], 1, "type 00"),
        targets("delegate", [0x74], 1, "type 74 with a file entry", fix={82: u16(40), 88: u16(32), 90: b"\x31", 94: bytes(4)}),
    ]
    if deep:
        hs += [targets("file", FILE, 1, "file entry types"), targets("delegate-any", [0x74], 1, "type 74")]
    for n in (0, 1, 2, 3, 4):
        def small(B, n=n):
            # 0x40: read character by character
            t = header(flags=1)
            d = B.bytes("f", 81 + n, t)
            B.require(typed(d, 80, NETWORK))
            return d

        hs.append(h("network-%d" % n, "targets", small, "ID list and network item of any declared size, %d bytes of any content after the type" % n,
                    summary=False, count=1))

    def info(name, what, mask=0, need=None, **kw):
        def b(B):
            d = big(B, 2, mask, **kw)
            if need:
                B.require(need(B, d))
            return d

        hs.append(h("info-" + name, "info", b, "link information of any content and size, %s, cut anywhere; any file length below 2^31" % what))

    head = lambda lo, hi: lambda B, d: (B.num(d, 80, 4) >= lo) & (B.num(d, 80, 4) < hi)
    info("short", "at most 20 bytes of it", hi=96)
    info("short-ignored", "ignored or not, at most 14 bytes of it", 0x100, fix={80: u32(28)}, hi=90)
    for nm, w in (("none", 0), ("local", 1), ("network", 2)):
        info("short-" + nm, "%s, at most 32 bytes of it" % nm, fix={84: u32(w), **({96: u32(28)} if w == 2 else {})}, hi=108)
    for nm, lo, hi in (("28", 0, 29), ("32", 29, 36), ("36", 36, 2**32)):
        # words that are no part of the header of a smaller size
        info("local-volume-" + nm, "local, a volume but no paths, header size from %d below %d" % (lo, hi), need=head(lo, hi),
             fix={84: u32(1), 92: u32(0), 100: u32(0), 104: u32(0), 108: u32(0)}, lo=109)
        info("local-paths-" + nm, "local, paths but no volume, header size from %d below %d" % (lo, hi), need=head(lo, hi),
             fix={84: u32(1), 88: u32(0)}, lo=105)
    net = {84: u32(2), 80: u32(28), 92: u32(0), 96: u32(28), 100: u32(0)}
    for nm, what, fix in (
        ("names", "8-bit names", {108: u32(0), 112: u32(20), 120: u32(0)}),
        ("device", "8-bit names, flags", {112: u32(20), 116: u32(0), 120: u32(0)}),
        ("unicode", "Unicode names", {108: u32(0), 112: u32(28), 120: u32(0)}),
        ("unicode-flags", "one name in Unicode", {112: u32(28), 116: u32(0), 120: u32(20)}),
        ("unicode-device", "both names in Unicode, a valid device", {112: u32(28), 108: u32(1)}),
        ("provider", "8-bit names, provider types", {112: u32(20), 116: u32(0), 108: u32(2)}),
    ):
        info("network-" + nm, "network, " + what, fix={**net, **fix}, lo=140 if nm == "provider" else 109)
    at36 = {84: u32(2), 80: u32(36), 96: u32(36), 120: u32(20), 128: u32(0)}
    info("network-36-suffix", "network, header with Unicode offsets, suffix", fix={**at36, 116: u32(0), 124: u32(0)}, lo=113)
    info("network-36-names", "network, header with Unicode offsets, names", fix={**at36, 100: u32(0), 104: u32(0), 108: u32(0)}, lo=113)
    if deep:
        info("local", "local", fix={84: u32(1)})
        info("network", "network", fix={84: u32(2)})
        info("any", "ignored or not", 0x100)
        info("short-any", "ignored or not, at most 32 bytes of it", 0x100, hi=108)
        info("network-any-28", "network, 8-bit names", fix={**net, 112: u32(20)}, lo=109)
        info("network-any-36", "network, header with Unicode offsets", fix={84: u32(2), 80: u32(36), 96: u32(36), 120: u32(20)}, lo=113)
    for nm, mask in (("name-path", 0x8C), ("path-dir", 0x98), ("dir-args", 0xB0), ("args-icon", 0xE0), ("name-icon", 0xC4)) + ((("all", 0xFC),) if deep else ()):
        hs.append(h("strings-" + nm, "strings", lambda B, mask=mask: big(B, 0, mask), "string flags in %x and any counts, cut anywhere; any file length below 2^31" % mask))
    for k in (0xA0000001, 0xA0000002, 0xA0000003, 0xA0000004, 0xA0000005, 0xA0000007, 0xA0000008, 0xA000000B):
        hs.append(h("block-%x" % (k & 15), "blocks", lambda B, k=k: big(B, 0, 0, fix={80: u32(k)}),
                    "block %08X of any content and size, cut anywhere; any file length below 2^31" % k, count=1))
    hs.append(h("blocks", "blocks", lambda B: big(B, 0, 0, fix={80: u32(0xFFFFFFFF)}), "undefined block, then another of fixed layout, cut anywhere",
                count=2, plain=True))
    named = bytes.fromhex("05d5cdd59c2e1b10939708002b2cf9ae")
    for k in (0, 2, 3, 11, 30, 31, 64, 72):
        for nm, f, at in (("ids", {92: bytes(16)}, 117), ("names", {92: named, 112: u32(4)}, 121)):
            hs.append(h("store-%s-%d" % (nm, k), "store", lambda B, f=f, k=k, at=at: big(B, 0, 0, fix={80: u32(0xA0000009), **f, at: u16(k)}),
                        "property store block with one storage and a value of type %d of any content and size%s, cut anywhere" % (
                            k, ", a name of 4 bytes" if nm == "names" else ""), count=1, values=1))
    for nm, f in (("ids", {92: bytes(16)}), ("names", {92: named, 112: u32(4)})):
        hs.append(h("store-%s-type" % nm, "store", lambda B, f=f: big(B, 0, 0, fix={76: u32(60), 80: u32(0xA0000009), 84: u32(48), 108: u32(20), **f}),
                    "property store block with one storage and a value of 20 bytes of any type and content, cut anywhere", count=1, values=1))
    for nm, f in (("ids", {92: bytes(16)}), ("names", {92: named}), ("any", {})) if deep else ():
        hs.append(h("store-" + nm, "store", lambda B, f=f: big(B, 0, 0, fix={80: u32(0xA0000009), **f}),
                    "property store block with one storage and value of any content and size, cut anywhere", count=1, values=1))
    for nm, ts in (("bare", [0x52, 0x61, 0x72, 0x73] + UNKNOWN), ("root", [0x1E, 0x1F]), ("volume", VOLUME), ("file", [0x31, 0x32, 0x36]),
                   ("panel", [0x70, 0x71, 1]), ("cpl", [0]), ("delegate", [0x74])):
        def block(B, ts=ts, fix={88: u16(40), 94: u16(32), 96: b"\x31", 100: bytes(4)} if nm == "delegate" and not deep else {}):
            d = big(B, 0, 0, fix={80: u32(0xA000000C), **fix})
            B.require(typed(d, 86, ts))
            return d

        hs.append(h("item-block-" + nm, "item-block", block, "shell item block with one item of any content and size, cut anywhere", count=1))

    def darwin(B, n):
        t = header()
        put(t, 76, u32(788) + u32(0xA0000006))
        put(t, 84, bytes(260 - 2))
        return B.bytes("f", 76 + 268 + n, t)

    for n in (0, 3, 4):
        hs.append(h("darwin-%d" % n, "blocks", lambda B, n=n: darwin(B, n), "Darwin block cut to %d bytes of the Unicode descriptor, any content" % n,
                    summary=False, count=1))
    heavy = ("blocks", "info", "targets-delegate", "targets-root", "item-block", "store")
    hs.sort(key=lambda x: not x.name.startswith(heavy))
    return hs


def c22(tier):
    more = 1 if tier == "quick" else 2

    def h(name, build, what, budget=45, summary=True, steps=None, **k):
        return Harness(name, "progress", lambda B: dict(data=build(B), **k), what, summary=summary, budget=budget, steps=steps or 300 * more,
                       replay_timeout=15)


    def items(B, n):
        d = big(B, 1, 0, hi=78 + n)
        from sx.values import b_or, byte_int

        # content plays no part in the walk
        for at in range(80, 78 + n):
            c = byte_int(d.buf.byte(at))
            B.require(b_or(c == 0x61, c == 0x80, c == 0))
        return d

    def no_darwin(B, n, **k):
        # the Darwin block is read into its text, which no walk depends on
        d = big(B, 0, 0, hi=76 + n, **k)
        for at in range(80, 76 + n):
            B.require(B.num(d, at, 4) != 0xA0000006)
        return d

    def block_items(B, n):
        d = big(B, 0, 0, hi=84 + n, fix={80: u32(0xA000000C)})
        from sx.values import b_or, byte_int

        for at in range(86, 84 + n):
            c = byte_int(d.buf.byte(at))
            B.require(b_or(c == 0x61, c == 0x80, c == 0))
        return d

    hs = [
        h("items", lambda B: items(B, 8 * more), "ID list of any declared size over at most %d bytes, of three values each" % (8 * more)),
        h("blocks", lambda B: no_darwin(B, 13 * more), "any extra data of at most %d bytes without a Darwin signature" % (13 * more)),
        h("item-block", lambda B: block_items(B, 6 * more), "shell item block of any declared size over at most %d bytes of items, of three values each" % (6 * more)),
        h("storages", lambda B: big(B, 0, 0, hi=76 + 8 + 28 * more, fix={76: u32(0x70), 80: u32(0xA0000009)}),
          "property store of any storages over at most %d bytes" % (28 * more)),
        h("storages-far", lambda B: no_darwin(B, 8 + 27 * more, fix={80: u32(0xA0000009), 88: u32(0x53505331), 92: bytes(16)}),
          "property store and storage of any size over at most %d bytes" % (27 * more)),
    ]
    return hs


HARNESSES = {"C21": c21, "C22": c22}
