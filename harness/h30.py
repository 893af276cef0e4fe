"""Sections among other sections."""
import struct

from harness import shapes
from harness.base import Harness, free, header, put
from harness.shapes import u16, u32

# flag bits that decide about sections: their presence, IsUnicode, ForceNoLinkInfo
LAYOUT = 0x1FF

STRINGS = [(4 << i, nm) for i, nm in enumerate(("description", "relative-path", "working-directory", "arguments", "icon"))]


class Body:
    """Bytes after the header with free ranges."""

    def __init__(self):
        self.b = bytearray()
        self.open = []

    def add(self, data, opens=()):
        at = len(self.b)
        self.b += data
        self.open += [(at + lo, at + hi) for lo, hi in opens]
        return at, len(self.b)

    def data(self, B, head, name="f"):
        t = {i: c for i, c in enumerate(head)}
        put(t, 76, bytes(self.b))
        for lo, hi in self.open:
            free(t, 76 + lo, 76 + hi)
        return B.bytes(name, 76 + len(self.b), t)


def head(flags):
    t = header(flags=flags)
    return bytes(t[i] for i in range(76))


# where the texts of a section are: their first character stays free
TEXTS = {
    "item-volume": [(5, 25, 2)], "item-file": [(16, 26, 2)], "item-file-wide": [(16, 28, 2)], "item-delegate": [(26, 44, 2)],
    "item-cpl": [(15, 16, 0), (17, 22, 1)], "item-cpl-wide": [(28, 36, 4)], "block-item-list": [(24, 34, 2)],
    "info-local": [(44, 51, 1), (52, 57, 1)], "info-local-wide": [(60, 65, 2), (70, 75, 2), (76, 80, 2)],
    "info-share": [(48, 51, 1), (52, 55, 1), (56, 59, 1)], "info-share-wide": [(58, 63, 2), (64, 69, 2), (70, 75, 2)],
    "block-store": [(64, 68, 2)], "block-store-named": [(72, 76, 2)],
    "fixed-1": [(8, 268, 1), (268, 788, 2)], "fixed-7": [(8, 268, 1), (268, 788, 2)], "fixed-2": [(44, 108, 2)],
    "fixed-3": [(16, 32, 2)], "fixed-8": [(8, 136, 4)],
}


def split(make, texts=()):
    """The only section of a shape, and its free ranges."""
    t, n = make()
    body = bytes(t.get(i, 0) for i in range(76, n - 4))
    fixed = {i for lo, hi, k in texts for i in range(lo + k, hi)}
    return body, [(i - 76, i - 75) for i in range(76, n - 4) if i not in t and i - 76 not in fixed]


def a_list():
    it = u16(20) + b"\x31\0" + u32(0) + bytes(4) + u16(16) + b"name\0\0"
    return u16(22) + it + bytes(2), [(6, 10), (14, 16)]


def an_info(kind):
    if kind == "Local":
        return split(lambda: shapes.info(60, {**shapes.BASE, 32: 3}, [(36, 40)]))
    return split(lambda: shapes.info(60, {**shapes.SHARE, 44: 0x1A0000}, []))


def a_string(wide):
    return (u16(2) + b"a\0b\0", []) if wide else (u16(2) + b"ab", [])


def free_string(wide):
    return (u16(2) + bytes(4), [(2, 6)]) if wide else (u16(2) + bytes(2), [(2, 4)])


def a_block(sig):
    if sig == 0xA0000003:
        return split(lambda: shapes.block(sig, u32(88) + u32(0) + bytes(80), [(24, 80)]))
    if sig == 0xA000000B:
        return split(lambda: shapes.block(sig, bytes(20), [(0, 20)]))
    if sig == 0xA0000005:
        return split(lambda: shapes.block(sig, u32(37) + u32(0), [(0, 4)]))
    return split(lambda: shapes.block(sig, u32(1252), [(0, 4)]))


def among(B, kind, focus, flag, wide, info="Local", others=0x7F, cp=None):
    """The focused section among the others."""
    b = Body()
    sections = others | flag
    at = None
    if sections & 1:
        x = b.add(*(focus if kind == "target" else a_list()))
        at = x if kind == "target" else at
    if sections & 2:
        x = b.add(*(focus if kind == "info" else an_info(info)))
        at = x if kind == "info" else at
    for bit, _ in STRINGS:
        if sections & bit:
            mine = kind == "string" and bit == flag
            x = b.add(*(focus if mine else a_string(wide)))
            at = x if mine else at
    page = u32(12) + u32(0xA0000004) + u32(437)
    if kind != "block":
        b.add(page)
        b.add(*a_block(0xA0000003))
        b.add(*a_block(0xA000000B))
    else:
        sig = bytes(focus[0][4:8])
        if sig != page[4:8]:
            b.add(page)
        for k in (0xA0000003, 0xA000000B):
            if k == 0xA000000B:
                at = b.add(*focus)
            if u32(k) != sig:
                b.add(*a_block(k))
    b.add(bytes(4))
    word = sections | (0x80 if wide else 0)
    t = bytearray(head(word))
    data = b.data(B, t)
    alone = flag | (0x80 if wide and kind == "string" else 0)
    return {"data": data, "at": (76 + at[0], 76 + at[1]), "head": head(alone), "cp": cp}


def whole(B, lo, hi, bits, wide):
    """All sections with fixed content; a range or some flags of the header
    are free."""
    b = Body()
    b.add(a_list()[0])
    b.add(an_info("Local")[0])
    for _ in STRINGS:
        b.add(a_string(wide)[0])
    for k in (0xA0000003, 0xA000000B, 0xA0000005):
        b.add(a_block(k)[0])
    b.add(bytes(4))
    word = 0x7F | (0x80 if wide else 0)
    t = {i: c for i, c in enumerate(head(word))}
    put(t, 76, bytes(b.b))
    free(t, lo, hi)
    d = B.bytes("f", 76 + len(b.b), t)
    if bits:
        B.require((B.num(d, lo, 4) & (0xFFFFFFFF ^ bits)) == word)
    return {"data": d, "head": head(word)}


def twice(B, head, body, opens, other_cp, cp=None):
    """Two files of a layout one after the other: each of its own content, or
    both of the same, read with different code pages."""
    d = {"last": 0, "steps": ["op0"], "op0": 0, "spoil": True, "late": True, "other_cp": other_cp, "cp": cp, "fits": False}
    for name, key in (("f", "data"), ("g", "other")):
        b = Body()
        b.add(body, opens)
        b.add(bytes(4))
        d[key] = d["data"] if key == "other" and other_cp else b.data(B, head, name)
    return d


def twins():
    """Layouts for twice: (name, what, head, body and free ranges with or
    without texts)."""
    for group, shapes_ in (("item", shapes.ITEMS), ("info", shapes.INFOS), ("block", shapes.BLOCKS)):
        for nm, what, make in shapes_:
            t = make()[0]
            top = bytes(t.get(i, 0) for i in range(76))
            texts = TEXTS.get(group + "-" + nm, ())
            one = texts
            if nm in ("network", "provider", "darwin"):
                one = None
            elif nm in ("delegate", "share", "share-wide", "local-wide", "cpl-wide", "item-list", "file"):
                # only the last text differs
                one = [(lo, hi, 0) for lo, hi, k in texts[:-1]] + [(lo, hi, k if len(texts) > 1 and nm != "cpl-wide" else 0) for lo, hi, k in texts[-1:]]
            yield group + "-" + nm, what, top, split(make, texts), None if one is None else split(make, one)
    for i, (bit, nm) in enumerate(STRINGS):
        for wide in (False, True):
            x = free_string(wide)
            yield "string-%s%s" % (nm, "-unicode" if wide else ""), "a string of 2 characters", head(bit | (0x80 if wide else 0)), x, x


def after_other(tier):
    hs = []
    for nm, what, top, every, one in twins():
        for cp in (None, "cp437"):
            x = every if cp else one
            if x is not None:
                hs.append(Harness("two-%s-%s" % (nm, cp), "pure", lambda B, top=top, x=x, cp=cp: twice(B, top, *x, cp),
                                  what + " of any content, reported after another file of the same layout (%s)" % ("the same bytes, code page cp437" if cp else "any content"), budget=40))
    return hs


def recoded(tier):
    hs = []
    for nm, what, top, every, one in twins():
        if TEXTS.get(nm) or nm.startswith("string"):
            for cp in ("cp1250", "shift_jis") if nm.startswith("string") else ("cp1250",):
                hs.append(Harness("again-%s-%s" % (nm, cp), "pure", lambda B, top=top, every=every, cp=cp: twice(B, top, *every, "cp437", cp),
                                  what + " of any content, read with code page %s after it was read with cp437" % cp, budget=40))
    return hs


def c30(tier):
    hs = []

    def h(name, what, kind, make, flag, **k):
        for wide in (False, True):
            # the other sections are of either kind, too
            info = "Network" if wide else "Local"
            hs.append(Harness(name + ("-unicode" if wide else ""), "independent", lambda B, wide=wide, info=info: among(B, kind, split(make, TEXTS.get(name, ())), flag, wide, info),
                              what + ", among all other sections (%s link information%s) and alone" % (info.lower(), "; IsUnicode set" if wide else ""), budget=30))

    for nm, what, make in shapes.ITEMS:
        h("item-" + nm, what, "target", make, 1)
    for nm, what, make in shapes.INFOS:
        h("info-" + nm, what, "info", make, 2)
    for nm, what, make in shapes.BLOCKS:
        if nm != "appended":
            h("block-" + nm if nm != "darwin" else nm, what, "block", make, 0)
    for sig in (0xA0000001, 0xA0000002, 0xA0000003, 0xA0000004, 0xA0000005, 0xA0000007, 0xA0000008, 0xA000000B):
        n = {1: 780, 2: 196, 3: 88, 4: 4, 5: 8, 7: 780, 8: 128, 11: 20}[sig & 15]
        h("fixed-%x" % (sig & 15), "a block %08X" % sig, "block", lambda sig=sig, n=n: shapes.block(sig, bytes(n), [(0, n)]), 0)
    for i, (bit, nm) in enumerate(STRINGS):
        for wide in (False, True):
            hs.append(Harness(nm + ("-unicode" if wide else ""), "independent", lambda B, bit=bit, wide=wide: among(B, "string", free_string(wide), bit, wide),
                              "any text of 2 characters, among all other sections and alone", budget=30))
    for i, (lo, hi) in enumerate(((4, 20), (28, 36), (36, 44), (44, 52), (52, 64), (64, 66), (66, 76))):
        hs.append(Harness("header-%d" % lo, "any_header", lambda B, lo=lo, hi=hi: whole(B, lo, hi, 0, False), "all sections, header bytes %d to %d free" % (lo, hi), budget=30))
    for wide in (False, True):
        for sh in range(9, 32, 6):
            bits = (0x3F << sh) & 0xFFFFFFFF
            hs.append(Harness("flags-%08x%s" % (bits, "-unicode" if wide else ""), "any_header", lambda B, bits=bits, wide=wide: whole(B, 20, 24, bits, wide), "all sections, link flags %08X free" % bits, budget=30))
        hs.append(Harness("attributes%s" % ("-unicode" if wide else ""), "any_header", lambda B, wide=wide: whole(B, 24, 28, 0, wide), "all sections, file attributes free", budget=30))
    return hs


def elsewhere(B, name, make, block, place):
    """An item of a shape; what stands around it in another file."""
    body, opens = split(make, TEXTS.get("item-" + name, ()))
    body, opens = body[2:-2], [(lo - 2, hi - 2) for lo, hi in opens]
    t = {}
    put(t, 0, body)
    for lo, hi in opens:
        free(t, lo, hi)
    return placed(B.bytes("f", len(body), t), block, place)


def placed(d, block, place):
    """An item alone and beside another."""
    n = len(d)
    other = u16(20) + b"\x31\0" + u32(77) + bytes(4) + u16(16) + b"other\0"
    before = other if place else b""
    after = b"" if place else other
    size = n + len(other) + 2
    if block:
        before = head(0) + u32(size + 8) + u32(0xA000000C) + before
    else:
        before = head(1) + u16(size) + before
    return {"data": d, "at": (0, n), "list": head(1) + u16(n + 2), "before": before, "after": after + bytes(6),
            "block": block, "place": place, "count": 2}


def c31(tier):
    hs = []
    for nm, what, make in shapes.ITEMS:
        for block in (False, True):
            for place in (0, 1):
                hs.append(Harness("%s-%s-%d" % (nm, "block" if block else "list", place), "same_item",
                                  lambda B, nm=nm, make=make, block=block, place=place: elsewhere(B, nm, make, block, place),
                                  "%s of any content, %s another in a %s" % (what, "after" if place else "before", "shell item block" if block else "target list"), budget=30))
    for kind in (0x00, 0x01, 0x1F, 0x2E, 0x2F, 0x31, 0x36, 0x41, 0x71, 0x74, 0x99):
        for n in (3, 4, 6, 9, 14) if tier == "quick" else (3, 4, 5, 6, 7, 9, 11, 14, 18, 20, 22, 30):
            for block, place in ((False, 0), (False, 1), (True, 0)):
                def short(B, kind=kind, n=n, block=block, place=place):
                    t = put({}, 0, u16(n) + bytes([kind]))
                    return dict(placed(B.bytes("f", n, t), block, place), cp="latin-1")

                hs.append(Harness("short-%02x-%d-%s-%d" % (kind, n, "block" if block else "list", place), "same_item", short,
                                  "an item of type %02X and %d bytes of any content, %s another in a %s" % (
                                      kind, n, "after" if place else "before", "shell item block" if block else "target list"), budget=30))
    # a file entry that says it is longer than the delegate item it is in
    for wide in (False, True):
        for ns in (51, 64, 4000):
            for block, place in ((False, 0), (False, 1), (True, 0), (True, 1)):
                def overlong(B, wide=wide, ns=ns, block=block, place=place):
                    t = put({}, 0, u16(60) + b"\x74\0" + u16(22) + bytes(4) + u16(ns) + (b"\x36" if wide else b"\x31") + b"\0" +
                            u32(5) + bytes(4) + u16(16) + b"names" * 7 + b"!")
                    free(t, 54, 60)
                    return dict(placed(B.bytes("f", 60, t), block, place), cp="latin-1")

                hs.append(Harness("overlong-%d%s-%s-%d" % (ns, "-wide" if wide else "", "block" if block else "list", place), "same_item", overlong,
                                  "a delegate item whose file entry says it is %d bytes long, more than the item has, with any %s end of its name; %s another in a %s" % (
                                      ns, "UTF-16" if wide else "code page", "after" if place else "before", "shell item block" if block else "target list"), budget=30))
    return hs


HARNESSES = {"C30": c30, "C31": c31}
