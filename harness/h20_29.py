import struct

from harness import shapes
from harness.base import Harness, free, header, put
from harness.h06 import big

BIG = 2**31 - 1
KINDS = (0xA0000001, 0xA0000002, 0xA0000003, 0xA0000004, 0xA0000005, 0xA0000007, 0xA0000008, 0xA000000B, 0)
FEW = (0xA0000004, 0)
# texts read character by character: how far they reach depends on the view
READ = ("darwin", "local", "local-wide", "share", "share-wide")
BARE = (0x52, 0x61, 0x72, 0x73)


def u32(v):
    return struct.pack("<I", v)


LOCAL = {84: u32(1), 88: u32(28), 104: u32(20), 112: u32(16)}
LABEL = {84: u32(1), 88: u32(28), 92: u32(0), 100: u32(0)}
NET = {84: u32(2), 92: u32(0), 96: u32(28), 100: u32(0)}


def parts(B, flags, mask=0, fix=None, **k):
    d = {"data": big(B, flags, mask, fix=fix), "items": 2, "types": BARE, "blocks": 1, "kinds": (0xA0000004,)}
    d.update(k)
    return d


def c20(tier):
    def h(name, what, flags, mask=0, budget=60, **k):
        return Harness(name, "stream", lambda B: parts(B, flags, mask, **k),
                       what + "; any sizes, any data after the terminator, any file length below 2^31", summary=True, budget=budget)

    hs = [
        h("bare-items", "up to 2 items without content, one block", 1),
        h("items", "one item of types 31, 70, 2E", 1, items=1, types=(0x31, 0x70, 0x2E), least=32, blocks=0),
        h("info-local", "local link information with base path and suffix anywhere", 2, blocks=0, fix=LOCAL),
        h("info-label", "local link information with label anywhere", 2, blocks=0, fix=LABEL),
        h("info-net", "network link information with names anywhere", 2, blocks=0, fix=NET),
        h("info-strings", "local link information (possibly to be ignored), a string, up to one block", 6, 0x100, fix={**LOCAL, 100: u32(0)}),
        h("strings", "any strings, ANSI or Unicode", 0, 0xBC, blocks=0),
        h("strings2", "any strings, ANSI or Unicode", 0, 0xF0, blocks=0),
        h("block", "one block of any fixed layout", 0, kinds=KINDS),
        h("blocks", "up to 3 blocks", 0, kinds=FEW, blocks=3),
        h("all", "all sections, up to one block", 0x7F, 0x80, kinds=FEW, blocks=1, budget=45 if tier == "quick" else 90),
    ]
    hs.append(h("short-block", "one block of any fixed layout, perhaps too short for it", 0, kinds=KINDS, short=True))

    def followed(B, make, more):
        t, n = make()
        return {"data": B.bytes("f", n + more, t), "end": n}

    for nm, what, make in shapes.ALL + shapes.short_blocks():
        if nm != "appended":
            hs.append(Harness("shape-" + nm, "stream", lambda B, make=make: followed(B, make, 28),
                              what + " of fixed layout and free content, followed by 28 bytes of any content", summary=nm not in READ, budget=30))
    if tier != "quick":
        hs += [h("info", "link information of either kind", 2, blocks=0, budget=90)]
    return hs


def c29(tier):
    def h(name, what, flags, mask=0, budget=60, terminal=True, **k):
        def b(B):
            p = parts(B, flags, mask, **k)
            p["cut"] = B.int("cut", 76, BIG)
            p["terminal"] = terminal
            return p

        return Harness(name, "cut", b, what + "; any sizes and cut, any file length below 2^31", summary=True, budget=budget)

    hs = [
        h("bare-items", "up to 2 items without content", 1, blocks=0),
        h("items", "one item of types 31, 70, 2E", 1, items=1, types=(0x31, 0x70, 0x2E), least=32, blocks=0),
        h("items2", "up to 2 items of types 31 and 61", 1, items=2, types=(0x31, 0x61), least=32, blocks=0),
        h("info-local", "local link information with base path and suffix anywhere", 2, blocks=0, fix=LOCAL),
        h("info-label", "local link information with label anywhere", 2, blocks=0, fix=LABEL),
        h("info-net", "network link information with names anywhere", 2, blocks=0, fix={**NET, 112: u32(20)}),
        h("info-net-wide", "network link information with Unicode names anywhere", 2, blocks=0, fix={**NET, 112: u32(28)}),
        h("info-strings", "local link information, a string, up to one block", 6, fix={**LABEL, 104: u32(20), 112: u32(16)}),
        h("info-unused", "link information to be ignored, a string", 0x106, blocks=0, fix={**LABEL, 104: u32(20), 112: u32(16)}),
        h("strings", "any strings, ANSI or Unicode", 0, 0xBC, blocks=0),
        h("strings2", "any strings, ANSI or Unicode", 0, 0xF0, blocks=0),
        h("block", "one block of any fixed layout", 0, kinds=KINDS),
        h("blocks", "up to 3 blocks", 0, kinds=FEW, blocks=3, terminal=False),
        h("all", "all sections, up to one block", 0x7F, 0x80, kinds=FEW, blocks=1, budget=40 if tier == "quick" else 90),
    ]
    if tier != "quick":
        hs += [h("info", "link information of either kind", 2, blocks=0, budget=90),
               h("items-block", "up to 2 items without content, one block", 1, budget=90)]
    return hs


HARNESSES = {"C20": c20, "C29": c29}
