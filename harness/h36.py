"""The parts of the parsed object against the report."""
from harness import shapes
from harness.base import Harness
from harness.h23_28 import RANGES, head, head_free, parts, sections
from harness.h30 import STRINGS, Body, a_block, a_list, a_string, an_info, free_string
from harness.h30 import head as header_of

FIXED = {1: 780, 2: 196, 3: 88, 4: 4, 5: 8, 7: 780, 8: 128, 11: 20}


def whole(B, wide, info):
    """Every section, with free texts and numbers."""
    b = Body()
    b.add(*a_list())
    b.add(*an_info(info))
    for bit, _ in STRINGS:
        b.add(*free_string(wide))
    for sig in (0xA0000004, 0xA0000003, 0xA000000B):
        b.add(*a_block(sig))
    b.add(bytes(4))
    return {"data": b.data(B, bytearray(header_of(0x7F | (0x80 if wide else 0)))), "fits": False}


def strings(B, bits, wide):
    """Some strings of fixed length, told apart by their content."""
    b = Body()
    for bit, _ in STRINGS:
        if bits & bit:
            b.add(*free_string(wide))
    b.add(bytes(4))
    return {"data": b.data(B, bytearray(header_of(bits | (0x80 if wide else 0)))), "fits": False}


def c36(tier):
    hs = []
    for nm, what, flags, mask, k in sections(tier):
        hs.append(Harness(nm, "objects", lambda B, flags=flags, mask=mask, k=k: parts(B, flags, mask, **k), what + "; any sizes and file length below 2^31", summary=True, budget=60))
    for nm, what, make in shapes.ALL + shapes.short_blocks():
        hs.append(shapes.harness("shape-" + nm, "objects", make, what))
    for sig, n in FIXED.items():
        sig |= 0xA0000000
        hs.append(shapes.harness("fixed-%x" % (sig & 15), "objects", lambda sig=sig, n=n: shapes.block(sig, bytes(n), [(0, n)]), "a block %08X" % sig))
    for info in ("Local", "Network"):
        for wide in (False, True):
            hs.append(Harness("whole-%s%s" % (info.lower(), "-unicode" if wide else ""), "objects", lambda B, wide=wide, info=info: whole(B, wide, info),
                              "all sections with free texts and numbers", summary=True, budget=60))
    for wide in (False, True):
        for bit, nm in STRINGS:
            hs.append(Harness("only-%s%s" % (nm, "-unicode" if wide else ""), "objects", lambda B, bit=bit, wide=wide: strings(B, bit, wide), "one string with any text"))
            hs.append(Harness("without-%s%s" % (nm, "-unicode" if wide else ""), "objects", lambda B, bit=bit, wide=wide: strings(B, 0x7C & ~bit, wide), "all strings but one with any text", summary=True))
    for nm, lo, hi in RANGES:
        hs.append(Harness("header-" + nm, "objects", lambda B, lo=lo, hi=hi: {"data": head_free(B, lo, hi), "fits": False}, "header with any " + nm, budget=60))
    for sh in (7, 13, 19, 25):
        bits = (0x3F << sh) & 0xFFFFFFFF
        hs.append(Harness("flags-%08x" % bits, "objects", lambda B, bits=bits: {"data": head(B, 20, bits), "fits": False}, "header with any link flags among %08X" % bits, budget=60))
    for bits in (0xFF, 0xFF00):
        hs.append(Harness("attributes-%04x" % bits, "objects", lambda B, bits=bits: {"data": head(B, 24, bits), "fits": False}, "header with any file attributes among %04X" % bits, budget=60))
    return hs


HARNESSES = {"C36": c36}
