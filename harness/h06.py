from harness.base import Harness, free, header, put

FLAG_BITS = 20


def big(B, flags, free_mask, hi=2**31 - 1, lo=76, fix=None):
    """File of symbolic length; only the link flags in free_mask are symbolic."""
    t = header(flags=flags)
    if free_mask:
        free(t, 20, 24)
    for off, data in (fix or {}).items():
        put(t, off, data)
    n = B.int("n", lo, hi)
    d = B.bytes("f", n, t)
    if free_mask:
        from sx.values import int_from_terms

        w = int_from_terms([d.term(20 + i) for i in range(4)])
        B.require((w & (0xFFFFFFFF ^ free_mask)) == flags)
    return d


def texts(B, bit, wide):
    """All strings, the text of one of them free."""
    w = 2 if wide else 1
    t = header(flags=0x7C | (0x80 if wide else 0))
    at = 76
    for other in (4, 8, 0x10, 0x20, 0x40):
        n = 3 if other == bit else 2
        put(t, at, n.to_bytes(2, "little") + b"a\0b\0"[:: 3 - w][: n * w])
        if other == bit:
            free(t, at + 2, at + 2 + n * w)
        at += 2 + n * w
    put(t, at, bytes.fromhex("0c000000040000a0e404000000000000"))
    return {"data": B.bytes("f", at + 16, t), "blocks": 1, "short": True}


def c06(tier):
    def f(B, flags, mask, blocks, short=True):
        return {"data": big(B, flags, mask), "blocks": blocks, "short": short}

    hs = [
        Harness("all", "sections", lambda B: f(B, 0x5F, 0x80, 2), "all sections present, up to 2 blocks; any length below 2^31",
                summary=True, budget=100),
        Harness("targets-info", "sections", lambda B: f(B, 0x84, 0x103, 1), "flags HasTargetIDList, HasLinkInfo, "
                "ForceNoLinkInfo symbolic, one Unicode string, up to 1 block; any length below 2^31", summary=True, budget=60),
        Harness("strings", "sections", lambda B: f(B, 0, 0xFC, 1), "all string flags symbolic, up to 1 block; any length below 2^31",
                summary=True, budget=60),
        Harness("blocks", "sections", lambda B: f(B, 0, 0, 3), "no section but up to 3 blocks; any length below 2^31",
                summary=True, budget=60),
    ]
    for name, bit in (("description", 4), ("path", 8), ("directory", 0x10), ("arguments", 0x20), ("icon", 0x40)):
        for wide in (False, True):
            hs.append(Harness("%s-text%s" % (name, "-unicode" if wide else ""), "sections", lambda B, bit=bit, wide=wide: texts(B, bit, wide),
                              "a string of 3 characters of any content among others and a block", budget=60))
    if tier != "quick":
        hs.append(Harness("flags-free", "sections", lambda B: f(B, 0, 0x1FF, 1), "all section flags symbolic, up to 1 block",
                          summary=True, budget=90))
        hs.append(Harness("clip", "sections", lambda B: f(B, 0, 0xFE, 1, False), "any counts", summary=True, budget=90))
    return hs


HARNESSES = {"C06": c06}
