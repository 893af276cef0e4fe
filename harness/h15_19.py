import struct

from harness.base import Harness, free, header, put


def u32(v):
    return struct.pack("<I", v)


ALL = (0xA0000001, 0xA0000002, 0xA0000003, 0xA0000004, 0xA0000005, 0xA0000007, 0xA0000008, 0xA000000B, 0)


def tail(B, lo, fix=None, flags=0, hi=2**31 - 1):
    t = header(flags=flags)
    for off, data in (fix or {}).items():
        put(t, 76 + off, data)
    return B.bytes("f", B.int("n", 76 + lo, hi), t)


def c15(tier):
    def h(name, k, kinds, what, lo=0, terminal=False, budget=60, fix=None):
        return Harness(name, "blocks", lambda B: {"data": tail(B, lo, fix), "blocks": k, "kinds": kinds, "terminal": terminal},
                       "up to %d blocks %s; any sizes and file length below 2^31" % (k, what), summary=True, budget=budget)

    hs = [
        h("one-any", 1, ALL, "of any signature but the variable-layout kinds", budget=60),
        h("two-known", 2, (0xA0000004, 0xA0000005), "of two known kinds"),
        h("two-mixed", 2, (0xA0000004, 0), "known and unknown"),
        h("three-unknown", 3, (0,), "with undefined signatures"),
        h("three-same", 3, (0xA0000004,), "of one known kind"),
        h("two-terminal", 2, (0xA0000004, 0), "known and unknown, appended data reported", terminal=True),
    ]
    def small(B, sigs, n):
        t = header()
        pos = 76
        for s in sigs:
            put(t, pos, u32(8 + n) + u32(s))
            free(t, pos + 8, pos + 8 + n)
            pos += 8 + n
        put(t, pos, bytes(4))
        return {"data": B.bytes("f", pos + 4, t), "blocks": len(sigs), "kinds": (0, 0xA0000004), "terminal": False}

    for nm, sigs in (("equal", (0xA00000FF,) * 2), ("three", (0xA00000FF, 0xB0000004, 0xA00000FF)), ("again", (0xA00000FF, 0xA0000004, 0xA00000FF, 0xA0000004))):
        hs.append(Harness("small-" + nm, "blocks", lambda B, sigs=sigs: small(B, sigs, 4), "blocks of 12 bytes, %s, of any content" % " ".join("%08X" % s for s in sigs), budget=40))
    if tier != "quick":
        hs += [h("two-any", 2, ALL, "of any signature but the variable-layout kinds", budget=90),
               h("four-unknown", 4, (0,), "with undefined signatures", budget=90),
               h("three-mixed", 3, (0xA0000004, 0xA0000005, 0), "known and unknown", budget=90)]
    return hs


def c16(tier):
    hs = []
    for k in ALL[:-1]:
        nm = "%x" % (k & 0xF)

        def b(B, k=k, cp=None, lens=None):
            from spec.extra import LEAST
            fix = {4: u32(k)}
            if k == 0xA0000003 and lens:
                fix.update(lens)
            return {"data": tail(B, LEAST[k], fix), "kind": k, "cp": cp, "warn": k == 0xA0000003}

        hs.append(Harness("block-" + nm, "fixed_block", b, "block %08X of any content, size and file length below 2^31" % k, summary=True))
        hs.append(Harness("block-cp-" + nm, "fixed_block", lambda B, b=b: b(B, cp="cp437"),
                          "block %08X of any content, code page 437" % k, summary=True))
    return hs


def c17(tier):
    def h(name, st, vals, named, types, what, budget=60, fix=None):
        return Harness(name, "store", lambda B: {"data": tail(B, 12, {4: u32(0xA0000009), **(fix or {})}), "storages": st, "values": vals,
                                                 "named": named, "types": types},
                       "up to %d storages of up to %d values, %s; any sizes and file length below 2^31" % (st, vals, what),
                       summary=True, budget=budget)

    named = bytes.fromhex("05d5cdd59c2e1b10939708002b2cf9ae")
    few = (2, 31, 64)
    hs = [
        h("ids", 1, 2, False, few, "integer names, types VT_I2, VT_LPWSTR, VT_FILETIME"),
        h("names", 1, 1, True, few, "string names, types VT_I2, VT_LPWSTR, VT_FILETIME", fix={16: named}),
        h("storages", 2, 1, False, (31,), "integer names, VT_LPWSTR"),
        h("types", 1, 1, False, None, "integer name, any type"),
    ]
    if tier != "quick":
        hs += [h("deep", 2, 2, False, few, "integer names", budget=90), h("names2", 1, 2, True, few, "string names", budget=90, fix={16: named}),
               h("types-named", 1, 1, True, None, "string name, any type", fix={16: named}, budget=90)]
    return hs


# the base-85 alphabet
RUNS = [(33, 33), (36, 46), (48, 57), (61, 61), (63, 91), (93, 123), (125, 126)]


def c18(tier):

    def f(B, n, term, comp, more=0):
        from sx.values import b_and, b_or, byte_int

        t = header()
        put(t, 76, u32(788) + u32(0xA0000006) + b"descriptor".ljust(260, b"\0"))
        at = 76 + 268
        put(t, at, bytes(520))
        put(t, 76 + 788, bytes(4))
        put(t, at + 40 + 2 * n, term.encode("utf-16-le"))
        sym = [at + 2 * i for i in range(20)] + [at + 40 + 2 * i for i in range(n)]
        if comp:
            sym += [at + 42 + 2 * n + 2 * i for i in range(20)]
        for a in sym:
            t.pop(a)
        after = [at + 82 + 2 * n + 2 * i for i in range(more)]
        for a in after:
            t.pop(a)
        d = B.bytes("f", 76 + 788 + 4, t)
        for a in after:
            c = byte_int(d.term(a))
            B.require(b_or(c == 62, *[b_and(c >= lo, c <= hi) for lo, hi in RUNS]))
        for a in sym:
            c = byte_int(d.term(a))
            B.require(b_or(*[b_and(c >= lo, c <= hi) for lo, hi in RUNS]))
        return {"data": d, "n": n, "component": comp}

    def g(B, n, ansi, after, cp=None):
        """Fixed codes; free feature characters, ANSI characters, or ones
        after the component code."""
        t = header()
        put(t, 76, u32(788) + u32(0xA0000006) + bytes(260 + 520 + 4))
        at = 76 + 268
        code = "w_1^VX!!!!!!!!!MKKSk"
        put(t, at, (code + "f" * n + ">" + code).encode("utf-16-le"))
        free(t, at + 40, at + 40 + 2 * n)
        free(t, 84, 84 + ansi)
        free(t, at + 82 + 2 * n, at + 82 + 2 * n + 2 * after)
        d = B.bytes("f", 76 + 788 + 4, t)
        for i in range(n):
            c = B.num(d, at + 40 + 2 * i, 2)
            B.require((c != 0) & (c != 60) & (c != 62))
        for i in range(after):
            B.require(B.num(d, at + 82 + 2 * n + 2 * i, 2) != 60)
        return {"data": d, "n": n, "component": True, "cp": cp}

    hs = []
    for n, ansi, after in ((1, 0, 0), (2, 0, 0), (0, 3, 0), (0, 0, 2), (1, 0, 1)):
        hs.append(Harness("text-%d-%d-%d" % (n, ansi, after), "darwin", lambda B, n=n, ansi=ansi, after=after: g(B, n, ansi, after),
                          "fixed codes, %d feature characters, %d characters of the ANSI descriptor and %d after the component code (but '<') of any value" % (n, ansi, after), budget=40))
    def far(B, n):
        """A long feature name whose first and last characters are free."""
        t = header()
        put(t, 76, u32(788) + u32(0xA0000006) + bytes(260 + 520 + 4))
        at = 76 + 268
        code = "w_1^VX!!!!!!!!!MKKSk"
        put(t, at, (code + "f" * n + ">" + code).encode("utf-16-le"))
        ends = (at + 40, at + 38 + 2 * n)
        for a in ends:
            free(t, a, a + 2)
        d = B.bytes("f", 76 + 788 + 4, t)
        for a in ends:
            c = B.num(d, a, 2)
            B.require((c != 0) & (c != 60) & (c != 62))
        return {"data": d, "n": n, "component": True, "cp": None}

    for n in (30, 46, 100, 215) if tier == "quick" else (20, 30, 38, 46, 70, 100, 150, 215, 218):
        hs.append(Harness("far-%d" % n, "darwin", lambda B, n=n: far(B, n), "fixed codes, a feature name of %d characters whose first and last are of any value" % n, budget=40))
    hs.append(Harness("text-utf8", "darwin", lambda B: g(B, 0, 3, 0, "utf-8"), "fixed codes, 3 bytes of the ANSI descriptor of any value, code page UTF-8", budget=40))
    for n, more in ((0, 1), (2, 2)) if tier == "quick" else ((0, 1), (1, 2), (2, 3)):
        hs.append(Harness("n%d-comp-%d" % (n, more), "darwin", lambda B, n=n, more=more: f(B, n, ">", True, more),
                          "20 digits, %d feature characters, '>' and 20 digits, %d further characters, every character any base-85 digit, the further ones also '>'" % (n, more),
                          budget=60, query_ms=25000))
    for n in (0, 1, 3) if tier == "quick" else (0, 1, 2, 3, 5):
        for term, comp in ((">", True), ("<", False)):
            hs.append(Harness("n%d-%s" % (n, "comp" if comp else "none"), "darwin", lambda B, n=n, term=term, comp=comp: f(B, n, term, comp),
                              "20 digits, %d feature characters, '%s'%s, every character any base-85 digit" % (n, term, " and 20 digits" if comp else ""),
                              budget=60, query_ms=25000))
    return hs


def c19(tier):
    hs = []
    for blk in (False, True):
        for term in (True, False):
            hs.append(Harness("%s-%s" % ("block" if blk else "none", "on" if term else "off"), "appended",
                              lambda B, blk=blk, term=term: {"data": tail(B, 4), "block": blk, "terminal": term},
                              "any terminator below 4, any data after it, any length below 2^31, %s extra block, terminal blocks %s"
                              % ("one" if blk else "no", "on" if term else "off"), summary=True))
    return hs


HARNESSES = {"C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19}
