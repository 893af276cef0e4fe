"""Forms of output, purity of reporting and the command line."""
from harness import shapes
from harness.base import Harness, free, header, put
from harness.h06 import big
from harness.h15_19 import u32
from harness.h20_29 import BARE, FEW, KINDS, LABEL, LOCAL, NET

WIDE = "any sizes and file length below 2^31"


def sections(tier):
    """(name, what, flags, mask, parameters) of well-formed files, one kind of
    section each."""
    out = [
        ("bare-items", "up to 2 items without content, one block", 1, 0, dict(items=2, blocks=1)),
        ("items", "one item of types 31, 70, 2E", 1, 0, dict(items=1, types=(0x31, 0x70, 0x2E), least=32, blocks=0)),
        ("info-local", "local link information with base path and suffix anywhere", 2, 0, dict(blocks=0, fix=LOCAL)),
        ("info-label", "local link information with label anywhere", 2, 0, dict(blocks=0, fix=LABEL)),
        ("info-net", "network link information with names anywhere", 2, 0, dict(blocks=0, fix=NET)),
        ("strings", "any strings, ANSI or Unicode", 0, 0xFC, dict(blocks=0)),
        ("block", "one block of any fixed layout", 0, 0, dict(kinds=KINDS, blocks=1)),
        ("blocks", "up to 2 blocks, known or not", 0, 0, dict(kinds=FEW, blocks=2)),
    ]
    if tier != "quick":
        out.append(("all", "all sections, up to 1 block", 0x7F, 0x80, dict(kinds=FEW, blocks=1)))
    return out


def parts(B, flags, mask, fix=None, **k):
    d = {"data": big(B, flags, mask, fix=fix), "items": 2, "types": BARE, "blocks": 1, "kinds": (0xA0000004,)}
    d.update(k)
    return d


def head(B, at, bits, extra=None):
    """A header alone; some bits of the word at an offset are symbolic."""
    t = header()
    for off, data in (extra or {}).items():
        put(t, off, data)
    free(t, at, at + 4)
    d = B.bytes("f", 76, t)
    B.require((B.num(d, at, 4) & (0xFFFFFFFF ^ bits)) == 0)
    return d


RANGES = (("times", 28, 52), ("numbers", 52, 64), ("hotkey", 64, 66), ("reserved", 66, 76))


def head_free(B, lo, hi):
    """A header alone whose bytes in a range are symbolic."""
    return B.bytes("f", 76, free(header(), lo, hi))


def forms(tier, scen, budget=40):
    """Full and reduced detail of every kind of section."""
    hs = []
    for nm, what, flags, mask, k in sections(tier):
        for full in (False, True):
            hs.append(Harness(nm + ("-full" if full else ""), scen,
                              lambda B, flags=flags, mask=mask, k=k, full=full: dict(parts(B, flags, mask, **k), full=full),
                              what + ", %s report; " % ("full" if full else "reduced") + WIDE, summary=True, budget=budget))
    for nm, what, make in shapes.ALL:
        for full in (False, True):
            hs.append(shapes.harness("shape-" + nm + ("-full" if full else ""), scen, make,
                                     what + " of fixed layout and free content, %s report" % ("full" if full else "reduced"), full=full))
    for full in (False, True):
        for nm, lo, hi in RANGES:
            hs.append(Harness("header-%s" % nm + ("-full" if full else ""), scen, lambda B, lo=lo, hi=hi, full=full: {"data": head_free(B, lo, hi), "full": full, "fits": False},
                              "header with any %s, %s report" % (nm, "full" if full else "reduced"), budget=budget))
    return hs


def c23(tier):
    hs = forms(tier, "printed_json")
    for n in (2, 4):
        hs.append(Harness("text-%d" % n, "printed_json", lambda B, n=n: {"data": text_file(B, n, 0x84), "full": False, "fits": False},
                          "description of %d bytes of any content" % n))
    return hs


def text_file(B, n, flags, count=None):
    """A header and one string of n bytes of any content."""
    t = header(flags=flags)
    width = 2 if flags & 0x80 else 1
    c = n // width if count is None else count
    put(t, 76, bytes([c & 255, c >> 8]))
    return B.bytes("f", 78 + n, t)


def c24(tier):
    hs = []
    for nm, what, flags, mask, k in sections(tier):
        hs.append(Harness(nm, "reduced", lambda B, flags=flags, mask=mask, k=k: parts(B, flags, mask, **k), what + "; " + WIDE, summary=True, budget=40))
    for nm, what, make in shapes.ALL:
        hs.append(shapes.harness("shape-" + nm, "reduced", make, what + " of fixed layout and free content"))
    for nm, lo, hi in RANGES:
        hs.append(Harness("header-" + nm, "reduced", lambda B, lo=lo, hi=hi: {"data": head_free(B, lo, hi), "fits": False}, "header with any " + nm))
    hs.append(Harness("delegate", "reduced", lambda B: parts(B, 1, 0, items=1, types=(0x74,), least=60, blocks=0, fix={78 + 4: b"\x28\0", 78 + 10: b"\x20\0", 78 + 12: b"\x31", 78 + 18: bytes(4)}),
                      "one delegate item whose nested file entry has a date; " + WIDE, summary=True, budget=40))
    hs.append(Harness("item-block", "reduced", lambda B: dict(data=big(B, 0, 0, fix={76: u32(8 + 40 + 2), 80: u32(0xA000000C), 84: b"\x28\0\x31", 92: bytes(4), 124: bytes(2)}, lo=130, hi=130), fits=False),
                      "shell item block with one dated item", summary=True, budget=40))
    return hs


def c25(tier):
    hs = forms(tier, "readable")
    bits = [0x1F00, 0x3E000, 0x7C0000, 0x7800000] if tier == "quick" else [0xFF00, 0xFF0000, 0xFF000000]
    for b in bits:
        hs.append(Harness("link-flags-%x" % b, "readable", lambda B, b=b: {"data": head(B, 20, b), "full": False, "fits": False}, "any of the link flags %08X" % b, budget=40))
    bits = [0x1F, 0x3E0, 0x7C00] if tier == "quick" else [0xFF, 0x7F80]
    for b in bits:
        hs.append(Harness("file-flags-%x" % b, "readable", lambda B, b=b: {"data": head(B, 24, b), "full": False, "fits": False}, "any of the file flags %08X" % b, budget=40))

    def held(B, text):
        t = header(flags=0x84)
        b = text.encode("utf-16-le")
        put(t, 76, bytes([len(text), 0]) + b)
        return B.bytes("f", 78 + len(b), t)

    for i, text in enumerate(("EMPTY_LINE_PLACEHOLDER", "xEMPTY_LINE_PLACEHOLDERx", "- a: b", "yes", "1234", "null", "# no", "a: b", "'q' \"r\"", "  in  ", "~", "2020-01-01")):
        hs.append(Harness("text-%d" % i, "readable", lambda B, text=text: {"data": held(B, text), "full": False, "fits": False}, "description %r" % text))
    return hs


def c26(tier):
    """Strings of a few characters of any content."""
    hs = []
    top = 4 if tier == "quick" else 6

    def two(B, np, na, uni):
        flags = (0x80 if uni else 0) | (8 if np is not None else 0) | (0x20 if na is not None else 0)
        t = header(flags=flags)
        w = 2 if uni else 1
        pos = 76
        sym = []
        for n in (np, na):
            if n is None:
                continue
            put(t, pos, bytes([n, 0]))
            for i in range(n):
                sym.append(pos + 2 + w * i)
                if uni:
                    put(t, pos + 3 + w * i, b"\0")
            pos += 2 + n * w
        d = B.bytes("f", pos, t)
        from sx.values import b_and, byte_int

        for a in sym:
            c = byte_int(d.term(a))
            # text is one line: no character ends it
            B.require(b_and(c >= 1, c <= 127, c != 10, c != 13, c != 12, c != 11, c != 0x1C, c != 0x1D, c != 0x1E))
        return d

    for np in [None] + list(range(0, top + 1)):
        for na in (None, 1):
            if np is None and na is None:
                continue
            hs.append(Harness("path-%s-args-%s" % (np, na), "target", lambda B, np=np, na=na: {"data": two(B, np, na, np is not None and np % 2)},
                              "relative path of %s ASCII characters, arguments of %s; any characters but NUL and line ends" % (np, na), budget=45))
    hs.append(Harness("args-2", "target", lambda B: {"data": two(B, 1, 2, True)}, "relative path of 1 and arguments of 2 ASCII characters"))
    hs.append(Harness("none", "target", lambda B: {"data": B.bytes("f", 76, header())}, "neither"))
    hs.append(Harness("cut-path", "target", lambda B: {"data": B.bytes("f", 77, header(flags=0x28))}, "path and arguments promised but missing"))
    hs.append(Harness("cut-args", "target", lambda B: {"data": B.bytes("f", 80, put(header(flags=0x28), 76, b"\1\0a"))}, "arguments promised but missing"))
    hs.append(Harness("empty-path", "target", lambda B: {"data": B.bytes("f", 82, put(header(flags=0x28), 76, b"\0\0\2\0"))}, "empty path, two bytes of arguments of any content"))
    return hs


def c27(tier):
    hs = []
    n = 9

    def b(B, flags, mask, k, steps, spoil, other, few=False):
        from sx.values import b_or

        d = parts(B, flags, mask, **k)
        d["last"] = B.int("last", 0, n - 1)
        if few and tier == "quick":
            B.require(b_or(d["last"] == 0, d["last"] == 5))
        d["steps"] = []
        for i in range(steps):
            d["op%d" % i] = B.int("op%d" % i, 0, n - 1)
            if few and tier == "quick":
                B.require(b_or(*[d["op%d" % i] == v for v in (0, 1, 4, 6)]))
            d["steps"].append("op%d" % i)
        d["spoil"] = spoil
        if other is not None:
            d["other"] = other
            d["other_cp"] = "cp437"
        return d

    from spec.sample import SAMPLE

    flat = [
        ("items", "one item of types 31, 61", 1, 0, dict(items=1, types=(0x31, 0x61), least=32, blocks=0)),
        ("info", "local link information", 2, 0, dict(blocks=0, fix={**LOCAL, 76: u32(80), 100: u32(0)})),
        ("net", "network link information", 2, 0, dict(blocks=0, fix={**NET, 76: u32(80), 116: u32(0)})),
        ("strings", "a path and arguments", 0xA8, 0, dict(blocks=0)),
        ("blocks", "a block of any fixed layout", 0, 0, dict(kinds=KINDS, blocks=1)),
    ]
    some = "; full report or full text after any report, text or target" if tier == "quick" else "; any call after any call"
    for nm, what, flags, mask, k in flat:
        for spoil in (False, True):
            if spoil and tier == "quick" and nm not in ("items", "strings"):
                continue
            hs.append(Harness(nm + ("-spoiled" if spoil else ""), "pure", lambda B, a=(flags, mask, k), spoil=spoil: b(B, *a, 1, spoil, None, True),
                              what + some + " on the same object" + (" whose result is modified; " if spoil else "; ") + WIDE, summary=True, budget=40))
        if tier == "quick" and nm not in ("items", "strings"):
            continue
        hs.append(Harness(nm + "-other", "pure", lambda B, a=(flags, mask, k): b(B, *a, 1, False, SAMPLE, True),
                          what + some + " on another object; " + WIDE, summary=True, budget=40))
    def shaped(B, make, spoil):
        d = dict(shapes.made(B, make), last=B.int("last", 0, n - 1), op0=B.int("op0", 0, n - 1), steps=["op0"], spoil=spoil)
        return d

    for nm, what, make in shapes.ALL:
        if nm in ("network", "provider", "darwin", "root", "category", "delegate") and tier == "quick":
            continue
        hs.append(Harness("shape-" + nm, "pure", lambda B, make=make: shaped(B, make, True),
                          what + " of fixed layout and free content; any call after any call on the same object whose result is modified", summary=nm != "darwin", budget=40))
    from harness import h30

    hs += h30.after_other(tier)
    k2 = 2 if tier == "quick" else 3
    hs.append(Harness("longer", "pure", lambda B: b(B, 8, 0, dict(blocks=0), k2, False, None), "a path; any call after any %d calls; " % k2 + WIDE, summary=True, budget=45))
    return hs


def c28(tier):
    hs = []
    base = dict(blocks=1, items=1)
    for i, argv in enumerate((["FILE"], ["-j", "FILE"], ["-t", "FILE"], ["-t", "-j", "FILE"], ["-a", "FILE"], ["FILE", "-a", "-j"], ["-t", "-a", "FILE"],
                              ["-c", "cp437", "FILE"], ["-c", "cp932", "-j", "FILE"], ["--target", "--json", "FILE"], ["--codepage", "cp1250", "--all", "FILE"],
                              ["-t", "-c", "cp437", "FILE"], ["--json", "--all", "FILE"])):
        hs.append(Harness("args-%d" % i, "command_line", lambda B, argv=argv: dict(parts(B, 0x29, 0, items=1, blocks=0), argv=argv),
                          "arguments %s; one item without content, a path and arguments; " % " ".join(argv) + WIDE, summary=True, budget=40))
        if i in (0, 1, 4, 5, 7):
            hs.append(Harness("info-%d" % i, "command_line", lambda B, argv=argv: dict(parts(B, 2, 0, blocks=1, fix={**LOCAL, 100: u32(0)}), argv=argv),
                              "arguments %s; local link information, up to one block; " % " ".join(argv) + WIDE, summary=True, budget=40))
    for nm, what, flags, mask, k in sections(tier):
        hs.append(Harness("file-" + nm, "from_file", lambda B, flags=flags, mask=mask, k=k: parts(B, flags, mask, **k), what + "; from bytes or an open file; " + WIDE,
                          summary=True, budget=40))
    for nm, what, make in shapes.ALL:
        hs.append(shapes.harness("shape-" + nm, "from_file", make, what + " of fixed layout and free content; from bytes or an open file"))
    for term in (True, False):
        hs.append(Harness("file-appended-%s" % ("on" if term else "off"), "from_file",
                          lambda B, term=term: dict(data=big(B, 0, 0, lo=80, fix={76: bytes(4)}), terminal=term, fits=False, cp="cp437"),
                          "appended data of any content; from bytes or an open file; " + WIDE, summary=True))
    return hs


HARNESSES = {"C23": c23, "C24": c24, "C25": c25, "C26": c26, "C27": c27, "C28": c28}
