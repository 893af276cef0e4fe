"""Extra data: C15 to C19."""
from spec import extra, ref, text
from spec.common import ends, part, pick, report


def blocks(env, inp):
    """Several blocks; the last may be cut off by the end of the data."""
    d = inp["data"]
    cp = "cp1252"
    end = len(d)
    pos = 76
    n = 0
    want = {}
    bad = False
    while pos < end:
        if pos + 4 > end:
            bad = True
            break
        size = ref.u32(d, pos)
        if size < 4:
            break
        env.assume(size >= 8)
        env.assume(n < inp["blocks"])
        n = n + 1
        b = d[pos : pos + size]
        pos = pos + size
        if len(b) < 8:
            bad = True
            continue
        k = extra.kind(ref.u32(b, 4))
        env.assume(k in inp["kinds"])
        if k == 0:
            if "UNKNOWN_BLOCK" not in want:
                want["UNKNOWN_BLOCK"] = []
            want["UNKNOWN_BLOCK"].append(extra.unknown(b))
            continue
        try:
            want[extra.NAMES[k]] = extra.fixed(b, k, cp)
        except ref.Short:
            bad = True
    got = report(env, d, terminal=inp["terminal"])
    if inp["terminal"]:
        if pos + 4 < end and ref.u32(d, pos) < 4:
            want["TERMINAL_BLOCK"] = {"size": end - pos, "appended_data_sha256": ref.sha(d[pos + 4 :])}
    out = [("extra", want, part(got, "extra"))]
    if bad:
        out.append(("warned", True, len(got.warns) > 0))
    return out


def fixed_block(env, inp):
    """One block that is large enough."""
    d = inp["data"]
    k = inp["kind"]
    env.assume(len(d) >= 76 + extra.LEAST[k])
    size = ref.u32(d, 76)
    env.assume(size >= extra.LEAST[k])
    ends(env, d, 76 + size)
    b = d[76 : 76 + size]
    want = extra.fixed(b, k, inp["cp"] or "cp1252")
    got = report(env, d, cp=inp["cp"], terminal=False)
    out = [("extra", {extra.NAMES[k]: want}, part(got, "extra"))]
    if inp["warn"]:
        odd = not (want["length"] == 0x58 and want["version"] == 0)
        out.append(("warned", odd, len(got.warns) > 0))
    return out


# ------------------------------------------------------------------- C17
def store(env, inp):
    """A property store whose parts fit."""
    d = inp["data"]
    env.assume(len(d) >= 76 + 12)
    size = ref.u32(d, 76)
    env.assume(size >= 12)
    ends(env, d, 76 + size)
    b = d[76 : 76 + size]
    pos = 8
    want = []
    while True:
        env.assume(pos + 4 <= size)
        n = ref.u32(b, pos)
        if n == 0:
            break
        env.assume(len(want) < inp["storages"])
        env.assume(n >= 28)
        env.assume(pos + n <= size)
        fmt = ref.guid(b, pos + 8)
        named = inp["named"]
        env.assume((fmt == extra.NAMED) == named)
        vals = []
        at = pos + 24
        while True:
            env.assume(at + 4 <= pos + n)
            m = ref.u32(b, at)
            if m == 0:
                break
            env.assume(len(vals) < inp["values"])
            env.assume(m >= 14)
            env.assume(at + m <= pos + n)
            vals.append(one_value(env, b, at, m, named, inp))
            at = at + m
        env.assume(at + 4 == pos + n)
        want.append({"storage_size": n, "version": "0x%x" % ref.u32(b, pos + 4), "format_id": fmt,
                     "serialized_property_values": vals})
        pos = pos + n
    got = report(env, d, terminal=False)
    return [("extra", {"METADATA_PROPERTIES_BLOCK": {"size": size, "property_store": want}}, part(got, "extra"))]


def one_value(env, b, at, m, named, inp):
    head = 9
    if named:
        head = 9 + ref.u32(b, at + 4)
        env.assume(head >= 11)
        env.assume(head + 4 <= m)
        env.assume(ref.u16(b, at + head - 2) == 0)
    t = ref.u16(b, at + head)
    if inp["types"]:
        env.assume(t in inp["types"])
    else:
        env.assume(extra.type_name(t) is not None)
    if t == 2:
        env.assume(head + 6 <= m)
    if t == 31:
        env.assume(head + 8 <= m)
        k = ref.u32(b, at + head + 4)
        env.assume(head + 8 + 2 * k <= m)
    return extra.value(b, at, named)


# ------------------------------------------------------------------- C18
DIGITS = "!$%&'()*+,-.0123456789=?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{}~"


def unpack(env, codes):
    """GUID packed into 20 base-85 digits, given as character codes: four
    little-endian words of four bytes each, in memory order."""
    mem = []
    for g in range(4):
        v = 0
        for i in (4, 3, 2, 1, 0):
            k = DIGITS.find(chr(codes[5 * g + i]))
            env.assume(k >= 0)
            v = v * 85 + k
        env.assume(v < 2**32)
        for i in range(4):
            mem.append("%X%X" % ((v >> (8 * i + 4)) & 15, (v >> (8 * i)) & 15))
    order = (3, 2, 1, 0, -1, 5, 4, -1, 7, 6, -1, 8, 9, -1, 10, 11, 12, 13, 14, 15)
    s = ""
    for i in order:
        s += "-" if i < 0 else mem[i]
    return s


def darwin(env, inp):
    """Descriptor of 20 digits, a feature name of n characters and, after the
    terminator, 20 digits or nothing."""
    d = inp["data"]
    n = inp["n"]
    at = 76 + 268
    codes = [d[at + 2 * i] for i in range(20)]
    feature = d[at + 40 : at + 40 + 2 * n]
    want = {
        "size": 788,
        "darwin_data_ansi": text.ansi(d[84 : 84 + 260], inp.get("cp") or "cp1252"),
        "darwin_data_unicode": text.wide(d[at : at + 520]),
        "product_code_id": unpack(env, codes),
        "feature_name": text.wide(feature) if n else None,
        "component_id": None,
    }
    if inp["component"]:
        want["component_id"] = unpack(env, [d[at + 42 + 2 * n + 2 * i] for i in range(20)])
    return [("extra", {"DARWIN_BLOCK": want}, part(report(env, d, cp=inp.get("cp"), terminal=False), "extra"))]


# ------------------------------------------------------------------- C19
def appended(env, inp):
    """An optional code page block, then a value below four and any data."""
    d = inp["data"]
    end = len(d)
    pos = 76
    want = {}
    if inp["block"]:
        env.assume(end >= 88)
        size = ref.u32(d, 76)
        env.assume(size >= 12)
        env.assume(76 + size <= end)
        env.assume(ref.u32(d, 80) == 0xA0000004)
        want["CONSOLE_CODEPAGE_BLOCK"] = {"size": size, "code_page": ref.u32(d, 84)}
        pos = pos + size
    env.assume(pos + 4 <= end)
    v = ref.u32(d, pos)
    env.assume(v < 4)
    if inp["terminal"]:
        total = end
        if end > pos + 4:
            want["TERMINAL_BLOCK"] = {"size": end - pos, "appended_data_sha256": ref.sha(d[pos + 4 :])}
    else:
        total = pos + 4
    got = report(env, d, terminal=inp["terminal"])
    return [("extra", want, part(got, "extra")), ("size", total, part(got, "size"))]
