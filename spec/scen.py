"""Scenarios: what is run on the code under test, and what is expected of it.
Each returns (label, expected, observed) triples."""
from spec import ref, text
from spec.common import ends, part, pick, report


def head(cap, keys):
    if cap.raised:
        return ["raised", cap.raised]
    return pick(cap.value["header"], keys)


# ------------------------------------------------------------------ C01
def header_scalars(env, inp):
    d = inp["data"]
    want = ref.scalars(d)
    got = report(env, d)
    return [("header", want, head(got, list(want)))]


def header_warnings(env, inp):
    """One of the mandated fields is free, everything else standard."""
    d = inp["data"]
    s = ref.scalars(d)
    odd = not (s["guid"] == ref.CLSID and s["reserved0"] == 0 and s["reserved1"] == 0 and s["reserved2"] == 0)
    got = report(env, d)
    return [("header", s, head(got, list(s))), ("warned", odd, len(got.warns) > 0)]


# ------------------------------------------------------------------ C02
def flag_names(env, inp):
    d = inp["data"]
    want = {
        "link_flags": ref.bits(ref.u32(d, 20), ref.LINK_FLAGS),
        "file_flags": ref.bits(ref.u32(d, 24), ref.FILE_FLAGS),
    }
    return [("flags", want, head(report(env, d), list(want)))]


# ------------------------------------------------------------------ C03
def style_and_key(env, inp):
    d = inp["data"]
    want = {"windowstyle": ref.window_style(d), "hotkey": ref.hot_key(d)}
    return [("keys", want, head(report(env, d), list(want)))]


# ------------------------------------------------------------------ C04
TIMES = {28: "creation_time", 36: "accessed_time", 44: "modified_time"}


def header_time(env, inp):
    d = inp["data"]
    off = inp["off"]
    t = ref.filetime(d, off)
    bad = False
    want = {"creation_time": None, "accessed_time": None, "modified_time": None}
    if isinstance(t, str):
        bad = True
    elif t is not None:
        tol = 10 if 0 <= t <= 41341535999999999 else 500
        want[TIMES[off]] = env.near(t, tol)
    got = report(env, d)
    return [("time", want, head(got, list(want))), ("warned", bad, len(got.warns) > 0)]


# ------------------------------------------------------------------ C05
def item_time(env, inp):
    d = inp["data"]
    want, bad = ref.dos_time(env, d, inp["off"])
    got = report(env, d)
    if got.raised:
        obs = ["raised", got.raised]
    else:
        obs = [it.get("modification_time", "absent") for it in got.value["target"]["items"]]
    return [("modification_time", [want], obs), ("warned", bad, len(got.warns) > 0)]


# ------------------------------------------------------------------ C06
def plain_info(env, d, pos, size, kind):
    """Assume link information of the ordinary layout; the fixed fields lie
    inside it. What is to be ignored may have any size."""
    if not kind:
        env.assume(size >= 12)
        return
    env.assume(size >= 28)
    env.assume(ref.u32(d, pos + 4) == 28)
    env.assume(ref.u32(d, pos + 16) > 0)
    env.assume(ref.u32(d, pos + 24) > 0)
    if kind == "Local":
        v = ref.u32(d, pos + 12)
        env.assume((v >= 28) & (v + 20 <= size))
        env.assume(ref.u32(d, pos + v + 4) == 3)
        env.assume(ref.u32(d, pos + v + 12) == 16)
    if kind == "Network":
        v = ref.u32(d, pos + 20)
        env.assume((v >= 28) & (v + 28 <= size))
        env.assume(ref.u32(d, pos + v + 4) == 2)
        env.assume(ref.u32(d, pos + v + 8) == 20)
        env.assume(ref.u32(d, pos + v + 12) == 0)
        env.assume(ref.u32(d, pos + v + 16) == 0x1A0000)


def sections(env, inp):
    """Everything fits; the ID list is empty or holds one URI item, blocks are
    console code page blocks."""
    d = inp["data"]
    cp = "cp1252"
    end = len(d)
    flags = ref.u32(d, 20)
    pos = 76
    want = {}
    if flags & 1:
        env.assume(pos + 2 <= end)
        n = ref.u16(d, pos)
        env.assume(pos + 2 + n <= end)
        env.assume(n >= 2)
        m = ref.u16(d, pos + 2)
        items = []
        if m != 0:
            env.assume(m >= 3)
            env.assume(m + 2 <= n)
            env.assume(ref.u8(d, pos + 4) == 0x61)
            env.assume(ref.u16(d, pos + 2 + m) == 0)
            items = [{"class": "Internet"}]
        want["target"] = {"size": n, "index": 78, "items": items}
        pos = pos + 2 + n
    want["link_info"] = {}
    if flags & 2:
        env.assume(pos + 28 <= end)
        size = ref.u32(d, pos)
        env.assume(pos + size <= end)
        kind = ref.info_kind(d, pos, flags)
        plain_info(env, d, pos, size, kind)
        if kind:
            want["link_info"] = {"link_info_size": size, "link_info_flags": ref.u32(d, pos + 8), "location": kind}
        pos = pos + size
    wide = bool(flags & 0x80)
    data = {}
    for bit, name, clip in ref.STRINGS:
        if flags & bit:
            env.assume(pos + 2 <= end)
            if inp["short"]:
                env.assume(ref.u16(d, pos) <= 260)
            data[name], pos = ref.string_at(d, pos, wide, clip, cp)
            env.assume(pos <= end)
    want["data"] = data
    want["extra"] = {}
    blocks = 0
    while end - pos >= 4 and ref.u32(d, pos) >= 4:
        env.assume(blocks < inp["blocks"])
        size = ref.u32(d, pos)
        env.assume(size >= 12)
        env.assume(pos + size <= end)
        env.assume(ref.u32(d, pos + 4) == 0xA0000004)
        want["extra"] = {"CONSOLE_CODEPAGE_BLOCK": {"size": size, "code_page": ref.u32(d, pos + 8)}}
        pos = pos + size
        blocks = blocks + 1
    # the terminator may be cut
    if end - pos >= 4:
        want["size"] = pos + 4
    else:
        want["size"] = end
    got = report(env, d, terminal=False)
    if got.raised:
        return [("report", "a report", got.raised)]
    obs = pick(got.value, ["target", "data", "extra", "size"])
    obs["link_info"] = pick(got.value["link_info"], ["link_info_size", "link_info_flags", "location"])
    return [("sections", want, obs)]


# ------------------------------------------------------------- C07 to C09
def items_of(got):
    if got.raised:
        return ["raised", got.raised]
    return got.value["target"]["items"]


def one_item(env, inp):
    """An ID list holding one item, at the end of the file. A closed list has
    a terminator and free bytes after it."""
    d = inp["data"]
    cp = inp.get("cp")
    env.assume(len(d) >= 81)
    n = ref.u16(d, 76)
    m = ref.u16(d, 78)
    env.assume(m >= inp["min"])
    env.assume(78 + n == len(d))
    if inp["closed"]:
        env.assume(m + 2 <= n)
        env.assume(ref.u16(d, 78 + m) == 0)
    else:
        env.assume(m == n)
    it = d[78 : 78 + m]
    if ref.item_class(ref.u8(it, 2)) == "delegate":
        inner = ref.u16(it, 4)
        nested = ref.u16(it, 10)
        env.assume(nested >= 14)
        env.assume(inner >= 4 + nested)
        env.assume(inner + 38 <= m)
    want, bad = ref.item(env, it, cp or "cp1252")
    got = report(env, d, cp=cp)
    out = [("item", [want], items_of(got))]
    if inp["warn"]:
        out.append(("warned", bad, len(got.warns) > 0))
    return out


def item_walk(env, inp):
    """Several items without content of their own."""
    d = inp["data"]
    env.assume(len(d) >= 78)
    n = ref.u16(d, 76)
    env.assume(78 + n == len(d))
    end = 78 + n
    pos = 78
    want = []
    while pos < end:
        env.assume(len(want) <= inp["items"])
        env.assume(pos + 2 <= end)
        m = ref.u16(d, pos)
        if m == 0:
            break
        env.assume(m >= 3)
        env.assume(pos + m <= end)
        env.assume(len(want) < inp["items"])
        c = ref.item_class(ref.u8(d, pos + 2))
        env.assume(c in ref.BARE.values() or c == "unknown")
        want.append({"class": "Unknown", "size": m} if c == "unknown" else {"class": c})
        pos = pos + m
    return [("items", want, items_of(report(env, d)))]


def own_bytes(env, inp):
    """An item, then an Internet item and the end of the file. The first is
    also looked at with the file cut off behind it."""
    d = inp["data"]
    env.assume(len(d) >= 84)
    n = ref.u16(d, 76)
    m = ref.u16(d, 78)
    env.assume(m >= 3)
    env.assume(78 + n == len(d))
    end = 78 + m
    env.assume(end + 3 <= len(d))
    env.assume(end + ref.u16(d, end) == len(d))
    env.assume(ref.u8(d, end + 2) == 0x61)
    if inp["nested"]:
        env.assume(m >= 12)
        env.assume(ref.u16(d, 88) >= 14)
        if inp["nested"] == "overlong":
            env.assume(m >= 78)
            env.assume(10 + ref.u16(d, 88) > m)
        else:
            env.assume(10 + ref.u16(d, 88) <= m)
    alone = items_of(report(env, d[:end]))
    both = items_of(report(env, d))
    return [("items", alone + [{"class": "Internet"}], both)]


def item_block(env, inp):
    """A shell item block at the end of the file."""
    d = inp["data"]
    env.assume(len(d) >= 76 + 10 + 4)
    size = ref.u32(d, 76)
    env.assume(size >= 10)
    ends(env, d, 76 + size)
    end = 76 + size
    pos = 84
    want = []
    while pos < end:
        env.assume(len(want) <= inp["items"])
        env.assume(pos + 2 <= end)
        m = ref.u16(d, pos)
        if m == 0:
            break
        env.assume(m >= 3)
        env.assume(pos + m <= end)
        env.assume(len(want) < inp["items"])
        if inp["decoded"]:
            t = ref.u8(d, pos + 2)
            env.assume((t == 0x31) | (t == 0x70) | (t == 0x2E))
            env.assume(m >= 32)
            env.assume(ref.u32(d, pos + 8) == 0)
            want.append(ref.item(env, d[pos : pos + m], "cp437")[0])
        else:
            c = ref.item_class(ref.u8(d, pos + 2))
            env.assume(c in ref.BARE.values() or c == "unknown")
            want.append({"class": "Unknown", "size": m} if c == "unknown" else {"class": c})
        pos = pos + m
    got = report(env, d, cp="cp437", terminal=False)
    return [("extra", {"SHELL_ITEM_IDENTIFIER_BLOCK": {"size": size, "id_list": want}}, part(got, "extra"))]


from spec.scen_info import *  # noqa: E402,F403
from spec.scen_extra import *  # noqa: E402,F403
from spec.scen_robust import *  # noqa: E402,F403
from spec.scen_out import *  # noqa: E402,F403
