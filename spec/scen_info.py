"""Link information, string data and text: C10 to C14."""
from spec import extra, info, ref, text
from spec.common import ends, part, pick, report


def inside(env, start, lo, n):
    """An offset of a text that begins before the closing zeros."""
    env.assume((start == 0) | ((start >= lo) & (start + 3 <= n)))


def info_front(env, d, pos):
    """Assume link information that ends in zeros and whose texts begin
    inside it."""
    size = ref.u32(d, pos)
    env.assume(size >= 60)
    ends(env, d, pos + size)
    env.zeros(d, pos + size)
    inside(env, ref.u32(d, pos + 16), 0, size)
    inside(env, ref.u32(d, pos + 24), 0, size)
    if ref.u32(d, pos + 4) >= 36:
        inside(env, ref.u32(d, pos + 28), 0, size)
        inside(env, ref.u32(d, pos + 32), 0, size)
    return size


def local_info(env, inp):
    d = inp["data"]
    cp = inp["cp"]
    pos = 76
    env.assume(len(d) >= 76 + 64)
    size = info_front(env, d, pos)
    env.assume(ref.u32(d, pos + 8) & 1 == 1)
    v = ref.u32(d, pos + 12)
    env.assume(v + 20 <= size)
    label = ref.u32(d, pos + v + 12)
    if label == 20:
        n = ref.u32(d, pos + v + 16)
        env.assume(n > 0)
        env.assume(v + n + 3 <= size)
    else:
        env.assume(v + label + 3 <= size)
    want = info.local(d, pos, cp or "cp1252")
    return [("link_info", want, part(report(env, d, cp=cp, terminal=False), "link_info"))]


def network_info(env, inp):
    d = inp["data"]
    cp = inp["cp"]
    pos = 76
    env.assume(len(d) >= 76 + 64)
    size = info_front(env, d, pos)
    env.assume(ref.u32(d, pos + 8) & 3 == 2)
    r = ref.u32(d, pos + 20)
    env.assume(r + 28 <= size)
    net = ref.u32(d, pos + r + 8)
    if net > 20:
        n = ref.u32(d, pos + r + 20)
        env.assume((n == 0) | (r + n + 3 <= size))
        n = ref.u32(d, pos + r + 24)
        env.assume((n == 0) | (r + n + 3 <= size))
    else:
        n = ref.u32(d, pos + r + 12)
        env.assume((net == 0) | (r + net + 3 <= size))
        env.assume((n == 0) | (r + n + 3 <= size))
    want = info.network(d, pos, cp or "cp1252")
    return [("link_info", want, part(report(env, d, cp=cp, terminal=False), "link_info"))]


def unused_info(env, inp):
    """Neither kind, or link information is to be ignored."""
    d = inp["data"]
    pos = 76
    env.assume(len(d) >= pos + 32)
    size = ref.u32(d, pos)
    env.assume(size >= 28)
    ends(env, d, pos + size)
    env.assume((ref.u32(d, 20) & 0x100 != 0) | (ref.u32(d, pos + 8) & 3 == 0))
    return [("link_info", {}, part(report(env, d, terminal=False), "link_info"))]


# ------------------------------------------------------------------- C12
def strings(env, inp):
    """String data at the end of the file, cut off anywhere; or a terminator
    follows."""
    d = inp["data"]
    flags = ref.u32(d, 20)
    wide = bool(flags & 0x80)
    end = len(d)
    pos = 76
    want = {}
    cut = None
    short = False
    for bit, name, clip in ref.STRINGS:
        if flags & bit:
            if pos + 2 > end:
                short = True
                break
            s, nxt = ref.string_at(d, pos, wide, clip, inp["cp"])
            if nxt > end:
                cut = name
            else:
                want[name] = s
            pos = nxt
    if pos + 4 <= end:
        ends(env, d, pos)
    else:
        env.assume(short or pos >= end)
    got = report(env, d, cp=inp["cp"], terminal=False)
    if got.raised:
        return [("data", want, ["raised", got.raised])]
    obs = dict(got.value["data"])
    if cut:
        obs.pop(cut, None)
    out = [("data", want, obs)]
    if short:
        out.append(("warned", True, len(got.warns) > 0))
    return out


# ------------------------------------------------------------------- C13
def field_text(env, inp):
    """One string data field with the given content."""
    d = inp["data"]
    body = d[78 : 78 + inp["n"]]
    if inp["wide"]:
        want, bad = text.wide_info(body)
    else:
        want, bad = text.ansi_info(body, inp["cp"] or "cp1252")
    got = report(env, d, cp=inp["cp"])
    out = [("text", {"command_line_arguments": want}, part(got, "data"))]
    # a reader of all texts may warn about bytes after the terminator
    if bad or not text.ended(body, inp["wide"]):
        out.append(("warned", bad, len(got.warns) > 0))
    return out


# ------------------------------------------------------------------- C14
def everywhere(env, inp):
    """A file of fixed layout with ANSI strings in every section; inp["at"]
    tells where its parts are."""
    d = inp["data"]
    at = inp["at"]
    cp = inp["cp"] or "cp1252"
    got = report(env, d, cp=inp["cp"], terminal=False)
    if got.raised:
        return [("report", "a report", got.raised)]
    want = {"items": [], "strings": {}, "extra": {}}
    for a, b in at["items"]:
        want["items"].append(ref.item(env, d[a:b], cp)[0])
    kind = info.local if at["kind"] == "Local" else info.network
    want["info"] = kind(d, at["info"], cp)
    pos = at["strings"]
    for bit, name, clip in ref.STRINGS:
        want["strings"][name], pos = ref.string_at(d, pos, at["wide"], clip, cp)
    for a, b in at["blocks"]:
        k = extra.kind(ref.u32(d, a + 4))
        if k == 0xA000000C:
            lst = [ref.item(env, d[x:y], cp)[0] for x, y in at["inner"]]
            want["extra"][extra.NAMES[k]] = {"size": b - a, "id_list": lst}
        else:
            want["extra"][extra.NAMES[k]] = extra.fixed(d[a:b], k, cp)
    darwin = got.value["extra"].get("DARWIN_BLOCK", {})
    a = at["darwin"]
    return [
        ("items", want["items"], got.value["target"]["items"]),
        ("link_info", want["info"], got.value["link_info"]),
        ("data", want["strings"], got.value["data"]),
        ("extra", want["extra"], {k: v for k, v in got.value["extra"].items() if k != "DARWIN_BLOCK"}),
        ("darwin", text.ansi(d[a + 8 : a + 268], cp), darwin.get("darwin_data_ansi", "absent")),
        ("darwin", text.wide(d[a + 268 : a + 788]), darwin.get("darwin_data_unicode", "absent")),
    ]
