"""What must hold on damaged or surrounded files: C20 to C22, C29."""
from spec import extra, ref
from spec.common import report


def inside(env, start, lo, n):
    env.assume((start == 0) | ((start >= lo) & (start + 3 <= n)))


def info_inside(env, d, pos, size, flags):
    """Assume link information whose parts lie inside it and whose texts end
    there."""
    env.assume(size >= 60)
    env.assume(ref.u32(d, pos + 4) == 28)
    inside(env, ref.u32(d, pos + 16), 0, size)
    inside(env, ref.u32(d, pos + 24), 0, size)
    kind = ref.info_kind(d, pos, flags)
    if kind == "Local":
        v = ref.u32(d, pos + 12)
        env.assume(v + 24 <= size)
        env.assume(ref.u32(d, pos + v + 4) == 3)
        label = ref.u32(d, pos + v + 12)
        if label == 20:
            label = ref.u32(d, pos + v + 16)
        env.assume((label > 0) & (v + label + 3 <= size))
    if kind == "Network":
        v = ref.u32(d, pos + 20)
        env.assume(v + 28 <= size)
        env.assume(ref.u32(d, pos + v + 4) == 0)
        net = ref.u32(d, pos + v + 8)
        if net > 20:
            inside(env, ref.u32(d, pos + v + 20), 0, size - v)
            inside(env, ref.u32(d, pos + v + 24), 0, size - v)
        else:
            inside(env, net, 0, size - v)
            inside(env, ref.u32(d, pos + v + 12), 0, size - v)
    env.zeros(d, pos + size)


def layout(env, d, inp):
    """The parts of a link whose declared extents fit, which ends in a
    terminator; data may follow it."""
    end = len(d)
    flags = ref.u32(d, 20)
    out = {"items": [], "info": None, "strings": [], "blocks": []}
    pos = 76
    if flags & 1:
        env.assume(pos + 2 <= end)
        n = ref.u16(d, pos)
        stop = pos + 2 + n
        env.assume(stop <= end)
        pos = pos + 2
        while pos < stop:
            env.assume(pos + 2 <= stop)
            m = ref.u16(d, pos)
            if m == 0:
                break
            env.assume(len(out["items"]) < inp["items"])
            env.assume(m >= inp.get("least", 3))
            env.assume(pos + m <= stop)
            env.assume(ref.u8(d, pos + 2) in inp["types"])
            if ref.u8(d, pos + 2) & 0x70 == 0x30:
                env.assume(ref.u32(d, pos + 8) == 0)
            out["items"].append((pos, pos + m))
            pos = pos + m
        pos = stop
    if flags & 2:
        env.assume(pos + 28 <= end)
        size = ref.u32(d, pos)
        env.assume(pos + size <= end)
        info_inside(env, d, pos, size, flags)
        out["info"] = (pos, pos + size)
        pos = pos + size
    width = 2 if flags & 0x80 else 1
    for bit, name, clip in ref.STRINGS:
        if flags & bit:
            env.assume(pos + 2 <= end)
            n = ref.u16(d, pos)
            if clip:
                env.assume(n <= 260)
            out["strings"].append((name, pos, pos + 2 + n * width))
            pos = pos + 2 + n * width
            env.assume(pos <= end)
    while True:
        env.assume(pos + 4 <= end)
        size = ref.u32(d, pos)
        if size < 4:
            env.assume(size == 0)
            break
        env.assume(size >= 8)
        env.assume(len(out["blocks"]) < inp["blocks"])
        env.assume(pos + size <= end)
        k = extra.kind(ref.u32(d, pos + 4))
        env.assume(k in inp["kinds"])
        if k and not inp.get("short"):
            env.assume(size >= extra.LEAST[k])
        out["blocks"].append((k, pos, pos + size))
        pos = pos + size
    out["end"] = pos + 4
    return out


# ------------------------------------------------------------------- C20
def stream(env, inp):
    d = inp["data"]
    cp = inp.get("cp")
    n = inp["end"] if "end" in inp else layout(env, d, inp)["end"]
    alone = report(env, d[:n], cp=cp, terminal=False)
    inside = report(env, d, cp=cp, terminal=False)
    if inside.raised:
        return [("report", alone.result(), inside.result())]
    return [("report", alone.result(), inside.result()), ("size", n, inside.value["size"])]


# ------------------------------------------------------------------- C29
def cut(env, inp):
    d = inp["data"]
    c = inp["cut"]
    env.assume(c <= len(d))
    p = layout(env, d, inp)
    # where the cut lies
    marks = [78]
    for a, b in p["items"]:
        marks += [a + 2, a + 3, b]
    if p["info"] is not None:
        a, b = p["info"]
        marks += [a, a + 4, a + 8, a + 12, a + 16, a + 20, a + 24, a + 28, b]
    for _, a, b in p["strings"]:
        marks += [a, a + 2, b]
    for _, a, b in p["blocks"]:
        marks += [a, a + 4, a + 8, b]
    for m in marks + [p["end"]]:
        if c <= m:
            break
    full = report(env, d, terminal=inp["terminal"])
    got = report(env, d[:c], terminal=inp["terminal"])
    if full.raised or got.raised:
        return [("report", full.raised, got.raised)]
    a, b = full.value, got.value
    out = [("header", a["header"], b["header"])]
    k = 0
    for _, stop in p["items"]:
        if stop <= c:
            k += 1
    if k:
        out.append(("items", len(p["items"]), len(a["target"]["items"])))
        out.append(("items", a["target"]["items"][:k], b.get("target", {"items": []})["items"][:k]))
    if p["info"] is not None:
        if p["info"][1] <= c:
            out.append(("link_info", a["link_info"], b["link_info"]))
    for name, _, stop in p["strings"]:
        if stop <= c:
            out.append((name, a["data"].get(name, "absent"), b["data"].get(name, "absent")))
    unknown = 0
    for i, (k, _, stop) in enumerate(p["blocks"]):
        if not (stop <= c):
            break
        if k == 0:
            unknown += 1
        elif k not in [x[0] for x in p["blocks"][i + 1 :]]:
            name = extra.NAMES[k]
            out.append((name, a["extra"].get(name, "absent"), b["extra"].get(name, "absent")))
    if unknown:
        out.append(("unknown", a["extra"]["UNKNOWN_BLOCK"][:unknown], b["extra"].get("UNKNOWN_BLOCK", [])[:unknown]))
    return out


# ------------------------------------------------------------------- C30
def independent(env, inp):
    """A section among others, and the same bytes as the only section."""
    d = inp["data"]
    cp = inp.get("cp")
    a, b = inp["at"]
    one = report(env, inp["head"] + d[a:b] + bytes(4), cp=cp)
    got = report(env, d, cp=cp)
    if one.raised or got.raised:
        return [("report", one.raised, got.raised)]
    out = []
    x, y = one.value, got.value
    if "target" in x:
        out.append(("target", x["target"], y.get("target", "absent")))
    if x["link_info"]:
        out.append(("link_info", x["link_info"], y["link_info"]))
    for k, v in x["data"].items():
        out.append((k, v, y["data"].get(k, "absent")))
    for k, v in x["extra"].items():
        out.append((k, v, y["extra"].get(k, "absent")))
    return out


def any_header(env, inp):
    """A file whose header varies, and one with a standard header."""
    d = inp["data"]
    std = report(env, inp["head"] + d[76:])
    got = report(env, d)
    alone = report(env, d[:76])
    if std.raised or got.raised or alone.raised:
        return [("report", std.raised, got.raised or alone.raised)]
    out = [("header", alone.value["header"], got.value["header"])]
    for k in ("target", "link_info", "data", "extra", "size"):
        out.append((k, std.value.get(k, "absent"), got.value.get(k, "absent")))
    return out


# ------------------------------------------------------------------- C31
def same_item(env, inp):
    """An item alone in the target list, and the same bytes elsewhere."""
    d = inp["data"]
    cp = inp.get("cp")
    a, b = inp["at"]
    it = d[a:b]
    one = report(env, inp["list"] + it + bytes(6), cp=cp)
    got = report(env, inp["before"] + it + inp["after"], cp=cp)
    if one.raised or got.raised:
        return [("report", one.raised, got.raised)]
    if inp["block"]:
        items = got.value["extra"].get(extra.NAMES[0xA000000C], {}).get("id_list", "absent")
    else:
        items = got.value["target"]["items"]
    mine = one.value["target"]["items"]
    if not mine:
        # too short to be read
        return [("items", inp["count"] - 1, len(items))]
    return [
        ("items", inp["count"], len(items)),
        ("item", mine, [items[inp["place"]]] if len(items) > inp["place"] else "absent"),
    ]


# ------------------------------------------------------------------- C33
def neighbours(want, items, place):
    """The items beside the one at a place, which may be missing."""
    if not 2 <= len(items) <= 3:
        return []
    left = items if len(items) == 2 else items[:place] + items[place + 1 :]
    return [("items beside", want[:place] + want[place + 1 :], left)]


def own_damage(env, inp):
    """A section or item of any content, and a benign one in its place."""
    d = inp["data"]
    cp = inp.get("cp")
    a, b = inp["at"]
    calm = report(env, d[:a] + inp["calm"] + d[b:], cp=cp)
    got = report(env, d, cp=cp)
    if calm.raised or got.raised:
        return [("report", calm.raised, got.raised)]
    kind = inp["kind"]
    x, y = calm.value, got.value
    out = [(k, x[k], y[k]) for k in ("header", "size")]
    if kind == "inner":
        nm = extra.NAMES[0xA000000C]
        want, items = x["extra"][nm]["id_list"], y["extra"].get(nm, {}).get("id_list", [])
        out.append(("number of items", True, len(items) == 2 or len(items) == 3))
        out += neighbours(want, items, inp["place"])
        return out + [("other blocks", [k for k in x["extra"] if k != nm], [k for k in y["extra"] if k != nm])]
    if kind != "list":
        if kind == "item":
            want, items = x["target"]["items"], y["target"]["items"]
            out.append(("number of items", True, len(items) == 2 or len(items) == 3))
            out += neighbours(want, items, inp["place"])
        else:
            out.append(("target", x["target"], y.get("target", "absent")))
    else:
        out.append(("list size", x["target"]["size"], y["target"]["size"]))
    if kind != "info":
        out.append(("link_info", x["link_info"], y["link_info"]))
    for k, v in x["data"].items():
        if k != inp.get("string"):
            out.append((k, v, y["data"].get(k, "absent")))
    if kind != "string":
        out.append(("strings", list(x["data"]), list(y["data"])))
    mine = extra.NAMES.get(inp.get("signature"), "UNKNOWN_BLOCK")
    for k, v in x["extra"].items():
        if kind != "block" or k not in (mine, "UNKNOWN_BLOCK"):
            out.append((k, v, y["extra"].get(k, "absent")))
    others = [k for k in y["extra"] if k not in x["extra"] and (kind != "block" or k not in (mine, "UNKNOWN_BLOCK"))]
    out.append(("further blocks", [], others))
    return out


# ------------------------------------------------------------------- C32
def silent(env, inp):
    """Well-formed content: nothing warns."""
    d = inp["data"]
    cp = inp.get("cp")
    x = env.capture(lambda: env.L.LnkFile(indata=d, cp=cp))
    if x.raised:
        return [("parsed", None, x.raised)]
    lnk = x.value
    out = [("warnings of parsing", [], x.warns)]
    for nm, f in (
        ("the full report", lambda: lnk.get_json(True)), ("the reduced report", lambda: lnk.get_json()),
        ("JSON", lambda: lnk.print_json(True)), ("the readable report", lambda: lnk.print_lnk_file(True)),
        ("the target", lambda: lnk.print_shortcut_target()),
    ):
        c = env.capture(f)
        out.append(("warnings of " + nm, [None, []], [c.raised, c.warns]))
    return out


# ------------------------------------------------------------------- C34
def announced(env, inp):
    """Content of which something is missing in the report."""
    got = report(env, inp["data"], cp=inp.get("cp"))
    if got.raised:
        return [("report", None, got.raised)]
    y, kind = got.value, inp["kind"]
    lost = None
    if kind == "item" and len(y["target"]["items"]) < 3:
        lost = "an item"
    if kind == "inner" and len(y["extra"].get(extra.NAMES[0xA000000C], {}).get("id_list", [])) < 3:
        lost = "an item of the block"
    if kind == "block" and len(y["extra"]) < 3:
        lost = "a block"
    if kind == "info":
        a = inp["at"][0]
        flags = ref.u32(inp["data"], a + 8) & 3
        if flags:
            loc = y["link_info"].get("location_info", {})
            if ("volume_label" if flags & 1 else "r_network_provider_type") not in loc:
                lost = "link information"
    if kind == "string" and inp["string"] not in y["data"]:
        lost = "a string"
    if lost:
        return [("a warning that %s is missing" % lost, True, len(got.warns) > 0)]
    return []


def announced_cut(env, inp):
    """A file that ends anywhere after the header."""
    c = inp["cut"]
    for m in inp["marks"]:
        if c <= m:
            break
    got = report(env, inp["data"][:c], cp=inp.get("cp"))
    if got.raised:
        return [("report", None, got.raised)]
    y = got.value
    lost = []
    if inp["list"] and "target" not in y:
        lost.append("the target list")
    if inp["info"] and not y["link_info"]:
        lost.append("link information")
    for name in inp["strings"]:
        if name not in y["data"]:
            lost.append(name)
    a, z = inp["block"]
    if a < c < z and not y["extra"]:
        lost.append("the block")
    if lost:
        return [("a warning that something is missing", True, len(got.warns) > 0)]
    return []


# ------------------------------------------------------------------- C35
def unused(env, inp):
    """Two files that differ in undefined bytes only."""
    d, x = inp["data"], inp["unused"]
    other, pos, at = b"", 0, 0
    for lo, hi in inp["holes"]:
        other = other + d[pos:lo] + x[at : at + hi - lo]
        pos, at = hi, at + hi - lo
    other = other + d[pos:]
    a = report(env, d, cp=inp["cp"], full=inp["full"])
    b = report(env, other, cp=inp["cp"], full=inp["full"])
    if a.raised or b.raised:
        return [("report", [None, None], [a.raised, b.raised])]
    out = [("report", a.value, b.value)]
    if inp["warn"]:
        out.append(("warned", bool(a.warns), bool(b.warns)))
    return out
