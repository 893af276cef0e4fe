"""Robustness of parsing (C21, C22) and the forms of output (C23 to C28)."""
import datetime

from spec import ref
from spec.common import ends, part, pick, report
from spec.scen_robust import layout


# ------------------------------------------------------------- C21 and C22
def quiet_after(env, d, pos):
    """Assume nothing but a terminator at pos, if the data gets that far."""
    if pos + 4 <= len(d):
        env.assume(ref.u32(d, pos) == 0)


def few_items(env, d, pos, stop, k):
    """At most k items between pos and stop."""
    for _ in range(k):
        if pos + 2 > stop:
            return
        m = ref.u16(d, pos)
        if m == 0:
            return
        pos = pos + m
    if pos + 2 <= stop:
        env.assume(ref.u16(d, pos) == 0)


VARIABLE = (0xA0000006, 0xA0000009, 0xA000000C)


def few_blocks(env, d, pos, k, plain):
    for _ in range(k):
        if pos + 4 > len(d):
            return
        if plain:
            if pos + 8 <= len(d):
                for v in VARIABLE:
                    env.assume(ref.u32(d, pos + 4) != v)
        m = ref.u32(d, pos)
        if m < 4:
            return
        pos = pos + m
    quiet_after(env, d, pos)


def few_stores(env, d, pos, stop, k, values):
    for _ in range(k):
        if pos + 4 > stop:
            return
        m = ref.u32(d, pos)
        if m == 0:
            return
        at = pos + 24
        for i in range(values + 1):
            if at + 4 > stop:
                break
            n = ref.u32(d, at)
            if n == 0:
                break
            env.assume(i < values)
            at = at + n
        pos = pos + m
    if pos + 4 <= stop:
        env.assume(ref.u32(d, pos) == 0)


def least(a, b):
    return a if a < b else b


def bounded(env, d, inp):
    """Limit how many parts there are, whatever their sizes."""
    k = inp["region"]
    end = len(d)
    if k == "targets":
        if end >= 78:
            stop = least(78 + ref.u16(d, 76), end)
            few_items(env, d, 78, stop, inp["count"])
            quiet_after(env, d, 78 + ref.u16(d, 76))
    elif k == "info":
        if end >= 80:
            quiet_after(env, d, 76 + ref.u32(d, 76))
    elif k == "strings":
        flags = ref.u32(d, 20)
        width = 2 if flags & 0x80 else 1
        pos = 76
        for bit, _, clip in ref.STRINGS:
            if flags & bit:
                if pos + 2 > end:
                    return
                n = ref.u16(d, pos)
                if clip:
                    n = least(n, 260)
                pos = pos + 2 + n * width
        quiet_after(env, d, pos)
    elif k == "blocks":
        few_blocks(env, d, 76, inp["count"], inp.get("plain"))
    elif k == "store":
        if end >= 84:
            stop = least(76 + ref.u32(d, 76), end)
            few_stores(env, d, 84, stop, inp["count"], inp["values"])
            quiet_after(env, d, 76 + ref.u32(d, 76))
    elif k == "item-block":
        if end >= 84:
            stop = least(76 + ref.u32(d, 76), end)
            few_items(env, d, 84, stop, inp["count"])
            quiet_after(env, d, 76 + ref.u32(d, 76))


def normal(env, inp):
    """Nothing raises, whatever follows the header."""
    d = inp["data"]
    bounded(env, d, inp)
    made = env.capture(lambda: env.L.LnkFile(indata=d, cp=inp.get("cp"), allow_terminal_blocks=inp.get("terminal", True)))
    if made.raised:
        return [("construct", None, made.raised)]
    x = made.value
    out = [("full report", None, env.capture(lambda: x.get_json(True)).raised),
           ("reduced report", None, env.capture(lambda: x.get_json()).raised)]
    if inp["region"] == "strings":
        out.append(("shortcut target", None, env.capture(lambda: x.lnk_command).raised))
    return out


def count_all(rep):
    """Number of items in each walk of the report."""
    out = [("items", len(rep["target"]["items"]) if "target" in rep else 0)]
    n = 0
    for name, v in rep["extra"].items():
        if name == "UNKNOWN_BLOCK":
            n = n + len(v)
            continue
        n = n + 1
        if "property_store" in v:
            out.append(("storages", len(v["property_store"])))
            for s in v["property_store"]:
                out.append(("values", len(s["serialized_property_values"])))
        if "id_list" in v:
            out.append(("block items", len(v["id_list"])))
    out.append(("blocks", n))
    return out


def progress(env, inp):
    """Never more items than bytes; a walk without end shows as a path that
    does not finish."""
    d = inp["data"]
    got = report(env, d, terminal=inp.get("terminal", True))
    if got.raised:
        return []
    return [(what, True, n <= env.length(d) - 76) for what, n in count_all(got.value)]


# ----------------------------------------------------------- C23, C24, C25
def plain_json(env, x):
    """What a JSON document can say of a report."""
    if isinstance(x, dict):
        return {k: plain_json(env, v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain_json(env, v) for v in x]
    if isinstance(x, datetime.datetime):
        return env.iso(x)
    return x


def scope(env, inp):
    """The parts of the file; those of a well-formed one."""
    if inp.get("fits", True):
        layout(env, inp["data"], inp)


def printed_json(env, inp):
    d = inp["data"]
    cp = inp.get("cp")
    full = inp["full"]
    scope(env, inp)
    got = report(env, d, cp=cp, full=full)
    x = env.capture(lambda: env.L.LnkFile(indata=d, cp=cp).print_json(full))
    if got.raised or x.raised:
        return [("printed", got.raised, x.raised)]
    doc = env.json_doc(x.out)
    return [
        ("one JSON document", True, doc.tree is not None and doc.single),
        ("sorted keys", True, doc.keys_sorted),
        ("content", plain_json(env, got.value), doc.tree),
    ]


HEADER_LAYOUT = ("header_size", "reserved0", "reserved1", "reserved2")
INFO_LAYOUT = ("link_info_size", "link_info_header_size", "volume_id_offset", "local_base_path_offset",
               "common_network_relative_link_offset", "common_path_suffix_offset")
LOCAL_LAYOUT = ("volume_id_size", "volume_label_offset")
NETWORK_LAYOUT = ("common_network_relative_link_size", "net_name_offset", "device_name_offset")


def without(d, keys):
    return {k: v for k, v in d.items() if k not in keys}


def reduce_report(rep, kind):
    """The full report without the layout details."""
    out = dict(rep)
    out["header"] = without(rep["header"], HEADER_LAYOUT)
    info = without(rep["link_info"], INFO_LAYOUT)
    if "location_info" in info:
        drop = {"Local": LOCAL_LAYOUT, "Network": NETWORK_LAYOUT}.get(kind, ())
        info["location_info"] = without(info["location_info"], drop)
    out["link_info"] = info
    if "target" in rep:
        out["target"] = {"items": [without(i, ("modification_time",)) for i in rep["target"]["items"]]}
    return out


def info_kind_of(d, flags):
    """Local or Network, of the first structure."""
    if flags & 2 == 0 or flags & 0x100:
        return None
    pos = 76
    if flags & 1:
        pos = 78 + ref.u16(d, 76)
    return ref.info_kind(d, pos, flags)


def reduced(env, inp):
    d = inp["data"]
    cp = inp.get("cp")
    scope(env, inp)
    full = report(env, d, cp=cp)
    part = report(env, d, cp=cp, full=False)
    if full.raised or part.raised:
        return [("report", full.raised, part.raised)]
    kind = info_kind_of(d, ref.u32(d, 20)) if full.value["link_info"] else None
    return [("reduced report", reduce_report(full.value, kind), part.value)]


def nice(key, upper=False):
    if key.startswith("r_"):
        key = key[2:]
    if upper or key == key.upper():
        return key.upper().replace("_", " ")
    return key.replace("_", " ").capitalize()


def nice_tree(x):
    if isinstance(x, list):
        return [nice_tree(v) for v in x]
    if isinstance(x, dict):
        if "class" in x:
            return {x["class"]: {nice(k): nice_tree(v) for k, v in x.items() if k != "class"}}
        out = {}
        for k, v in x.items():
            # a raw value gives way to its decoded form
            if not (k.startswith("r_") and k[2:] in x):
                out[nice(k)] = nice_tree(v)
        return out
    return x


def words(names, raw):
    return " | ".join(names) + (" - (%d)" % raw if raw else "(%d)" % raw)


def readable(env, inp):
    d = inp["data"]
    cp = inp.get("cp")
    full = inp["full"]
    scope(env, inp)
    got = report(env, d, cp=cp, full=full)
    x = env.capture(lambda: env.L.LnkFile(indata=d, cp=cp).print_lnk_file(full))
    if got.raised or x.raised:
        return [("printed", got.raised, x.raised)]
    rep = got.value
    head = {k: v for k, v in rep["header"].items() if k != "r_hotkey"}
    head["link_flags"] = words(rep["header"]["link_flags"], rep["header"]["r_link_flags"])
    head["file_flags"] = words(rep["header"]["file_flags"], rep["header"]["r_file_flags"])
    want = nice_tree(head)
    order = list(want)
    for k, v in rep.items():
        if k != "header":
            want[nice(k, True)] = nice_tree(v)
    title, tree, indented = env.yaml_doc(x.out)
    out = [("indented under the title", ["Windows Shortcut Information:", True], [title, indented]),
           ("content", want, tree)]
    if isinstance(tree, dict):
        out.append(("header values first", sorted(order), sorted(list(tree)[: len(order)])))
    return out


def placeholder(env, inp):
    """Text that happens to be used while the output is made."""
    return readable(env, inp)


# ------------------------------------------------------------------- C26
def split_command(line):
    """The Windows command-line rules: one line into arguments."""
    out, i, n = [], 0, len(line)
    while True:
        while i < n and (line[i] == " " or line[i] == "\t"):
            i += 1
        if i >= n:
            return out
        arg, inside = "", False
        while i < n:
            k = 0
            while i < n and line[i] == "\\":
                k += 1
                i += 1
            if i < n and line[i] == '"':
                arg += "\\" * (k // 2)
                if k % 2:
                    arg += '"'
                elif inside and i + 1 < n and line[i + 1] == '"':
                    arg += '"'
                    i += 1
                else:
                    inside = not inside
                i += 1
                continue
            arg += "\\" * k
            if i >= n or (not inside and (line[i] == " " or line[i] == "\t")):
                break
            arg += line[i]
            i += 1
        out.append(arg)


def target(env, inp):
    """Shortcut target of a relative path and arguments."""
    d = inp["data"]
    cp = inp.get("cp")
    rep = report(env, d, cp=cp)
    lnk = env.capture(lambda: env.L.LnkFile(indata=d, cp=cp))
    if rep.raised or lnk.raised:
        return [("parsed", None, rep.raised or lnk.raised)]
    x = lnk.value
    got = env.capture(lambda: x.lnk_command)
    if got.raised:
        return [("shortcut target", None, got.raised)]
    line = got.value
    data = rep.value["data"]
    path = data.get("relative_path")
    args = data.get("command_line_arguments")
    out = []
    if path is None:
        out.append(("arguments alone", args if args is not None else "", line))
    else:
        head = line
        if args is not None:
            n = len(line) - len(args) - 1
            out.append(("arguments", " " + args, line[n:] if n >= 0 else None))
            if n < 0:
                return out
            head = line[:n]
        out.append(("path is one argument", [path], split_command(head)))
    shown = env.capture(lambda: x.print_shortcut_target())
    out.append(("printed", line + "\n", shown.out if not shown.raised else shown.raised))
    doc = env.json_doc(env.capture(lambda: x.print_shortcut_target(pjson=True)).out)
    out.append(("JSON", {"shortcut_target": line}, doc.tree))
    return out


# ------------------------------------------------------------------- C27
OPS = ("full report", "reduced report", "json", "json full", "readable", "readable full", "target", "target json", "size")


def operate(env, x, op):
    """Result of one reporting call."""
    if op == 0:
        c = env.capture(lambda: x.get_json(True))
    elif op == 1:
        c = env.capture(lambda: x.get_json())
    elif op == 2:
        c = env.capture(lambda: x.print_json())
    elif op == 3:
        c = env.capture(lambda: x.print_json(True))
    elif op == 4:
        c = env.capture(lambda: x.print_lnk_file())
    elif op == 5:
        c = env.capture(lambda: x.print_lnk_file(print_all=True))
    elif op == 6:
        c = env.capture(lambda: x.lnk_command)
    elif op == 7:
        c = env.capture(lambda: x.print_shortcut_target(pjson=True))
    else:
        c = env.capture(lambda: x.size)
    return c


def seen(c):
    return [c.raised, c.value, c.out]


def spoil(x):
    """Change everything in a returned report."""
    if isinstance(x, dict):
        for k in list(x):
            spoil(x[k])
            x[k] = "spoiled"
        x["added"] = "spoiled"
    elif isinstance(x, list):
        for v in list(x):
            spoil(v)
        x.append("spoiled")


def make(env, d, cp):
    return env.L.LnkFile(indata=d, cp=cp)


def pure(env, inp):
    """Calls on one object and on another, then one whose result must be that
    of a fresh object."""
    d = inp["data"]
    cp = inp.get("cp")
    scope(env, inp)
    last = inp["last"]
    k = 0
    for v in range(len(OPS)):
        if last == v:
            k = v
            break
    want = seen(operate(env, make(env, d, cp), k))
    env.fresh()
    other = inp.get("other")
    late = inp.get("late", False)
    x = None if late else make(env, d, cp)
    for name in inp["steps"]:
        op = inp[name]
        if other is not None:
            y = make(env, other, inp.get("other_cp"))
            for j in range(len(OPS)):
                if op == j:
                    spoil(operate(env, y, j).value)
                    break
        else:
            for j in range(len(OPS)):
                if op == j:
                    c = operate(env, x, j)
                    if inp["spoil"]:
                        spoil(c.value)
                    break
    if late:
        x = make(env, d, cp)
    return [("%s after other calls" % OPS[k], want, seen(operate(env, x, k)))]


# ------------------------------------------------------------------- C28
MODES = ("-t", "-j", "-a", "-c")


def command_line(env, inp):
    d = inp["data"]
    scope(env, inp)
    argv = list(inp["argv"])
    target = "-t" in argv or "--target" in argv
    js = "-j" in argv or "--json" in argv
    every = "-a" in argv or "--all" in argv
    cp = "cp1252"
    for i, a in enumerate(argv):
        if a == "-c" or a == "--codepage":
            cp = argv[i + 1]
    x = env.capture(lambda: env.L.LnkFile(indata=d, cp=cp))
    if x.raised:
        return [("parsed", None, x.raised)]
    x = x.value
    if target:
        want = env.capture(lambda: x.print_shortcut_target(pjson=js))
    elif js:
        want = env.capture(lambda: x.print_json(every))
    else:
        want = env.capture(lambda: x.print_lnk_file(every))
    got = env.main(argv, d)
    return [("output", [want.raised, want.out], [got.raised, got.out])]


def from_file(env, inp):
    """A link made from an open file and from its bytes."""
    d = inp["data"]
    cp = inp.get("cp")
    terminal = inp.get("terminal", True)
    scope(env, inp)
    a = report(env, d, cp=cp, terminal=terminal)
    b = env.capture(lambda: env.L.LnkFile(fhandle=env.file(d), cp=cp, allow_terminal_blocks=terminal).get_json(True))
    return [("report", a.result(), b.result())]


# ------------------------------------------------------------------- C36
HEADER_CALLS = {"guid": "link_cls_id", "r_link_flags": "r_link_flags", "r_file_flags": "r_file_flags", "creation_time": "creation_time",
                "accessed_time": "access_time", "modified_time": "write_time", "file_size": "file_size", "icon_index": "icon_index",
                "windowstyle": "window_style", "hotkey": "hot_key", "r_hotkey": "raw_hot_key", "link_flags": "link_flags",
                "file_flags": "file_flags", "header_size": "size", "reserved0": "reserved0", "reserved1": "reserved1", "reserved2": "reserved2"}
PREDICATES = {"has_target_id_list": 0, "has_link_info": 1, "has_name": 2, "has_relative_path": 3, "has_working_dir": 4,
              "has_arguments": 5, "has_icon_location": 6, "is_unicode": 7, "force_no_link_info": 8}
STRING_CALLS = ("description", "relative_path", "working_directory", "command_line_arguments", "icon_location")
INFO_CALLS = {"link_info_size": "size", "link_info_header_size": "header_size", "link_info_flags": "flags"}
INFO_SAME = ("volume_id_offset", "local_base_path_offset", "common_network_relative_link_offset", "common_path_suffix_offset",
             "local_base_path", "common_path_suffix", "local_base_path_offset_unicode", "local_base_path_unicode",
             "common_path_suffix_offset_unicode", "common_path_suffix_unicode", "location")
PLACE_SAME = {"Local": ("volume_id_size", "r_drive_type", "volume_label_offset", "drive_serial_number", "drive_type", "volume_label",
                        "volume_label_unicode_offset", "volume_label_unicode"),
              "Network": ("common_network_relative_link_size", "common_network_relative_link_flags", "net_name_offset",
                          "device_name_offset", "r_network_provider_type", "network_provider_type", "net_name_offset_unicode",
                          "net_name_unicode", "device_name_offset_unicode", "device_name_unicode", "net_name", "device_name")}
ITEM_SAME = {"Root Folder": ("sort_index", "sort_index_value", "guid"), "Volume Item": ("volume_name", "volume_identifier"),
             "File entry": ("flags", "file_size", "modification_time", "file_attribute_flags", "primary_name"),
             "Network location": ("location", "description", "comments"), "Control panel CPL file": ("cpl_file_path", "comments"),
             "Control panel category": ("category",), "Users files folder": ("delegate_class_id", "delegate_folder_id")}
TRACKER_CALLS = {"machine_identifier": "machine_id", "droid_volume_identifier": "droid_volume_id", "droid_file_identifier": "droid_file_id",
                 "birth_droid_volume_identifier": "droid_birth_volume_id", "birth_droid_file_identifier": "droid_birth_file_id"}


def asked(env, what, x, name, rep, key):
    """One method's answer against the value reported under a key."""
    f = getattr(x, name, None)
    if f is None:
        return []
    got = env.capture(f)
    if got.raised:
        return [("%s.%s" % (what, name), None, got.raised)] if key in rep else []
    if key in rep:
        return [("%s.%s" % (what, name), rep[key], got.value)]
    if what == "info":
        return []
    return [("%s.%s without a value" % (what, name), False, bool(got.value))]


def asked_all(env, what, x, calls, rep):
    if isinstance(calls, tuple):
        calls = {k: k for k in calls}
    out = []
    for key, name in calls.items():
        out += asked(env, what, x, name, rep, key)
    return out


def objects(env, inp):
    """The object's parts, asked before the report is made, against it."""
    d = inp["data"]
    cp = inp.get("cp")
    scope(env, inp)
    x = env.capture(lambda: make(env, d, cp))
    got = report(env, d, cp=cp)
    if x.raised or got.raised:
        return [("object", [None, None], [x.raised, got.raised])]
    x, rep = x.value, got.value
    out = [("size", rep["size"], x.size)]
    word = rep["header"]["r_link_flags"]
    for name, bit in PREDICATES.items():
        out.append((name, bool(word & (1 << bit)), getattr(x, name)()))
    out += asked_all(env, "header", x.header, HEADER_CALLS, rep["header"])
    out += asked_all(env, "string_data", x.string_data, STRING_CALLS, rep["data"])
    out.append(("link information", bool(rep["link_info"]), x.info is not None))
    if x.info is not None and "location" in rep["link_info"]:
        place = rep["link_info"]["location"]
        out += asked_all(env, "info", x.info, INFO_CALLS, rep["link_info"])
        out += asked_all(env, "info", x.info, INFO_SAME, rep["link_info"])
        out += asked_all(env, "info", x.info, PLACE_SAME[place], rep["link_info"]["location_info"])
    out.append(("target", "target" in rep, x.targets is not None))
    if x.targets is not None and "target" in rep:
        out.append(("targets.id_list_size", rep["target"]["size"], x.targets.id_list_size()))
        c = env.capture(lambda: list(x.targets))
        out.append(("targets", len(rep["target"]["items"]), [c.raised] if c.raised else len(c.value)))
        if not c.raised and len(c.value) == len(rep["target"]["items"]):
            for t, item in zip(c.value, rep["target"]["items"]):
                out.append(("as_item", ["returned", item], env.capture(t.as_item).result()))
                out += asked_all(env, item["class"], t, ITEM_SAME.get(item["class"], ()), item)
                if item["class"] == "Users files folder":
                    out.append(("file_entry", item["file_entry"], t.file_entry().as_item()))
    last, unknown = {}, []
    for e in x.extras:
        c = env.capture(e.as_dict)
        if not c.raised:
            if e.name() == "UNKNOWN_BLOCK":
                unknown.append(e)
            else:
                # the last of a kind is reported
                last[e.name()] = e, c.value
    for name, (e, value) in last.items():
        r = rep["extra"].get(name, {})
        out.append(("as_dict of " + name, r, value))
        calls = TRACKER_CALLS if "TRACK" in name else {}
        for key in r:
            if key == "property_store":
                out.append((key, r[key], [s.as_dict() for s in e.property_store()]))
            elif key == "appended_data_sha256":
                out.append((key, r[key], env.sha256(e.appended_data())))
            else:
                out += asked(env, name, e, calls.get(key, key), r, key)
    out.append(("kinds of blocks", sorted(last), sorted(k for k in rep["extra"] if k != "UNKNOWN_BLOCK")))
    for e, r in zip(unknown, rep["extra"].get("UNKNOWN_BLOCK", [])):
        out.append(("extra_data", [r["size"], r["extra_data_sha256"]], [e.size(), env.sha256(e.extra_data())]))
    out.append(("blocks of unknown kind", len(rep["extra"].get("UNKNOWN_BLOCK", [])), len(unknown)))
    out.append(("report afterwards", rep, env.capture(lambda: x.get_json(True)).value))
    return out
