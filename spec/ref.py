"""Reference reading of a shell link, written from [MS-SHLLINK], the Windows
shell item format and the property statements - not from the parser."""
import hashlib
from datetime import datetime, timezone

from spec import text


class Short(Exception):
    """A field is missing."""


def u(b, off, n):
    c = b[off : off + n]
    if len(c) != n:
        raise Short()
    return int.from_bytes(c, "little")


def u8(b, off):
    return u(b, off, 1)


def u16(b, off):
    return u(b, off, 2)


def u32(b, off):
    return u(b, off, 4)


def s16(b, off):
    c = b[off : off + 2]
    if len(c) != 2:
        raise Short()
    return int.from_bytes(c, "little", signed=True)


def s32(b, off):
    c = b[off : off + 4]
    if len(c) != 4:
        raise Short()
    return int.from_bytes(c, "little", signed=True)


def guid(b, off):
    c = b[off : off + 16]
    if len(c) != 16:
        raise Short()
    order = (3, 2, 1, 0, -1, 5, 4, -1, 7, 6, -1, 8, 9, -1, 10, 11, 12, 13, 14, 15)
    s = ""
    for i in order:
        s += "-" if i < 0 else "%02X" % c[i]
    return s


def sha(b):
    return hashlib.sha256(b).hexdigest()


LINK_FLAGS = (
    "HasTargetIDList HasLinkInfo HasName HasRelativePath HasWorkingDir HasArguments HasIconLocation IsUnicode "
    "ForceNoLinkInfo HasExpString RunInSeparateProcess Reserved0 HasDarwinID RunAsUser HasExpIcon NoPidlAlias "
    "Reserved1 RunWithShimLayer ForceNoLinkTrack EnableTargetMetadata DisableLinkPathTracking "
    "DisableKnownFolderTracking DisableKnownFolderAlias AllowLinkToLink UnaliasOnSave PreferEnvironmentPath "
    "KeepLocalIDListForUNCTarget"
).split(" ")

FILE_FLAGS = [
    "FILE_ATTRIBUTE_READONLY",
    "FILE_ATTRIBUTE_HIDDEN",
    "FILE_ATTRIBUTE_SYSTEM",
    "Reserved, not used by the LNK format",
    "FILE_ATTRIBUTE_DIRECTORY",
    "FILE_ATTRIBUTE_ARCHIVE",
    "FILE_ATTRIBUTE_DEVICE",
    "FILE_ATTRIBUTE_NORMAL",
    "FILE_ATTRIBUTE_TEMPORARY",
    "FILE_ATTRIBUTE_SPARSE_FILE",
    "FILE_ATTRIBUTE_REPARSE_POINT",
    "FILE_ATTRIBUTE_COMPRESSED",
    "FILE_ATTRIBUTE_OFFLINE",
    "FILE_ATTRIBUTE_NOT_CONTENT_INDEXED",
    "FILE_ATTRIBUTE_ENCRYPTED",
    "FILE_ATTRIBUTE_INTEGRITY_STREAM",
    "FILE_ATTRIBUTE_VIRTUAL",
    "FILE_ATTRIBUTE_NO_SCRUB_DATA",
]

CLSID = "00021401-0000-0000-C000-000000000046"

MODIFIERS = {0: "UNSET", 1: "SHIFT", 2: "CONTROL", 4: "ALT"}


def _keys():
    t = {0: "UNSET", 0x90: "NUM_LOCK", 0x91: "SCROLL_LOCK"}
    for c in "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ":
        t[ord(c)] = c
    for i in range(1, 25):
        t[0x6F + i] = "F%d" % i
    return t


KEYS = _keys()


def bits(word, names):
    return [name for i, name in enumerate(names) if (word >> i) & 1]


def scalars(d):
    return {
        "guid": guid(d, 4),
        "r_link_flags": u32(d, 20),
        "r_file_flags": u32(d, 24),
        "file_size": u32(d, 52),
        "icon_index": s32(d, 56),
        "r_hotkey": u16(d, 64),
        "reserved0": u16(d, 66),
        "reserved1": u32(d, 68),
        "reserved2": u32(d, 72),
    }


def window_style(d):
    c = u32(d, 60)
    if c == 3:
        return "SW_SHOWMAXIMIZED"
    if c == 7:
        return "SW_SHOWMINNOACTIVE"
    return "SW_SHOWNORMAL"


def hot_key(d):
    low, high = d[64], d[65]
    digits = "%02x%02x" % (low, high)
    m = MODIFIERS.get(high)
    k = KEYS.get(low)
    if m is None or k is None:
        return digits
    return "%s - %s {0x%s}" % (m, k, digits)


# ------------------------------------------------------------------ times
EPOCH_TENTHS = 116444736000000000  # 1970-01-01 as a FILETIME
LAST_TENTHS = 2650467743999999999  # last FILETIME of year 9999


def filetime(b, off):
    """None, or tenths of a microsecond since 1970, or 'invalid'"""
    v = u(b, off, 8)
    if v == 0:
        return None
    if v > LAST_TENTHS:
        return "invalid"
    return v - EPOCH_TENTHS


def dos_parts(b, off):
    v = u32(b, off)
    date = v & 0xFFFF
    time = v >> 16
    return v, (
        1980 + (date >> 9), (date >> 5) & 15, date & 31,
        time >> 11, (time >> 5) & 63, (time & 31) * 2,
    )


def valid_date(y, m, d):
    if m < 1:
        return False
    if m > 12:
        return False
    if d < 1:
        return False
    if d <= 28:
        return True
    if m == 2:
        leap = y % 4 == 0 and y != 2100
        return d == 29 and leap
    if m == 4 or m == 6 or m == 9 or m == 11:
        return d <= 30
    return True


def dos_time(env, b, off):
    """(value, invalid)"""
    v, (y, m, d, hh, mm, ss) = dos_parts(b, off)
    if v == 0:
        return None, False
    if valid_date(y, m, d) and hh < 24 and mm < 60 and ss < 60:
        return env.fields(y, m, d, hh, mm, ss), False
    return None, True


# --------------------------------------------------------------- sections
STRINGS = (
    (0x04, "description", True),
    (0x08, "relative_path", True),
    (0x10, "working_directory", True),
    (0x20, "command_line_arguments", False),
    (0x40, "icon_location", False),
)


def char_text(b, wide, cp):
    return text.wide(b) if wide else text.ansi(b, cp)


def string_at(d, pos, wide, clip, cp):
    """(text, end) of the string at pos; its characters may be cut off"""
    n = u16(d, pos)
    if clip and n > 260:
        n = 260
    if wide:
        n = n * 2
    return char_text(d[pos + 2 : pos + 2 + n], wide, cp), pos + 2 + n


def info_kind(d, pos, flags):
    if flags & 0x100:
        return None
    f = u32(d, pos + 8)
    if f & 1:
        return "Local"
    if f & 2:
        return "Network"
    return None


# ------------------------------------------------------------ shell items
SORT_INDEX = {
    0x00: "Internet Explorer",
    0x42: "Libraries",
    0x44: "Users",
    0x48: "My Documents",
    0x4C: "Public Folder",
    0x50: "My Computer",
    0x54: "UsersLibraries",
    0x58: "My Networs Places/Network",
    0x60: "Recycle Bin",
    0x68: "Internet Explorer",
    0x78: "Recycle Bin",
    0x80: "My Games",
}

CATEGORIES = [
    "All Control Panel Items", "Appearance and Personalization", "Hardware and Sound", "Network and Internet",
    "Sounds, Speech, and Audio Devices", "System and Security", "Clock, Language, and Region", "Ease of Access",
    "Programs", "User Accounts", "Security Center", "Mobile PC",
]

KINDS = [
    None, "Is directory", "Is file", "Is share", "Has Unicode strings", "Is Unicode directory", "Is Unicode file",
]

BARE = {0x52: "Compressed folder", 0x61: "Internet", 0x72: "Printers", 0x73: "Common places folder"}


def kind_name(env, t):
    """Name of the low type bits; undocumented combinations are not judged."""
    for n in range(1, 7):
        if t & 15 == n:
            return KINDS[n]
    return env.any()


def item_class(t):
    m = t & 0x70
    if m == 0x20:
        return "volume"
    if m == 0x30:
        return "file"
    if m == 0x40:
        return "network"
    if t == 0:
        return "cpl"
    if t == 1:
        return "category"
    if t == 0x1E or t == 0x1F:
        return "root"
    if t == 0x70 or t == 0x71:
        return "panel"
    if t == 0x74:
        return "delegate"
    for k in BARE:
        if t == k:
            return BARE[k]
    return "unknown"


def file_entry(env, it, cp):
    """(item, warned)"""
    t = u8(it, 2)
    when, bad = dos_time(env, it, 8)
    if t & 4:
        name = text.wide(it[14:])
    else:
        name = text.ansi(it[14:], cp)
    return {
        "class": "File entry",
        "flags": kind_name(env, t),
        "file_size": u32(it, 4),
        "modification_time": when,
        "file_attribute_flags": u16(it, 12),
        "primary_name": name,
    }, bad


def cpl(it, cp):
    wide = len(it) >= 24 and it[12] == 0
    start = 24 if wide else 12
    name, comments = (u16(it, 20), u16(it, 22)) if wide else (u16(it, 8), u16(it, 10))

    def at(n):
        if wide:
            return text.wide(it[start + 2 * n :])
        return text.ansi(it[start + n :], cp)

    return {
        "class": "Control panel CPL file",
        "signature": "0x%08X" % u32(it, 4),
        "cpl_file_path": at(0),
        "name": at(name),
        "comments": "" if comments == 0 else at(comments),
    }


def network(env, it, cp):
    parts = []
    rest = it[5:]
    while True:
        n = 0
        cut = False
        for c in rest:
            if c == 0:
                cut = True
                break
            n += 1
        parts.append(text.ansi(rest[:n], cp))
        if not cut:
            break
        rest = rest[n + 1 :]
    flags = u8(it, 4)
    k = 1
    desc = comm = None
    if flags & 0x80:
        desc = parts[k] if k < len(parts) else None
        k += 1
    if flags & 0x40:
        comm = parts[k] if k < len(parts) else None
    return {
        "class": "Network location",
        "flags": kind_name(env, u8(it, 2)),
        "content_flags": flags,
        "location": parts[0],
        "description": desc,
        "comments": comm,
    }


def item(env, it, cp):
    """(decoded item, whether it deserves a warning) of an ItemID, from its
    own bytes."""
    t = u8(it, 2)
    kind = item_class(t)
    if kind == "unknown":
        return {"class": "Unknown", "size": len(it)}, True
    if kind == "root":
        v = u8(it, 3)
        name = "Unknown"
        for k in SORT_INDEX:
            if v == k:
                name = SORT_INDEX[k]
                break
        return {"class": "Root Folder", "sort_index": name, "sort_index_value": v, "guid": guid(it, 4)}, name == "Unknown"
    if kind == "volume":
        out = {"class": "Volume Item", "flags": "0x%x" % (t & 15)}
        if t & 1:
            out["volume_name"] = text.ansi(it[3:23], cp)
        else:
            out["volume_identifier"] = guid(it, 4)
        return out, False
    if kind == "file":
        return file_entry(env, it, cp)
    if kind == "panel":
        return {"class": "Control panel", "item_identifier": guid(it, 16)}, False
    if kind == "category":
        v = u32(it, 8)
        name = "Unknown"
        for i, c in enumerate(CATEGORIES):
            if v == i:
                name = c
                break
        return {"class": "Control panel category", "category_id": v, "category": name}, name == "Unknown"
    if kind == "cpl":
        return cpl(it, cp), False
    if kind == "network":
        return network(env, it, cp), False
    if kind == "delegate":
        inner = u16(it, 4)
        nested = it[10 : 10 + u16(it, 10)]
        entry, bad = file_entry(env, nested, cp)
        return {
            "class": "Users files folder",
            "signature": it[6:10].decode("ascii", "replace"),
            "file_entry": entry,
            "delegate_class_id": guid(it, 6 + inner),
            "delegate_folder_id": guid(it, 22 + inner),
        }, bad
    return {"class": kind}, False
