"""Reference reading of extra data blocks, [MS-SHLLINK] 2.5, from the bytes of
one block."""
from spec import ref, text
from spec.ref import guid, s16, u16, u32

NAMES = {
    0xA0000001: "ENVIRONMENTAL_VARIABLES_LOCATION_BLOCK",
    0xA0000002: "CONSOLE_PROPERTIES_BLOCK",
    0xA0000003: "DISTRIBUTED_LINK_TRACKER_BLOCK",
    0xA0000004: "CONSOLE_CODEPAGE_BLOCK",
    0xA0000005: "SPECIAL_FOLDER_LOCATION_BLOCK",
    0xA0000006: "DARWIN_BLOCK",
    0xA0000007: "ICON_LOCATION_BLOCK",
    0xA0000008: "SHIM_LAYER_BLOCK",
    0xA0000009: "METADATA_PROPERTIES_BLOCK",
    0xA000000B: "KNOWN_FOLDER_LOCATION_BLOCK",
    0xA000000C: "SHELL_ITEM_IDENTIFIER_BLOCK",
}


def kind(sig):
    for k in NAMES:
        if sig == k:
            return k
    return 0


def unknown(b):
    return {"size": u32(b, 0), "extra_data_sha256": ref.sha(b[4:])}


def console(b):
    return {
        "size": u32(b, 0),
        "fill_attributes": u16(b, 8),
        "popup_fill_attributes": u16(b, 10),
        "screen_buffer_size_x": s16(b, 12),
        "screen_buffer_size_y": s16(b, 14),
        "window_size_x": s16(b, 16),
        "window_size_y": s16(b, 18),
        "window_origin_x": s16(b, 20),
        "window_origin_y": s16(b, 22),
        "font_size": u32(b, 32),
        "font_family": u32(b, 36),
        "font_weight": u32(b, 40),
        "face_name": text.wide(b[44:108]),
        "cursor_size": u32(b, 108),
        "full_screen": u32(b, 112),
        "quick_edit": u32(b, 116),
        "insert_mode": u32(b, 120),
        "auto_position": u32(b, 124),
        "history_buffer_size": u32(b, 128),
        "number_of_history_buffers": u32(b, 132),
        "history_no_dup": u32(b, 136),
        "color_table": u32(b, 140),
    }


def tracker(b, cp):
    return {
        "size": u32(b, 0),
        "length": u32(b, 8),
        "version": u32(b, 12),
        "machine_identifier": text.ansi(b[16:32], cp),
        "droid_volume_identifier": guid(b, 32),
        "droid_file_identifier": guid(b, 48),
        "birth_droid_volume_identifier": guid(b, 64),
        "birth_droid_file_identifier": guid(b, 80),
    }


def paths(b, cp):
    return {"size": u32(b, 0), "target_ansi": text.ansi(b[8:268], cp), "target_unicode": text.wide(b[268:788])}


def code_page(b):
    return {"size": u32(b, 0), "code_page": u32(b, 8)}


def special_folder(b):
    return {"size": u32(b, 0), "special_folder_id": u32(b, 8), "offset": u32(b, 12)}


def known_folder(b):
    return {"size": u32(b, 0), "known_folder_id": guid(b, 8), "offset": u32(b, 24)}


def shim(b):
    return {"size": u32(b, 0), "layer_name": text.wide(b[8:])}


def fixed(b, k, cp):
    """A block of fixed layout."""
    if k == 0xA0000001 or k == 0xA0000007:
        return paths(b, cp)
    if k == 0xA0000002:
        return console(b)
    if k == 0xA0000003:
        return tracker(b, cp)
    if k == 0xA0000004:
        return code_page(b)
    if k == 0xA0000005:
        return special_folder(b)
    if k == 0xA0000008:
        return shim(b)
    if k == 0xA000000B:
        return known_folder(b)
    return None


LEAST = {
    0xA0000001: 788, 0xA0000002: 204, 0xA0000003: 96, 0xA0000004: 12, 0xA0000005: 16, 0xA0000006: 788,
    0xA0000007: 788, 0xA0000008: 136, 0xA000000B: 28,
}


# ----------------------------------------------------------- property store
NAMED = "D5CDD505-2E9C-101B-9397-08002B2CF9AE"

_T = {
    0: "EMPTY", 1: "NULL", 2: "I2", 3: "I4", 4: "R4", 5: "R8", 6: "CY", 7: "DATE", 8: "BSTR", 10: "ERROR", 11: "BOOL",
    14: "DECIMAL", 16: "I1", 17: "UI1", 18: "UI2", 19: "UI4", 20: "I8", 21: "UI8", 22: "INT", 23: "UINT", 30: "LPSTR",
    31: "LPWSTR", 64: "FILETIME", 65: "BLOB", 66: "STREAM", 67: "STORAGE", 68: "STREAMED_Object", 69: "STORED_Object",
    70: "BLOB_Object", 71: "CF", 72: "CLSID", 73: "VERSIONED_STREAM",
}
TYPES = {k: "VT_" + v for k, v in _T.items()}
for _k in (2, 3, 4, 5, 6, 7, 8, 10, 11, 16, 17, 18, 19, 20, 21, 30, 31, 64, 71, 72):
    TYPES[0x1000 + _k] = "VT_VECTOR_" + _T[_k]
TYPES[0x100C] = "VT_VECTOR_VARIANT"
for _k in (2, 3, 4, 5, 6, 7, 8, 10, 11, 14, 16, 17, 18, 19, 22, 23):
    TYPES[0x2000 + _k] = "VT_ARRAY_" + _T[_k]
TYPES[0x200C] = "VT_ARRAY_VARIANT"


def type_name(t):
    for k in TYPES:
        if t == k:
            return TYPES[k]
    return None


def typed(b, off):
    """(value, name) of the typed value at off"""
    t = u16(b, off)
    name = type_name(t)
    if u16(b, off + 2) != 0:
        return None, name
    if t == 2:
        return s16(b, off + 4), name
    if t == 31:
        n = u32(b, off + 4)
        return text.wide(b[off + 8 : off + 8 + 2 * n]), name
    return None, name


def value(b, off, named):
    size = u32(b, off)
    if named:
        n = u32(b, off + 4)
        v, t = typed(b, off + 9 + n)
        return {"value_size": size, "name_size": n, "name": text.wide(b[off + 9 : off + 9 + n]), "value": v, "value_type": t}
    v, t = typed(b, off + 9)
    return {"value_size": size, "id": u32(b, off + 4), "value": v, "value_type": t}
