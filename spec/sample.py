"""A link that has something of every kind, for calls on another object."""
import struct

_item = lambda b: struct.pack("<H", len(b) + 2) + b
_items = _item(b"\x1f\x50" + bytes(range(16))) + _item(b"\x31\0" + bytes(4) + struct.pack("<I", 0x53AA4F5B) + b"\x10\0folder\0") + b"\0\0"
_volume = struct.pack("<IIII", 22, 3, 0x1234, 16) + b"other\0"
_info = struct.pack("<IIIIIII", 28 + 22 + 6 + 1, 28, 1, 28, 50, 0, 56) + _volume + b"C:\\oth"[:5] + b"\0" + b"\0"
_string = lambda s: struct.pack("<H", len(s)) + s.encode("utf-16-le")
_blocks = struct.pack("<III", 12, 0xA0000004, 437) + struct.pack("<II", 12, 0xA00000FF) + b"data" + bytes(4)
SAMPLE = (
    struct.pack("<I16sII", 0x4C, bytes.fromhex("0114020000000000c000000000000046"), 0xFF, 0x21)
    + struct.pack("<QQQ", 0x01D5_0000_1234_5678, 0x01D5_0000_1234_5678, 0x01D5_0000_1234_5678)
    + struct.pack("<IiIHHII", 77, 3, 7, 0x0641, 0, 0, 0)
    + struct.pack("<H", len(_items)) + _items + _info
    + _string("other name") + _string("..\\other path") + _string("dir") + _string("/other args") + _string("icon") + _blocks
)
