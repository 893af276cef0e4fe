"""Building blocks of file templates."""
import struct

from sx.drive import Harness

CLSID = bytes.fromhex("0114020000000000c000000000000046")


def header(flags=0, attrs=0, show=1):
    """A standard 76-byte header as {offset: byte}."""
    h = struct.pack("<I16sII", 0x4C, CLSID, flags, attrs) + bytes(24) + struct.pack("<IiIHHII", 0, 0, show, 0, 0, 0, 0)
    assert len(h) == 76
    return {i: c for i, c in enumerate(h)}


def free(t, a, b):
    for i in range(a, b):
        t.pop(i, None)
    return t


def put(t, off, data):
    for i, c in enumerate(data):
        t[off + i] = c
    return t
