"""Reported texts, read character by character where they are reported: each
begins with a few characters of any value, or is long and ends with some."""
import struct

from harness.base import Harness, free, header, put


def u16(v):
    return struct.pack("<H", v)


def u32(v):
    return struct.pack("<I", v)


def filled(n, wide):
    return (b"a\0" if wide else b"a") * (n // (2 if wide else 1))


def text(n, wide, long, k=None):
    """n bytes for a text, and the range in them that is free."""
    k = k or (6 if wide else 3)
    if long:
        m = 2 if wide else 1
        return filled(n, wide), (n - m, n)
    return bytes(n), (0, min(k, n))


class File:
    """Bytes with free ranges."""

    def __init__(self, flags=0):
        self.t = header(flags=flags)
        self.at = 76
        self.open = []

    def add(self, b):
        put(self.t, self.at, b)
        self.at += len(b)
        return self

    def text(self, n, wide, long, live=True, k=None):
        b, (lo, hi) = text(n, wide, long, k)
        if live:
            self.open.append((self.at + lo, self.at + hi))
        return self.add(b)

    def data(self, B):
        for lo, hi in self.open:
            free(self.t, lo, hi)
        return B.bytes("f", self.at, self.t)


def listed(content, after=b"\0\0"):
    """ID list of one item; content(file) adds what follows its size."""
    f = File(1).add(bytes(4))
    content(f)
    m = f.at - 78
    f.add(after)
    put(f.t, 76, u16(f.at - 78) + u16(m))
    return f


def one(content, least):
    return lambda B: {"data": listed(content).data(B), "min": least, "closed": True, "warn": False}


def block(sig, size, content):
    """A block; content(file) adds what follows the signature."""

    def build(B):
        f = File().add(bytes(4) + u32(sig))
        content(f)
        f.add(bytes(max(0, size - (f.at - 76))))
        put(f.t, 76, u32(f.at - 76))
        return f.add(bytes(4)).data(B)

    return build


def info(words, content):
    def build(B):
        f = File(2)
        content(f)
        put(f.t, 76, u32(f.at - 76))
        for off, v in words.items():
            put(f.t, 76 + off, u32(v))
        return {"data": f.add(bytes(4)).data(B), "cp": None}

    return build


def pair(name, scen, make, what, **k):
    """A short and a long text: make(long) gives the build function."""
    out = [
        Harness("text-%s-%s" % (name, "long" if long else "short"), scen, make(long),
                what + (": a long text that ends in any character" if long else ": up to 3 characters of any value"), budget=30, **k)
        for long in (False, True)
    ]
    if not (name.endswith("-wide") or name in UNICODE):
        short = make(False)
        out.append(Harness("text-%s-utf8" % name, scen, lambda B: dict(short(B), cp="utf-8"), what + ": up to 3 bytes of any value, code page UTF-8", budget=30, **k))
    return out


UNICODE = ("face", "layer", "value", "name-stored")


def c08():
    out = []
    out += pair("volume", "one_item", lambda long: one(lambda f: f.add(b"\x2f").text(20, False, long).add(b"x\0\0"), 23), "volume name")
    for nm, t, wide in (("file", 0x31, False), ("file-wide", 0x36, True)):
        out += pair(nm, "one_item", lambda long, t=t, wide=wide: one(
            lambda f: f.add(bytes([t, 0]) + u32(5) + bytes(4) + u16(16)).text(300 if long else 8, wide, long), 15), "primary name")
    return out


def c09():
    out = []

    def cpl(wide, which, long):
        def content(f):
            size = lambda i: (300 if long else 8) if i == which else 8
            off = [0]
            for i in range(3):
                off.append(off[-1] + size(i) // (2 if wide else 1))
            if wide:
                f.add(b"\0\0" + u32(0) + u32(0x11) + u32(0) + u32(3) + u16(off[1]) + u16(off[2]))
            else:
                f.add(b"\0\0" + u32(0x11) + u16(off[1]) + u16(off[2]))
            for i in range(3):
                if i == which:
                    f.text(size(i), wide, long)
                else:
                    f.add(b"p" + bytes(size(i) - 1))

        return one(content, 13)

    for wide in (False, True):
        for i, nm in enumerate(("path", "name", "comments")):
            out += pair("cpl-%s%s" % (nm, "-wide" if wide else ""), "one_item", lambda long, wide=wide, i=i: cpl(wide, i, long), "CPL " + nm)
    for nm, at in (("location", 0), ("description", 1), ("comments", 2)):
        def network(long, at=at):
            def content(f):
                f.add(b"\x41\0\xc0")
                for i in range(3):
                    f.text((300 if i == at else 2) if long else 2, False, long, i == at, 1)
                    if long:
                        f.add(b"\0")

            return one(content, 6)

        out += pair("network-" + nm, "one_item", network, "network " + nm)

    def delegate(long):
        def content(f):
            n = 300 if long else 8
            f.add(b"\x74\0" + u16(4 + 14 + n) + b"CFSF" + u16(14 + n) + b"\x32\0" + u32(5) + bytes(4) + u16(32))
            f.text(n, False, long).add(bytes(range(32)))

        return one(content, 52)

    out += pair("delegate", "one_item", delegate, "nested primary name")
    return out


def c10():
    out = []
    for i, nm in enumerate(("label", "path", "suffix", "path-wide", "suffix-wide", "label-wide")):
        def local(long, i=i):
            wide = i > 2
            n = 300 if long else 8
            # header, volume id, then the text at the end
            def content(f):
                f.add(bytes(36 + 24))
                f.text(n, wide, long).add(bytes(4))

            at = 60
            w = {4: 36, 8: 1, 12: 36, 16: 0, 20: 0, 24: 0, 28: 0, 32: 0, 36: 24, 40: 3, 44: 7, 48: 16, 52: 0, 56: 0}
            if i == 0:
                w[48] = 24
            elif i == 5:
                w[48], w[52] = 20, 24
            else:
                w[{1: 16, 2: 24, 3: 28, 4: 32}[i]] = at
            return info(w, content)

        out += pair(nm, "local_info", local, nm)
    return out


def c11():
    out = []
    for i, nm in enumerate(("name", "device", "suffix", "name-wide", "device-wide")):
        def net(long, i=i):
            wide = i > 2
            n = 300 if long else 8

            def content(f):
                f.add(bytes(28 + 28))
                f.text(n, wide, long).add(bytes(4))

            at = 56
            w = {4: 28, 8: 2, 12: 0, 16: 0, 20: 28, 24: 0, 28: 28, 32: 0, 36: 20, 40: 0, 44: 0, 48: 0, 52: 0}
            if i == 0:
                w[36] = 20
                del w[48], w[52]
            if wide:
                w[36], w[40] = 28, 28
                w[48 if i == 3 else 52] = at - 28
                w[52 if i == 3 else 48] = 24
            elif i == 1:
                w[40] = at - 28
            elif i == 2:
                w[24] = at

            def content0(f):
                # the net name of a plain structure is at offset 20
                f.add(bytes(28 + 20))
                f.text(n, False, long).add(b"\0" * 10)

            return info(w, content0 if i == 0 else content)

        out += pair(nm, "network_info", net, nm)
    return out


def c12():
    out = []
    for i, nm in enumerate(("description", "relative-path", "working-directory", "arguments", "icon")):
        for wide in (False, True):
            def strings(long, i=i, wide=wide):
                def build(B):
                    f = File((4 << i) | (0x80 if wide else 0))
                    n = 150 if long else 4
                    f.add(u16(n)).text(n * (2 if wide else 1), wide, long, k=4 if wide else 2).add(bytes(4))
                    return {"data": f.data(B), "cp": "cp1252"}

                return build

            out += pair("%s%s" % (nm, "-wide" if wide else ""), "strings", strings, nm)
    return out


def c16():
    def b(k, size, content):
        return lambda B: {"data": block(k, size, content)(B), "kind": k, "cp": None, "warn": False}

    out = []
    out += pair("face", "fixed_block", lambda long: b(0xA0000002, 204, lambda f: f.add(bytes(36)).text(64, True, long)), "face name")
    out += pair("machine", "fixed_block", lambda long: b(0xA0000003, 96, lambda f: f.add(u32(88) + u32(0)).text(16, False, long)), "machine identifier")
    for nm, k in (("environment", 0xA0000001), ("icon", 0xA0000007)):
        out += pair(nm, "fixed_block", lambda long, k=k: b(k, 788, lambda f: f.text(260, False, long).add(bytes(520))), nm + " target")
        out += pair(nm + "-wide", "fixed_block", lambda long, k=k: b(k, 788, lambda f: f.add(bytes(260)).text(520, True, long)), nm + " Unicode target")
    out += pair("layer", "fixed_block", lambda long: b(0xA0000008, 136, lambda f: f.text(200 if long else 128, True, long)), "layer name")
    return out


def c17():
    from spec.extra import NAMED  # noqa: F401

    fmt = bytes.fromhex("05d5cdd59c2e1b10939708002b2cf9ae")

    def store(long, what):
        def content(f):
            n = 300 if long else 8
            named = what == "name"
            v = n if what == "value" else 8
            name = n if named else 8
            f.add(u32(0x31535053) + (fmt if named else bytes(range(16))))
            if named:
                f.add(u32(11 + name + 4 + 4 + v) + u32(name + 2) + b"\0").text(name, True, long).add(bytes(2))
            else:
                f.add(u32(9 + 4 + 4 + v) + u32(5) + b"\0")
            f.add(u16(31) + u16(0) + u32(v // 2)).text(v, True, long and what == "value", what == "value").add(bytes(4))

        def build(B):
            f = File().add(bytes(4) + u32(0xA0000009) + bytes(4))
            content(f)
            put(f.t, 84, u32(f.at - 84))
            f.add(bytes(4))
            put(f.t, 76, u32(f.at - 76))
            f.add(bytes(4))
            return {"data": f.data(B), "storages": 1, "values": 1, "named": what == "name", "types": (31,)}

        return build

    return pair("value", "store", lambda long: store(long, "value"), "VT_LPWSTR value") + \
        pair("name-stored", "store", lambda long: store(long, "name"), "value name")


TEXTS = {"C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C16": c16, "C17": c17}
