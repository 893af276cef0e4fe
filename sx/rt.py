"""Run-time hooks: the meaning of calls, subscripts, membership and
formatting on symbolic values, and models of the library functions that the
code under test uses."""
import builtins
import datetime as _dt
import enum
import functools
import hashlib
import io
import json
import operator
import os
import re
import struct
import subprocess
import sys
import textwrap
import types
import warnings

import z3

from sx import values as V
from sx.core import Inconclusive, Stop, eng
from sx.values import (
    SYM, SxList, SymBool, SymBytes, SymDatetime, SymFloat, SymInt, SymStr, SymTimedelta, Tok, Guarded,
    as_int, b_and, b_or, bterm, has_sym, mk_bool, mk_str, sx_eq, sym_not,
)

BuiltinMethod = type(len)
LruWrapper = type(functools.lru_cache(len))
MethodWrapper = type("".__str__)


# ---------------------------------------------------------------- calls
def sx_call(f, /, *a, **k):
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **k)
    if type(f) is LruWrapper:
        return memo_call(f, a, k)
    if type(f) is types.MethodType and type(f.__func__) is LruWrapper:
        return memo_call(f.__func__, (f.__self__,) + a, k)
    if type(f) is BuiltinMethod:
        s = f.__self__
        if s is None or isinstance(s, types.ModuleType):
            if a and f not in NATIVE and any(isinstance(x, SYM) for x in a):
                raise Inconclusive("no model of %s" % f.__name__)
            return f(*a, **k)
        return builtin_method(f, s, f.__name__, a, k)
    if isinstance(f, enum.EnumMeta) and a and isinstance(a[0], SYM):
        return enum_lookup(f, a[0])
    if isinstance(f, type) and f.__module__ == "builtins" and any(isinstance(x, SYM) for x in a):
        raise Inconclusive("no model of %s()" % f.__name__)
    return f(*a, **k)


# built-in functions that do the same with symbolic arguments
NATIVE = {setattr, getattr, id} | {
    getattr(operator, n) for n in (
        "add sub mul and_ or_ xor lshift rshift invert neg pos floordiv mod eq ne lt le gt ge").split()
}


def builtin_method(f, s, name, a, k):
    if isinstance(s, str):
        if name == "join":
            seq = list(iter(a[0]))
            if any(isinstance(x, SYM) for x in seq):
                return V.str_join(s, seq)
            return s.join(seq)
        if has_sym(a) or has_sym(k):
            if name == "format":
                return V.sym_str_format(s, a, k)
            return getattr(SymStr.lift(s), name)(*a, **k)
        return f(*a, **k)
    if isinstance(s, (bytes, bytearray)):
        if name == "join":
            seq = list(iter(a[0]))
            if any(isinstance(x, SYM) for x in seq):
                return bytes_join(s, seq)
            return s.join(seq)
        if isinstance(s, bytes) and has_sym(a):
            return getattr(SymBytes.lift(s), name)(*a, **k)
        return f(*a, **k)
    if isinstance(s, dict):
        if a and (symbolic_key(a[0]) or keyed(s)):
            if name == "get":
                return dict_lookup(s, a[0], a[1] if len(a) > 1 else k.get("default"))
            if name == "__getitem__":
                return dict_lookup(s, a[0], KeyError)
            if name == "__contains__":
                return sx_in(a[0], s)
            if name in ("pop", "setdefault"):
                key = dict_key(s, a[0])
                if key is not _MISSING:
                    V.KEYING = True
                    try:
                        return f(key, *a[1:], **k)
                    finally:
                        V.KEYING = False
                if name == "setdefault" and type(s) is dict:
                    r = a[1] if len(a) > 1 else None
                    dict_store(s, a[0], r)
                    return r
            if not symbolic_key(a[0]) and name not in ("__setitem__", "__delitem__", "get", "__getitem__"):
                return f(*a, **k)
            raise Inconclusive("dict.%s with a symbolic key" % name)
        return f(*a, **k)
    if isinstance(s, SxList):
        return getattr(s, name)(*a, **k) if name not in ("append",) else f(*a, **k)
    if isinstance(s, list):
        if name in ("extend", "__iadd__") and isinstance(a[0], SxList):
            return f(a[0].resolve())
        return f(*a, **k)
    if isinstance(s, struct.Struct):
        if name == "unpack":
            return m_unpack(s.format, *a, **k)
        if name == "unpack_from":
            return m_unpack_from(s.format, *a, **k)
        if has_sym(a):
            raise Inconclusive("struct." + name)
        return f(*a, **k)
    if isinstance(s, io.TextIOBase) and name == "write":
        if s is sys.stdout or s is sys.__stdout__:
            out("print", a[0])
            return len(a[0]) if isinstance(a[0], str) else 0
        return f(*a, **k)
    if isinstance(s, re.Pattern):
        if has_sym(a):
            if name in ("sub",):
                return m_re_sub(s, *a, **k)
            raise Inconclusive("re." + name)
        return f(*a, **k)
    if any(isinstance(x, SYM) for x in a) and s is not None and isinstance(s, (_dt.datetime, _dt.date)):
        if name == "replace":
            d = s
            base = dict(year=d.year, month=d.month, day=d.day, hour=d.hour, minute=d.minute, second=d.second,
                        microsecond=d.microsecond, tzinfo=d.tzinfo)
            base.update(k)
            return V.mk_datetime(**base)
        raise Inconclusive("datetime." + name)
    if isinstance(s, type) and any(isinstance(x, SYM) for x in a):
        raise Inconclusive("no model of %s.%s" % (s.__name__, name))
    return f(*a, **k)


_MISSING = object()


def dict_key(d, k):
    for q in list(d):
        e = sx_eq(k, q) if _comparable(k, q) else False
        if bool(e):
            return q
    return _MISSING


def _comparable(a, b):
    if isinstance(a, (SymInt, SymBool)):
        return isinstance(b, (int, SymInt))
    if isinstance(a, SymStr):
        return isinstance(b, (str, SymStr))
    if isinstance(a, SymBytes):
        return isinstance(b, (bytes, SymBytes))
    return True


def symbolic_key(k):
    return isinstance(k, SYM) or (isinstance(k, tuple) and has_sym(k))


def keyed(d):
    """Does the dict have symbolic keys?"""
    s = eng().path_state.get("symkeys")
    return s is not None and id(d) in s


def dict_store(d, k, v):
    q = dict_key(d, k)
    if q is _MISSING:
        if symbolic_key(k):
            eng().path_state.setdefault("symkeys", {})[id(d)] = d
        q = k
    V.KEYING = True
    try:
        dict.__setitem__(d, q, v)
    finally:
        V.KEYING = False


def sx_setitem(v, o, k):
    if type(o) is dict and (symbolic_key(k) or keyed(o)):
        dict_store(o, k, v)
    else:
        o[k] = v


def memo_call(f, a, k):
    """functools.lru_cache: the results of earlier equal calls on this path."""
    calls = eng().path_state.setdefault("memo", {}).setdefault(id(f), [])
    key = (a, tuple(sorted(k.items())))
    for other, r in calls:
        if len(other[0]) == len(a) and len(other[1]) == len(k):
            if bool(b_and(*[_same_arg(x, y) for x, y in zip(a, other[0])],
                          *[x[0] == y[0] and _same_arg(x[1], y[1]) for x, y in zip(key[1], other[1])])):
                return r
    r = sx_call(f.__wrapped__, *a, **k)
    calls.append((key, r))
    return r


def _same_arg(x, y):
    if has_sym(x) or has_sym(y):
        return sx_eq(x, y) if _comparable(x, y) and _comparable(y, x) else False
    return x is y or (type(x) is type(y) and bool(x == y))


def dict_lookup(d, k, default):
    """One branch per distinct value."""
    groups = []
    for q, v in d.items():
        e = sx_eq(k, q) if _comparable(k, q) else False
        if e is False:
            continue
        for g in groups:
            if g[1] is v or (isinstance(v, (str, int)) and type(v) is type(g[1]) and v == g[1]):
                g[0].append(e)
                break
        else:
            groups.append([[e], v])
    for es, v in groups:
        if bool(b_or(*es)):
            return v
    if default is KeyError:
        raise KeyError(k)
    return default


def enum_lookup(cls, x):
    for m in cls:
        if _comparable(x, m.value) and bool(sx_eq(x, m.value)):
            return m
    for name, m in cls.__members__.items():
        pass
    raise ValueError("symbolic value is not a valid %s" % cls.__name__)


# ---------------------------------------------------------------- subscripts
def sx_getitem(o, k):
    if isinstance(o, (SymBytes, SymStr, SxList)):
        if isinstance(o, SxList) and isinstance(k, SymInt):
            return list_index(o.resolve(), k)
        return o[k]
    if isinstance(o, dict) and (symbolic_key(k) or keyed(o)):
        return dict_lookup(o, k, KeyError)
    if isinstance(k, SYM):
        if isinstance(k, (SymInt, SymBool)):
            k = as_int(k)
            if isinstance(o, (bytes, bytearray)):
                return SymBytes.lift(o)[k]
            if isinstance(o, (list, tuple, str)):
                return list_index(o, k)
        return o[k]
    if isinstance(k, slice) and (isinstance(k.start, SYM) or isinstance(k.stop, SYM) or isinstance(k.step, SYM)):
        if isinstance(o, (bytes, bytearray)):
            return SymBytes.lift(o)[k]
        return o[slice(*(x if x is None else int(x) for x in (k.start, k.stop, k.step)))]
    return o[k]


def list_index(o, k):
    n = len(o)
    if not isinstance(k, SymInt):
        return o[k]
    if not bool(b_and(k >= -n, k < n)):
        raise IndexError("%s index out of range" % type(o).__name__)
    groups = []
    for i in range(n):
        e = b_or(k == i, k == i - n)
        v = o[i]
        for g in groups:
            if g[1] is v:
                g[0].append(e)
                break
        else:
            groups.append([[e], v])
    for es, v in groups[:-1]:
        if bool(b_or(*es)):
            return v
    return groups[-1][1]


# ---------------------------------------------------------------- operators
def sx_in(x, c):
    if isinstance(c, SxList):
        return c.sx_contains(x)
    if isinstance(c, (str, SymStr)) and isinstance(x, (str, SymStr)):
        return V.str_contains(c, x)
    if isinstance(c, (dict, set, frozenset)):
        if symbolic_key(x) or keyed(c):
            return b_or(*[sx_eq(x, q) for q in c if _comparable(x, q)])
        return x in c
    if isinstance(c, (list, tuple)) and (isinstance(x, SYM) or has_sym(c, 1)):
        return b_or(*[sx_eq(x, q) for q in c])
    if isinstance(c, range) and isinstance(x, SymInt):
        if c.step != 1:
            raise Inconclusive("range step")
        return b_and(x >= c.start, x < c.stop)
    if isinstance(c, SymBytes) or (isinstance(c, bytes) and isinstance(x, SYM)):
        c = SymBytes.lift(c)
        if isinstance(x, (int, SymInt)):
            return b_or(*[V.byte_int(t) == x for t in c.terms()])
        r = c.find(x)
        return r >= 0
    if isinstance(c, (type({}.keys()), type({}.values()), type({}.items()))) and has_sym(x):
        return b_or(*[sx_eq(x, q) for q in c])
    return x in c


def sx_notin(x, c):
    return sym_not(sx_in(x, c))


def sx_is(a, b):
    if isinstance(a, SymBool) and isinstance(b, bool):
        return a if b else sym_not(a)
    if isinstance(b, SymBool) and isinstance(a, bool):
        return sx_is(b, a)
    return a is b


def sx_isnot(a, b):
    return sym_not(sx_is(a, b))


def sx_mod(a, b):
    if isinstance(a, str) and has_sym(b):
        return V.sym_percent(a, b)
    return a % b


def sx_fstr(*parts):
    out_ = []
    for p in parts:
        if isinstance(p, str):
            out_.append(p)
        else:
            out_.append(V.format_value(p[0], p[1], p[2]))
    return mk_str(out_)


def sx_listcomp(it, cond, elt):
    res = SxList()
    for x in it:
        eng().tick()
        c = cond(x)
        if isinstance(c, (SymBool, SymInt)):
            c = eng().simp(c.t) if isinstance(c, SymBool) else V.nonzero(c)
            if c is True:
                res.append(elt(x))
            elif c is not False:
                _guarded(res, c.t if isinstance(c, SymBool) else c, lambda: elt(x))
        elif c:
            res.append(elt(x))
    return res


def sx_mergeable(c, lst):
    return isinstance(c, (SymBool, SymInt)) and isinstance(lst, SxList)


def _guarded(lst, t, make):
    """Append what make gives if t holds, without branching on t unless make
    fails."""
    try:
        v = make()
    except Stop:
        raise
    except Exception:
        if SymBool(t):
            lst.append(make())
        return
    lst.append(Guarded(t, v))


def sx_gappend(lst, c, make):
    t = z3.simplify(bterm(c))
    if z3.is_true(t):
        lst.append(make())
    elif not z3.is_false(t):
        _guarded(lst, t, make)


def sx_reraise():
    e = sys.exc_info()[1]
    if isinstance(e, Stop):
        raise e


def sx_tick():
    eng().tick()


# ---------------------------------------------------------------- effects
def out(kind, x):
    eng().path_state.setdefault("out", []).append((kind, x))


def m_print(*a, sep=" ", end="\n", file=None, flush=False):
    if file is not None and file is not sys.stdout:
        return
    parts = []
    for i, x in enumerate(a):
        if i:
            parts.append(" " if sep is None else sep)
        parts.append(V.to_text(x))
    parts.append("\n" if end is None else end)
    out("print", mk_str(parts))


def m_warn(message, category=None, stacklevel=1, source=None):
    eng().path_state.setdefault("warnings", []).append(message)


def m_open(path, mode="r", *a, **k):
    files = eng().path_state.get("files")
    if files is None or path not in files:
        if files is not None:
            raise FileNotFoundError(2, "No such file or directory", path)
        raise Inconclusive("open")
    return SymFile(files[path], mode)


class SymFile:
    """A file opened for reading, or a BytesIO, over symbolic bytes."""

    def __init__(self, data=b"", mode="rb"):
        self.data = data
        self.mode = mode
        self.pos = 0
        self.name = "file.lnk"
        self.closed = False

    def _left(self):
        if "b" not in self.mode:
            raise Inconclusive("text mode")
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if isinstance(self.pos, int) and self.pos == 0:
            return self.data
        return self.data[self.pos :]

    def read(self, n=-1):
        left = self._left()
        if n is not None:
            n = as_int(n)
            if V.rng(n)[0] >= 0 or not bool(n < 0):
                left = left[:n]
        self.pos = self.pos + m_len(left)
        return left

    read1 = read

    def peek(self, n=0):
        return self._left()

    def readinto(self, b):
        raise Inconclusive("readinto")

    def seek(self, offset, whence=0):
        self._left()
        offset = as_int(offset)
        if whence == 1:
            offset = self.pos + offset
        elif whence == 2:
            offset = m_len(self.data) + offset
        if V.rng(offset)[0] < 0 and bool(offset < 0):
            if whence == 0:
                raise ValueError("negative seek value")
            offset = 0
        self.pos = offset
        return offset

    def tell(self):
        return self.pos

    def seekable(self):
        return True

    def readable(self):
        return True

    def getvalue(self):
        return self.data

    getbuffer = getvalue

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False


def m_bytesio(data=b""):
    if isinstance(data, SymBytes):
        return SymFile(data)
    return io.BytesIO(data)

    def close(self):
        self.closed = True


# ---------------------------------------------------------------- struct
def m_unpack(fmt, data):
    if not isinstance(data, SymBytes):
        return struct.unpack(fmt, data)
    n = struct.calcsize(fmt)
    if not bool(mk_bool(bterm(as_int(data.ln) == n))):
        raise struct.error("unpack requires a buffer of %d bytes" % n)
    return unpack_at(fmt, data)


def m_unpack_from(fmt, buffer, offset=0):
    if not isinstance(buffer, SymBytes) and not isinstance(offset, SYM):
        return struct.unpack_from(fmt, buffer, offset)
    n = struct.calcsize(fmt)
    b = SymBytes.lift(buffer)
    offset = as_int(offset)
    if V.rng(offset)[0] < 0:
        if bool(offset < 0):
            raise struct.error("offset out of range")
    if not bool(mk_bool(bterm(b.ln - offset >= n))):
        raise struct.error("unpack_from requires a buffer of at least %d bytes" % n)
    return unpack_at(fmt, SymBytes.lift(b[offset:][:n]))


_INT = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8}


def unpack_at(fmt, data):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = "<"
    if fmt and fmt[0] in "<>=!@":
        order, fmt = fmt[0], fmt[1:]
    else:
        order = "@"
    if order == "@" and re.search("[qQlLnNP]", fmt):
        raise Inconclusive("native struct layout")
    if order == "@" and len(re.findall("[a-zA-Z?]", fmt)) > 1:
        raise Inconclusive("native struct alignment")
    pos, res = 0, []
    for cnt, c in re.findall(r"(\d*)([a-zA-Z?])", fmt):
        n = int(cnt) if cnt else 1
        if c == "s":
            res.append(data[pos : pos + n])
            pos += n
            continue
        if c == "x":
            pos += n
            continue
        for _ in range(n):
            if c == "c":
                res.append(data[pos : pos + 1])
                pos += 1
            elif c == "?":
                res.append(sym_not(V.byte_int(data.term(pos)) == 0))
                pos += 1
            elif c in _INT:
                w = _INT[c]
                ts = [data.term(pos + i) for i in range(w)]
                if order in ">!":
                    ts.reverse()
                res.append(V.int_from_terms(ts, c.islower()))
                pos += w
            else:
                raise Inconclusive("struct format %r" % c)
    return tuple(res)


def m_from_bytes(b, byteorder="big", *, signed=False):
    if not isinstance(b, SymBytes):
        return int.from_bytes(b, byteorder, signed=signed)
    ts = b.terms()
    if byteorder == "big":
        ts = ts[::-1]
    return V.int_from_terms(ts, signed)


# ---------------------------------------------------------------- builtins
def m_len(x):
    if isinstance(x, SymBytes):
        return x.ln
    if isinstance(x, SymStr):
        return x.sym_len()
    return len(x)


def m_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return V.nonzero(x)
    if isinstance(x, SymBytes):
        return sym_not(as_int(x.ln) == 0)
    return bool(x)


def m_int(x=0, base=None):
    if isinstance(x, SymBool):
        return as_int(x)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymFloat):
        raise Inconclusive("int(float)")
    if isinstance(x, SymStr):
        return int_of_text(x, 10 if base is None else base)
    return int(x) if base is None else int(x, base)


def int_of_text(s, base):
    ps = s.parts
    if isinstance(ps[0], str):
        for mark, b in (("0x", 16), ("0o", 8), ("0b", 2)):
            if ps[0][:2].lower() == mark and base in (0, b):
                rest = mk_str([ps[0][2:], *ps[1:]])
                return int_of_text(rest, b) if isinstance(rest, SymStr) else int(rest, b)
    if base == 0:
        raise Inconclusive("int(text, 0)")
    if len(ps) == 1 and isinstance(ps[0], Tok) and ps[0].kind == {10: "int", 16: "hexv"}.get(base):
        return ps[0].vals[0]
    cs = s.chars()
    r = 0
    for c in cs:
        if isinstance(c, str):
            if not c.isalnum():
                raise Inconclusive("int(text)")
            d = int(c, base)
        elif isinstance(c, V.Hx) and base == 16:
            d = SymInt(z3.ZeroExt(V.W - 4, c.t), 0, 15)
        else:
            code = c.code()
            if not bool(b_and(code >= 48, code <= 57)):
                raise Inconclusive("int(text)")
            d = code - 48
        r = r * base + d
    return r


def m_str(x="", *a):
    if a:
        if isinstance(x, SymBytes):
            return V.decode_bytes(x, *a)
        return str(x, *a)
    return V.to_text(x)


def m_hex(x):
    x = as_int(x)
    if isinstance(x, SymInt):
        return V.fmt_int(x, "#x")
    return hex(x)


def m_type(x, *a, **k):
    if a:
        return type(x, *a, **k)
    return pytype(x)


def pytype(x):
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, SymInt):
        return int
    if isinstance(x, SymBytes):
        return bytes
    if isinstance(x, SymStr):
        return str
    if isinstance(x, SymFloat):
        return float
    if isinstance(x, SymDatetime):
        return _dt.datetime
    if isinstance(x, SymTimedelta):
        return _dt.timedelta
    if isinstance(x, SxList):
        return list
    return type(x)


def m_isinstance(x, t):
    if isinstance(x, SYM):
        ts = t if isinstance(t, tuple) else (t,)
        for u in ts:
            if isinstance(u, tuple):
                if m_isinstance(x, u):
                    return True
            elif isinstance(u, types.UnionType):
                if m_isinstance(x, u.__args__):
                    return True
            elif issubclass(pytype(x), u):
                return True
        return False
    return isinstance(x, t)


def m_issubclass(a, b):
    return issubclass(a, b)


def m_bytes(x=b"", *a):
    if isinstance(x, SymBytes):
        return x
    if isinstance(x, SymInt):
        return bytes(x.concretize())
    if isinstance(x, SymStr):
        return x.encode(*a)
    if isinstance(x, (str, bytes, bytearray, int)):
        return bytes(x, *a)
    seq = list(iter(x))
    if any(isinstance(y, SYM) for y in seq):
        ts = []
        for y in seq:
            y = as_int(y)
            if isinstance(y, SymInt):
                if not bool(b_and(y >= 0, y <= 255)):
                    raise ValueError("bytes must be in range(0, 256)")
                ts.append(z3.simplify(z3.Extract(7, 0, y.t)))
            else:
                if not 0 <= y <= 255:
                    raise ValueError("bytes must be in range(0, 256)")
                ts.append(y)
        return SymBytes.from_terms(ts)
    return bytes(seq)


def m_bytearray(x=b"", *a):
    if has_sym(x):
        return SymByteArray(m_bytes(x, *a))
    return SymByteArray(bytes(bytearray(x, *a)))


class SymByteArray(SymBytes):
    """A growable byte string (bytearray)."""

    def __init__(self, b):
        b = SymBytes.lift(b)
        ts = b.terms()
        super().__init__(None, 0, len(ts), list(ts))

    def append(self, x):
        x = as_int(x)
        self.lst.append(z3.simplify(z3.Extract(7, 0, x.t)) if isinstance(x, SymInt) else x)
        self.ln = len(self.lst)

    def extend(self, it):
        self.lst.extend(SymBytes.lift(m_bytes(it)).terms())
        self.ln = len(self.lst)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def clear(self):
        self.lst = []
        self.ln = 0

    def norm(self):
        return self

    def decode(self, *a, **k):
        return V.decode_bytes(SymBytes.from_terms(self.lst), *a, **k)


def m_memoryview(x):
    if isinstance(x, SymBytes):
        return x
    return memoryview(x)


def bytes_join(sep, seq):
    ts = []
    sepb = list(sep)
    if len(seq) == 1:
        return seq[0]
    for i, x in enumerate(seq):
        if i:
            ts.extend(sepb)
        ts.extend(SymBytes.lift(x).terms())
    return SymBytes.from_terms(ts)


def m_range(*a):
    if not any(isinstance(x, SYM) for x in a):
        return range(*a)
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    else:
        start, stop = a[0], a[1]
        step = a[2] if len(a) > 2 else 1
    if isinstance(step, SymInt):
        step = step.concretize()
    return sym_range(start, stop, step)


def sym_range(start, stop, step):
    i = start
    while True:
        eng().tick()
        c = (as_int(i) < stop) if step > 0 else (as_int(i) > stop)
        if not bool(c):
            return
        yield i
        i = i + step


def _seq(a):
    return list(iter(a[0])) if len(a) == 1 else list(a)


def m_min(*a, **k):
    if k or not has_sym(a):
        return min(*a, **k)
    xs = _seq(a)
    r = xs[0]
    for x in xs[1:]:
        r = V.sym_min(r, x)
    return r


def m_max(*a, **k):
    if k or not has_sym(a):
        return max(*a, **k)
    xs = _seq(a)
    r = xs[0]
    for x in xs[1:]:
        r = V.sym_max(r, x)
    return r


def m_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def m_any(it):
    for x in it:
        if x:
            return True
    return False


def m_all(it):
    for x in it:
        if not x:
            return False
    return True


def m_list(x=()):
    if isinstance(x, SxList):
        return x.copy()
    r = SxList()
    for y in x:
        list.append(r, y)
    return r


def m_tuple(x=()):
    return tuple(iter(x)) if isinstance(x, (SxList,) + SYM) else tuple(x)


def m_sorted(x, **k):
    return sorted(iter(x), **k)


def m_set(x=()):
    return set(iter(x))


def m_map(f, *its):
    return (sx_call(f, *xs) for xs in zip(*its))


def m_filter(f, it):
    return (x for x in it if (x if f is None else sx_call(f, x)))


def m_ord(c):
    if isinstance(c, SymStr):
        cs = c.chars()
        if len(cs) != 1:
            raise TypeError("ord() expected a character")
        return V.char_code(cs[0])
    if isinstance(c, SymBytes):
        return c[0]
    return ord(c)


def m_chr(c):
    if isinstance(c, SymInt):
        return mk_str([V.Ch(c)])
    return chr(c)


def m_abs(x):
    return abs(x)


def m_divmod(a, b):
    return divmod(a, b)


def m_repr(x):
    return V.format_value(x, "", 114)


def m_format(x, spec=""):
    return V.format_value(x, spec)


def m_next(it, *d):
    return next(it, *d)


def m_iter(x, *a):
    return iter(x, *a)


def m_hash(x):
    return hash(x)


def m_enumerate(x, start=0):
    return enumerate(iter(x), start)


def m_zip(*a, **k):
    return zip(*[iter(x) for x in a], **k)


def m_reversed(x):
    if isinstance(x, SymBytes):
        return reversed([V.byte_int(t) for t in x.terms()])
    return reversed(x)


def m_float(x=0):
    if isinstance(x, SymInt):
        return SymFloat(x, 1)
    return float(x)


def m_round(x, n=None):
    raise Inconclusive("round") if isinstance(x, SYM) else None


def m_callable(x):
    return callable(x)


def m_partial(f, *a, **k):
    return functools.partial(sx_call, f, *a, **k)


def m_reduce(f, it, *init):
    it = iter(it)
    r = init[0] if init else next(it)
    for x in it:
        r = sx_call(f, r, x)
    return r


# ---------------------------------------------------------------- datetime
def m_datetime(*a, **k):
    if has_sym(a) or has_sym(k):
        return V.mk_datetime(*a, **k)
    return _dt.datetime(*a, **k)


def m_fromtimestamp(t, tz=None):
    if not isinstance(t, SYM):
        return _dt.datetime.fromtimestamp(t, tz)
    if tz is None:
        raise Inconclusive("local time")
    if tz is not _dt.timezone.utc:
        raise Inconclusive("time zone")
    if isinstance(t, (SymInt, SymBool)):
        us = as_int(t) * 1000000
    else:
        us = V.micros_of(t)
    return V.from_micros(us, tz, ValueError)


def m_utcfromtimestamp(t):
    if not isinstance(t, SYM):
        return _dt.datetime.utcfromtimestamp(t)
    return m_fromtimestamp(t, _dt.timezone.utc).replace(tzinfo=None)


def m_timedelta(*a, **k):
    if not (has_sym(a) or has_sym(k)):
        return _dt.timedelta(*a, **k)
    names = ("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks")
    d = dict(zip(names, a))
    d.update(k)
    unit = dict(days=86400000000, seconds=1000000, microseconds=1, milliseconds=1000, minutes=60000000,
                hours=3600000000, weeks=604800000000)
    us = 0
    for n, v in d.items():
        if isinstance(v, SymFloat):
            us = us + V.micros_of(SymFloat(v.num * unit[n] if unit[n] != 1000000 else v.num, v.den if unit[n] == 1000000 else v.den * 1000000, v.steps + 1))
        elif isinstance(v, float):
            us = us + _dt.timedelta(**{n: v}) // _dt.timedelta(microseconds=1)
        else:
            us = us + as_int(v) * unit[n]
    lim = 999999999 * 86400000000
    if not bool(b_and(as_int(us) >= -lim, as_int(us) <= lim)):
        raise OverflowError("days out of range")
    return SymTimedelta(us)


# ---------------------------------------------------------------- libraries
class SymHash:
    def __init__(self, name, data=b""):
        self.algo = name
        self.data = data

    def update(self, d):
        self.data = d if isinstance(self.data, bytes) and not self.data else SymBytes.lift(self.data) + d

    def hexdigest(self):
        d = self.data
        if isinstance(d, SymBytes):
            d = d.norm()
        if isinstance(d, bytes):
            return hashlib.new(self.algo, d).hexdigest()
        return SymStr([Tok("hash", self.algo, (d,))])

    def digest(self):
        raise Inconclusive("digest")

    def copy(self):
        return SymHash(self.algo, self.data)


def m_hash_fn(name):
    def f(data=b"", **k):
        return SymHash(name, data)

    return f


def m_hash_new(name, data=b"", **k):
    return SymHash(name, data)


class Doc:
    """A document given to a serialiser, compared by content."""

    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        from sx.compare import equal

        return isinstance(o, Doc) and equal(self.x, o.x)

    __hash__ = None


def json_tree(x, default):
    if isinstance(x, (SymStr, SymInt, SymBool)):
        return x
    if x is None or isinstance(x, (bool, int, str, float)):
        return x
    if isinstance(x, dict):
        return {k: json_tree(v, default) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [json_tree(v, default) for v in x]
    if default is None:
        raise TypeError("Object of type %s is not JSON serializable" % pytype(x).__name__)
    y = sx_call(default, x)
    if y is x:
        raise ValueError("Circular reference detected")
    return json_tree(y, default)


def m_json_dumps(obj, *, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True, cls=None,
                 indent=None, separators=None, default=None, sort_keys=False, **kw):
    if cls is not None or kw:
        raise Inconclusive("json encoder class")
    tree = json_tree(obj, default)
    return SymStr([Tok("json", (ensure_ascii, str(indent), tuple(separators) if separators else None, bool(sort_keys)),
                       (Doc(tree),))])


def snapshot(x):
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    if isinstance(x, SxList):
        return [snapshot(v) for v in x]
    if isinstance(x, (list, tuple)):
        return [snapshot(v) for v in x]
    return x


def m_yaml_dump(data, stream=None, **kw):
    if stream is not None:
        raise Inconclusive("yaml stream")
    return SymStr([Tok("yaml", tuple(sorted((k, str(v)) for k, v in kw.items() if k != "Dumper")), (Doc(snapshot(data)),))])


def m_indent(text, prefix, predicate=None):
    if not isinstance(text, SymStr):
        return textwrap.indent(text, prefix, predicate)
    if predicate is not None:
        raise Inconclusive("indent predicate")
    return SymStr([Tok("indent", prefix, (text,))])


def m_re_sub(pattern, repl, string, count=0, flags=0):
    if not isinstance(string, SymStr):
        return re.sub(pattern, repl, string, count=count, flags=flags)
    p = pattern.pattern if isinstance(pattern, re.Pattern) else pattern
    fl = pattern.flags if isinstance(pattern, re.Pattern) else int(flags)
    return SymStr([Tok("resub", (p, repl, count, fl & ~re.UNICODE), (string,))])


def m_fsdecode(x):
    if isinstance(x, SymStr):
        return x
    return os.fsdecode(x)


def m_list2cmdline(seq):
    if not has_sym(seq):
        return subprocess.list2cmdline(seq)
    if eng().path_state.get("summary"):
        return SymStr([Tok("cmdline", (), tuple(seq))])
    return instrumented_list2cmdline()(seq)


_L2C = []


def instrumented_list2cmdline():
    if not _L2C:
        import inspect

        from sx.instr import transform

        src = textwrap.dedent(inspect.getsource(subprocess.list2cmdline))
        g = dict(HOOKS)
        g["os"] = os
        exec(transform(src, subprocess.__file__), g)
        _L2C.append(g["list2cmdline"])
    return _L2C[0]


def m_copy(x):
    return x.copy() if isinstance(x, (dict, list)) else x


def m_deepcopy(x, memo=None):
    if isinstance(x, dict):
        return {k: m_deepcopy(v) for k, v in x.items()}
    if isinstance(x, SxList):
        r = SxList()
        for v in x.raw():
            list.append(r, v)
        return r
    if isinstance(x, list):
        return [m_deepcopy(v) for v in x]
    if isinstance(x, tuple):
        return tuple(m_deepcopy(v) for v in x)
    if isinstance(x, SYM):
        return x
    import copy

    return copy.deepcopy(x)


def _models():
    import copy

    m = {
        len: m_len, bool: m_bool, int: m_int, str: m_str, hex: m_hex, type: m_type, isinstance: m_isinstance,
        bytes: m_bytes, bytearray: m_bytearray, memoryview: m_memoryview, range: m_range, min: m_min, max: m_max,
        sum: m_sum, any: m_any, all: m_all, list: m_list, tuple: m_tuple, sorted: m_sorted, set: m_set, map: m_map,
        filter: m_filter, ord: m_ord, chr: m_chr, abs: m_abs, divmod: m_divmod, repr: m_repr, format: m_format,
        next: m_next, iter: m_iter, enumerate: m_enumerate, zip: m_zip, reversed: m_reversed, float: m_float,
        print: m_print, open: m_open, io.open: m_open, io.BytesIO: m_bytesio, hash: m_hash,
        struct.unpack: m_unpack, struct.unpack_from: m_unpack_from,
        int.from_bytes: m_from_bytes,
        warnings.warn: m_warn,
        _dt.datetime: m_datetime, _dt.datetime.fromtimestamp: m_fromtimestamp,
        _dt.datetime.utcfromtimestamp: m_utcfromtimestamp, _dt.timedelta: m_timedelta,
        hashlib.new: m_hash_new,
        json.dumps: m_json_dumps, textwrap.indent: m_indent, re.sub: m_re_sub, os.fsdecode: m_fsdecode,
        subprocess.list2cmdline: m_list2cmdline, copy.copy: m_copy, copy.deepcopy: m_deepcopy,
        functools.partial: m_partial, functools.reduce: m_reduce,
        operator.getitem: lambda a, b: sx_getitem(a, b), operator.contains: lambda a, b: sx_in(b, a),
        operator.not_: lambda a: sym_not(m_bool(a)), operator.truth: m_bool,
    }
    for h in ("md5", "sha1", "sha224", "sha256", "sha384", "sha512"):
        m[getattr(hashlib, h)] = m_hash_fn(h)
    try:
        import yaml

        m[yaml.dump] = m_yaml_dump
        m[yaml.safe_dump] = m_yaml_dump
    except ImportError:
        pass
    return m


MODELS = _models()
# models that only matter with symbolic arguments fall back to the original
# themselves; see each function.

HOOKS = {
    "__sx_call__": sx_call,
    "__sx_getitem__": sx_getitem,
    "__sx_setitem__": sx_setitem,
    "__sx_slice__": slice,
    "__sx_in__": sx_in,
    "__sx_notin__": sx_notin,
    "__sx_is__": sx_is,
    "__sx_isnot__": sx_isnot,
    "__sx_mod__": sx_mod,
    "__sx_fstr__": sx_fstr,
    "__sx_list__": SxList,
    "__sx_listcomp__": sx_listcomp,
    "__sx_mergeable__": sx_mergeable,
    "__sx_gappend__": sx_gappend,
    "__sx_reraise__": sx_reraise,
    "__sx_tick__": sx_tick,
}
