"""Equality of observations (nested dicts, lists, texts, numbers, dates), on
symbolic and on ordinary values; and evaluation of symbolic values in a model."""
import datetime as _dt
import enum

import z3

from sx.core import Inconclusive, eng
from sx import values as V
from sx.values import (
    SYM, Guarded, SxList, SymBool, SymBytes, SymDatetime, SymInt, SymStr, Tok, b_and, b_or, bterm, mk_bool, sx_eq,
)


def equal(a, b):
    """SymBool / bool. Differences of shape that cannot be decided count as
    'different': every counterexample is replayed before it is believed."""
    if a is b or isinstance(a, Any) or isinstance(b, Any):
        return True
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
            return False
        return b_and(*[equal(a[k], b[k]) for k in a])
    la, lb = isinstance(a, (list, tuple)), isinstance(b, (list, tuple))
    if la or lb:
        if not (la and lb):
            return False
        return list_equal(a, b)
    if isinstance(a, Unordered) or isinstance(b, Unordered):
        return isinstance(a, Unordered) and isinstance(b, Unordered) and list_equal(a.x, b.x)
    if isinstance(a, Near) or isinstance(b, Near):
        n, v = (a, b) if isinstance(a, Near) else (b, a)
        return n.matches(v)
    if isinstance(a, (SymStr, str)) and isinstance(b, (SymStr, str)):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        return V.str_eq(SymStr.lift(a), SymStr.lift(b), approx=True)
    if a is None or b is None:
        return False
    if kind(a) != kind(b):
        return False
    if isinstance(a, SYM) or isinstance(b, SYM):
        r = a == b if isinstance(a, SYM) else b == a
        return r if isinstance(r, SymBool) else bool(r)
    return a == b


def kind(x):
    if isinstance(x, (bool, SymBool)):
        return "bool"
    if isinstance(x, (int, SymInt)):
        return "int"
    if isinstance(x, (str, SymStr)):
        return "str"
    if isinstance(x, (bytes, bytearray, SymBytes)):
        return "bytes"
    if isinstance(x, (_dt.datetime, SymDatetime)):
        return "datetime"
    return type(x).__name__


class Near:
    """Expected value given as an interval: the datetime is within the
    interval [lo, hi] of tenths of a microsecond since 1970."""

    def __init__(self, tenths, tol):
        self.tenths = tenths
        self.tol = tol

    def matches(self, v):
        if isinstance(v, SymDatetime):
            if v.tzinfo is not _dt.timezone.utc:
                return False
            us = v.us if v.us is not None else V.fields_us(v.fields)
        elif isinstance(v, _dt.datetime):
            if v.tzinfo is None or v.utcoffset() != _dt.timedelta(0):
                return False
            us = (v - V._EPOCH) // _dt.timedelta(microseconds=1)
        else:
            return False
        d = V.as_int(us) * 10 - self.tenths
        return b_and(d <= self.tol, -d <= self.tol)


class Any:
    """A value that is not judged."""


class Unordered:
    pass


def raw_items(x):
    return list(x.raw()) if isinstance(x, SxList) else list(x)


def list_equal(a, b):
    xs, ys = raw_items(a), raw_items(b)
    if not any(isinstance(t, Guarded) for t in xs + ys):
        if len(xs) != len(ys):
            return False
        return b_and(*[equal(x, y) for x, y in zip(xs, ys)])

    def gv(t):
        return (t.g, t.v) if isinstance(t, Guarded) else (z3.BoolVal(True), t)

    xs, ys = [gv(t) for t in xs], [gv(t) for t in ys]
    if len(xs) == len(ys) and all(x[0].eq(y[0]) and equal(x[1], y[1]) is True for x, y in zip(xs, ys)):
        return True
    n, m = len(xs), len(ys)
    # eq[i][j]: the present elements of xs[i:] are those of ys[j:]
    row = [None] * (m + 1)
    nxt = [None] * (m + 1)
    for i in range(n, -1, -1):
        for j in range(m, -1, -1):
            if i == n and j == m:
                t = z3.BoolVal(True)
            elif i == n:
                t = z3.And(z3.Not(ys[j][0]), row[j + 1])
            elif j == m:
                t = z3.And(z3.Not(xs[i][0]), nxt[j])
            else:
                t = z3.If(
                    xs[i][0],
                    z3.If(ys[j][0], z3.And(bterm(equal(xs[i][1], ys[j][1])), nxt[j + 1]), row[j + 1]),
                    nxt[j],
                )
            row[j] = t
        nxt, row = row, [None] * (m + 1)
    return mk_bool(nxt[0])


# ---------------------------------------------------------------- models
class NoValue(Exception):
    pass


def ev_int(m, x):
    if isinstance(x, SymInt):
        return m.eval(x.t, model_completion=True).as_signed_long()
    if isinstance(x, SymBool):
        return ev_bool(m, x)
    return x


def ev_bool(m, x):
    if isinstance(x, SymBool):
        return z3.is_true(m.eval(x.t, model_completion=True))
    return bool(x)


def ev_bytes(m, x, files):
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    n = ev_int(m, x.ln)
    if x.lst is not None:
        return bytes(t if isinstance(t, int) else m.eval(t, model_completion=True).as_long() for t in x.lst)
    off = ev_int(m, x.off)
    data = files[x.buf.name]
    if off < 0 or off + n > len(data):
        raise NoValue("view outside the file")
    return data[off : off + n]


def concretise(x, m, files):
    """The ordinary value a symbolic observation has in a model."""
    c = lambda y: concretise(y, m, files)
    if isinstance(x, SymBool):
        return ev_bool(m, x)
    if isinstance(x, SymInt):
        return ev_int(m, x)
    if isinstance(x, SymBytes):
        return ev_bytes(m, x, files)
    if isinstance(x, SymStr):
        return "".join(part(p, m, files) for p in x.parts)
    if isinstance(x, SymDatetime):
        if x.fields is not None:
            return _dt.datetime(*[c(f) for f in x.fields], tzinfo=x.tzinfo)
        if isinstance(x.us, SymInt):
            # a rounded quotient: known up to its rounding
            return Near(c(x.us) * 10, 5000)
        return (V._EPOCH + _dt.timedelta(microseconds=x.us)).replace(tzinfo=x.tzinfo)
    if isinstance(x, SxList):
        out = []
        for t in x.raw():
            if isinstance(t, Guarded):
                if z3.is_true(m.eval(t.g, model_completion=True)):
                    out.append(c(t.v))
            else:
                out.append(c(t))
        return out
    if isinstance(x, dict):
        return {k: c(v) for k, v in x.items()}
    if isinstance(x, list):
        return [c(v) for v in x]
    if isinstance(x, tuple):
        return tuple(c(v) for v in x)
    if isinstance(x, Near):
        raise NoValue("interval")
    return x


def part(p, m, files):
    if isinstance(p, str):
        return p
    if isinstance(p, V.Hx):
        v = m.eval(p.t, model_completion=True).as_long()
        return ("%X" if p.upper else "%x") % v
    if isinstance(p, V.Ch):
        return chr(ev_int(m, p.c))
    k = p.kind
    if k == "dec":
        return ev_bytes(m, p.vals[0], files).decode(*p.key)
    if k == "text":
        from spec import text

        b = ev_bytes(m, p.vals[0], files)
        return text.ansi(b, p.key[1]) if p.key[0] == "a" else text.wide(b)
    if k == "int":
        return str(ev_int(m, p.vals[0]))
    if k == "hexv":
        return ("%X" if p.key else "%x") % ev_int(m, p.vals[0])
    if k == "hash":
        import hashlib

        return hashlib.new(p.key, ev_bytes(m, p.vals[0], files)).hexdigest()
    if k == "iso" and p.key == ((), ()):
        return concretise(p.vals[0], m, files).isoformat()
    if k == "dtstr":
        return str(concretise(p.vals[0], m, files))
    if k == "case":
        s = concretise(p.vals[0], m, files)
        return s.upper() if p.key else s.lower()
    if k == "replace":
        return concretise(p.vals[0], m, files).replace(*p.key)
    raise NoValue(k)
