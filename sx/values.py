"""Symbolic stand-ins for Python's int, bool, bytes, str, float, datetime and
list. Branching on a SymBool explores both outcomes.

Integers are exact Python integers: W-bit signed terms with a tracked range,
anything that could leave W bits is refused (Inconclusive), never wrapped.
"""
import builtins
import codecs
import datetime as _dt
import importlib

import z3

from sx.core import Inconclusive, eng

W = 80
AW = 48  # address bits
LIMIT = 1 << (W - 2)
BV = z3.BitVecSort(W)
_VALS = {}
KEYING = False  # while a symbolic value becomes a dict key: found again by comparison, see rt.dict_store


def val(x):
    r = _VALS.get(x)
    if r is None:
        r = z3.BitVecVal(x, W)
        if len(_VALS) < 100000:
            _VALS[x] = r
    return r


# ---------------------------------------------------------------- bool
class SymBool:
    __slots__ = ("t",)
    __hash__ = None

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return eng().branch(self.t)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mk_bool(self.t == o.t)
        if isinstance(o, bool):
            return self if o else mk_bool(z3.Not(self.t))
        if isinstance(o, (int, SymInt)):
            return as_int(self) == o
        return False

    def __ne__(self, o):
        return sym_not(self == o)

    def __and__(self, o):
        if isinstance(o, (SymBool, bool)):
            return mk_bool(z3.And(self.t, bterm(o)))
        return as_int(self) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SymBool, bool)):
            return mk_bool(z3.Or(self.t, bterm(o)))
        return as_int(self) | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (SymBool, bool)):
            return mk_bool(z3.Xor(self.t, bterm(o)))
        return as_int(self) ^ o

    __rxor__ = __xor__

    def __index__(self):
        return 1 if eng().branch(self.t) else 0

    __int__ = __index__

    def __add__(self, o):
        return as_int(self) + o

    __radd__ = __add__

    def __mul__(self, o):
        return as_int(self) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return as_int(self) - o

    def __rsub__(self, o):
        return o - as_int(self)

    def __repr__(self):
        return "SymBool"


def mk_bool(t):
    if t is True or t is False:
        return t
    k = bool_value(t)
    if k:
        return k > 0
    return SymBool(t)


def bool_value(t):
    """1, -1 or 0 (not constant)"""
    return z3.Z3_get_bool_value(t.ctx.ref(), t.ast)


_AND = {}
_TRUTH = {}


def nonzero(x):
    """x != 0, simplified"""
    k = x.t.get_id()
    r = _TRUTH.get(k)
    if r is None:
        if len(_TRUTH) > 100000:
            _TRUTH.clear()
        r = _TRUTH[k] = (x.t, mk_bool(z3.simplify(x.t != val(0))))
    return r[1]


def bterm(b):
    if isinstance(b, SymBool):
        return b.t
    if isinstance(b, SymInt):
        return b.t != val(0)
    return z3.BoolVal(bool(b))


def sym_not(b):
    if isinstance(b, SymBool):
        return mk_bool(z3.Not(b.t))
    return not b


def b_and(*bs):
    ts = []
    for b in bs:
        if isinstance(b, SymBool):
            ts.append(b.t)
        elif not b:
            return False
    if not ts:
        return True
    return mk_bool(ts[0] if len(ts) == 1 else z3.And(ts))


def b_or(*bs):
    ts = []
    for b in bs:
        if isinstance(b, SymBool):
            ts.append(b.t)
        elif b:
            return True
    if not ts:
        return False
    return mk_bool(ts[0] if len(ts) == 1 else z3.Or(ts))


# ---------------------------------------------------------------- int
def mk_int(t, lo, hi):
    if lo == hi:
        return lo
    if lo <= -LIMIT or hi >= LIMIT:
        raise Inconclusive("integer range")
    return SymInt(t, lo, hi)


def as_int(x):
    if isinstance(x, SymBool):
        return SymInt(z3.If(x.t, val(1), val(0)), 0, 1)
    if isinstance(x, bool):
        return int(x)
    return x


def iterm(x):
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, SymBool):
        return as_int(x).t
    return val(int(x))


def rng(x):
    if isinstance(x, SymInt):
        return x.lo, x.hi
    if isinstance(x, SymBool):
        return 0, 1
    return int(x), int(x)


def is_intlike(x):
    return isinstance(x, (int, SymInt, SymBool))


def _bits(n):
    return (1 << max(n, 1).bit_length()) - 1


class SymInt:
    __slots__ = ("t", "lo", "hi")

    def __init__(self, t, lo, hi):
        self.t = t
        self.lo = lo
        self.hi = hi

    # arithmetic
    def __add__(self, o):
        if not is_intlike(o):
            return NotImplemented
        if type(o) is int and o == 0:
            return self
        lo, hi = rng(o)
        return mk_int(self.t + iterm(o), self.lo + lo, self.hi + hi)

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        if not is_intlike(o):
            return NotImplemented
        lo, hi = rng(o)
        return mk_int(self.t - iterm(o), self.lo - hi, self.hi - lo)

    def __rsub__(self, o):
        if not is_intlike(o):
            return NotImplemented
        lo, hi = rng(o)
        return mk_int(iterm(o) - self.t, lo - self.hi, hi - self.lo)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, SymStr, SymBytes)):
            return o * self.concretize()
        if not is_intlike(o):
            return NotImplemented
        lo, hi = rng(o)
        c = [self.lo * lo, self.lo * hi, self.hi * lo, self.hi * hi]
        return mk_int(self.t * iterm(o), min(c), max(c))

    __rmul__ = __mul__

    def __neg__(self):
        return mk_int(-self.t, -self.hi, -self.lo)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        return mk_int(z3.If(self.t < val(0), -self.t, self.t), 0, max(abs(self.lo), abs(self.hi)))

    def __invert__(self):
        return mk_int(~self.t, ~self.hi, ~self.lo)

    def _divmod(self, o):
        if isinstance(o, (SymInt, SymBool)):
            lo, hi = rng(o)
            if lo <= 0 <= hi and eng().branch(iterm(o) == val(0)):
                raise ZeroDivisionError("integer division or modulo by zero")
            o = as_int(o).concretize()
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if o < 0:
            q, r = (-self)._divmod(-o)
            return q, -r
        if o == 1:
            return self, 0
        if o & (o - 1) == 0:
            k = o.bit_length() - 1
            return (
                mk_int(self.t >> val(k), self.lo >> k, self.hi >> k),
                mk_int(self.t & val(o - 1), 0, min(o - 1, self.hi) if self.lo >= 0 else o - 1),
            )
        if 0 <= self.lo and self.hi < o:
            return 0, self
        st = eng().path_state.setdefault("divs", {})
        key = (self.t.get_id(), o)
        if key in st:
            return st[key][1]
        q = eng().fresh(BV, "q")
        r = eng().fresh(BV, "r")
        qlo, qhi = self.lo // o, self.hi // o
        eng().define(
            z3.And(
                q * val(o) + r == self.t,
                r >= val(0),
                r < val(o),
                q >= val(qlo),
                q <= val(qhi),
            )
        )
        res = (mk_int(q, qlo, qhi), SymInt(r, 0, o - 1))
        st[key] = (self.t, res)
        return res

    def __floordiv__(self, o):
        if not is_intlike(o):
            return NotImplemented
        return self._divmod(o)[0]

    def __mod__(self, o):
        if not is_intlike(o):
            return NotImplemented
        return self._divmod(o)[1]

    def __divmod__(self, o):
        return self._divmod(o)

    def __rfloordiv__(self, o):
        return o // self.concretize()

    def __rmod__(self, o):
        return o % self.concretize()

    def __truediv__(self, o):
        if isinstance(o, (SymInt, SymBool)):
            o = as_int(o).concretize()
        if isinstance(o, float):
            if not o.is_integer():
                raise Inconclusive("float")
            o = int(o)
        if o == 0:
            raise ZeroDivisionError("division by zero")
        if o < 0:
            return SymFloat(-self, -o)
        return SymFloat(self, o)

    def __lshift__(self, o):
        if isinstance(o, SymInt):
            o = o.concretize()
        return self * (1 << o) if o else self

    def __rlshift__(self, o):
        return o << self.concretize()

    def __rshift__(self, o):
        if isinstance(o, SymInt):
            o = o.concretize()
        if o == 0:
            return self
        return mk_int(self.t >> val(min(o, W - 1)), self.lo >> o, self.hi >> o)

    def __rrshift__(self, o):
        return o >> self.concretize()

    def __and__(self, o):
        if not is_intlike(o):
            return NotImplemented
        k = None
        if isinstance(o, int):
            k = (self.t.get_id(), int(o), self.lo, self.hi)
            c = _AND.get(k)
            if c is not None:
                return c[1]
        lo, hi = rng(o)
        if self.lo >= 0 and lo >= 0:
            r = (0, min(self.hi, hi))
        elif lo >= 0:
            r = (0, hi)
        elif self.lo >= 0:
            r = (0, self.hi)
        else:
            m = _bits(max(abs(self.lo), abs(self.hi), abs(lo), abs(hi)))
            r = (-m - 1, m)
        res = mk_int(self.t & iterm(o), *r)
        if k is not None:
            if len(_AND) > 100000:
                _AND.clear()
            _AND[k] = (self.t, res)
        return res

    __rand__ = __and__

    def __or__(self, o):
        if not is_intlike(o):
            return NotImplemented
        lo, hi = rng(o)
        if self.lo >= 0 and lo >= 0:
            r = (max(self.lo, lo), _bits(max(self.hi, hi)))
        else:
            m = _bits(max(abs(self.lo), abs(self.hi), abs(lo), abs(hi)))
            r = (-m - 1, m)
        return mk_int(self.t | iterm(o), *r)

    __ror__ = __or__

    def __xor__(self, o):
        if not is_intlike(o):
            return NotImplemented
        lo, hi = rng(o)
        m = _bits(max(abs(self.lo), abs(self.hi), abs(lo), abs(hi)))
        r = (0, m) if self.lo >= 0 and lo >= 0 else (-m - 1, m)
        return mk_int(self.t ^ iterm(o), *r)

    __rxor__ = __xor__

    def __pow__(self, o):
        r = 1
        for _ in range(int(o)):
            r = self * r
        return r

    def __rpow__(self, o):
        return o ** self.concretize()

    # comparison
    def __eq__(self, o):
        if isinstance(o, float) and o.is_integer():
            o = int(o)
        if not is_intlike(o):
            return False
        lo, hi = rng(o)
        if self.hi < lo or hi < self.lo:
            return False
        if isinstance(o, SymInt) and o.t.eq(self.t):
            return True
        return mk_bool(self.t == iterm(o))

    def __ne__(self, o):
        return sym_not(self == o)

    def __lt__(self, o):
        if not is_intlike(o):
            return NotImplemented
        lo, hi = rng(o)
        if self.hi < lo:
            return True
        if self.lo >= hi:
            return False
        return mk_bool(self.t < iterm(o))

    def __le__(self, o):
        if not is_intlike(o):
            return NotImplemented
        lo, hi = rng(o)
        if self.hi <= lo:
            return True
        if self.lo > hi:
            return False
        return mk_bool(self.t <= iterm(o))

    def __gt__(self, o):
        if not is_intlike(o):
            return NotImplemented
        return sym_not(self.__le__(o))

    def __ge__(self, o):
        if not is_intlike(o):
            return NotImplemented
        return sym_not(self.__lt__(o))

    def __bool__(self):
        if self.lo > 0 or self.hi < 0:
            return True
        return eng().branch(self.t != val(0))

    # concretisation
    def concretize(self, limit=300):
        return choose_value(self, limit)

    def __index__(self):
        return self.concretize()

    __int__ = __index__

    def __hash__(self):
        if KEYING:
            return id(self)
        return hash(self.concretize())

    def bit_length(self):
        if self.lo < 0:
            return abs(self).bit_length()
        n = 0
        while eng().branch(iterm(self) >= val(1 << n)):
            n += 1
        return n

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed else (0, (1 << (8 * length)) - 1)
        if not eng().branch(z3.And(self.t >= val(lo), self.t <= val(hi))):
            raise OverflowError("int too big to convert")
        bs = [z3.simplify(z3.Extract(8 * i + 7, 8 * i, self.t)) for i in range(length)]
        if byteorder == "big":
            bs.reverse()
        return SymBytes.from_terms(bs)

    @property
    def real(self):
        return self

    def __repr__(self):
        return "SymInt[%d..%d]" % (self.lo, self.hi)


def choose_value(x, limit=300):
    e = eng()
    t = z3.simplify(x.t)
    if z3.is_bv_value(t):
        return t.as_signed_long()
    for _ in range(limit):
        if e.pos < len(e.trail):
            d = e.trail[e.pos]
            if len(d) < 6:
                raise Inconclusive("non-deterministic re-execution")
            v = d[5]
        else:
            v = e.model().eval(t, model_completion=True).as_signed_long()
        before = e.pos
        r = e.branch(t == val(v))
        if e.pos > before and len(e.trail[before]) < 6:
            e.trail[before].append(v)
        if r:
            return v
    raise Inconclusive("too many values of a symbolic integer")


def sym_min(a, b):
    a, b = as_int(a), as_int(b)
    if not isinstance(a, SymInt) and not isinstance(b, SymInt):
        return min(a, b)
    c = a <= b
    if eng().must(bterm(c)):
        return a
    if eng().must(bterm(b <= a)):
        return b
    (al, ah), (bl, bh) = rng(a), rng(b)
    return mk_int(z3.If(bterm(c), iterm(a), iterm(b)), min(al, bl), min(ah, bh))


def sym_max(a, b):
    return -sym_min(-a, -b)


def ite(c, a, b):
    """Integer-valued conditional without a fork."""
    if not isinstance(c, SymBool):
        return a if c else b
    a, b = as_int(a), as_int(b)
    (al, ah), (bl, bh) = rng(a), rng(b)
    return mk_int(z3.If(c.t, iterm(a), iterm(b)), min(al, bl), max(ah, bh))


# ---------------------------------------------------------------- float
class SymFloat:
    """num/den rounded to a double (one correctly rounded division)."""

    def __init__(self, num, den, steps=1):
        self.num = num
        self.den = den
        self.steps = steps

    def _cmp(self, o, f):
        if isinstance(o, float):
            if not o.is_integer():
                raise Inconclusive("float comparison")
            o = int(o)
        if isinstance(o, int):
            # rounding is monotonic and o is representable
            if abs(o) > 2**53:
                raise Inconclusive("float comparison")
            return f(self.num, o * self.den)
        raise Inconclusive("float comparison")

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    __hash__ = None

    def __int__(self):
        raise Inconclusive("float to int")

    def __add__(self, o):
        if isinstance(o, int):
            return SymFloat(self.num + o * self.den, self.den, self.steps + 2)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, int):
            return SymFloat(self.num - o * self.den, self.den, self.steps + 2)
        return NotImplemented

    def __truediv__(self, o):
        if isinstance(o, float) and o.is_integer():
            o = int(o)
        if isinstance(o, int) and o > 0:
            return SymFloat(self.num, self.den * o, self.steps + 1)
        return NotImplemented

    def __mul__(self, o):
        if isinstance(o, float) and o.is_integer():
            o = int(o)
        if isinstance(o, int) and o > 0:
            return SymFloat(self.num * o, self.den, self.steps + 1)
        return NotImplemented

    __rmul__ = __mul__


def micros_of(x):
    """SymFloat seconds -> SymInt microseconds, within rounding."""
    if isinstance(x, SymFloat):
        num, den, steps = x.num, x.den, x.steps
        scale = 1000000
        # |den*M - scale*num| <= den/2 + error of `steps` double roundings
        g = _gcd(scale, den)
        s, d = scale // g, den // g
        n = num * s
        # the same rounding of the same number gives the same result
        memo = eng().path_state.setdefault("micros", {})
        key = (iterm(n).get_id(), d, steps)
        if key in memo:
            return memo[key][1]
        lo, hi = rng(n)
        m = eng().fresh(BV, "us")
        mlo, mhi = lo // d - 2**20, hi // d + 2**20
        M = mk_int(m, mlo, mhi)
        err = ((abs(n) >> 53) + 1) * steps + (d + 1) // 2
        diff = M * d - n
        eng().define(z3.And(bterm(diff <= err), bterm(-diff <= err), m >= val(mlo), m <= val(mhi)))
        memo[key] = (iterm(n), M)
        return M
    raise Inconclusive("float")


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


# ---------------------------------------------------------------- bytes
class Buffer:
    """An input file: bytes F(0..n-1); template positions are concrete."""

    def __init__(self, name, length, template=None):
        self.name = name
        self.length = length
        self.F = z3.Function("F_" + name, z3.BitVecSort(AW), z3.BitVecSort(8))
        self.template = dict(template or {})
        self.cache = {}
        self.ints = {}

    def assert_template(self):
        for a, b in self.template.items():
            eng().add_base(self.F(z3.BitVecVal(a, AW)) == z3.BitVecVal(b, 8), template=True)

    def byte(self, addr):
        """BV8 term (or python int for template bytes)."""
        if isinstance(addr, SymInt):
            k = addr.t.get_id()
            r = self.cache.get(k)
            if r is None:
                at = z3.simplify(z3.Extract(AW - 1, 0, addr.t))
                r = (self.F(at), addr.t, at)
                self.cache[k] = r
            eng().reads.append((self, r[2], r[0]))
            return r[0]
        b = self.template.get(addr)
        if b is not None:
            return b
        r = self.cache.get(("c", addr))
        if r is None:
            at = z3.BitVecVal(addr, AW)
            r = (self.F(at), None, at)
            self.cache[("c", addr)] = r
        eng().reads.append((self, r[2], r[0]))
        return r[0]


def b8(x):
    return z3.BitVecVal(x, 8) if isinstance(x, int) else x


class SymBytes:
    """A view (offset, length) of a Buffer, or a list of byte terms."""

    def __init__(self, buf, off, ln, lst=None):
        self.buf = buf
        self.off = off
        self.ln = ln
        self.lst = lst

    @staticmethod
    def from_terms(ts):
        out = []
        for t in ts:
            if not isinstance(t, int) and z3.is_bv_value(t):
                t = t.as_long()
            out.append(t)
        if all(isinstance(t, int) for t in out):
            return bytes(out)
        return SymBytes(None, 0, len(out), out)

    @staticmethod
    def lift(x):
        if isinstance(x, SymBytes):
            return x
        return SymBytes(None, 0, len(x), list(bytes(x)))

    def term(self, i):
        """byte i as BV8 term or int; i must be in range."""
        if self.lst is not None:
            if isinstance(i, SymInt):
                i = i.concretize()
            return self.lst[i]
        return self.buf.byte(self.off + i)

    def terms(self):
        n = self.conc_len()
        return [self.term(i) for i in range(n)]

    def conc_len(self):
        if isinstance(self.ln, SymInt):
            return self.ln.concretize()
        return self.ln

    def norm(self):
        """bytes if every byte is concrete, else self."""
        if isinstance(self.ln, SymInt):
            return self
        if self.ln == 0:
            return b""
        if self.ln > 4096:
            return self
        if self.lst is None and isinstance(self.off, SymInt):
            return self
        out = []
        for i in range(self.ln):
            t = self.lst[i] if self.lst is not None else self.buf.template.get(self.off + i)
            if not isinstance(t, int):
                return self
            out.append(t)
        return bytes(out)

    def _clamp(self, x, default):
        n = self.ln
        if x is None:
            return default
        x = as_int(x)
        if not is_intlike(x):
            x = x.__index__()
        lo, hi = rng(x)
        if hi < 0:
            x = sym_max(x + n, 0)
        elif lo < 0:
            if eng().branch(bterm(x < 0)):
                x = sym_max(x + n, 0)
        return sym_min(x, n)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None and i.step != 1:
                ts = self.terms()
                return SymBytes.from_terms(ts[slice(i.start, i.stop, i.step)])
            s = self._clamp(i.start, 0)
            e = self._clamp(i.stop, self.ln)
            if not isinstance(s, SymInt) and not isinstance(e, SymInt):
                ln = max(e - s, 0)
            elif eng().must(bterm(s <= e)):
                ln = e - s
            else:
                ln = sym_max(e - s, 0)
            if self.lst is not None:
                s = s if not isinstance(s, SymInt) else s.concretize()
                ln = ln if not isinstance(ln, SymInt) else ln.concretize()
                return SymBytes(None, 0, ln, self.lst[s : s + ln]).norm()
            return SymBytes(self.buf, self.off + s, ln).norm()
        i = as_int(i)
        lo, hi = rng(i)
        if lo < 0:
            if hi < 0 or eng().branch(bterm(i < 0)):
                i = i + self.ln
                if bool(mk_bool(bterm(i < 0))):
                    raise IndexError("index out of range")
        if not bool(mk_bool(bterm(i < self.ln))):
            raise IndexError("index out of range")
        return byte_int(self.term(i))

    def __iter__(self):
        i = 0
        while True:
            if not isinstance(self.ln, SymInt):
                if i >= self.ln:
                    return
            elif not eng().branch(bterm(self.ln > i)):
                return
            eng().tick()
            yield byte_int(self.term(i))
            i += 1

    def __len__(self):
        return self.conc_len()

    def __bool__(self):
        return bool(mk_bool(bterm(as_int(self.ln) > 0))) if isinstance(self.ln, SymInt) else self.ln > 0

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray, SymBytes)):
            return False
        o = SymBytes.lift(o)
        if self.buf is not None and self.buf is o.buf:
            same = b_and(as_int(self.off) == o.off, as_int(self.ln) == o.ln)
            if same is True:
                return True
            if isinstance(self.ln, SymInt) or isinstance(o.ln, SymInt):
                if eng().must(bterm(same)):
                    return True
        le = as_int(self.ln) == as_int(o.ln)
        if le is False:
            return False
        if isinstance(le, SymBool) and not eng().branch(le.t):
            return False
        n = self.ln if not isinstance(self.ln, SymInt) else o.ln
        if isinstance(n, SymInt):
            n = n.concretize()
        return mk_bool(z3.simplify(z3.And([b8(self.term(i)) == b8(o.term(i)) for i in range(n)]))) if n else True

    def __ne__(self, o):
        return sym_not(self == o)

    def __hash__(self):
        if KEYING:
            return id(self)
        return hash(self.concretize())

    def concretize(self):
        return bytes(x if isinstance(x, int) else x.concretize() for x in map(byte_int, self.terms()))

    def __add__(self, o):
        if not isinstance(o, (bytes, bytearray, SymBytes)):
            return NotImplemented
        o = SymBytes.lift(o)
        if isinstance(o.ln, SymInt) or isinstance(self.ln, SymInt):
            if self.ln == 0 and not isinstance(self.ln, SymInt):
                return o
            if o.ln == 0 and not isinstance(o.ln, SymInt):
                return self
        return SymBytes.from_terms(self.terms() + o.terms())

    def __radd__(self, o):
        return SymBytes.lift(o) + self

    def __mul__(self, n):
        return SymBytes.from_terms(self.terms() * int(n))

    def __contains__(self, x):
        raise Inconclusive("bytes containment")

    # methods
    def decode(self, encoding="utf-8", errors="strict"):
        return decode_bytes(self, encoding, errors)

    def hex(self, sep=None, bytes_per_sep=1):
        parts = []
        if sep is not None and bytes_per_sep != 1:
            raise Inconclusive("hex grouping")
        if isinstance(sep, bytes):
            sep = sep.decode("ascii")
        for i, t in enumerate(self.terms()):
            if i and sep is not None:
                parts.append(sep)
            if isinstance(t, int):
                parts.append("%02x" % t)
            else:
                parts.append(Hx(z3.Extract(7, 4, t), False))
                parts.append(Hx(z3.Extract(3, 0, t), False))
        return mk_str(parts)

    def find(self, sub, start=None, end=None):
        if isinstance(sub, int):
            sub = bytes([sub])
        v = self if start is None and end is None else self[start:end]
        base = 0 if start is None else self._clamp(start, 0)
        v = SymBytes.lift(v)
        sub = SymBytes.lift(sub)
        m = sub.conc_len()
        i = 0
        while True:
            if not bool(mk_bool(bterm(as_int(v.ln) >= i + m))):
                return -1
            eng().tick()
            if m == 0 or bool(mk_bool(z3.And([b8(v.term(i + j)) == b8(sub.term(j)) for j in range(m)]))):
                return base + i
            i += 1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if not isinstance(r, SymInt) and r < 0:
            raise ValueError("subsection not found")
        return r

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return any(self.startswith(x, *a) for x in p)
        v = SymBytes.lift(self[slice(*a)]) if a else self
        return v[: len(p)] == p

    def endswith(self, p):
        n = self.conc_len()
        return self[max(n - len(p), 0) :] == p

    def partition(self, sep):
        i = self.find(sep)
        if not isinstance(i, SymInt) and i < 0:
            return self, b"", b""
        return self[:i], sep, self[i + len(sep) :]

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Inconclusive("bytes.split()")
        out, rest = [], self
        while maxsplit != 0:
            i = SymBytes.lift(rest).find(sep)
            if not isinstance(i, SymInt) and i < 0:
                break
            out.append(rest[:i])
            rest = rest[i + len(sep) :]
            maxsplit -= 1
        out.append(rest)
        return out

    def rstrip(self, chars=b" \t\n\r\x0b\x0c"):
        n = self.conc_len()
        while n and bool(b_or(*[byte_int(self.term(n - 1)) == c for c in (chars or b" \t\n\r\x0b\x0c")])):
            n -= 1
        return self[:n]

    def lstrip(self, chars=b" \t\n\r\x0b\x0c"):
        n = self.conc_len()
        i = 0
        while i < n and bool(b_or(*[byte_int(self.term(i)) == c for c in (chars or b" \t\n\r\x0b\x0c")])):
            i += 1
        return self[i:]

    def strip(self, chars=b" \t\n\r\x0b\x0c"):
        return SymBytes.lift(self.lstrip(chars)).rstrip(chars)

    def replace(self, a, b, count=-1):
        raise Inconclusive("bytes.replace")

    def tobytes(self):
        return self

    def __bytes__(self):
        return self.concretize()

    def count(self, sub):
        raise Inconclusive("bytes.count")

    def __repr__(self):
        return "SymBytes(%r,%r)" % (self.off, self.ln)


def byte_int(t):
    if isinstance(t, int):
        return t
    return SymInt(z3.ZeroExt(W - 8, t), 0, 255)


def int_from_terms(ts, signed=False):
    """little-endian list of byte terms -> integer"""
    n = len(ts)
    if n == 0:
        return 0
    if all(isinstance(t, int) for t in ts):
        return int.from_bytes(bytes(ts), "little", signed=signed)
    if n * 8 > W - 3:
        raise Inconclusive("wide integer")
    bs = [b8(t) for t in reversed(ts)]
    c = bs[0] if n == 1 else z3.Concat(*bs)
    if signed:
        return SymInt(z3.SignExt(W - 8 * n, c), -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)
    return SymInt(z3.ZeroExt(W - 8 * n, c), 0, (1 << (8 * n)) - 1)


# ---------------------------------------------------------------- text
class Hx:
    """One hexadecimal digit of a 4-bit term."""

    __slots__ = ("t", "upper")

    def __init__(self, t, upper):
        self.t = t
        self.upper = upper

    def code(self):
        n = z3.ZeroExt(W - 4, self.t)
        a = 55 if self.upper else 87
        return SymInt(z3.If(z3.UGE(self.t, 10), n + val(a), n + val(48)), 48, 102)


class Ch:
    """One character given by its code point."""

    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def code(self):
        return self.c


class Tok:
    """An opaque piece of text, a function of its values."""

    __slots__ = ("kind", "key", "vals")

    def __init__(self, kind, key, vals):
        self.kind = kind
        self.key = key
        self.vals = vals

    def __repr__(self):
        return "Tok(%s,%r)" % (self.kind, self.key)


def mk_str(parts):
    out = []
    for p in parts:
        if isinstance(p, SymStr):
            ps = p.parts
        else:
            ps = (p,)
        for q in ps:
            if isinstance(q, Hx) and z3.is_bv_value(z3.simplify(q.t)):
                v = z3.simplify(q.t).as_long()
                q = ("%X" if q.upper else "%x") % v
            elif isinstance(q, Ch) and isinstance(q.c, int):
                q = chr(q.c)
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                    continue
            out.append(q)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SymStr(out)


CASE_TABLE = {}


class SymStr:
    def __init__(self, parts):
        self.parts = parts

    @staticmethod
    def lift(x):
        if isinstance(x, SymStr):
            return x
        return SymStr([x] if x else [])

    def chars(self):
        """list of 1-character parts, expanding decode tokens"""
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.extend(p)
            elif isinstance(p, (Hx, Ch)):
                out.append(p)
            else:
                out.extend(tok_chars(p))
        return out

    def is_plain(self):
        return not any(isinstance(p, Tok) for p in self.parts)

    def __len__(self):
        return int(self.sym_len())

    def sym_len(self):
        n = 0
        for p in self.parts:
            if isinstance(p, str):
                n += len(p)
            elif isinstance(p, (Hx, Ch)):
                n += 1
            else:
                n = n + tok_len(p)
        return n

    def __bool__(self):
        for p in self.parts:
            if isinstance(p, (str, Hx, Ch)):
                return True
        for p in self.parts:
            if bool(tok_nonempty(p)):
                return True
        return False

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return False
        return str_eq(self, SymStr.lift(o))

    def __ne__(self, o):
        return sym_not(self == o)

    def __hash__(self):
        if KEYING:
            return id(self)
        raise Inconclusive("hash of symbolic text")

    def __add__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return mk_str([self, o])

    def __radd__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return mk_str([o, self])

    def __mul__(self, n):
        return mk_str([self] * int(n))

    __rmul__ = __mul__

    def __iter__(self):
        for c in self.chars():
            yield c if isinstance(c, str) else mk_str([c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            st, sp, step = i.start, i.stop, i.step
            st = int(st) if st is not None else None
            sp = int(sp) if sp is not None else None
            if step in (None, 1) and (st or 0) >= 0:
                # plain prefix handling without expanding opaque tokens
                r = self._slice_prefix(st or 0, sp)
                if r is not None:
                    return r
            return mk_str(self.chars()[slice(st, sp, step)])
        c = self.chars()[int(i)]
        return c if isinstance(c, str) else mk_str([c])

    def _slice_prefix(self, st, sp):
        if sp is not None and sp < 0:
            return None
        out, pos = [], 0
        for k, p in enumerate(self.parts):
            if sp is not None and pos >= sp:
                break
            if isinstance(p, str):
                a = max(st - pos, 0)
                b = len(p) if sp is None else min(sp - pos, len(p))
                out.append(p[a:b])
                pos += len(p)
            elif isinstance(p, (Hx, Ch)):
                if pos >= st:
                    out.append(p)
                pos += 1
            else:
                if sp is None and pos >= st:
                    out.extend(self.parts[k:])
                    return mk_str(out)
                return None
        return mk_str(out)

    def __contains__(self, x):
        return bool(mk_bool(bterm(str_contains(self, x))))

    def __lt__(self, o):
        raise Inconclusive("text ordering")

    __le__ = __gt__ = __ge__ = __lt__

    def __format__(self, spec):
        raise Inconclusive("format() of symbolic text")

    def __mod__(self, args):
        return sym_percent(self, args)

    # methods
    def find(self, sub, start=None, end=None):
        return str_find(self, sub, start, end)

    def index(self, sub, *a):
        r = str_find(self, sub, *a)
        if bool(mk_bool(bterm(as_int(r) < 0))):
            raise ValueError("substring not found")
        return r

    def rfind(self, sub, start=None, end=None):
        cs = self.chars()
        subs = SymStr.lift(sub).chars()
        if start is not None or end is not None:
            raise Inconclusive("rfind bounds")
        for i in range(len(cs) - len(subs), -1, -1):
            if bool(chars_eq(cs[i : i + len(subs)], subs)):
                return i
        return -1

    def startswith(self, p, *a):
        if a:
            raise Inconclusive("startswith bounds")
        if isinstance(p, tuple):
            return any(self.startswith(x) for x in p)
        n = len(p)
        r = self._slice_prefix(0, n)
        if r is not None:
            return r == p
        cs = self.chars()
        ps = SymStr.lift(p).chars()
        if len(cs) < len(ps):
            return False
        return chars_eq(cs[: len(ps)], ps)

    def endswith(self, p):
        if isinstance(p, tuple):
            return any(self.endswith(x) for x in p)
        if self.parts and isinstance(self.parts[-1], str) and isinstance(p, str):
            last = self.parts[-1]
            if len(last) >= len(p):
                return last.endswith(p)
        cs = self.chars()
        ps = SymStr.lift(p).chars()
        if len(cs) < len(ps):
            return False
        return chars_eq(cs[len(cs) - len(ps) :], ps)

    def upper(self):
        return self._case(True)

    def lower(self):
        return self._case(False)

    def _case(self, up):
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.append(p.upper() if up else p.lower())
            elif isinstance(p, Hx):
                out.append(Hx(p.t, up))
            elif isinstance(p, Tok) and p.kind == "hexv":
                out.append(Tok("hexv", up, p.vals))
            elif isinstance(p, Tok) and p.kind == "int":
                out.append(p)
            else:
                out.append(Tok("case", up, (SymStr([p]),)))
        return mk_str(out)

    def _stripset(self, chars):
        return list(chars) if chars is not None else [chr(i) for i in range(0x3001) if chr(i).isspace()]

    def rstrip(self, chars=None):
        cs = self.chars()
        st = self._stripset(chars)
        while cs and bool(b_or(*[char_eq(cs[-1], x) for x in st])):
            cs.pop()
        return mk_str(cs)

    def lstrip(self, chars=None):
        cs = self.chars()
        st = self._stripset(chars)
        while cs and bool(b_or(*[char_eq(cs[0], x) for x in st])):
            cs.pop(0)
        return mk_str(cs)

    def strip(self, chars=None):
        return SymStr.lift(self.lstrip(chars)).rstrip(chars)

    def partition(self, sep):
        i = self.find(sep)
        if int(i) < 0:
            return self, "", ""
        return self[:i], sep, self[int(i) + len(sep) :]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return "", "", self
        return self[:i], sep, self[i + len(sep) :]

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit != -1:
                raise Inconclusive("str.split()")
            words, cur = [], []
            for c in self.chars():
                if bool(is_space(c)):
                    if cur:
                        words.append(mk_str(cur))
                    cur = []
                else:
                    cur.append(c)
            return words + ([mk_str(cur)] if cur else [])
        out, rest = [], self
        while maxsplit != 0:
            i = int(SymStr.lift(rest).find(sep))
            if i < 0:
                break
            out.append(rest[:i])
            rest = rest[i + len(sep) :]
            maxsplit -= 1
        out.append(rest)
        return out

    def replace(self, a, b, count=-1):
        # literal parts are replaced in place; tokens are wrapped
        if isinstance(a, SymStr) or isinstance(b, SymStr) or count != -1:
            raise Inconclusive("str.replace")
        if not any(isinstance(p, Tok) for p in self.parts) and len(a) == 1:
            out = []
            for c in self.chars():
                out.append(b if bool(char_eq(c, a)) else c)
            return mk_str(out)
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.append(p.replace(a, b))
            else:
                out.append(Tok("replace", (a, b), (SymStr([p]),)))
        return mk_str(out)

    def encode(self, encoding="utf-8", errors="strict"):
        enc = codecs.lookup(encoding).name
        if len(self.parts) == 1 and isinstance(self.parts[0], Tok):
            p = self.parts[0]
            if p.kind == "dec" and p.key == (enc, "strict"):
                return p.vals[0]
        out = []
        for c in self.chars():
            code = ord(c) if isinstance(c, str) else c.code()
            if isinstance(code, int):
                out.extend(chr(code).encode(encoding, errors))
                continue
            if enc in ("ascii", "utf-8", "iso8859-1", "cp1252"):
                if bool(code < 128):
                    out.append(z3.Extract(7, 0, code.t))
                    continue
            raise Inconclusive("encode")
        return SymBytes.from_terms(out)

    def join(self, it):
        return str_join(self, it)

    def isprintable(self):
        return b_and(*[c.isprintable() if isinstance(c, str) else in_runs(c.code(), "isprintable") for c in self.chars()])

    def isspace(self):
        cs = self.chars()
        return bool(cs) and b_and(*[is_space(c) for c in cs])

    def isalnum(self):
        cs = self.chars()
        return bool(cs) and b_and(*[c.isalnum() if isinstance(c, str) else in_runs(c.code(), "isalnum") for c in cs])

    def isalpha(self):
        cs = self.chars()
        return bool(cs) and b_and(*[c.isalpha() if isinstance(c, str) else in_runs(c.code(), "isalpha") for c in cs])

    def removeprefix(self, p):
        return self[len(p) :] if p and bool(self.startswith(p)) else self

    def removesuffix(self, p):
        return mk_str(self.chars()[: -len(p)]) if p and bool(self.endswith(p)) else self

    def casefold(self):
        return self._case(False)

    def capitalize(self):
        cs = self.chars()
        return mk_str([SymStr.lift(mk_str(cs[:1])).upper(), SymStr.lift(mk_str(cs[1:])).lower()]) if cs else ""

    def count(self, sub):
        cs = self.chars()
        if len(sub) != 1:
            raise Inconclusive("str.count")
        n = 0
        for c in cs:
            n = n + ite(char_eq(c, sub), 1, 0)
        return n

    def translate(self, table):
        out = []
        for c in self.chars():
            if isinstance(c, str):
                out.append(c.translate(table))
                continue
            for k, v in table.items():
                if bool(c.code() == k):
                    v = chr(v) if isinstance(v, int) else v
                    if v:
                        out.append(v)
                    break
            else:
                out.append(c)
        return mk_str(out)

    def ljust(self, n, fill=" "):
        cs = self.chars()
        return mk_str(cs + [fill] * (n - len(cs)))

    def isascii(self):
        return b_and(*[c < chr(128) if isinstance(c, str) else c.code() < 128 for c in self.chars()])

    def zfill(self, n):
        cs = self.chars()
        if cs and not isinstance(cs[0], str):
            raise Inconclusive("zfill")
        return mk_str(["0" * max(n - len(cs), 0)] + cs)

    def splitlines(self, keepends=False):
        if keepends:
            raise Inconclusive("splitlines")
        out, cur, cr = [], [], False
        for c in self.chars():
            if bool(b_or(*[char_eq(c, x) for x in "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"])):
                lf = bool(char_eq(c, "\n"))
                if not (cr and lf):
                    out.append(mk_str(cur))
                cur, cr = [], bool(char_eq(c, "\r"))
            else:
                cur.append(c)
                cr = False
        return out + ([mk_str(cur)] if cur else [])

    def format(self, *a, **k):
        raise Inconclusive("symbolic format string")

    def isdigit(self):
        return bool(self) and b_and(
            *[c.isdigit() if isinstance(c, str) else b_and(c.code() >= 48, c.code() <= 57) for c in self.chars()]
        )

    def __str__(self):
        raise Inconclusive("str() of symbolic text")

    def __repr__(self):
        return "SymStr(%r)" % (self.parts,)


def char_code(c):
    return ord(c) if isinstance(c, str) else c.code()


def char_eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, Hx) and isinstance(b, Hx):
        if a.upper == b.upper:
            return mk_bool(a.t == b.t)
        return mk_bool(z3.And(a.t == b.t, z3.ULT(a.t, 10)))
    if isinstance(a, Hx) and isinstance(b, str):
        ok = "0123456789ABCDEF" if a.upper else "0123456789abcdef"
        i = ok.find(b)
        return mk_bool(a.t == z3.BitVecVal(i, 4)) if i >= 0 else False
    if isinstance(b, Hx) and isinstance(a, str):
        return char_eq(b, a)
    return char_code(a) == char_code(b)


def chars_eq(a, b):
    if len(a) != len(b):
        return False
    return b_and(*[char_eq(x, y) for x, y in zip(a, b)])


def str_find(s, sub, start=None, end=None):
    """Position of sub, as a term when sub is a single character."""
    s = SymStr.lift(s)
    subs = SymStr.lift(sub).chars()
    cs = s.chars()
    lo = 0 if start is None else int(start)
    hi = len(cs) if end is None else int(end)
    if lo < 0 or hi < 0:
        raise Inconclusive("find bounds")
    hi = min(hi, len(cs))
    if len(subs) == 1 and not isinstance(subs[0], str) and all(isinstance(c, str) for c in cs):
        # look-up of a symbolic character in a fixed alphabet: no fork
        r = -1
        if isinstance(subs[0], Ch):
            # runs of consecutive characters
            x = as_int(subs[0].c)
            i = hi - 1
            while i >= lo:
                j = i
                while j > lo and ord(cs[j - 1]) == ord(cs[j]) - 1:
                    j -= 1
                a, b = ord(cs[j]), ord(cs[i])
                r = ite(b_and(x >= a, x <= b), x - (a - j), r)
                i = j - 1
            return r
        for i in range(hi - 1, lo - 1, -1):
            r = ite(char_eq(cs[i], subs[0]), i, r)
        return r
    for i in range(lo, hi - len(subs) + 1):
        if bool(chars_eq(cs[i : i + len(subs)], subs)):
            return i
    return -1


def str_contains(s, sub):
    if isinstance(s, str) and isinstance(sub, str):
        return sub in s
    s = SymStr.lift(s)
    subs = SymStr.lift(sub).chars()
    cs = s.chars()
    return b_or(*[chars_eq(cs[i : i + len(subs)], subs) for i in range(0, len(cs) - len(subs) + 1)])


def str_join(sep, it):
    out, first = [], True
    seq = list(it)
    for x in seq:
        if not isinstance(x, (str, SymStr)):
            raise TypeError("sequence item: expected str instance")
        if not first:
            out.append(sep)
        out.append(x)
        first = False
    return mk_str(out)


def str_eq(a, b, approx=False):
    """Equality formula. With approx, an undecidable shape counts as
    different (only for comparisons whose counterexamples are replayed)."""
    pa, pb = list(a.parts), list(b.parts)
    if len(pa) == len(pb):
        same = []
        ok = True
        for x, y in zip(pa, pb):
            if isinstance(x, str) and isinstance(y, str):
                if x != y:
                    ok = False
                    break
            elif isinstance(x, Tok) and isinstance(y, Tok):
                if x.kind != y.kind or x.key != y.key:
                    ok = False
                    break
                same.append(tok_eq(x, y, approx))
            elif isinstance(x, (Hx, Ch)) and isinstance(y, (Hx, Ch)):
                same.append(char_eq(x, y))
            else:
                ok = False
                break
        if ok:
            return b_and(*same)
    for p, q in ((a, b), (b, a)):
        if not q.parts and len(p.parts) == 1 and isinstance(p.parts[0], Tok):
            try:
                return sym_not(tok_nonempty(p.parts[0]))
            except Inconclusive:
                if not approx:
                    raise
        if q.is_plain() and all(isinstance(x, str) for x in q.parts):
            lit = q.parts[0] if q.parts else ""
            try:
                return match_literal(p.parts, lit)
            except Inconclusive:
                if not approx:
                    raise
    try:
        return chars_eq(a.chars(), b.chars())
    except Inconclusive:
        if approx:
            return False
        raise


def match_literal(parts, lit):
    if not parts:
        return lit == ""
    p, rest = parts[0], parts[1:]
    if isinstance(p, str):
        return match_literal(rest, lit[len(p) :]) if lit.startswith(p) else False
    if isinstance(p, (Hx, Ch)):
        if not lit:
            return False
        return b_and(char_eq(p, lit[0]), match_literal(rest, lit[1:]))
    if p.kind in ("hexv", "int"):
        alts = []
        base = 16 if p.kind == "hexv" else 10
        digits = "0123456789ABCDEF" if p.key else "0123456789abcdef"
        if p.kind == "int":
            digits = "0123456789"
        for n in range(1, len(lit) + 1):
            piece = lit[:n]
            body = piece[1:] if p.kind == "int" and piece[0] == "-" else piece
            if not body or any(c not in digits for c in body) or (body[0] == "0" and len(body) > 1):
                if not body:
                    continue
                break
            v = int(piece, base)
            alts.append(b_and(p.vals[0] == v, match_literal(rest, lit[n:])))
        return b_or(*alts)
    cs = tok_chars(p)
    return match_literal(list(cs) + list(rest), lit)


def tok_eq(x, y, approx=False):
    """Same kind and key."""
    if x.kind == "text":
        return text_eq(x, y)
    if x.kind == "dec":
        r = x.vals[0] == y.vals[0] if isinstance(x.vals[0], SymBytes) else SymBytes.lift(x.vals[0]) == y.vals[0]
        return r
    return b_and(*[sx_eq(u, v, approx) for u, v in zip(x.vals, y.vals)])


def sx_eq(u, v, approx=False):
    if isinstance(u, SymStr) or isinstance(v, SymStr):
        if not isinstance(u, (str, SymStr)) or not isinstance(v, (str, SymStr)):
            return False
        return str_eq(SymStr.lift(u), SymStr.lift(v), approx)
    if isinstance(u, (tuple, list)) and isinstance(v, (tuple, list)):
        if len(u) != len(v):
            return False
        return b_and(*[sx_eq(a, b, approx) for a, b in zip(u, v)])
    r = u == v
    return r if isinstance(r, SymBool) else bool(r)


def text_eq(x, y):
    """Text tokens (summaries of the text readers): the string at a view.

    Equal start and end give equal text; so do equal starts when a
    terminator is known to lie inside both views.
    """
    v, w = SymBytes.lift(x.vals[0]), SymBytes.lift(y.vals[0])
    if v.buf is not w.buf:
        raise Inconclusive("text of different buffers")
    so = as_int(v.off) == as_int(w.off)
    sl = as_int(v.ln) == as_int(w.ln)
    both_empty = b_and(as_int(v.ln) == 0, as_int(w.ln) == 0)
    wit = []
    for a in eng().path_state.get("nul_witness", ()):
        m1 = b_and(as_int(v.off) <= a, v.off + v.ln >= a + 2, w.off + w.ln >= a + 2)
        if x.key[0] == "u":
            d = as_int(a - v.off)
            m1 = b_and(m1, (d & 1) == 0)
        wit.append(m1)
    return b_or(b_and(so, b_or(sl, *wit)), both_empty)


def tok_nonempty(p):
    if p.kind == "text":
        v = SymBytes.lift(p.vals[0])
        if p.key[0] == "a":
            if not bool(mk_bool(bterm(as_int(v.ln) > 0))):
                return False
            return mk_bool(b8(v.term(0)) != b8(0))
        if not bool(mk_bool(bterm(as_int(v.ln) > 0))):
            return False
        if not bool(mk_bool(bterm(as_int(v.ln) > 1))):
            return True
        return mk_bool(z3.Or(b8(v.term(0)) != b8(0), b8(v.term(1)) != b8(0)))
    if p.kind == "dec":
        return as_int(SymBytes.lift(p.vals[0]).ln) > 0
    if p.kind in ("int", "hexv", "iso", "hash", "json", "yaml"):
        return True
    raise Inconclusive("truth of opaque text")


def tok_len(p):
    if p.kind == "dec":
        return len(tok_chars(p))
    if p.kind == "hexv":
        n = 1
        while bool(p.vals[0] >= 16**n):
            n += 1
        return n
    if p.kind == "hash":
        return 64
    raise Inconclusive("length of opaque text")


def tok_chars(p):
    if p.kind == "dec":
        return dec_chars(p)
    if p.kind == "hexv":
        x = p.vals[0]
        n = tok_len(p)
        return [Hx(z3.Extract(4 * i + 3, 4 * i, x.t), p.key) for i in range(n - 1, -1, -1)]
    if p.kind == "case":
        out = []
        for c in p.vals[0].chars():
            code = c.code()
            if bool(code >= 128):
                raise Inconclusive("case of non-ASCII")
            if p.key:
                code = ite(b_and(code >= 97, code <= 122), code - 32, code)
            else:
                code = ite(b_and(code >= 65, code <= 90), code + 32, code)
            out.append(Ch(code))
        return out
    if p.kind == "replace":
        return replaced(p.vals[0].chars(), *p.key)
    raise Inconclusive("characters of opaque text (%s)" % p.kind)


_RUNS = {}


def in_runs(code, method):
    """Whether a code point has a property of characters."""
    runs = _RUNS.get(method)
    if runs is None:
        runs, start = [], None
        for i in range(0x110001):
            on = i < 0x110000 and getattr(chr(i), method)()
            if on and start is None:
                start = i
            elif not on and start is not None:
                runs.append((start, i - 1))
                start = None
        _RUNS[method] = runs
    x = as_int(code)
    top = x.hi if isinstance(x, SymInt) else x
    return b_or(*[b_and(x >= lo, x <= hi) for lo, hi in runs if lo <= top])


def is_space(c):
    return c.isspace() if isinstance(c, str) else in_runs(c.code(), "isspace")


def replaced(cs, a, b):
    """The characters after all occurrences of a were replaced by b."""
    if not a:
        raise Inconclusive("replacement of nothing")
    if len(a) == 1 and len(b) == 1:
        out = []
        for c in cs:
            if isinstance(c, Ch):
                code = as_int(c.code())
                c = Ch(ite(code == ord(a), ord(b), code))
            elif bool(char_eq(c, a)):
                c = b
            out.append(c)
        return out
    out, i, pat = [], 0, list(a)
    while i < len(cs):
        if i + len(pat) <= len(cs) and bool(chars_eq(cs[i : i + len(pat)], pat)):
            out.extend(b)
            i += len(pat)
        else:
            out.append(cs[i])
            i += 1
    return out


# -- codecs
_TABLES = {}


def single_byte_table(codec):
    """list of 256 code points (None = undefined), or None"""
    if codec in _TABLES:
        return _TABLES[codec]
    tab = None
    name = codec.replace("-", "_")
    if codec == "ascii":
        tab = [i if i < 128 else None for i in range(256)]
    elif codec in ("iso8859-1", "latin-1"):
        tab = list(range(256))
    else:
        try:
            m = importlib.import_module("encodings." + name)
        except ImportError:
            m = None
        if m is not None and (hasattr(m, "decoding_table") or hasattr(m, "decoding_map")):
            tab = []
            for i in range(256):
                try:
                    s = bytes([i]).decode(codec)
                    tab.append(ord(s) if len(s) == 1 else None)
                except UnicodeDecodeError:
                    tab.append(None)
    _TABLES[codec] = tab
    return tab


def valid_formula(codec, ts):
    """Do the bytes decode without error? (concrete number of bytes)"""
    n = len(ts)
    if n == 0:
        return z3.BoolVal(True)
    tab = single_byte_table(codec)
    if tab is not None:
        bad = [i for i in range(256) if tab[i] is None]
        if not bad:
            return z3.BoolVal(True)
        cs = []
        if bad == list(range(128, 256)):
            cs = [z3.ULT(b8(t), 128) for t in ts if not isinstance(t, int) or t >= 128]
        else:
            for t in ts:
                if isinstance(t, int):
                    if t in bad:
                        return z3.BoolVal(False)
                    continue
                for b in bad:
                    cs.append(b8(t) != b8(b))
        return z3.And(cs)
    if codec == "utf-8":
        return _utf8_valid(ts)
    if codec in ("utf-16-le",):
        if n % 2:
            return z3.BoolVal(False)
        hi = [b8(ts[i + 1]) for i in range(0, n, 2)]
        m = len(hi)
        v = [None] * (m + 2)
        v[m] = z3.BoolVal(True)
        v[m + 1] = z3.BoolVal(False)
        for i in range(m - 1, -1, -1):
            if isinstance(ts[2 * i + 1], int) and not 0xD8 <= ts[2 * i + 1] < 0xE0:
                v[i] = v[i + 1]
                continue
            high = (hi[i] & 0xFC) == 0xD8
            low = (hi[i] & 0xFC) == 0xDC
            nxt = z3.And((hi[i + 1] & 0xFC) == 0xDC, v[i + 2]) if i + 1 < m else z3.BoolVal(False)
            v[i] = z3.If(high, nxt, z3.And(z3.Not(low), v[i + 1]))
        return v[0]
    f = z3.Function("valid_%s_%d" % (codec, n), *([z3.BitVecSort(8)] * n), z3.BoolSort())
    return z3.Or(z3.And([z3.ULT(b8(t), 128) for t in ts]), f(*[b8(t) for t in ts]))


def _utf8_valid(ts):
    bs = [b8(t) for t in ts]
    n = len(bs)
    F = z3.BoolVal(False)
    v = [F] * (n + 5)
    v[n] = z3.BoolVal(True)

    def rngc(b, lo, hi):
        return z3.And(z3.UGE(b, lo), z3.ULE(b, hi))

    for i in range(n - 1, -1, -1):
        b = bs[i]
        if isinstance(ts[i], int) and ts[i] < 0x80:
            v[i] = v[i + 1]
            continue
        alts = [z3.And(z3.ULT(b, 0x80), v[i + 1])]
        if i + 1 < n:
            c = bs[i + 1]
            alts.append(z3.And(rngc(b, 0xC2, 0xDF), rngc(c, 0x80, 0xBF), v[i + 2]))
            if i + 2 < n:
                d = bs[i + 2]
                first = z3.Or(
                    z3.And(b == 0xE0, rngc(c, 0xA0, 0xBF)),
                    z3.And(b == 0xED, rngc(c, 0x80, 0x9F)),
                    z3.And(rngc(b, 0xE1, 0xEF), b != 0xED, rngc(c, 0x80, 0xBF)),
                )
                alts.append(z3.And(first, rngc(d, 0x80, 0xBF), v[i + 3]))
                if i + 3 < n:
                    e = bs[i + 3]
                    first = z3.Or(
                        z3.And(b == 0xF0, rngc(c, 0x90, 0xBF)),
                        z3.And(b == 0xF4, rngc(c, 0x80, 0x8F)),
                        z3.And(rngc(b, 0xF1, 0xF3), rngc(c, 0x80, 0xBF)),
                    )
                    alts.append(z3.And(first, rngc(d, 0x80, 0xBF), rngc(e, 0x80, 0xBF), v[i + 4]))
        v[i] = z3.Or(alts)
    return v[0]


def decode_bytes(b, encoding="utf-8", errors="strict"):
    if isinstance(b, (bytes, bytearray)):
        return bytes(b).decode(encoding, errors)
    codec = codecs.lookup(encoding).name
    if errors not in ("strict", "replace", "ignore", "backslashreplace"):
        raise Inconclusive("decode errors mode")
    ts = b.terms()
    if not ts:
        return ""
    if all(isinstance(t, int) for t in ts):
        return bytes(ts).decode(encoding, errors)
    if codec in ("utf-16", "utf-8-sig"):
        # a byte order mark decides and is dropped
        mark = {"utf-16": (b"\xff\xfe", b"\xfe\xff"), "utf-8-sig": (b"\xef\xbb\xbf",)}[codec]
        real = {"utf-16": ("utf-16-le", "utf-16-be"), "utf-8-sig": ("utf-8",)}[codec]
        for m, c in zip(mark, real):
            if len(ts) >= len(m) and eng().branch(z3.And([b8(t) == b8(x) for t, x in zip(ts, m)])):
                return decode_bytes(SymBytes(None, 0, len(ts) - len(m), ts[len(m):]), c, errors)
        codec = real[0]
    if codec == "utf-16-be":
        if len(ts) % 2:
            raise Inconclusive("odd big-endian text")
        ts = [ts[i ^ 1] for i in range(len(ts))]
        codec = "utf-16-le"
    bb = SymBytes(None, 0, len(ts), ts)
    if eng().branch(valid_formula(codec, ts)):
        return SymStr([Tok("dec", (codec, "strict"), (bb,))])
    if errors == "strict":
        raise UnicodeDecodeError(codec, b"\0", 0, 1, "model")
    return SymStr([Tok("dec", (codec, errors), (bb,))])


def dec_chars(p):
    codec, errors = p.key
    ts = p.vals[0].terms() if isinstance(p.vals[0], SymBytes) else list(p.vals[0])
    tab = single_byte_table(codec)
    if tab is not None:
        if errors not in ("strict", "replace"):
            raise Inconclusive("characters of %s text" % errors)
        out = []
        runs = None
        for t in ts:
            if isinstance(t, int):
                out.append(chr(tab[t] if tab[t] is not None else 0xFFFD))
                continue
            if runs is None:
                runs = [(i, tab[i] if tab[i] is not None else 0xFFFD) for i in range(256) if tab[i] != i]
            code = z3.ZeroExt(W - 8, t)
            for i, c in runs:
                code = z3.If(t == i, val(c), code)
            out.append(Ch(SymInt(code, 0, 0x10FFFF if runs else 255)))
        return out
    if codec == "utf-16-le" and errors == "replace":
        out, i = [], 0
        while i < len(ts):
            if i + 1 == len(ts):
                out.append("\ufffd")
                break
            u = int_from_terms([ts[i], ts[i + 1]])
            if bool(b_and(u >= 0xDC00, u < 0xE000)):
                out.append("\ufffd")
            elif bool(b_and(u >= 0xD800, u < 0xDC00)):
                if i + 3 < len(ts):
                    w = int_from_terms([ts[i + 2], ts[i + 3]])
                    if bool(b_and(w >= 0xDC00, w < 0xE000)):
                        out.append(Ch(mk_int(iterm(((u & 0x3FF) << 10) + (w & 0x3FF) + 0x10000), 0x10000, 0x10FFFF)))
                        i += 4
                        continue
                    out.append("\ufffd")
                else:
                    out.append("\ufffd")
                    break
            else:
                out.append(Ch(u) if isinstance(u, SymInt) else chr(u))
            i += 2
        return out
    if errors != "strict":
        raise Inconclusive("characters of replaced text")
    if codec == "utf-16-le":
        out, i = [], 0
        while i < len(ts):
            lo, hi = b8(ts[i]), b8(ts[i + 1])
            if eng().branch((hi & 0xFC) == 0xD8):
                l2, h2 = b8(ts[i + 2]), b8(ts[i + 3])
                u1 = int_from_terms([lo, hi])
                u2 = int_from_terms([l2, h2])
                out.append(Ch(mk_int(iterm(((u1 & 0x3FF) << 10) + (u2 & 0x3FF) + 0x10000), 0x10000, 0x10FFFF)))
                i += 4
                continue
            u = int_from_terms([ts[i], ts[i + 1]])
            out.append(Ch(u) if isinstance(u, SymInt) else chr(u))
            i += 2
        return out
    if codec == "utf-8":
        out, i = [], 0
        while i < len(ts):
            b = b8(ts[i])
            for n, lim in ((1, 0x80), (2, 0xE0), (3, 0xF0), (4, 256)):
                if n == 4 or eng().branch(z3.ULT(b, lim)):
                    break
            bs = [byte_int(t) for t in ts[i : i + n]]
            if n == 1:
                c = bs[0]
            elif n == 2:
                c = ((bs[0] & 0x1F) << 6) | (bs[1] & 0x3F)
            elif n == 3:
                c = ((bs[0] & 0x0F) << 12) | ((bs[1] & 0x3F) << 6) | (bs[2] & 0x3F)
            else:
                c = ((bs[0] & 7) << 18) | ((bs[1] & 0x3F) << 12) | ((bs[2] & 0x3F) << 6) | (bs[3] & 0x3F)
            out.append(Ch(c) if isinstance(c, SymInt) else chr(c))
            i += n
        return out
    raise Inconclusive("characters of %s text" % codec)


# -- formatting
def hex_fixed(x, width, upper):
    return [Hx(z3.Extract(4 * i + 3, 4 * i, x.t), upper) for i in range(width - 1, -1, -1)]


def fmt_int(x, spec):
    """format(SymInt, spec) for the usual integer presentation types"""
    if not isinstance(x, SymInt):
        return format(x, spec)
    import re

    m = re.fullmatch(r"([<>=^+\- ]*)(#?)(0?)(\d*)([,_]?)([a-zA-Z]?)", spec)
    if not m or m.group(1) or m.group(5):
        raise Inconclusive("format spec %r" % spec)
    alt, zero, width, typ = m.group(2), m.group(3), int(m.group(4) or 0), m.group(6) or "d"
    if typ in "xX":
        up = typ == "X"
        if x.lo < 0:
            if bool(x < 0):
                return mk_str(["-", SymStr.lift(fmt_int(-x, spec))]) if not width else _inc("negative hex")
            x = mk_int(x.t, 0, x.hi)
        pre = ("0X" if up else "0x") if alt else ""
        w = width - len(pre)
        if width and zero and w > 0:
            if 4 * w >= W or x.hi < 16**w or bool(x < 16**w):
                return mk_str([pre] + hex_fixed(x, min(w, W // 4), up))
            return mk_str([pre, Tok("hexv", up, (x,))])
        if width:
            _inc("space padded hex")
        return mk_str([pre, Tok("hexv", up, (x,))])
    if typ == "d":
        if width:
            if zero and x.lo >= 0 and width <= 6:
                # zero padded decimal: enumerate digits
                if bool(x < 10**width):
                    ds = []
                    for i in range(width - 1, -1, -1):
                        ds.append(Ch((x // 10**i) % 10 + 48))
                    return mk_str(ds)
            _inc("padded decimal")
        return SymStr([Tok("int", None, (x,))])
    if typ == "c":
        return mk_str([Ch(x)])
    raise Inconclusive("format spec %r" % spec)


def _inc(why):
    raise Inconclusive(why)


def to_text(x):
    """str(x)"""
    if isinstance(x, (SymStr, str)):
        return x
    if isinstance(x, SymInt):
        return SymStr([Tok("int", None, (x,))])
    if isinstance(x, SymBool):
        return "True" if bool(x) else "False"
    if isinstance(x, SymDatetime):
        return SymStr([Tok("dtstr", None, (x,))])
    if has_sym(x):
        return SymStr([Tok("repr", None, (_Opaque(x),))])
    return builtins.str(x)


class _Opaque:
    def __init__(self, x):
        self.x = x


def format_value(x, spec, conv=-1):
    if conv == 114 or conv == 97:
        if has_sym(x):
            return SymStr([Tok("repr", None, (_Opaque(x),))])
        return format(repr(x) if conv == 114 else ascii(x), spec)
    if conv == 115:
        x = to_text(x)
    if isinstance(spec, SymStr):
        _inc("symbolic format spec")
    if isinstance(x, SymBool) and spec:
        x = as_int(x)
    if isinstance(x, SymInt):
        return fmt_int(x, spec) if spec else to_text(x)
    if isinstance(x, (SymStr, SymBool, SymDatetime, SymBytes)):
        if spec in ("", "s"):
            return to_text(x)
        _inc("format spec on text")
    if has_sym(x):
        return to_text(x)
    return format(x, spec)


def sym_percent(fmt, args):
    """'%' formatting with symbolic arguments"""
    if isinstance(fmt, SymStr):
        _inc("symbolic format string")
    import re

    mapping = args if isinstance(args, dict) else None
    seq = list(args) if isinstance(args, tuple) else [args]
    out, pos, n = [], 0, 0
    for m in re.finditer(r"%(?:\((\w+)\))?([-#0 +]*)(\d+|\*)?(?:\.(\d+))?[hlL]?([%a-zA-Z])", fmt):
        out.append(fmt[pos : m.start()])
        pos = m.end()
        name, flags, width, prec, typ = m.groups()
        if typ == "%":
            out.append("%")
            continue
        if mapping is not None:
            v = mapping[name]
        else:
            if n >= len(seq):
                raise TypeError("not enough arguments for format string")
            v = seq[n]
            n += 1
        if not has_sym(v):
            out.append(("%" + flags + (width or "") + ("." + prec if prec else "") + typ) % (v,))
            continue
        if typ in "diuxX" and isinstance(v, (SymInt, SymBool)):
            spec = ("#" if "#" in flags else "") + ("0" if "0" in flags else "") + (width or "")
            out.append(fmt_int(as_int(v), spec + ("d" if typ in "diu" else typ)))
        elif typ in "sr" and not width:
            out.append(to_text(v) if typ == "s" else SymStr([Tok("repr", None, (_Opaque(v),))]))
        elif typ == "c" and isinstance(v, SymInt):
            out.append(mk_str([Ch(v)]))
        elif typ in "dixX":
            raise TypeError("%%%s format: a number is required" % typ)
        else:
            _inc("%% format %r" % m.group(0))
    out.append(fmt[pos:])
    if mapping is None and isinstance(args, tuple) and n < len(seq):
        raise TypeError("not all arguments converted during string formatting")
    return mk_str(out)


def sym_str_format(fmt, a, k):
    import string

    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field.isidentifier():
            v = k[field]
        else:
            _inc("format field %r" % field)
        if "{" in (spec or ""):
            _inc("nested format spec")
        out.append(format_value(v, spec or "", ord(conv) if conv else -1))
    return mk_str(out)


# ---------------------------------------------------------------- datetime
MIN_US = -62135596800 * 1000000
MAX_US = 253402300800 * 1000000 - 1
_EPOCH = _dt.datetime(1970, 1, 1, tzinfo=_dt.timezone.utc)


class SymDatetime:
    """Either calendar fields (y, mo, d, h, mi, s, us) or microseconds since
    1970 (us form); always with its tzinfo."""

    def __init__(self, fields=None, us=None, tz=None):
        self.fields = fields
        self.us = us
        self.tzinfo = tz

    def replace(self, **kw):
        if self.fields is not None:
            names = ("year", "month", "day", "hour", "minute", "second", "microsecond")
            f = list(self.fields)
            tz = kw.pop("tzinfo", self.tzinfo)
            for k, v in kw.items():
                f[names.index(k)] = v
            return mk_datetime(*f, tzinfo=tz)
        tz = kw.pop("tzinfo", self.tzinfo)
        if kw == {"microsecond": 0}:
            r = self.us % 1000000
            return SymDatetime(us=self.us - r, tz=tz)
        if kw:
            _inc("datetime.replace")
        return SymDatetime(us=self.us, tz=tz)

    def isoformat(self, *a, **k):
        if k.get("timespec") == "seconds" or a[1:] == ("seconds",):
            k = {n: v for n, v in k.items() if n != "timespec"}
            return self.replace(microsecond=0).isoformat(*a[:1], **k)
        if k.get("timespec") == "auto":
            k = {n: v for n, v in k.items() if n != "timespec"}
        if a[:1] == ("T",) and len(a) == 1:
            a = ()
        if k.get("sep") == "T":
            k = {n: v for n, v in k.items() if n != "sep"}
        return SymStr([Tok("iso", (a, tuple(sorted(k.items()))), (self,))])

    def strftime(self, f):
        return SymStr([Tok("strftime", f, (self,))])

    def timestamp(self):
        _inc("timestamp")

    def astimezone(self, tz=None):
        if tz == self.tzinfo:
            return self
        _inc("astimezone")

    def __add__(self, o):
        if isinstance(o, (SymTimedelta, _dt.timedelta)):
            if self.us is None:
                _inc("datetime arithmetic")
            return from_micros(self.us + delta_us(o), self.tzinfo)
        return NotImplemented

    __radd__ = __add__

    def __getattr__(self, name):
        names = ("year", "month", "day", "hour", "minute", "second", "microsecond")
        if name in names:
            if self.fields is None:
                if name == "microsecond":
                    return self.us % 1000000
                if name == "second":
                    return self.us // 1000000 % 60
                if name == "minute":
                    return self.us // 60000000 % 60
                if name == "hour":
                    return self.us // 3600000000 % 24
                _inc("datetime field")
            return self.fields[names.index(name)]
        raise AttributeError(name)

    def __eq__(self, o):
        if isinstance(o, _dt.datetime):
            o = lift_dt(o, self)
        if not isinstance(o, SymDatetime):
            return False
        if (self.tzinfo is None) != (o.tzinfo is None):
            return False
        if self.fields is not None and o.fields is not None:
            if self.tzinfo != o.tzinfo:
                _inc("time zones")
            return b_and(*[as_int(a) == b for a, b in zip(self.fields, o.fields)])
        if self.us is not None and o.us is not None:
            return as_int(self.us) == o.us
        a = self if self.us is not None else o
        b = o if self.us is not None else self
        return as_int(a.us) == fields_us(b.fields)

    def __ne__(self, o):
        return sym_not(self == o)

    __hash__ = None


def lift_dt(d, like):
    if like.fields is not None:
        return SymDatetime(
            fields=(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond), tz=d.tzinfo
        )
    return SymDatetime(us=(d - _EPOCH) // _dt.timedelta(microseconds=1), tz=d.tzinfo)


def fields_us(f):
    y, m, d, h, mi, s, us = f
    if any(isinstance(x, SymInt) for x in (y, m)):
        y = as_int(y)
        m = as_int(m)
        # days from civil (Hinnant)
        adj = ite(as_int(m) <= 2, 1, 0)
        y2 = y - adj
        era = y2 // 400
        yoe = y2 - era * 400
        mp = ite(as_int(m) > 2, m - 3, m + 9)
        doy = (153 * mp + 2) // 5 + d - 1
        doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
        days = era * 146097 + doe - 719468
    else:
        days = _dt.date(y, m, 1).toordinal() - 719163 + (d - 1)
    return ((days * 24 + h) * 60 + mi) * 60000000 + s * 1000000 + us


class SymTimedelta:
    def __init__(self, us):
        self.us = us

    def __add__(self, o):
        if isinstance(o, (SymTimedelta, _dt.timedelta)):
            return SymTimedelta(self.us + delta_us(o))
        if isinstance(o, _dt.datetime):
            return dt_plus(o, self)
        return NotImplemented

    __radd__ = __add__


def delta_us(d):
    if isinstance(d, SymTimedelta):
        return d.us
    return d // _dt.timedelta(microseconds=1)


def dt_plus(d, delta):
    if d.tzinfo is None:
        base = _EPOCH.replace(tzinfo=None)
    else:
        base = _EPOCH
    return from_micros((d - base) // _dt.timedelta(microseconds=1) + delta_us(delta), d.tzinfo, OverflowError)


def from_micros(us, tz, exc=OverflowError):
    if not isinstance(us, SymInt):
        return (_EPOCH + _dt.timedelta(microseconds=us)).replace(tzinfo=tz)
    if not eng().branch(z3.And(us.t >= val(MIN_US), us.t <= val(MAX_US))):
        raise exc("date value out of range")
    return SymDatetime(us=mk_int(us.t, max(us.lo, MIN_US), min(us.hi, MAX_US)), tz=tz)


def days_in_month(y, m):
    leap = b_and((as_int(y) % 4) == 0, b_or(sym_not((as_int(y) % 100) == 0), (as_int(y) % 400) == 0))
    d = 31
    for mm in (4, 6, 9, 11):
        d = ite(as_int(m) == mm, 30, d)
    return ite(as_int(m) == 2, ite(leap, 29, 28), d)


def mk_datetime(year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, fold=0):
    f = (year, month, day, hour, minute, second, microsecond)
    if not any(isinstance(x, (SymInt, SymBool)) for x in f):
        return _dt.datetime(*f, tzinfo=tzinfo)
    f = tuple(as_int(x) for x in f)
    y, m, d, h, mi, s, us = f
    ok = b_and(y >= 1, y <= 9999) if isinstance(y, SymInt) else 1 <= y <= 9999
    if not bool(ok):
        raise ValueError("year is out of range")
    if not bool(b_and(as_int(m) >= 1, as_int(m) <= 12)):
        raise ValueError("month must be in 1..12")
    if not bool(b_and(as_int(d) >= 1, as_int(d) <= days_in_month(y, m))):
        raise ValueError("day is out of range for month")
    if not bool(
        b_and(
            as_int(h) >= 0, as_int(h) < 24, as_int(mi) >= 0, as_int(mi) < 60,
            as_int(s) >= 0, as_int(s) < 60, as_int(us) >= 0, as_int(us) < 1000000,
        )
    ):
        raise ValueError("hour, minute, second or microsecond out of range")
    return SymDatetime(fields=f, tz=tzinfo)


# ---------------------------------------------------------------- lists
class Guarded:
    """List element present only under a condition."""

    __slots__ = ("g", "v")

    def __init__(self, g, v):
        self.g = g
        self.v = v


class SxList(list):
    """A list with conditional elements (no fork until it matters)."""

    def raw(self):
        return list.__iter__(self)

    def __iter__(self):
        for x in list.__iter__(self):
            if isinstance(x, Guarded):
                if eng().branch(x.g):
                    yield x.v
            else:
                yield x

    def resolve(self):
        return list(iter(self))

    def __len__(self):
        if not any(isinstance(x, Guarded) for x in self.raw()):
            return list.__len__(self)
        return len(self.resolve())

    def __bool__(self):
        for x in self.raw():
            if not isinstance(x, Guarded):
                return True
        return bool(b_or(*[mk_bool(x.g) for x in self.raw()]))

    def __contains__(self, y):
        return bool(mk_bool(bterm(self.sx_contains(y))))

    def sx_contains(self, y):
        alts = []
        for x in self.raw():
            if isinstance(x, Guarded):
                alts.append(b_and(mk_bool(x.g), mk_bool(bterm(sx_eq(x.v, y)))))
            else:
                r = sx_eq(x, y)
                alts.append(r)
        return b_or(*alts)

    def __getitem__(self, i):
        r = self.resolve()[i]
        return r

    def __eq__(self, o):
        return self.resolve() == (o.resolve() if isinstance(o, SxList) else o)

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        return SxList(list(self.raw()) + list(o.raw() if isinstance(o, SxList) else o))

    def copy(self):
        return SxList(list(self.raw()))

    def _force(self):
        if any(isinstance(x, Guarded) for x in self.raw()):
            r = self.resolve()
            list.clear(self)
            list.extend(self, r)

    def extend(self, it):
        list.extend(self, list(it.raw()) if isinstance(it, SxList) else it)

    def __iadd__(self, it):
        self.extend(it)
        return self

    __hash__ = None


def _forcing(name):
    f = getattr(list, name)

    def g(self, *a, **k):
        self._force()
        return f(self, *a, **k)

    return g


for _n in ("pop", "insert", "remove", "sort", "reverse", "index", "count", "__delitem__", "__setitem__",
           "__reversed__", "__mul__", "__rmul__"):
    setattr(SxList, _n, _forcing(_n))


SYM = (SymInt, SymBool, SymBytes, SymStr, SymFloat, SymDatetime, SymTimedelta, Guarded, _Opaque)


def has_sym(x, depth=4):
    if isinstance(x, SYM):
        return True
    if isinstance(x, SxList):
        return any(has_sym(y, depth - 1) for y in x.raw())
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(has_sym(y, depth - 1) for y in x.values()) or any(isinstance(y, SYM) for y in x)
    return False
