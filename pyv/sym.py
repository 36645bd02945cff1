"""Symbolic values.

SInt   mathematical integer.  Either a bit-vector term, sign-interpreted, whose width is widened by every operation so
       that no operation can wrap ("bv" mode), or an SMT integer term ("int" mode, used for unbounded proofs).
       Every SInt carries an interval [lo, hi] (None = unbounded) that is a sound over-approximation.
SBool  SMT boolean; its truth value forks the path.
SBytes sequence of byte items (int or SInt in 0..255), concrete length.
SStr   sequence of code points, concrete length.
SFloat an IEEE-754 number known by its encoding (width in bytes, bit pattern).

Each carries `pytype`, the Python class the real value would have (uint8, an Enum, a Pointer...), and `attrs`, the
instance attributes the real value would have.
"""
from __future__ import annotations

import z3

# engine control flow is BaseException so that no modelled `except Exception` swallows it


class Unsupported(BaseException):
    """The construct is outside the verifier's reach: the path is undecided (never a violation, never proved)."""


class Abort(BaseException):
    """Path abandoned (infeasible assumption)."""


EX = None  # current explorer (set by explore.Explorer)


def set_explorer(ex):
    global EX
    EX = ex


def need(lo, hi):
    """Signed width for [lo, hi]."""
    return max(lo.bit_length() if lo >= 0 else (~lo).bit_length(), hi.bit_length() if hi >= 0 else (~hi).bit_length()) + 1


class Sym:
    __slots__ = ()

    def _no(self, *a, **k):
        raise Unsupported(f"native operation on {type(self).__name__}")

    __hash__ = _no
    __index__ = _no
    __int__ = _no
    __float__ = _no
    __iter__ = _no
    # an operation no subclass models is outside the proof, not an error of the code
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __floordiv__ = __rfloordiv__ = __truediv__ = __rtruediv__ = __mod__ = __rmod__ = _no
    __pow__ = __rpow__ = __and__ = __rand__ = __or__ = __ror__ = __xor__ = __rxor__ = __lshift__ = __rlshift__ = __rshift__ = __rrshift__ = _no
    __divmod__ = __rdivmod__ = __neg__ = __invert__ = __pos__ = __abs__ = __len__ = __bool__ = __getitem__ = __setitem__ = __delitem__ = __contains__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __reversed__ = _no

    def __getattr__(self, n):
        # what the real value would have is not missing, just not modelled
        if not n.startswith("__") and hasattr(object.__getattribute__(self, "__class__"), n): raise Unsupported(f"{n} of {type(self).__name__}")
        raise AttributeError(f"{type(self).__name__} has no attribute {n}")

    def __reduce_ex__(self, p):
        raise Unsupported("copy/pickle of symbolic value")


def as_sint(x):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return mk(z3.If(x.t, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)
    if type(x) is bool:
        x = int(x)
    if isinstance(x, int):
        return SInt(z3.BitVecVal(int(x), need(int(x), int(x))), int(x), int(x))
    return None


def mk(t, lo, hi, pytype=int):
    """bv SInt, trimmed to the interval's width; concrete if it is a constant."""
    if lo == hi:
        return lo
    if z3.is_bv_value(t):
        return t.as_signed_long()
    w, n = t.size(), need(lo, hi)
    if n < w:
        t = z3.Extract(n - 1, 0, t)
    return SInt(t, lo, hi, pytype)


def ext(t, w):
    d = w - t.size()
    return z3.SignExt(d, t) if d > 0 else t


class SInt(Sym):
    __slots__ = ("t", "lo", "hi", "pytype", "attrs")

    def __init__(self, t, lo, hi, pytype=int, attrs=None):
        self.t, self.lo, self.hi, self.pytype, self.attrs = t, lo, hi, pytype, attrs

    @property
    def __class__(self):
        return self.pytype

    @property
    def isint(self):
        return self.t.sort_kind() == z3.Z3_INT_SORT if hasattr(self.t, "sort_kind") else z3.is_int(self.t)

    def with_type(self, cls, attrs=None):
        return SInt(self.t, self.lo, self.hi, cls, attrs)

    def __repr__(self):
        return f"SInt({self.t}, {self.lo}..{self.hi}, {self.pytype.__name__})"

    __str__ = __repr__

    def __format__(self, spec):
        return "\x00sym\x00"

    # ---- arithmetic
    def _pair(self, o):
        o = as_sint(o)
        if o is None:
            return None
        if z3.is_int(self.t) or z3.is_int(o.t):
            return "int", to_int(self), to_int(o)
        return "bv", self, o

    def _arith(self, o, f, iv):
        p = self._pair(o)
        if p is None:
            return NotImplemented
        k, a, b = p
        if k == "int":
            return mki(f(a.t, b.t), *iv_int(iv, a, b))
        lo, hi = iv(a, b)
        w = max(need(lo, hi), a.t.size(), b.t.size())
        return mk(f(ext(a.t, w), ext(b.t, w)), lo, hi)

    def __add__(self, o):
        if type(o) is int and o == 0: return self._plain()
        return self._arith(o, lambda x, y: x + y, lambda a, b: (a.lo + b.lo, a.hi + b.hi))

    def __radd__(self, o): return self.__add__(o)

    def __sub__(self, o):
        if type(o) is int and o == 0: return self._plain()
        return self._arith(o, lambda x, y: x - y, lambda a, b: (a.lo - b.hi, a.hi - b.lo))

    def __rsub__(self, o):
        o = as_sint(o)
        return NotImplemented if o is None else o.__sub__(self)

    def __mul__(self, o):
        if type(o) is bytes and len(o):
            if bool(self <= 0): return b""
            return SRepeat(o, self._plain())
        if isinstance(o, (SBytes, bytes, str, list, tuple)):
            return NotImplemented
        if type(o) is int:
            if o == 0: return 0
            if o == 1: return self._plain()
        def iv(a, b):
            c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
            return min(c), max(c)
        return self._arith(o, lambda x, y: x * y, iv)

    def __rmul__(self, o): return self.__mul__(o)

    def __neg__(self): return 0 - self if not z3.is_int(self.t) else mki(-self.t, None if self.hi is None else -self.hi, None if self.lo is None else -self.lo)

    def __pos__(self): return self._plain()

    def __abs__(self): return -self if (self < 0) else self._plain()

    def __invert__(self): return -self - 1

    def _plain(self): return self if self.pytype is int else SInt(self.t, self.lo, self.hi)

    def _bit(self, o, f, iv, rev=False):
        o2 = as_sint(o)
        if o2 is None:
            return NotImplemented
        a, b = self, o2
        if z3.is_int(a.t) or z3.is_int(b.t):
            raise Unsupported("bitwise on unbounded integers")
        w = max(a.t.size(), b.t.size())
        lo, hi = iv(a, b, w)
        return mk(f(ext(a.t, w), ext(b.t, w)), lo, hi)

    def __and__(self, o):
        if type(o) is int and o == -1: return self._plain()
        if type(o) is int and z3.is_int(self.t):
            if o >= 0 and (o & (o + 1)) == 0:  # x & (2^k - 1)
                return mki(self.t % (o + 1), 0, o)
            if o > 0 and (o & (o - 1)) == 0:  # x & 2^k
                return mki(((self.t / o) % 2) * o, 0, o)
            raise Unsupported("& on unbounded integer")
        if type(o) is int and o >= 0 and self.lo >= 0 and (o & (o + 1)) == 0 and o >= self.hi:
            return self._plain()
        def iv(a, b, w):
            if a.lo >= 0 and b.lo >= 0: return 0, min(a.hi, b.hi)
            if b.lo >= 0: return 0, b.hi
            if a.lo >= 0: return 0, a.hi
            return -(1 << (w - 1)), max(a.hi, b.hi, 0)
        return self._bit(o, lambda x, y: x & y, iv)

    def __rand__(self, o): return self.__and__(o)

    def __or__(self, o):
        if type(o) is int and o == 0: return self._plain()
        if z3.is_int(self.t) or (isinstance(o, SInt) and z3.is_int(o.t)):
            return int_or(self, o)
        def iv(a, b, w):
            if a.lo >= 0 and b.lo >= 0:
                return max(a.lo, b.lo), (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1
            return -(1 << (w - 1)), (1 << (w - 1)) - 1
        return self._bit(o, lambda x, y: x | y, iv)

    def __ror__(self, o): return self.__or__(o)

    def __xor__(self, o):
        if type(o) is int and o == 0: return self._plain()
        def iv(a, b, w):
            if a.lo >= 0 and b.lo >= 0:
                return 0, (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1
            return -(1 << (w - 1)), (1 << (w - 1)) - 1
        return self._bit(o, lambda x, y: x ^ y, iv)

    def __rxor__(self, o): return self.__xor__(o)

    def __lshift__(self, o):
        if isinstance(o, SInt):
            if z3.is_int(o.t) or z3.is_int(self.t):
                return int_shl(self, o)
            if bool(o < 0): raise ValueError("negative shift count")
            if o.hi > 512: raise Unsupported("shift count")
            return self._shl_sym(o)
        if not isinstance(o, int):
            return NotImplemented
        o = int(o)
        if o < 0: raise ValueError("negative shift count")
        if o == 0: return self._plain()
        if z3.is_int(self.t):
            return mki(self.t * (1 << o), *[None if x is None else x << o for x in (self.lo, self.hi)])
        w = self.t.size() + o
        return mk(ext(self.t, w) << o, self.lo << o, self.hi << o)

    def _shl_sym(self, o):
        olo = max(o.lo, 0)
        c = [self.lo << olo, self.lo << o.hi, self.hi << olo, self.hi << o.hi]
        lo, hi = min(c), max(c)
        w = max(need(lo, hi), self.t.size() + o.hi, o.t.size())
        return mk(ext(self.t, w) << ext(o.t, w), lo, hi)

    def __rlshift__(self, o):
        if not isinstance(o, int): return NotImplemented
        if z3.is_int(self.t):
            return int_shl(o, self)
        return as_sint(o).__lshift__(self)

    def __rshift__(self, o):
        if isinstance(o, SInt):
            if z3.is_int(o.t) or z3.is_int(self.t): raise Unsupported("shift of an unbounded integer")
            if bool(o < 0): raise ValueError("negative shift count")
            olo = max(o.lo, 0)
            c = [self.lo >> olo, self.lo >> o.hi, self.hi >> olo, self.hi >> o.hi]
            w = max(self.t.size(), o.t.size())
            return mk(ext(self.t, w) >> ext(o.t, w), min(c), max(c))
        if not isinstance(o, int):
            return NotImplemented
        o = int(o)
        if o < 0: raise ValueError("negative shift count")
        if o == 0: return self._plain()
        if z3.is_int(self.t):
            return mki(self.t / (1 << o), *[None if x is None else x >> o for x in (self.lo, self.hi)])
        w = self.t.size()
        lo, hi = self.lo >> o, self.hi >> o
        if o >= w:
            return mk(self.t >> (w - 1), lo, hi)
        return mk(z3.Extract(w - 1, o, self.t), lo, hi)

    def __rrshift__(self, o):
        if not isinstance(o, int): return NotImplemented
        return as_sint(o).__rshift__(self)

    def _divmod(self, o):
        if isinstance(o, SInt):
            if (o == 0): raise ZeroDivisionError("integer division or modulo by zero")
            if z3.is_int(o.t) or z3.is_int(self.t): return floor_div(to_int(self), to_int(o))
            if o.hi - o.lo <= 64:
                o = EX.concretize(o)
            else:
                raise Unsupported("symbolic divisor")
        o = int(o)
        if o == 0: raise ZeroDivisionError("integer division or modulo by zero")
        if z3.is_int(self.t):
            if o < 0: raise Unsupported("negative divisor")
            return mki(self.t / o, *[None if x is None else x // o for x in (self.lo, self.hi)]), mki(self.t % o, 0, o - 1)
        if o < 0:
            q, r = (-self)._divmod(-o) if isinstance(-self, SInt) else divmod(-self, -o)
            return q, -r
        if o & (o - 1) == 0:
            return self >> (o.bit_length() - 1), self & (o - 1)
        w = max(self.t.size(), o.bit_length() + 1)
        x, d = ext(self.t, w), z3.BitVecVal(o, w)
        if self.lo >= 0:
            return mk(z3.UDiv(x, d), self.lo // o, self.hi // o), mk(z3.URem(x, d), 0, min(self.hi, o - 1))
        r = z3.SRem(x, d)
        r = z3.If(r < 0, r + d, r)
        rr = mk(r, 0, o - 1)
        w += 1
        x, d = ext(self.t, w), z3.BitVecVal(o, w)
        q = z3.If(x < 0, -((-x + d - 1) / d), x / d)
        return mk(q, self.lo // o, self.hi // o), rr

    def __floordiv__(self, o):
        if not isinstance(o, (int, SInt)): return NotImplemented
        return self._divmod(o)[0]

    def __mod__(self, o):
        if not isinstance(o, (int, SInt)): return NotImplemented
        return self._divmod(o)[1]

    def __rfloordiv__(self, o):
        if not isinstance(o, int): return NotImplemented
        s = self
        if (s == 0): raise ZeroDivisionError("integer division or modulo by zero")
        return int(o) // EX.concretize(s)

    def __rmod__(self, o):
        if not isinstance(o, int): return NotImplemented
        if (self == 0): raise ZeroDivisionError("integer division or modulo by zero")
        return int(o) % EX.concretize(self)

    def __divmod__(self, o): return self._divmod(o)

    # ---- comparison
    def _cmp(self, o, f, dec):
        if o is None or isinstance(o, (str, bytes, SBytes, SStr, list, tuple, dict)):
            return NotImplemented
        o2 = as_sint(o)
        if o2 is None:
            return NotImplemented
        a, b = self, o2
        d = dec(a, b)
        if d is not None:
            return d
        if z3.is_int(a.t) or z3.is_int(b.t):
            return mkb(f(to_int(a).t, to_int(b).t))
        w = max(a.t.size(), b.t.size())
        return mkb(f(ext(a.t, w), ext(b.t, w)))

    def __eq__(self, o):
        def dec(a, b):
            if a.t is b.t or a.t.eq(b.t): return True
            if None in (a.lo, a.hi, b.lo, b.hi): return None
            if a.hi < b.lo or b.hi < a.lo: return False
        return self._cmp(o, lambda x, y: x == y, dec)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else bnot(r)

    def __lt__(self, o):
        def dec(a, b):
            if a.hi is not None and b.lo is not None and a.hi < b.lo: return True
            if a.lo is not None and b.hi is not None and a.lo >= b.hi: return False
        return self._cmp(o, lambda x, y: x < y, dec)

    def __le__(self, o):
        def dec(a, b):
            if a.hi is not None and b.lo is not None and a.hi <= b.lo: return True
            if a.lo is not None and b.hi is not None and a.lo > b.hi: return False
        return self._cmp(o, lambda x, y: x <= y, dec)

    def __gt__(self, o):
        r = self.__le__(o)
        return r if r is NotImplemented else bnot(r)

    def __ge__(self, o):
        r = self.__lt__(o)
        return r if r is NotImplemented else bnot(r)

    __hash__ = Sym._no

    def __bool__(self):
        return bool(self != 0)

    def bit_length(self):
        if z3.is_int(self.t):
            raise Unsupported("bit_length of unbounded integer")
        w = self.t.size()
        for n in range(w + 1):
            b = 1 << n
            if n == 0:
                if bool(self == 0): return 0
            elif (self.lo <= -b and self.hi >= b) or True:
                if bool(band(self < b, self > -b)): return n
        raise Unsupported("bit_length")


def to_int(a):
    if z3.is_int(a.t):
        return a
    if z3.is_bv_value(a.t):
        return SInt(z3.IntVal(a.t.as_signed_long()), a.lo, a.hi)
    return SInt(z3.BV2Int(a.t, a.lo is None or a.lo < 0), a.lo, a.hi)


def mki(t, lo=None, hi=None):
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t, lo, hi)


def iv_int(iv, a, b):
    try:
        return iv(a, b)
    except TypeError:
        return None, None


def floor_div(a, b):
    """floor division of integers, b != 0: the defining equation"""
    for x, y, q, m in EX.quotients:
        if x.eq(a.t) and y.eq(b.t): return mki(q, None, None), mki(m, None, None)
    q, m = z3.Int(EX.fresh("quotient")), z3.Int(EX.fresh("remainder"))
    pos = bool(b > 0)
    EX.assume_t(z3.And(a.t == b.t * q + m, z3.And(m >= 0, m < b.t) if pos else z3.And(m <= 0, m > b.t)))
    EX.quotients.append((a.t, b.t, q, m))
    return mki(q, None, None), mki(m, 0 if pos else None, None if pos else 0)


POW2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())


class Shl:
    """registry of terms known to be y * pow2(s): term id -> (y, s)"""
    table = {}


def int_shl(x, s):
    """x << s for an unbounded s (assumed >= 0, checked)."""
    if bool(as_sint(s) < 0):
        raise ValueError("negative shift count")
    EX.learn_pow2(s.t)
    xt = to_int(as_sint(x)).t
    t = xt * POW2(s.t) if not (z3.is_int_value(xt) and xt.as_long() == 1) else POW2(s.t)
    r = SInt(t, None, None)
    EX.shl[t.get_id()] = (xt, s.t, t)
    return r


def int_or(a, b):
    """x | (y << s) where 0 <= x < 2^s is proved:  x + (y << s)."""
    a, b = as_sint(a), as_sint(b)
    a, b = to_int(a), to_int(b)
    for x, y in ((a, b), (b, a)):
        if z3.is_int_value(y.t) and y.t.as_long() > 0:
            low = y.t.as_long() & -y.t.as_long()
            if EX.entails(z3.And(x.t >= 0, x.t < low)):
                return mki(x.t + y.t, y.t.as_long(), y.t.as_long() + low - 1)
    for x, y in ((a, b), (b, a)):
        k = EX.shl.get(y.t.get_id())
        if k is not None and EX.entails(z3.And(x.t >= 0, x.t < POW2(k[1]))):
            return mki(x.t + y.t)
    raise Unsupported("| on unbounded integers")


class SBool(Sym):
    __slots__ = ("t",)
    pytype = bool

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self): return bool

    def __bool__(self): return EX.decide(self.t)

    def __repr__(self): return f"SBool({self.t})"

    __str__ = __repr__

    def __eq__(self, o):
        if isinstance(o, SBool): return mkb(self.t == o.t)
        if type(o) is bool: return self if o else bnot(self)
        s = as_sint(o)
        if s is None: return NotImplemented
        return as_sint(self) == s

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else bnot(r)

    __hash__ = Sym._no

    def __add__(self, o): return as_sint(self) + o
    def __radd__(self, o): return as_sint(self) + o
    def __mul__(self, o): return as_sint(self) * o
    def __rmul__(self, o): return as_sint(self) * o
    def __lshift__(self, o): return as_sint(self) << o
    def __sub__(self, o): return as_sint(self) - o
    def __rsub__(self, o): return o - as_sint(self)
    def __and__(self, o): return band(self, o) if isinstance(o, (bool, SBool)) else as_sint(self) & o
    def __rand__(self, o): return self.__and__(o)
    def __or__(self, o): return bor(self, o) if isinstance(o, (bool, SBool)) else as_sint(self) | o
    def __ror__(self, o): return self.__or__(o)
    def __lt__(self, o): return as_sint(self) < o
    def __gt__(self, o): return as_sint(self) > o


def mkb(t):
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return SBool(t)


def bt(x):
    """-> z3 Bool term"""
    return x.t if isinstance(x, SBool) else z3.BoolVal(bool(x))


def bnot(x):
    if isinstance(x, SBool): return mkb(z3.Not(x.t))
    return not x


def band(*xs):
    ts = []
    for x in xs:
        if isinstance(x, SBool): ts.append(x.t)
        elif not x: return False
    return True if not ts else SBool(ts[0]) if len(ts) == 1 else SBool(z3.And(*ts))


def bor(*xs):
    ts = []
    for x in xs:
        if isinstance(x, SBool): ts.append(x.t)
        elif x: return True
    return False if not ts else SBool(ts[0]) if len(ts) == 1 else SBool(z3.Or(*ts))


def implies(a, b):
    return bor(bnot(a), b)


def is_sym(x):
    return isinstance(type(x), type) and issubclass(type(x), Sym)


def seq_eq(a, b):
    if len(a) != len(b):
        return False
    return band(*[x == y for x, y in zip(a, b)])


class SSeq(Sym):
    __slots__ = ("items", "pytype", "attrs")
    base = None

    def __init__(self, items, pytype=None, attrs=None):
        self.items = list(items)
        self.pytype = self.base if pytype is None else pytype  # classes of size zero are false
        self.attrs = attrs

    @property
    def __class__(self): return self.pytype

    def __len__(self): return len(self.items)

    def __bool__(self): return bool(self.items)

    def __repr__(self): return f"{type(self).__name__}<{self.pytype.__name__}>({self.items})"

    __str__ = __repr__

    def with_type(self, cls, attrs=None): return type(self)(self.items, cls, attrs)

    def _coerce(self, o): raise NotImplementedError

    def __add__(self, o):
        o = self._coerce(o)
        return NotImplemented if o is None else type(self)(self.items + o)

    def __radd__(self, o):
        o = self._coerce(o)
        return NotImplemented if o is None else type(self)(o + self.items)

    def __mul__(self, n): return type(self)(self.items * (EX.concretize(n) if isinstance(n, SInt) else n))

    __rmul__ = __mul__

    def __eq__(self, o):
        o = self._coerce(o)
        return NotImplemented if o is None else seq_eq(self.items, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else bnot(r)

    __hash__ = Sym._no


class SBytes(SSeq):
    __slots__ = ()
    base = bytes

    def _coerce(self, o):
        if isinstance(o, SBytes): return o.items
        if type(o).__mro__[-2:-1] and isinstance(o, (bytes, bytearray, memoryview)) and not is_sym(o): return list(bytes(o))
        return None

    def __getitem__(self, k):
        if isinstance(k, slice): return SBytes(self.items[k])
        return self.items[EX.concretize(k) if isinstance(k, SInt) else k]

    def __iter__(self): return iter(self.items)

    def decode(self, enc="utf-8", errors="strict"): return decode(self.items, enc, errors)

    def __contains__(self, x):
        if isinstance(x, (int, SInt)): return bool(bor(*[i == x for i in self.items]))
        raise Unsupported("bytes containment")


class SRepeat(Sym):
    """concrete bytes repeated a symbolic number of times"""
    __slots__ = ("pat", "n")
    pytype = bytes
    def __init__(self, pat, n): self.pat, self.n = pat, n
    @property
    def __class__(self): return bytes
    def sym_len(self): return self.n * len(self.pat)
    def sym_write(self, sink): return sink.write(self.pat * EX.concretize(self.n))


class SByteArray(SBytes):
    __slots__ = ()
    base = bytearray

    def append(self, x):
        if isinstance(x, SInt) and (x.lo is None or x.hi is None or x.lo < 0 or x.hi > 255):
            if not bool(band(x >= 0, x <= 255)):
                raise ValueError("byte must be in range(0, 256)")
        elif not isinstance(x, SInt) and not 0 <= x <= 255:
            raise ValueError("byte must be in range(0, 256)")
        self.items.append(byte(x))

    def extend(self, xs):
        for x in xs: self.append(x)

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            self.items[k] = list(v.items if isinstance(v, SSeq) else v)
        else:
            self.items[k] = v


class SStr(SSeq):
    """str as code points."""
    __slots__ = ()
    base = str

    def _coerce(self, o):
        if isinstance(o, SStr): return o.items
        if isinstance(o, str) and not is_sym(o): return [ord(c) for c in o]
        return None

    def __getitem__(self, k):
        if isinstance(k, slice): return SStr(self.items[k])
        return SStr([self.items[k]])

    def __iter__(self): return iter([SStr([c]) for c in self.items])

    def encode(self, enc="utf-8", errors="strict"): return encode(self.items, enc, errors)

    def __format__(self, spec): return "\x00sym\x00"


class SFloat(Sym):
    __slots__ = ("n", "bits", "pytype", "attrs")

    def __init__(self, n, bits, pytype=float, attrs=None):
        self.n, self.bits, self.pytype, self.attrs = n, bits, pytype, attrs

    @property
    def __class__(self): return self.pytype

    def with_type(self, cls, attrs=None): return SFloat(self.n, self.bits, cls, attrs)

    def __repr__(self): return f"SFloat{self.n * 8}({self.bits})"

    __str__ = __repr__

    def __format__(self, spec): return "\x00sym\x00"

    def mag(self): return self.bits & ((1 << (self.n * 8 - 1)) - 1)

    def is_nan(self):
        m, e = {2: (10, 5), 4: (23, 8), 8: (52, 11)}[self.n]
        inf = ((1 << e) - 1) << m
        return self.mag() > inf

    def __bool__(self): return bool(self.mag() != 0)

    def __eq__(self, o):
        if isinstance(o, SFloat):
            if o.n != self.n: raise Unsupported("comparing floats of different width")
            same = band(bnot(self.is_nan()), self.bits == o.bits)
            return bor(same, band(self.mag() == 0, o.mag() == 0))
        if isinstance(o, (int, float)) and not is_sym(o):
            if o == 0: return self.mag() == 0
            import struct
            try:
                b = struct.pack("<" + {2: "e", 4: "f", 8: "d"}[self.n], o)
            except Exception:
                return False
            if struct.unpack("<" + {2: "e", 4: "f", 8: "d"}[self.n], b)[0] != o: return False
            return self.bits == int.from_bytes(b, "little")
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else bnot(r)

    __hash__ = Sym._no


# ------------------------------------------------------------------------------------------------------- helpers

def byte(x):
    """Normalise a byte item: SInt of interval within 0..255."""
    if isinstance(x, SInt):
        if x.lo is not None and x.hi is not None and x.lo >= 0 and x.hi <= 255: return x._plain()
        if z3.is_int(x.t): return mki(x.t % 256, 0, 255)
        return mk(z3.ZeroExt(1, z3.Extract(7, 0, ext(x.t, 9))), 0, 255)
    return int(x)


def byte_bv(x):
    """8-bit z3 term of a byte item"""
    if isinstance(x, SInt):
        if z3.is_int(x.t): return z3.Int2BV(x.t, 8)
        return z3.Extract(7, 0, ext(x.t, 9)) if x.t.size() != 8 else x.t
    return z3.BitVecVal(x, 8)


def raw_byte(t8, lo=0, hi=255):
    return mk(z3.ZeroExt(1, t8), lo, hi)


def from_bytes(items, little, signed):
    """Mathematical integer of a byte sequence."""
    if not items: return 0
    if not any(isinstance(i, SInt) for i in items):
        return int.from_bytes(bytes(items), "little" if little else "big", signed=signed)
    seq = list(reversed(items)) if little else list(items)
    if any(isinstance(i, SInt) and z3.is_int(i.t) for i in items):
        r = 0
        for i in seq: r = r * 256 + i
        if signed:
            r = SInt(z3.If(r.t >= (1 << (8 * len(seq) - 1)), r.t - (1 << (8 * len(seq))), r.t), -(1 << (8 * len(seq) - 1)), (1 << (8 * len(seq) - 1)) - 1)
        return r
    t = byte_bv(seq[0]) if len(seq) == 1 else z3.Concat(*[byte_bv(i) for i in seq])
    w = 8 * len(seq)
    if signed:
        return mk(t, -(1 << (w - 1)), (1 << (w - 1)) - 1)
    return mk(z3.ZeroExt(1, t), 0, (1 << w) - 1)


def to_bytes(v, n, little):
    """Low n bytes (two's complement) of v, as items."""
    if not isinstance(v, SInt):
        v = int(v) & ((1 << (8 * n)) - 1)
        return list(v.to_bytes(n, "little" if little else "big"))
    t = ext(v.t, max(8 * n, 1)) if v.t.size() < 8 * n else v.t
    out = [raw_byte(z3.simplify(z3.Extract(8 * i + 7, 8 * i, t))) for i in range(n)]
    return out if little else out[::-1]


def decode(items, enc, errors="strict"):
    e = enc.lower().replace("_", "-")
    if e in ("latin-1", "latin1", "iso-8859-1"):
        return SStr(items)
    if e in ("utf-16-le", "utf-16-be"):
        little = e.endswith("le")
        if len(items) % 2:
            raise UnicodeDecodeError(enc, b"", 0, 1, "truncated data")
        units = [from_bytes(items[i:i + 2], little, False) for i in range(0, len(items), 2)]
        out, i = [], 0
        while i < len(units):
            u = units[i]
            if not bool(band(u >= 0xD800, u <= 0xDFFF)):
                out.append(u)
                i += 1
                continue
            if bool(u >= 0xDC00) or i + 1 >= len(units):
                raise UnicodeDecodeError(enc, b"", 0, 1, "illegal encoding / unexpected end of data")
            v = units[i + 1]
            if not bool(band(v >= 0xDC00, v <= 0xDFFF)):
                raise UnicodeDecodeError(enc, b"", 0, 1, "illegal UTF-16 surrogate")
            out.append(((u & 0x3FF) << 10) + (v & 0x3FF) + 0x10000)
            i += 2
        return SStr(out)
    raise Unsupported(f"decode {enc}")


def encode(cps, enc, errors="strict"):
    e = enc.lower().replace("_", "-")
    if e in ("latin-1", "latin1", "iso-8859-1"):
        for c in cps:
            if bool(c > 255): raise UnicodeEncodeError(enc, "", 0, 1, "ordinal not in range(256)")
        return SBytes([byte(c) for c in cps])
    if e in ("utf-16-le", "utf-16-be"):
        little = e.endswith("le")
        out = []
        for c in cps:
            if bool(c > 0xFFFF):
                x = c - 0x10000
                out += to_bytes((x >> 10) + 0xD800, 2, little) + to_bytes((x & 0x3FF) + 0xDC00, 2, little)
            else:
                if bool(band(c >= 0xD800, c <= 0xDFFF)):
                    raise UnicodeEncodeError(enc, "", 0, 1, "surrogates not allowed")
                out += to_bytes(c, 2, little)
        return SBytes(out)
    raise Unsupported(f"encode {enc}")


def units_of(cps):
    """UTF-16 code units of a code point list."""
    out = []
    for c in cps:
        if isinstance(c, SInt) and c.hi <= 0xFFFF or not isinstance(c, SInt) and c <= 0xFFFF:
            out.append(c)
        elif bool(c > 0xFFFF):
            x = c - 0x10000
            out += [(x >> 10) + 0xD800, (x & 0x3FF) + 0xDC00]
        else:
            out.append(c)
    return out
