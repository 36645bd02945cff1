"""Symbolic execution of the instrumented real code: explorer, models of the Python built-ins, executor."""
from __future__ import annotations

import builtins
import enum as _enum
import functools
import io
import operator
import re
import struct as _struct
import sys
import time
import types as _types

import z3

from pyv import sym
from pyv.sym import (SInt, SBool, SBytes, SByteArray, SStr, SFloat, Sym, SSeq, Unsupported, Abort, is_sym, band, bor, bnot, mkb, mk, mki)


class PathEnd(BaseException):
    """The path is finished by a loop contract (the invariant was re-established)."""


class Refuted(BaseException):
    pass


# ------------------------------------------------------------------------------------------------------ explorer

class Explorer:
    def __init__(self, timeout_ms=20000, max_paths=4000, deadline=None):
        self.timeout, self.max_paths, self.deadline = timeout_ms, max_paths, deadline
        self.loops = {}
        self.stubs = {}
        self.solver_time = 0.0
        self.queries = 0
        self.vcs = {}          # label -> [proved, failed, unknown]
        self.failures = []     # (label, inputs, detail)
        self.paths = 0
        self.ended = 0
        self.completed = 0
        self.aborted = 0
        self.unsupported = []
        self.backends = {}
        self.errors = []
        self.role_try, self.role_total, self.renamed = 0, 1, False
        self.cuts_hit, self.loops_wanted = set(), set()
        self.active_cuts = {}
        self.frame, self.in_call, self.old, self.modified = None, 0, None, set()

    def explore(self, fn):
        """Run fn on every feasible path."""
        todo = [[]]
        sym.set_explorer(self)
        try:
            while todo:
                if self.paths >= self.max_paths or (self.deadline and time.time() > self.deadline):
                    self.unsupported.append("path or time budget exhausted")
                    return
                self.prefix = todo.pop()
                self.trail = []
                self.pending = []
                self.pc = []
                self.shl = {}
                self.pow2 = set()
                self.enums = {}
                self.quotients = []
                self.fresh_n = 0
                self.inputs = {}
                self.loops = {}
                self.active_cuts = {}
                self.solver = z3.Solver()
                self.solver.set("timeout", self.timeout)
                self.in_call = 0
                if self.old is not None: self.frame = Frame(self.old)
                self.paths += 1
                try:
                    fn()
                    self.ended += 1
                    self.completed += 1
                except PathEnd:
                    self.ended += 1
                except Abort:
                    self.aborted += 1
                except Refuted:
                    self.ended += 1
                except Unsupported as e:
                    self.unsupported.append(str(e))
                except (RecursionError, z3.Z3Exception, Exception) as e:
                    import traceback
                    self.errors.append(traceback.format_exc(limit=-8))
                if self.frame is not None: self.modified |= set(self.frame.stores)
                todo += self.pending
        finally:
            sym.set_explorer(None)

    # ---- decisions
    def _take(self, options):
        """options: list of z3 conditions (exhaustive); pick the next per prefix, queue the others"""
        i = len(self.trail)
        if i < len(self.prefix):
            k = self.prefix[i]
        else:
            ok = [j for j, t in enumerate(options) if self.feasible(t)]
            if not ok: raise Abort()
            k = ok[0]
            for j in reversed(ok[1:]): self.pending.append(self.trail + [j])
        self.trail.append(k)
        self.assume_t(options[k])
        return k

    def decide(self, t):
        t = z3.simplify(t)
        if z3.is_true(t): return True
        if z3.is_false(t): return False
        return self._take([t, z3.Not(t)]) == 0

    def choose(self, n):
        """an arbitrary k in 0..n-1: every one is explored"""
        if n == 1: return 0
        return self._take([z3.BoolVal(True)] * n)

    def feasible(self, t):
        if z3.is_true(t): return True
        return self.check(t) != z3.unsat

    def check(self, t):
        t0 = time.time()
        self.queries += 1
        r = self.solver.check(t)
        self.solver_time += time.time() - t0
        return r

    def assume_t(self, t):
        if z3.is_true(t): return
        self.pc.append(t)
        self.solver.add(t)

    def assume(self, c):
        t = sym.bt(c)
        t = z3.simplify(t)
        if z3.is_false(t): raise Abort()
        if z3.is_true(t): return
        if len(self.trail) >= len(self.prefix) and self.check(t) == z3.unsat: raise Abort()
        self.assume_t(t)

    def entails(self, t):
        return self.check(z3.Not(t)) == z3.unsat

    def learn_pow2(self, s):
        """axioms of 2**s at this term"""
        k = s.get_id()
        if k in self.pow2: return
        self.pow2.add(k)
        P = sym.POW2
        self.assume_t(z3.Implies(s >= 0, P(s) >= 1))
        self.assume_t(P(z3.IntVal(0)) == 1)

    def concretize(self, v):
        """Case split over the values of v (finitely many, small)."""
        if not isinstance(v, SInt): return int(v)
        if v.lo is None or v.hi is None or v.hi - v.lo > 4096:
            raise Unsupported("case split over an unbounded number")
        lo, hi = v.lo, v.hi
        if hi - lo > 16:  # shrink to feasible bounds
            while hi > lo:
                mid = (lo + hi) // 2
                if bool(v <= mid): hi = mid
                else: lo = mid + 1
            return lo
        for x in range(lo, hi):
            if bool(v == x): return x
        self.assume(v == hi)
        return hi

    def fresh(self, name):
        self.fresh_n += 1
        return f"{name}!{self.fresh_n}"

    # ---- obligations
    def oblige(self, c, label, detail=None):
        rec = self.vcs.setdefault(label, [0, 0, 0])
        t = z3.simplify(sym.bt(c))
        if z3.is_true(t):
            rec[0] += 1
            self.backends["simplify"] = self.backends.get("simplify", 0) + 1
            return True
        r = self.check(z3.Not(t))
        if r == z3.unsat:
            rec[0] += 1
            self.backends["z3"] = self.backends.get("z3", 0) + 1
            self.assume_t(t)
            return True
        if r == z3.unknown:
            r = self.other(z3.Not(t))
            if r == "unsat":
                rec[0] += 1
                self.backends["cvc5"] = self.backends.get("cvc5", 0) + 1
                return True
            rec[2] += 1
            self.unsupported.append(f"solver gave no answer: {label}")
            return False
        rec[1] += 1
        m = self.solver.model()
        self.failures.append((label, self.model_inputs(m), detail and {k: str(v)[:400] for k, v in detail.items()}))
        raise Refuted()

    def shape(self, c, what):
        """the code has the shape this argument is about; if not, the argument does not apply (undecided, not a violation)"""
        if not bool(c): raise Unsupported(f"the proof does not apply: {what}")

    def other(self, t):
        """second back end: cvc5 on the same query"""
        try:
            import subprocess
            s = z3.Solver()
            s.add(*self.pc, t)
            q = "(set-logic ALL)\n" + s.to_smt2()
            r = subprocess.run(["cvc5", "--lang=smt2", f"--tlimit={self.timeout}"], input=q, capture_output=True, text=True, timeout=self.timeout / 1000 + 5)
            return r.stdout.strip().split("\n")[0]
        except Exception:
            return "unknown"

    def model_inputs(self, m):
        out = {}
        for k, v in self.inputs.items():
            out[k] = concrete(v, m)
        return out


def ev(t, m): return m.eval(t, model_completion=True)


def concrete(v, m):
    if isinstance(v, SInt):
        r = ev(v.t, m)
        return r.as_long() if z3.is_int_value(r) else r.as_signed_long()
    if isinstance(v, SBool): return z3.is_true(ev(v.t, m))
    if isinstance(v, (SBytes,)): return bytes(concrete(i, m) & 0xFF for i in v.items).hex()
    if isinstance(v, SStr): return "".join(chr(concrete(i, m)) for i in v.items)
    if isinstance(v, SFloat): return concrete(v.bits, m)
    if hasattr(v, "concrete_in"): return v.concrete_in(m)
    if isinstance(v, (list, tuple)): return [concrete(x, m) for x in v]
    return v


# ------------------------------------------------------------------------------------------------- symbolic files

class SymIO:
    """BytesIO over a concrete number of (symbolic) bytes."""
    def __init__(self, data=b""):
        if isinstance(data, SSeq): self.items = list(data.items)
        else: self.items = list(bytes(data))
        self.pos = 0
        self.closed = False

    def read(self, n=-1):
        if n is None: n = -1
        if isinstance(n, SInt): n = small(n, len(self.items) + 1)
        n = int(n)
        if n < 0: r = self.items[self.pos:]
        else: r = self.items[self.pos:self.pos + n]
        self.pos += len(r)
        return mkbytes(r)

    def readinto(self, b): raise Unsupported("readinto")

    def seek(self, o, whence=0):
        if isinstance(o, SInt): o = small(o, 1 << 12) if whence == 0 else sym.EX.concretize(o)
        o = int(o)
        if whence == 1: o = max(0, self.pos + o)
        elif whence == 2: o = max(0, len(self.items) + o)
        elif o < 0: raise ValueError(f"negative seek value {o}")
        self.pos = o
        return o

    def tell(self): return self.pos

    def write(self, b):
        if is_sym(b): b = b.items
        elif isinstance(b, (bytes, bytearray, memoryview)): b = list(bytes(b))
        else: raise TypeError("a bytes-like object is required, not " + type(b).__name__)
        if not b: return 0
        if self.pos > len(self.items): self.items += [0] * (self.pos - len(self.items))
        self.items[self.pos:self.pos + len(b)] = b
        self.pos += len(b)
        return len(b)

    def getvalue(self): return mkbytes(self.items)

    getbuffer = getvalue

    def __class_getitem__(cls, k): return cls


def small(n, cap):
    """a symbolic size or position: beyond cap nothing changes, so one representative suffices"""
    ex = sym.EX
    if n.lo is not None and n.hi is not None and n.hi - n.lo <= cap: return ex.concretize(n)
    if bool(n < 0): raise Unsupported("negative symbolic size")
    if bool(n >= cap): return cap + (0 if cap > 1000 else 0)
    return ex.concretize(SInt(n.t, max(0, n.lo or 0), cap - 1)) if not z3.is_int(n.t) else ex.concretize(SInt(n.t, 0, cap - 1))


def mkbytes(items):
    return SBytes(items) if any(isinstance(i, SInt) for i in items) else bytes(items)


def mkstr(items):
    return SStr(items) if any(isinstance(i, SInt) for i in items) else "".join(map(chr, items))


class SText(Sym):
    """str with opaque parts (formatted symbolic values)"""
    __slots__ = ("parts",)
    pytype = str
    def __init__(self, parts):
        self.parts = []
        for p in parts:
            if isinstance(p, SText): self.parts += p.parts
            elif isinstance(p, str) and not is_sym(p):
                if p and self.parts and type(self.parts[-1]) is str: self.parts[-1] += p
                elif p: self.parts.append(p)
            else: self.parts.append(p)
    @property
    def __class__(self): return str
    def __add__(self, o): return SText([*self.parts, o])
    def __radd__(self, o): return SText([o, *self.parts])
    def __repr__(self): return f"SText({self.parts})"
    __str__ = __repr__
    def __bool__(self): return bool(self.parts)


# ---------------------------------------------------------------------------------------------------------- models

TRANSPARENT = {"len", "isinstance", "issubclass", "hasattr", "getattr", "setattr", "callable", "any", "all", "list", "tuple", "iter", "next",
               "map", "zip", "enumerate", "max", "min", "sum", "reversed", "print", "id", "append", "extend", "insert", "update", "setdefault",
               "__setattr__", "__getattribute__", "__delattr__", "add", "divmod", "abs", "filter", "sorted", "get", "items", "values", "keys", "pop", "vars", "repr", "delattr", "property",
               "cast", "copy", "super", "attrgetter", "itemgetter", "classmethod", "staticmethod", "index", "count", "discard", "remove", "clear", "pformat"}


def has_sym(xs):
    for x in xs:
        if is_sym(x): return True
    return False


def deep_sym(x, d=3):
    if is_sym(x): return True
    if d and isinstance(x, (list, tuple)): return any(deep_sym(y, d - 1) for y in x)
    if d and isinstance(x, dict): return any(deep_sym(y, d - 1) for y in x.values())
    return False


def pv_call(f, /, *a, **k):
    ex = sym.EX
    if ex is None: return f(*a, **k)
    tf = type(f)
    if ex.stubs:
        s = ex.stubs.get(getattr(f, "__func__", f)) if tf in (_types.FunctionType, _types.MethodType) else None
        if s is not None:
            if tf is _types.MethodType: return s(f.__self__, *a, **k)
            return s(*a, **k)
    if tf is _types.FunctionType: return f(*a, **k)
    if tf is _types.MethodType:
        fn = f.__func__
        if fn is ENUM_CALL and len(a) == 1 and not k and is_sym(a[0]): return enum_lookup(f.__self__, a[0])
        if fn is FLAG_MISSING and is_sym(a[0]): return flag_pseudo(f.__self__, a[0])
        return f(*a, **k)
    if tf is functools.partial: return pv_call(f.func, *f.args, *a, **{**f.keywords, **k})
    if tf is functools._lru_cache_wrapper:
        if has_sym(a) or has_sym(k.values()): return pv_call(f.__wrapped__, *a, **k)
        return f(*a, **k)
    if f is io.BytesIO:
        if a and hasattr(type(a[0]), "sym_stream"): return a[0].sym_stream()
        return SymIO(*a)
    if f is compile and a and isinstance(a[0], str) and len(a) > 1 and str(a[1]).startswith("<compiled"):
        from pyv import instr
        return compile(instr.transform(a[0], a[1]), a[1], "exec")
    if f is exec and len(a) > 1 and isinstance(a[0], _types.CodeType):
        a[1].update(TARGET_HOOKS)
        return f(*a)
    nm = getattr(f, "__name__", None)
    m = BY_OBJ.get(f) if _hashable(f) else None
    if m is not None:
        r = m(*a, **k)
        if r is not NotImplemented: return r
    elif tf in (_types.BuiltinMethodType, _types.MethodWrapperType):
        self = f.__self__
        m = BY_NAME.get(nm)
        if m is not None:
            r = m(self, *a, **k)
            if r is not NotImplemented: return r
    if has_sym(a) or has_sym(k.values()):
        if isinstance(f, type):
            mc = type(f)
            if mc.__call__ is not type.__call__ or "__call__" in mc.__dict__:
                return f(*a, **k)  # metaclass with Python-level __call__
            if issubclass(f, (SymIO,)): return f(*a, **k)
            if f.__init__ is not object.__init__ and isinstance(f.__init__, _types.FunctionType) or "__new__" in f.__dict__:
                return f(*a, **k)
            if issubclass(f, BaseException): return f(*["<sym>"])
            if f in (dict, list, tuple, zip, map, enumerate, reversed, filter): return f(*a, **k)
            raise Unsupported(f"class call {f.__name__}")
        if nm in TRANSPARENT or tf in (operator.attrgetter,): return f(*a, **k)
        if isinstance(f, Sym): raise Unsupported("calling a symbolic value")
        if hasattr(tf, "__call__") and isinstance(tf.__call__, _types.FunctionType): return f(*a, **k)
        raise Unsupported(f"no model for {nm or f!r}")
    return f(*a, **k)


def _hashable(f):
    try:
        hash(f)
        return True
    except TypeError:
        return False


ENUM_CALL = _enum.EnumMeta.__call__
FLAG_MISSING = _enum.Flag.__dict__["_missing_"].__func__


def enum_lookup(cls, v):
    """Assumed contract of enum.EnumMeta.__call__(cls, value)."""
    if isinstance(v, cls): return v
    if cls in sym.EX.enums: return sym.EX.enums[cls](v)
    for mv, member in list(cls._value2member_map_.items()):
        if mv == v: return member
    return cls._missing_(v._plain() if isinstance(v, SInt) else v)


def flag_pseudo(cls, v):
    """Assumed contract of enum.Flag._missing_ for IntFlag (boundary KEEP), value >= 0."""
    if bool(v < 0): raise Unsupported("negative flag value")
    return v.with_type(cls, {"_value_": v._plain(), "_name_": value_name(v, cls), "__objclass__": cls})


def _fn(what, cls, sort): return z3.Function(f"{what}.{cls.__name__}", z3.IntSort(), sort)


class Name(Sym):
    """some string, known by the integer term that determines it"""
    __slots__ = ("t",)
    pytype = str
    def __init__(self, t): self.t = t
    @property
    def __class__(self): return str
    def __eq__(self, o):
        if isinstance(o, Name): return sym.mkb(self.t == o.t)
        if o is None or not isinstance(o, str): return False
        raise Unsupported("comparing a name")
    def __ne__(self, o): return bnot(self.__eq__(o))
    __hash__ = None
    def __bool__(self): return True


def value_name(v, cls):
    """the name lookup gives a value: some name or none, the same for the same value"""
    t = sym.to_int(sym.as_sint(v)).t
    if not bool(sym.mkb(_fn("named", cls, z3.BoolSort())(t))): return None
    return Name(_fn("name", cls, z3.IntSort())(t))


def any_members(cls):
    """Assumed contract of enum.EnumMeta.__call__(cls, value) for an enumeration with arbitrary members: the member with that
    value if there is one, otherwise what cls._missing_ makes of the value."""
    def lookup(v):
        p = v._plain() if isinstance(v, SInt) else v
        t = sym.to_int(sym.as_sint(p)).t
        if bool(sym.mkb(_fn("member", cls, z3.BoolSort())(t))):
            return sym.as_sint(p).with_type(cls, {"_value_": p, "_name_": Name(_fn("member.name", cls, z3.IntSort())(t)), "__objclass__": cls})
        return pv_call(cls._missing_, p)
    return lookup


class Opaque:
    """a value whose content does not matter"""
    def __init__(self, what): self.what = what
    def __repr__(self): return f"<{self.what}>"
    def __eq__(self, o): raise Unsupported("opaque")
    __hash__ = object.__hash__


def m_type_call(cls, *a, **k):
    if hasattr(type(cls), "sym_construct"): return cls.sym_construct(a, k)
    if not isinstance(cls, type): return NotImplemented
    if hasattr(cls, "__fields__") and (a or k): return type.__call__(cls, *a, **k)  # generated __init__: only stores its arguments
    if a and is_sym(a[0]):
        if isinstance(cls, _enum.EnumMeta) and len(a) == 1 and not k: return enum_lookup(cls, a[0])
        for base in (int, float, str, bytes):
            if issubclass(cls, base):
                obj = pv_call(cls.__new__, cls, *a, **k)
                return obj
        if issubclass(cls, list) and hasattr(a[0], "with_type"): return a[0].with_type(cls)
    return NotImplemented


def m_new(cls, *a, **k):
    if not a or not is_sym(a[0]): return NotImplemented
    v = a[0]
    if issubclass(cls, bool): return NotImplemented
    if issubclass(cls, int):
        if isinstance(v, SBool): v = sym.as_sint(v)
        if isinstance(v, SInt): return v.with_type(cls, {})
    if issubclass(cls, float) and isinstance(v, SFloat): return v.with_type(cls, {})
    if issubclass(cls, bytes) and isinstance(v, SBytes): return SBytes(v.items, cls, {})
    if issubclass(cls, str) and isinstance(v, (SStr,)): return v.with_type(cls, {})
    if issubclass(cls, str) and isinstance(v, SText): return v
    if hasattr(v, "sym_new"): return v.sym_new(cls)
    raise Unsupported(f"{cls.__name__}.__new__ of {type(v).__name__}")


def m_from_bytes(self, data, byteorder="big", *, signed=False):
    cls = self if isinstance(self, type) else type(self)
    if not isinstance(self, type) or not issubclass(cls, int): return NotImplemented
    if isinstance(data, (list, tuple)) and deep_sym(data): data = SBytes(data)
    if not is_sym(data): return NotImplemented
    if hasattr(data, "sym_from_bytes"): v = data.sym_from_bytes(byteorder, signed)
    else: v = sym.from_bytes(data.items, byteorder == "little", signed)
    if cls is int: return v
    if isinstance(v, SInt): return v.with_type(cls, {})
    return cls(v) if cls in (int, bool) else int.__new__(cls, v)


def m_to_bytes(self, length=1, byteorder="big", *, signed=False):
    """int.to_bytes with concrete self is native; see SInt.to_bytes"""
    return NotImplemented


def sint_to_bytes(self, length=1, byteorder="big", *, signed=False):
    """Contract of int.to_bytes: OverflowError unless in range, else the two's-complement bytes."""
    if byteorder not in ("little", "big"): raise ValueError("byteorder must be either 'little' or 'big'")
    if isinstance(length, SInt): return sym_to_bytes(self, length, byteorder, signed)
    n = int(length)
    if n < 0: raise ValueError("length argument must be non-negative")
    lo, hi = (-(1 << (8 * n - 1)) if n else 0, (1 << (8 * n - 1)) - 1 if n else 0) if signed else (0, (1 << (8 * n)) - 1)
    if not bool(band(self >= lo, self <= hi)):
        raise OverflowError("int too big to convert")
    if z3.is_int(self.t): return mkbytes(int_bytes(self, n, byteorder == "little"))
    return mkbytes(sym.to_bytes(self, n, byteorder == "little"))


def int_bytes(v, n, little):
    """Contract of int.to_bytes on an in-range number: the bytes whose weighted sum is the number modulo 2^(8n)."""
    ex = sym.EX
    bs = [z3.Int(ex.fresh("digit")) for _ in range(n)]
    for b in bs: ex.assume_t(z3.And(b >= 0, b <= 255))
    u = z3.If(v.t < 0, v.t + (1 << (8 * n)), v.t)
    ex.assume_t(z3.Sum([b * (1 << (8 * i)) for i, b in enumerate(bs)]) == u if n else u == 0)
    out = [SInt(b, 0, 255) for b in bs]
    return out if little else out[::-1]


def sym_to_bytes(v, n, byteorder, signed): raise Unsupported("to_bytes of symbolic length")


SInt.to_bytes = sint_to_bytes
SBool.to_bytes = lambda self, *a, **k: sym.as_sint(self).to_bytes(*a, **k)

FMT = re.compile(r"^([<>=!@]?)(\d*)([a-zA-Z])$")
FMT_TOK = re.compile(r"(\d*)([a-zA-Z?])")
PK = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True), "I": (4, False), "l": (4, True), "L": (4, False), "q": (8, True), "Q": (8, False)}
PF = {"e": 2, "f": 4, "d": 8}


def parse_fmt(fmt):
    if fmt and fmt[0] in "<>!=@": e, rest = fmt[0], fmt[1:]
    else: e, rest = "@", fmt
    if e in "@": raise Unsupported("native struct alignment")
    little = e == "<" or e == "=" and sys.byteorder == "little"
    items = []
    for c, ch in FMT_TOK.findall(rest):
        n = int(c) if c else 1
        items.append((n, ch))
    return little, items


def m_unpack(self, data, *a):
    if not isinstance(self, _struct.Struct): return NotImplemented
    if not is_sym(data): return NotImplemented
    little, items = parse_fmt(self.format)
    if len(data) != self.size: raise _struct.error(f"unpack requires a buffer of {self.size} bytes")
    out, p = [], 0
    for n, ch in items:
        if ch == "x":
            p += n
            continue
        if ch == "s":
            out.append(mkbytes(data.items[p:p + n]))
            p += n
            continue
        for _ in range(n):
            if ch in PK:
                w, s = PK[ch]
                out.append(sym.from_bytes(data.items[p:p + w], little, s))
            elif ch in PF:
                w = PF[ch]
                out.append(sfloat(w, sym.from_bytes(data.items[p:p + w], little, False)))
            elif ch == "c":
                w = 1
                out.append(mkbytes(data.items[p:p + 1]))
            else:
                raise Unsupported(f"struct format {ch}")
            p += w
    return tuple(out)


def sfloat(w, bits):
    if isinstance(bits, SInt): return SFloat(w, bits)
    return _struct.unpack("<" + {2: "e", 4: "f", 8: "d"}[w], int(bits).to_bytes(w, "little"))[0]


def m_pack(self, *vals):
    if not isinstance(self, _struct.Struct): return NotImplemented
    if not has_sym(vals): return NotImplemented
    little, items = parse_fmt(self.format)
    out, i = [], 0
    for n, ch in items:
        if ch in "xs": raise Unsupported("struct pack x/s")
        for _ in range(n):
            if i >= len(vals): raise _struct.error("pack expected more items")
            v = vals[i]
            i += 1
            if ch in PK:
                w, s = PK[ch]
                lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if s else (0, (1 << (8 * w)) - 1)
                if isinstance(v, SBool): v = sym.as_sint(v)
                if not isinstance(v, int): raise _struct.error("required argument is not an integer")
                if isinstance(v, SInt):
                    if not bool(band(v >= lo, v <= hi)): raise _struct.error("argument out of range")
                    out += sint_to_bytes(v, w, "little" if little else "big", signed=s).items if True else []
                else:
                    if not lo <= v <= hi: raise _struct.error("argument out of range")
                    out += list(int(v).to_bytes(w, "little" if little else "big", signed=s))
            elif ch in PF:
                w = PF[ch]
                if isinstance(v, SFloat):
                    if v.n != w: raise Unsupported("float conversion")
                    if bool(v.is_nan()): raise Unsupported("NaN payload")
                    out += sym.to_bytes(v.bits, w, little) if isinstance(v.bits, SInt) else list(int(v.bits).to_bytes(w, "little" if little else "big"))
                elif is_sym(v): raise Unsupported("float of symbolic integer")
                else: out += list(_struct.pack(("<" if little else ">") + ch, v))
            else: raise Unsupported(f"struct pack {ch}")
    if i != len(vals): raise _struct.error("pack expected fewer items")
    return mkbytes(out)


def m_join(self, it):
    if not isinstance(self, (str, bytes)) or is_sym(self): return NotImplemented
    if hasattr(type(it), "sym_join"): return it.sym_join(self)
    xs = list(it)
    if not has_sym(xs): return self.join(xs)
    if isinstance(self, bytes):
        out = []
        for i, x in enumerate(xs):
            if i: out += list(self)
            out += x.items if is_sym(x) else list(x)
        return mkbytes(out)
    if all(isinstance(x, SStr) or not is_sym(x) for x in xs):
        out = []
        for i, x in enumerate(xs):
            if i: out += [ord(c) for c in self]
            out += x.items if is_sym(x) else [ord(c) for c in x]
        return mkstr(out)
    parts = []
    for i, x in enumerate(xs):
        if i: parts.append(self)
        parts.append(x)
    return SText(parts)


def m_hash(x):
    if is_sym(x) and x.pytype not in _PLAIN:
        f = override(x.pytype, "__hash__")
        if f == "foreign": raise Unsupported("hash")
        if f is not None: return f(x)
    if deep_sym(x): return SHash(x)
    return NotImplemented


class SHash(Sym):
    """hash(x): equal when the arguments are equal (nothing else is known)"""
    __slots__ = ("x",)
    pytype = int
    def __init__(self, x): self.x = x
    @property
    def __class__(self): return int
    def __eq__(self, o):
        if isinstance(o, SHash): return hash_eq(self.x, o.x)
        raise Unsupported("hash compared with a number")
    def __ne__(self, o): return bnot(self.__eq__(o))
    __hash__ = None
    def __bool__(self): raise Unsupported("hash")


def hash_eq(a, b):
    """hash(a) == hash(b) holds for certain (a sufficient condition)"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return band(len(a) == len(b), *[hash_eq(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
    r = a == b
    return r if isinstance(r, SBool) else bool(r)


def m_type(*a):
    if len(a) == 1 and is_sym(a[0]): return a[0].pytype
    return NotImplemented


def m_int(x=0, *a):
    if isinstance(x, SInt): return x._plain()
    if isinstance(x, SBool): return sym.as_sint(x)
    if is_sym(x): raise Unsupported("int() of " + type(x).__name__)
    return NotImplemented


def m_float(x=0.0):
    if isinstance(x, SFloat): return x.with_type(float)
    if is_sym(x): raise Unsupported("float()")
    return NotImplemented


def m_bool(x=False):
    if is_sym(x): return bool(x)
    return NotImplemented


def m_str(x="", *a):
    if isinstance(x, SStr) and not a: return SStr(x.items)
    if is_sym(x): return SText([x])
    return NotImplemented


def m_bytes(x=b"", *a):
    if isinstance(x, SBytes): return SBytes(x.items)
    if isinstance(x, (list, tuple)) and deep_sym(x):
        out = []
        for i in x:
            if isinstance(i, SInt) and not bool(band(i >= 0, i <= 255)): raise ValueError("bytes must be in range(0, 256)")
            out.append(sym.byte(i) if isinstance(i, SInt) else int(i))
        return mkbytes(out)
    if isinstance(x, SInt): return bytes(sym.EX.concretize(x))
    if isinstance(x, SymIO): raise TypeError
    if is_sym(x): raise Unsupported("bytes()")
    if hasattr(type(x), "__iter__") and not isinstance(x, (bytes, bytearray, memoryview, str)) and not isinstance(x, (list, tuple)):
        if hasattr(type(x), "__bytes__"): return NotImplemented
        return m_bytes(list(x)) if deep_sym(x := list(x)) else bytes(x)
    return NotImplemented


def m_bytearray(x=b"", *a):
    if isinstance(x, SBytes): return SByteArray(x.items)
    return SByteArray(list(bytes(x, *a)) if not isinstance(x, (list, tuple)) else x)


def m_memoryview(x):
    if isinstance(x, SBytes): return SBytes(x.items, memoryview)
    return NotImplemented


def m_ord(x):
    if isinstance(x, (SBytes, SStr)):
        if len(x.items) != 1: raise TypeError("ord() expected a character")
        return x.items[0]
    return NotImplemented


def m_chr(x):
    if isinstance(x, SInt):
        if not bool(band(x >= 0, x <= 0x10FFFF)): raise ValueError("chr() arg not in range(0x110000)")
        return SStr([x._plain()])
    return NotImplemented


def m_len(x):
    if hasattr(type(x), "sym_len"): return x.sym_len()
    return NotImplemented


def m_decode(self, *a, **k): return NotImplemented


def m_range(*a):
    if has_sym(a):
        if len(a) == 1: return srange(0, a[0], 1)
        return srange(a[0], a[1], a[2] if len(a) > 2 else 1)
    return NotImplemented


class SRange(Sym):
    """range with symbolic bounds; without a loop contract it is unrolled (case split at every step)"""
    __slots__ = ("start", "stop", "step")
    pytype = range
    @property
    def __class__(self): return range
    def __init__(self, a, b, s): self.start, self.stop, self.step = a, b, s
    def __iter__(self):
        i = self.start
        if is_sym(self.step): raise Unsupported("symbolic step")
        while bool(i < self.stop):
            yield i
            i = i + self.step


def srange(a, b, s): return SRange(a, b, s)


def m_isinstance(x, c): return NotImplemented


def m_format(x, spec=""):
    if is_sym(x): return SText([("fmt", x, spec)])
    return NotImplemented


def m_round(*a): return NotImplemented


def m_static_new(base):
    return m_new


BY_OBJ = {type: m_type, int: m_int, float: m_float, bool: m_bool, str: m_str, bytes: m_bytes, bytearray: m_bytearray, memoryview: m_memoryview,
          ord: m_ord, chr: m_chr, len: m_len, hash: m_hash, range: m_range, format: m_format,
          int.__new__: m_new, float.__new__: m_new, str.__new__: m_new, bytes.__new__: m_new,
          type.__call__: m_type_call}
for _n, _op in (("__add__", operator.add), ("__sub__", operator.sub), ("__mul__", operator.mul), ("__floordiv__", operator.floordiv), ("__mod__", operator.mod),
                ("__lshift__", operator.lshift), ("__rshift__", operator.rshift), ("__and__", operator.and_), ("__or__", operator.or_), ("__xor__", operator.xor), ("__eq__", operator.eq)):
    def _mk(op):
        def m(a, b):
            if not (is_sym(a) or is_sym(b)): return NotImplemented
            a = a._plain() if isinstance(a, SInt) else int(a)
            b = b._plain() if isinstance(b, SInt) else (int(b) if isinstance(b, int) else b)
            return op(a, b)
        return m
    BY_OBJ[getattr(int, _n)] = _mk(_op)


def m_int_pow(a, b):
    if not (is_sym(a) or is_sym(b)): return NotImplemented
    if isinstance(b, SInt): b = sym.EX.concretize(b)
    r = 1
    if b < 0 or b > 64: raise Unsupported("pow")
    for _ in range(b): r = r * a
    return r


BY_OBJ[int.__pow__] = m_int_pow
BY_OBJ[_struct.unpack] = lambda fmt, data: m_unpack(_struct.Struct(fmt), data) if not is_sym(fmt) else NotImplemented
BY_OBJ[_struct.pack] = lambda fmt, *vals: m_pack(_struct.Struct(fmt), *vals) if not is_sym(fmt) else NotImplemented
BY_NAME = {"from_bytes": m_from_bytes, "unpack": m_unpack, "pack": m_pack, "join": m_join}


def m_super_new(self, *a, **k):
    return NotImplemented


def bound_new(f): return f


def m_bound_type_call(self, *a, **k):
    """super().__call__ of a metaclass: bound type.__call__"""
    if isinstance(self, type) and (a and is_sym(a[0]) or hasattr(self, "__fields__")): return m_type_call(self, *a, **k)
    return NotImplemented


BY_NAME["__call__"] = m_bound_type_call


def m_str_in(self, *a): return NotImplemented


def pv_in(a, b):
    if sym.EX is None or not (is_sym(a) or is_sym(b)): return a in b
    if hasattr(type(b), "sym_contains"): return b.sym_contains(a)
    if hasattr(type(a), "sym_in"): return a.sym_in(b)
    if isinstance(a, SStr) and isinstance(b, str) and len(a.items) == 1 and not is_sym(b):
        return bool(bor(*[a.items[0] == ord(c) for c in b]))
    if isinstance(b, (list, tuple, set, frozenset, dict)):
        for x in b:
            if x is a or bool(a == x): return True
        return False
    if isinstance(b, SBytes): return b.__contains__(a)
    if isinstance(b, str): raise Unsupported("substring test")
    return a in b


def pv_fmt(*parts):
    out, s = [], False
    for p in parts:
        if isinstance(p, str): out.append(p)
        else:
            v, conv, spec = p
            if is_sym(v):
                s = True
                out.append(v if conv == -1 and spec == "" and isinstance(v, (SText,)) else ("fmt", v, chr(conv) if conv != -1 else "", spec))
                continue
            if is_sym(spec): raise Unsupported("symbolic format specification")
            if conv == 114: v = repr(v)
            elif conv == 115: v = str(v)
            elif conv == 97: v = ascii(v)
            out.append(format(v, spec))
    return SText(out) if s else "".join(out)


class Cut:
    """A loop contract. Subclass per loop; all methods get the current locals."""

    heap = ()      # attributes the loop may assign
    optional = ()  # variables the contract havocs that the loop need not change

    def roles(self, L, *spec):
        """Which locals play which role of the invariant.  spec: (usual name, predicate on the entry value)...
        When the usual names are gone, every assignment of locals that fits is tried (see verify.run_one)."""
        if all(n in L and _fits(p, L[n]) for n, p in spec): return [n for n, _ in spec]
        cands = [[n for n in L if not n.startswith("__pv") and n not in ("cls", "self") and _fits(p, L[n])] for _, p in spec]
        combos = [()]
        for c in cands: combos = [x + (n,) for x in combos for n in c if n not in x]
        ex = sym.EX
        if not combos: raise Unsupported("the loop contract does not fit the variables of this loop")
        ex.role_total = max(ex.role_total, len(combos))
        ex.renamed = True
        return list(combos[min(ex.role_try, len(combos) - 1)])
    def enter(self, L, it): """check that the invariant holds initially (and remember what is needed)"""
    def havoc(self, L): """-> {local: arbitrary value}; also havoc the heap the loop changes; assume the invariant"""
    def iter(self, it): """for loops: yield one arbitrary element, or nothing"""
    def end(self, L): """check the invariant again"""


def _fits(p, v):
    try: return bool(p(v)) if p is not None else True
    except Unsupported: return False
    except Exception: return False


class Poison(Sym):
    """a variable changed by a loop and unknown to the loop's contract: using it is outside the proof"""
    __slots__ = ("what",)
    pytype = object
    def __init__(self, what): object.__setattr__(self, "what", what)
    def _no(self, *a, **k): raise Unsupported(f"variable {object.__getattribute__(self, 'what')} is not covered by the loop contract")
    __bool__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __len__ = __getitem__ = __setitem__ = __add__ = __radd__ = __sub__ = __rsub__ = _no
    __mul__ = __and__ = __or__ = __xor__ = __lshift__ = __rshift__ = __floordiv__ = __mod__ = __neg__ = __invert__ = __contains__ = __call__ = __str__ = __repr__ = __format__ = _no
    __iadd__ = __isub__ = __ior__ = __iand__ = __irshift__ = __ilshift__ = __rand__ = __ror__ = __rlshift__ = __rrshift__ = __rmul__ = __enter__ = __exit__ = _no
    def __getattr__(self, n): self._no()
    def __setattr__(self, n, v): self._no()


IMMUTABLE = {_struct.Struct, str, bytes, int, float, bool, type(None)}  # + the symbolic values of them


def frozen(v): return type(v) in IMMUTABLE


def pv_loop(key, L, it, meta):
    ex = sym.EX
    if ex is None or key not in ex.loops: return None
    c = ex.loops[key]
    c = c() if isinstance(c, type) else c
    ex.active_cuts[key] = c
    ex.cuts_hit.add(key)
    vs, attrs, assigned = meta
    extra = set(attrs) - set(c.heap)
    if extra: raise Unsupported(f"the loop assigns attributes its contract does not know: {sorted(extra)}")
    c.enter(L, it)
    h = c.havoc(L) or {}
    if set(h) - set(vs) - set(c.optional): raise Unsupported("the loop contract names variables the loop does not change")
    # a variable the loop never assigns keeps an immutable value, whatever methods the loop calls on it
    return {v: h[v] if v in h else L[v] if v not in assigned and v in L and frozen(L[v]) else Poison(v) for v in vs}


def pv_iter(key, it, h):
    if h is None or sym.EX is None: return it
    return sym.EX.active_cuts[key].iter(it)


def pv_end(key, L):
    ex = sym.EX
    if ex is None or key not in ex.loops: return
    ex.active_cuts[key].end(L)
    raise PathEnd()


def pv_is(a, b):
    if type(a) is Poison: a._no()
    if type(b) is Poison: b._no()
    return a is b


class Star:
    """a starred operand of symbolic length"""
    def __init__(self, v): self.v = v


def pv_star(x):
    if hasattr(type(x), "sym_map"): return [Star(x)]
    return x


def pv_list(xs):
    if any(type(x) is Star for x in xs): return xs[0].v.sym_cat(xs) if type(xs[0]) is Star else next(x for x in xs if type(x) is Star).v.sym_cat(xs)
    return xs


def pv_ge(key, f, it):
    ex = sym.EX
    if ex is not None:
        c = ex.loops.get(key)
        if c is not None:
            ex.cuts_hit.add(key)
            return c(f, it)
        if hasattr(type(it), "sym_map"): raise Unsupported("generator over a symbolic sequence")
    return (f(x) for x in it)


def pv_lc(key, f, it):
    ex = sym.EX
    if ex is None: return [f(x) for x in it]
    c = ex.loops.get(key)
    if c is not None:
        ex.cuts_hit.add(key)
        return c(f, it)
    if hasattr(type(it), "sym_map"): return it.sym_map(f)
    out = []
    for x in it: out.append(f(x))
    return out


def pv_lf(key, f, it, cond):
    """[f(x) for x in it if cond(x)]"""
    ex = sym.EX
    if ex is not None:
        c = ex.loops.get(key)
        if c is not None:
            ex.cuts_hit.add(key)
            return c(f, it, cond)
        if hasattr(type(it), "sym_map"): raise Unsupported("comprehension with a condition over a symbolic sequence")
    return [f(x) for x in it if cond(x)]


HOOKS = {"__pv_lf__": pv_lf, "__pv_call__": pv_call, "__pv_in__": pv_in, "__pv_fmt__": pv_fmt, "__pv_lc__": pv_lc, "__pv_ge__": pv_ge, "__pv_is__": pv_is, "__pv_star__": pv_star, "__pv_list__": pv_list, "__pv_loop__": pv_loop, "__pv_iter__": pv_iter, "__pv_end__": pv_end}


# -------------------------------------------------------------------------------------------------- frame conditions

MUTATORS = {"append", "extend", "insert", "pop", "popitem", "remove", "clear", "update", "setdefault", "add", "discard", "sort", "reverse", "appendleft", "popleft",
            "intersection_update", "difference_update", "symmetric_difference_update", "__setitem__", "__delitem__"}
SETTERS = {"setattr", "delattr", "__setattr__", "__delattr__"}


class Frame:
    """What existed before the call under contract and is shared by whoever uses the types: classes, fields, cstruct objects,
    expressions, functions, modules (by kind), every object that existed before the path, and the containers these hold."""
    kinds = ()

    def __init__(self, old): self.old, self.held, self.ids, self.stores = old, [], set(), []

    def kind(self, o):
        t = type(o)
        return issubclass(t, type) or t in self.kinds or t in (_types.FunctionType, _types.ModuleType, functools._lru_cache_wrapper) or any(issubclass(t, k) for k in self.kinds)

    def enter(self, args):
        """containers held by the shared objects among the arguments"""
        todo = [(x, 0) for x in args if self.kind(x)]
        for x in args:
            if type(x) is _types.MethodType: todo.append((x.__self__, 0))
            if type(x) is _types.FunctionType and x.__closure__: todo += [(c.cell_contents, 0) for c in x.__closure__ if c.cell_contents is not x]
        seen = set()
        while todo:
            x, d = todo.pop()
            if id(x) in seen: continue
            seen.add(id(x))
            t = type(x)
            if t in (list, dict, set, tuple, frozenset) or issubclass(t, (list, dict, set)):
                if d == 0: continue
                self.ids.add(id(x))
                self.held.append(x)
                if d < 5: todo += [(y, d + 1) for y in (list(dict.values(x)) if issubclass(t, dict) else list.__iter__(x) if issubclass(t, list) else x)]
            elif self.kind(x) and d < 5 and (d == 0 or id(x) not in self.old):
                self.ids.add(id(x))
                self.held.append(x)
                try: vs = list(object.__getattribute__(x, "__dict__").values()) if not issubclass(t, type) else list(type.__getattribute__(x, "__dict__").values())
                except AttributeError: vs = []
                todo += [(y, d + 1) for y in vs]

    def store(self, o, what):
        if o is None: self.stores.append(what)
        elif what == "+=" and type(o) not in (list, dict, set, bytearray): pass
        elif self.kind(o) or id(o) in self.ids or id(o) in self.old: self.stores.append(f"{type(o).__name__}.{what}")


def pv_store(o, what):
    ex = sym.EX
    if ex is not None and ex.frame is not None and ex.in_call: ex.frame.store(o, what)
    return o


def pv_call_target(f, /, *a, **k):
    ex = sym.EX
    if ex is None: return f(*a, **k)
    if ex.frame is not None and ex.in_call:
        nm = getattr(f, "__name__", None) if type(f) is not Poison else None
        if nm in SETTERS and a: ex.frame.store(a[0] if getattr(f, "__self__", None) is builtins or not hasattr(f, "__self__") else f.__self__, str(a[1]) if len(a) > 1 else nm)
        elif nm in MUTATORS and type(f) is _types.BuiltinMethodType: ex.frame.store(f.__self__, nm)
    return pv_call(f, *a, **k)


TARGET_HOOKS = {**HOOKS, "__pv_call__": pv_call_target, "__pv_store__": pv_store}


# --------------------------------------------------------------------------- attribute access on symbolic instances

INHERITED = {c: set(dir(c)) for c in (int, float, str, bytes)}


def sym_getattr(self, name):
    cls = object.__getattribute__(self, "pytype")
    at = object.__getattribute__(self, "attrs")
    if at is not None and name in at: return at[name]
    if name in ("value", "name") and at is not None and "_value_" in at: return at["_value_" if name == "value" else "_name_"]
    for c in cls.__mro__:
        if name in c.__dict__:
            d = c.__dict__[name]
            if c in (int, float, str, bytes, object):
                if name == "real": return self
                raise Unsupported(f"{c.__name__}.{name} on a symbolic value")
            if isinstance(d, _types.FunctionType): return _types.MethodType(d, self)
            if isinstance(d, classmethod): return _types.MethodType(d.__func__, cls)
            if isinstance(d, staticmethod): return d.__func__
            if isinstance(d, property): return d.fget(self)
            if hasattr(type(d), "__get__") and type(d).__name__ in ("_overload", "DynamicClassAttribute", "property"):
                return d.__get__(self, cls)
            return d
    g = getattr(cls, "__getattr__", None)
    if isinstance(g, _types.FunctionType): return g(self, name)
    raise AttributeError(f"{cls.__name__!r} object has no attribute {name!r}")


def sym_setattr(self, name, v):
    if name in type(self).__mro__[0].__slots__ or any(name in getattr(c, "__slots__", ()) for c in type(self).__mro__):
        return object.__setattr__(self, name, v)
    if self.attrs is None: object.__setattr__(self, "attrs", {})
    self.attrs[name] = v


for _c in (SInt, SFloat, SSeq):
    _c.__getattr__ = sym_getattr
    _c.__setattr__ = sym_setattr


# ------------------------------------------------------------- operators overridden by the class a symbolic value has

_OVER = {}
_PLAIN = {int, float, str, bytes, bool, object}


def override(cls, name):
    """the Python-level definition of the operator in the class (None: the built-in one)"""
    k = (cls, name)
    if k in _OVER: return _OVER[k]
    r = None
    for c in cls.__mro__ if isinstance(cls, type) else ():
        if c in _PLAIN: break
        f = c.__dict__.get(name)
        if f is None: continue
        if isinstance(f, _types.FunctionType):
            r = f if f.__module__ and not f.__module__.startswith("enum") else "foreign"
        break
    _OVER[k] = r
    return r


REFLECTED = {"__eq__": "__eq__", "__ne__": "__ne__", "__lt__": "__gt__", "__gt__": "__lt__", "__le__": "__ge__", "__ge__": "__le__"}
REFLECTED.update({f"__{o}__": f"__r{o}__" for o in ("add", "sub", "mul", "floordiv", "mod", "lshift", "rshift", "and", "or", "xor")})


def _dispatch(name, orig):
    refl = REFLECTED.get(name)
    def op(self, *a):
        c = self.pytype
        if refl is not None and a and is_sym(a[0]) and a[0].pytype is not c and not isinstance(a[0], SBool):
            d = a[0].pytype
            if d not in _PLAIN and isinstance(d, type) and isinstance(c, type) and issubclass(d, c):
                f = override(d, refl)
                if f == "foreign": raise Unsupported(f"{d.__name__}.{refl}")
                if f is not None:
                    r = f(a[0], self)
                    if r is not NotImplemented: return r
        if c in _PLAIN: return orig(self, *a)
        f = override(c, name)
        if f is None: return orig(self, *a)
        if f == "foreign": raise Unsupported(f"{c.__name__}.{name}")
        return f(self, *a)
    op.__name__ = name
    return op


def _plain_hash(self): raise Unsupported("hash of a symbolic value")


for _n in list(REFLECTED) + ["__bool__", "__invert__", "__neg__"]:
    for _c in (SInt, SFloat, SSeq):
        if _n in _c.__dict__: setattr(_c, _n, _dispatch(_n, _c.__dict__[_n]))


def sint_len(self):
    f = override(self.pytype, "__len__")
    if f in (None, "foreign"): raise TypeError(f"object of type '{self.pytype.__name__}' has no len()")
    return f(self)


SInt.sym_len = sint_len


def overridden_getattr(cls):
    """p.__add__ where the class of p overrides it"""
    def ga(self, name):
        if name[:2] == "__" and name in REFLECTED:
            c = object.__getattribute__(self, "pytype")
            if c not in _PLAIN:
                f = override(c, name)
                if f is not None and f != "foreign": return _types.MethodType(f, self)
        return object.__getattribute__(self, name)
    return ga


for _c in (SInt, SFloat, SSeq): _c.__getattribute__ = overridden_getattr(_c)
