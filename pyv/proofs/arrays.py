"""C07 arrays and strings: contracts of array readers and writers for every count, stream and content."""
import struct

from pyv import sym
from pyv.engine import Cut
from pyv.sym import SInt
from pyv.proofkit import proof, fresh_int, SymList, SymTotal, Ghost, Buf, AnyEnc, BufStr, Cat, EncList, AbsIO, exact
from pyv.absobj import Val
from pyv import ref as R
from pyv.real import cstruct
from pyv.proofs.c05 import cs_of, LITTLE, INTS
from dissect.cstruct.exceptions import ArraySizeError
from dissect.cstruct.expression import Expression
from dissect.cstruct.types.base import MetaType, BaseType, BaseArray, Array, EOF
from dissect.cstruct.types.char import Char, CharArray
from dissect.cstruct.types.wchar import Wchar
from dissect.cstruct.types.leb128 import LEB128
from dissect.cstruct.types.structure import StructureMetaType

PACKED = [n for n in INTS if n not in ("int24", "uint24", "int48", "uint48", "int128", "uint128")]


def elem_type(X, log, names=None):
    """an arbitrary element type: a read fails, or yields a value and moves the stream on by at least one byte"""
    class T(BaseType):
        @classmethod
        def _read(cls, stream, context=None):
            q = stream.tell()
            k = X.pick(f"elem{len(log)}", ("ok", "eof", "error"))
            if k != "ok":
                e = EOFError("end of input") if k == "eof" else RuntimeError("failure")
                stream.seek(q + X.bigint(f"elem{len(log)}.partial", 0, 5))
                log.append((q, context, None, e, stream.tell()))
                raise e
            n = X.bigint(f"elem{len(log)}.size", 1, 9)
            v = Val(("element", len(log)))
            stream.seek(q + n)
            log.append((q, context, v, None, stream.tell()))
            return v
    return T


# --------------------------------------------------------------------------------------------- generic array reading

class CountedCut:
    """[cls._read(stream, context) for _ in range(count)]: the k-th element is read where the previous one ended"""
    def __init__(self, X, s, count, log, ctx): self.X, self.s, self.count, self.log, self.ctx, self.list = X, s, count, log, ctx, None

    def __call__(self, f, it):
        ex = sym.EX
        from pyv.engine import SRange, PathEnd
        ex.shape(exact(it) is SRange and bool(it.start == 0) and bool(it.step == 1), "one element per count")
        ex.oblige(it.stop == self.count, "_read_array: as many elements as asked for")
        ex.oblige(self.s.pos == self.s.start, "_read_array: the first element starts where the stream is")
        q = fresh_int("place", 0)
        self.s.pos = q
        del self.log[:]
        if ex.choose(2) == 0:
            k = fresh_int("k", 0)
            ex.assume(k < it.stop)
            v = f(k)
            ex.oblige(len(self.log) == 1 and bool(self.log[0][0] == q), "_read_array: each element is read once, where the previous one ended")
            ex.oblige(self.log[0][1] is self.ctx, "_read_array: with the context")
            ex.oblige(v is self.log[0][2], "_read_array: and is an element of the result")
            ex.oblige(self.s.pos == self.log[0][4], "_read_array: the stream is left at its end")
            raise PathEnd()
        self.end = q
        self.list = SymList(it.stop, lambda i: None)
        return self.list


@proof("C07 C08 C09 C02 C14 C15 C01", "MetaType._read_array", (None,))
def read_counted(X, case):
    """For every element type, stream and count: exactly count elements, in order, each read once where the previous one
    ended; an error of an element is the outcome."""
    log = []
    T = elem_type(X, log)
    s = X.stream("s", mode="int")
    count = X.bigint("count", 0) if X.symbolic else X.bigint("count", 0, 6)
    ctx = {"a": 1}
    start = s.tell()
    if X.symbolic:
        cut = CountedCut(X, s, count, log, ctx)
        X.loop("MetaType._read_array:lc1", cut)
        out = X.call(MetaType._read_array, T, s, count, ctx)
        if out.ok:
            X.check(out.value is cut.list, "the result is exactly these elements")
            X.check(s.tell() == cut.end, "the stream is left at the end of the last one")
        else: X.check(any(e[3] is out.exc for e in log), "only errors of an element", outcome=out)
        return
    out = X.call(MetaType._read_array, T, s, count, ctx)
    bad = [e for e in log if e[3] is not None]
    if bad:
        X.check(out.exc is bad[0][3] and log[-1] is bad[0], "an error of an element is the outcome", outcome=out)
        return
    X.check(out.ok and len(out.value) == count and [e[2] for e in log] == list(out.value), "exactly count elements in order", outcome=out)
    places = [start] + [e[4] for e in log]
    X.check(all(e[0] == q and e[1] is ctx for e, q in zip(log, places)), "each read once where the previous one ended")
    X.check(s.tell() == places[-1], "the stream is left at the end of the last one")


class EofCut(Cut):
    def __init__(self, X, s, log): self.X, self.s, self.log = X, s, log

    def enter(self, L, it):
        (self.r,) = self.roles(L, ("result", lambda v: type(v) is list and not v))
        sym.EX.shape(self.s.pos == self.s.start, "_read_array EOF: starts where the stream is")

    def havoc(self, L):
        self.q = fresh_int("place", 0)
        self.s.pos = self.q
        self.g = Ghost(fresh_int("m", 0))
        del self.log[:]
        return {self.r: self.g}

    def end(self, L):
        ex = sym.EX
        ex.oblige(L[self.r] is self.g and len(self.log) == 1 and len(self.g.new) == 1 and self.g.new[0] is self.log[0][2] and bool(self.log[0][0] == self.q),
                  "_read_array EOF: one more element per iteration, read where the previous one ended")
        ex.oblige(self.s.pos == self.log[0][4], "_read_array EOF: the stream is left at its end")


@proof("C07 C08 C09 C02 C14 C15 C01", "MetaType._read_array", (None,))
def read_to_eof(X, case):
    """x[EOF] of any element type: every whole element up to the end of the input; a partial element at the end is not
    consumed; any other error is the outcome."""
    log = []
    T = elem_type(X, log)
    s = X.stream("s", mode="int")
    ctx = {"a": 1}
    start = s.tell()
    if X.symbolic:
        cut = EofCut(X, s, log)
        X.loop("MetaType._read_array:1", cut)
        out = X.call(MetaType._read_array, T, s, EOF, ctx)
        if not out.ok:
            X.check(len(log) == 1 and log[0][3] is out.exc and not out.raised(EOFError), "only errors of an element other than the end of the input", outcome=out)
            return
        X.check(out.value is cut.g and not cut.g.new, "the result is exactly the elements read")
        if log:
            X.check(isinstance(log[0][3], EOFError) and log[0][0] == cut.q, "it ends early only at a partial element")
            X.check(cut.q < s.N, "of which there are bytes")
        else:
            X.check(cut.q >= s.N, "otherwise at the end of the input")
        X.check(s.tell() == cut.q, "the stream is left after the last whole element")
        return
    out = X.call(MetaType._read_array, T, s, EOF, ctx)
    bad = [e for e in log if e[3] is not None]
    good = [e for e in log if e[3] is None]
    places = [start] + [e[4] for e in good]
    if bad and not isinstance(bad[0][3], EOFError):
        X.check(out.exc is bad[0][3], "an error of an element is the outcome", outcome=out)
        return
    X.check(out.ok and list(out.value) == [e[2] for e in good], "exactly the whole elements", outcome=out)
    X.check(all(e[0] == q for e, q in zip(good, places)), "each read where the previous one ended")
    X.check(s.tell() == places[-1] and (bad or places[-1] >= s.N), "up to the end of the input")


# ----------------------------------------------------------------------------------------------- arrays of numbers

def packed_cases(): return {f"{n}{e}": (n, e) for n in PACKED for e in ("<", ">", "!")}


@proof("C07 C05 C08 C09 C14 C15 C01 C02", "Packed._read_array _struct", packed_cases)
def packed_array(X, case):
    """For every count, stream and content: exactly count numbers, the k-th decoded from bytes k*w.. of the input, and
    count*w bytes consumed; EOFError when there are fewer."""
    name, e = case
    T = getattr(cs_of("<"), name)
    T.cs.endian = e
    w, signed, _ = R.INT_TYPES[name]
    s = X.stream("s", mode="int")
    p = s.tell()
    n = X.bigint("count", 0) if X.symbolic else X.bigint("count", 0, 12)
    out = X.call(T._read_array, s, n)
    left = s.N - p
    if X.truth(left >= n * w) or X.truth(n == 0):
        X.check(out.ok, "no error", outcome=out)
        X.check(len(out.value) == n, "exactly count elements", outcome=out)
        X.check(s.tell() == p + n * w, "position")
        for k in X.each(n): X.check(out.value[k] == R.dec_int([s.at(p + k * w + j) for j in range(w)], LITTLE[e], signed) and isinstance(out.value[k], T), "element", outcome=out)
    else: X.check(out.raised(EOFError), "premature end is an EOFError", outcome=out)


@proof("C07 C05 C08 C09 C14 C15 C01 C02", "Packed._read_array", packed_cases)
def packed_eof(X, case):
    """x[EOF] of numbers: every remaining whole element, and the stream left after the last one."""
    name, e = case
    T = getattr(cs_of("<"), name)
    T.cs.endian = e
    w, signed, _ = R.INT_TYPES[name]
    s = X.stream("s", mode="int")
    p = s.tell()
    out = X.call(T._read_array, s, EOF)
    left = s.N - p
    n = left // w if X.truth(left > 0) else 0
    X.check(out.ok, "no error", outcome=out)
    X.check(len(out.value) == n, "every whole element", outcome=out)
    X.check(s.tell() == p + n * w, "the stream is left after the last whole element")
    for k in X.each(n): X.check(out.value[k] == R.dec_int([s.at(p + k * w + j) for j in range(w)], LITTLE[e], signed), "element", outcome=out)


@proof("C07 C05 C14 C15 C01 C02", "Packed._read_array", lambda: {f"{n}{e}": (n, e) for n in R.FLOAT_TYPES for e in ("<", ">", "!")})
def float_array(X, case):
    """Arrays of floats: the k-th is the IEEE-754 number of bytes k*w.. of the input, for every count."""
    name, e = case
    T = getattr(cs_of("<"), name)
    T.cs.endian = e
    w = R.FLOAT_TYPES[name]
    s = X.stream("s", mode="bv")
    p = s.tell()
    n = X.bigint("count", 0) if X.symbolic else X.bigint("count", 0, 12)
    out = X.call(T._read_array, s, n)
    if X.truth(s.N - p >= n * w) or X.truth(n == 0):
        X.check(out.ok, "no error", outcome=out)
        X.check(len(out.value) == n, "exactly count elements", outcome=out)
        X.check(s.tell() == p + n * w, "position")
        for k in X.each(n):
            b = R.dec_uint([s.at(p + k * w + j) for j in range(w)], LITTLE[e])
            X.check(X.float_is(out.value[k], w, b), "element", outcome=out)
    else: X.check(out.raised(EOFError), "premature end is an EOFError", outcome=out)


@proof("C05 C08 C09 C01 C14 C15 C02", "Packed._read Packed._write", lambda: {f"{n}{e}": (n, e) for n in R.FLOAT_TYPES for e in ("<", ">", "!")})
def float_scalar(X, case):
    """A float is the IEEE-754 number of its w bytes; writing it gives these bytes back (NaNs aside)."""
    name, e = case
    T = getattr(cs_of("<"), name)
    T.cs.endian = e
    w = R.FLOAT_TYPES[name]
    s = X.stream("s", mode="bv")
    p = s.tell()
    out = X.call(T._read, s)
    if X.truth(s.N - p >= w):
        X.check(out.ok, "no error", outcome=out)
        bs = [s.at(p + j) for j in range(w)]
        b = R.dec_uint(bs, LITTLE[e])
        X.check(X.float_is(out.value, w, b), "value", outcome=out)
        X.check(s.tell() == p + w, "position")
        if X.truth(X.float_nan(w, b)): return
        o = X.sink("o")
        r = X.call(T._write, o, out.value)
        X.check(r.ok and r.value == w, "written", outcome=r)
        X.check(X.all([x == y for x, y in zip(o.written(), bs)]) and len(o.written()) == w, "the same bytes", outcome=r)
    else: X.check(out.raised(EOFError), "premature end is an EOFError", outcome=out)


@proof("C07 C05 C01 C14 C15 C02", "Packed._write_array", packed_cases)
def packed_write(X, case):
    """For every list: the encodings of its elements in order, nothing else; one that does not fit is rejected and nothing
    is written."""
    name, e = case
    T = getattr(cs_of("<"), name)
    T.cs.endian = e
    w, signed, _ = R.INT_TYPES[name]
    lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if signed else (0, (1 << (8 * w)) - 1)
    o = X.sink("o")
    if X.symbolic:
        import z3
        V = z3.Function("element", z3.IntSort(), z3.IntSort())
        n = X.bigint("count", 0)
        data = SymList(n, lambda i: SInt(V(sym.to_int(sym.as_sint(i)).t), None, None))
        out = X.call(T._write_array, o, data)
        if not out.ok:
            X.check(not o.items and not o.chunks, "nothing is written when rejected", outcome=out)
            X.check(out.raised(struct.error, OverflowError, TypeError), "rejected", outcome=out)
            return
        X.check(out.value == n * w, "number of bytes", outcome=out)
        X.check(len(o.chunks) == 1 and not o.items and exact(o.chunks[0]) is EncList and o.chunks[0].v is data and o.chunks[0].w == w, "exactly the elements are written, in order")
        for k in X.each(n):
            v = data.fn(k)
            X.assume(v >= lo)
            X.assume(v <= hi)
            X.check(R.dec_int(o.chunks[0].enc(v).items, LITTLE[e], signed) == v, "encoding of an element")
        return
    data = [X.bigint(f"v{i}") for i in range(X.bigint("count", 0, 5))]
    if X.pick("fit", (True, True, False)): data = [lo + (v - lo) % (hi - lo + 1) for v in data]
    out = X.call(T._write_array, o, data)
    if all(lo <= v <= hi for v in data):
        X.check(out.ok and out.value == len(data) * w, "number of bytes", outcome=out)
        X.check(o.written() == [b for v in data for b in v.to_bytes(w, "little" if LITTLE[e] else "big", signed=signed)], "encodings in order")
    else: X.check(not out.ok and not o.written(), "rejected", outcome=out)


# --------------------------------------------------------------------------------------------------- null-terminated

class ZeroCut(Cut):
    """after m elements, none of them zero: the stream stands after the m-th"""
    def __init__(self, s, w): self.s, self.w = s, w

    def enter(self, L, it):
        (self.r,) = self.roles(L, ("result", lambda v: type(v) is list and not v))
        sym.EX.shape(self.s.pos == self.s.start, "_read_0: starts where the stream is")

    def havoc(self, L):
        m = fresh_int("m", 0)
        self.q = self.s.start + m * self.w if self.w else fresh_int("place", 0)
        self.s.pos = self.q
        self.g = Ghost(m)
        return {self.r: self.g}

    def end(self, L):
        ex = sym.EX
        ex.oblige(L[self.r] is self.g and len(self.g.new) == 1, "_read_0: one element per iteration")
        self.check(self.g.new[0])


@proof("C07 C08 C09 C02 C14 C15 C01", "Packed._read_0 Int._read_0", lambda: {f"{n}{e}": (n, e) for n in INTS for e in "<>"})
def number_read_0(X, case):
    """x[] of numbers: the elements before the first zero, which is consumed; EOFError when the input ends before one."""
    name, e = case
    T = getattr(cs_of("<"), name)
    T.cs.endian = e
    w, signed, _ = R.INT_TYPES[name]
    s = X.stream("s", mode="int")
    p = s.tell()
    at = lambda q: R.dec_int([s.at(q + j) for j in range(w)], LITTLE[e], signed)
    if X.symbolic:
        cut = ZeroCut(s, w)
        def check(v):
            ex = sym.EX
            ex.oblige(isinstance(v, T), "_read_0: elements of the type")
            ex.oblige(s.pos == cut.q + w, "_read_0: the stream stands after the element")
            ex.oblige(sym.band(v == at(cut.q), v != 0), "_read_0: the element where the previous one ended, not zero")
        cut.check = check
        X.loop("Int._read_0:1" if name in ("int24", "uint24", "int48", "uint48", "int128", "uint128") else "Packed._read_0:1", cut)
        out = X.call(T._read_0, s)
        if out.ok:
            X.check(out.value is cut.g and not cut.g.new, "exactly the elements before the zero")
            X.check(s.N - cut.q >= w and at(cut.q) == 0, "ends at a zero element of the input")
            X.check(s.tell() == cut.q + w, "which is consumed")
        else: X.check(out.raised(EOFError) and s.N - cut.q < w, "error only when the input ends before a zero", outcome=out)
        return
    out = X.call(T._read_0, s)
    want, q = [], p
    while s.N - q >= w:
        v = at(q)
        q += w
        if v == 0:
            X.check(out.ok and list(out.value) == want and s.tell() == q, "elements before the zero", outcome=out, expected=want)
            return
        want.append(v)
    X.check(out.raised(EOFError), "premature end is an EOFError", outcome=out)


@proof("C07 C08 C09 C14 C15 C01 C02", "LEB128._read_0", ("uleb128", "ileb128"))
def leb_read_0(X, case):
    """x[] of LEB128 numbers: the elements before the first zero, which is consumed; an error of an element is the outcome."""
    T = getattr(cs_of("<"), case)
    log = []
    s = X.stream("s", mode="int")

    def read(cls, stream, context=None):
        """contract of LEB128._read (proved by leb_read)"""
        q = stream.pos
        if X.pick("fails", (False, True)):
            e = EOFError()
            log.append((cls, q, None, e))
            raise e
        v = fresh_int("value").with_type(cls, {})
        stream.pos = q + fresh_int("len", 1)
        log.append((cls, q, v, stream.pos))
        return v
    if not X.symbolic:
        out = X.call(T._read_0, s)
        s2 = type(s)(s.data, s.start)
        want = []
        try:
            while v := T._read(s2): want.append(v)
        except EOFError:
            X.check(out.raised(EOFError), "premature end", outcome=out)
            return
        X.check(out.ok and list(out.value) == want and s.tell() == s2.tell(), "elements before the zero", outcome=out)
        return
    sym.EX.stubs[LEB128.__dict__["_read"].__func__] = read
    cut = ZeroCut(s, None)
    def check(v):
        ex = sym.EX
        ex.oblige(len(log) == 1 and log[0][0] is T and log[0][1] is cut.q and v is log[0][2], "_read_0: the element where the previous one ended")
        ex.oblige(v != 0, "_read_0: not zero")
        ex.oblige(s.pos == log[0][3], "_read_0: the stream stands after the element")
    cut.check = check
    X.loop("LEB128._read_0:1", cut)
    out = X.call(T._read_0, s)
    X.check(len(log) == 1 and log[0][0] is T and log[0][1] is cut.q, "reads the element where the previous one ended")
    if out.ok:
        X.check(out.value is cut.g and not cut.g.new and log[0][2] == 0, "exactly the elements before the zero")
        X.check(s.tell() == log[0][3], "which is consumed")
    else: X.check(out.exc is log[0][3], "only errors of an element", outcome=out)


@proof("C07 C08 C09 C14 C15 C01 C02", "StructureMetaType._read_0", (None,))
def struct_read_0(X, case):
    """x[] of structures: the elements before the first falsy (all-zero) one, which is consumed; errors are the outcome."""
    log = []
    s = X.stream("s", mode="int")

    class Obj:
        def __init__(self, zero): self.zero = zero
        def __bool__(self): return not self.zero

    class T(BaseType):
        @classmethod
        def _read(cls, stream, context=None):
            q = stream.tell()
            k = X.pick(f"elem{len(log)}", ("ok", "zero", "error"))
            if k == "error":
                e = EOFError()
                log.append((q, context, None, e, None))
                raise e
            v = Obj(k == "zero")
            stream.seek(q + X.bigint(f"elem{len(log)}.size", 1, 9))
            log.append((q, context, v, None, stream.tell()))
            return v
    ctx = {"a": 1}
    if X.symbolic:
        cut = ZeroCut(s, None)
        cut.check = lambda v: sym.EX.oblige(len(log) == 1 and log[0][0] is cut.q and log[0][1] is ctx and v is log[0][2] and not v.zero and s.pos is log[0][4], "_read_0: the element where the previous one ended, not zero")
        X.loop("StructureMetaType._read_0:1", cut)
        out = X.call(StructureMetaType._read_0, T, s, ctx)
        X.check(len(log) == 1 and log[0][0] is cut.q, "reads the element where the previous one ended")
        if out.ok: X.check(out.value is cut.g and not cut.g.new and log[0][2].zero and s.tell() is log[0][4], "exactly the elements before the zero one, which is consumed")
        else: X.check(out.exc is log[0][3], "only errors of an element", outcome=out)
        return
    p = s.tell()
    out = X.call(StructureMetaType._read_0, T, s, ctx)
    places = [p] + [e[4] for e in log]
    X.check(all(e[0] == q and e[1] is ctx for e, q in zip(log, places)), "each read where the previous one ended")
    if log[-1][3] is not None: X.check(out.exc is log[-1][3], "an error of an element is the outcome", outcome=out)
    else: X.check(out.ok and log[-1][2].zero and list(out.value) == [e[2] for e in log[:-1]] and s.tell() == places[-1], "the elements before the zero one", outcome=out)


# ------------------------------------------------------------------------------------------------------ generic arrays

class Expr(Expression):
    """an arbitrary expression: evaluates to any integer, or fails"""
    def __init__(self, X, text): self.X, self.expression, self.asked, self.error = X, text, [], None
    def evaluate(self, context=None):
        if self.X.pick("expr.fails", (False, True)):
            self.error = ValueError("unknown name")
            self.asked.append((context, None))
            raise self.error
        v = self.X.bigint("expr.value")
        self.asked.append((context, v))
        return v


@proof("C07 C10 C14 C15 C01 C02", "BaseArray._read Array._read", lambda: {f"{k} {b}": (k, b) for k in ("fixed", "expr", "EOF", "null", "none") for b in ("list", "plain")})
def array_read(X, case):
    """The length of an array: fixed n (negative: 0), max(0, expression over the fields read so far), EOF, or up to the first
    zero; the element type's reader is called once, with the stream, that count and the context; its list is the value."""
    kind, base = case
    log = []
    result = [Val(0), Val(1)]

    class T(BaseType):
        @classmethod
        def _read_array(cls, stream, count, context=None):
            log.append(("array", stream, count, context))
            return result
        @classmethod
        def _read_0(cls, stream, context=None):
            log.append(("zero", stream, None, context))
            return result

    n = X.bigint("n") if kind == "fixed" else Expr(X, "EOF" if kind == "EOF" else "a + b") if kind in ("expr", "EOF") else None
    A = type(Array)("A", (Array if base == "list" else BaseArray,), {"type": T, "num_entries": n, "null_terminated": kind == "null", "size": None, "dynamic": True})
    s = X.stream("s", mode="int")
    p = s.tell()
    ctx = {"a": 1}
    out = X.call(A._read, s, ctx)
    X.check(s.tell() == p, "only the element type reads")
    if kind in ("expr", "EOF"):
        X.check(len(n.asked) == 1 and n.asked[0][0] is ctx, "the expression is evaluated over the fields read so far", got=n.asked)
        if n.error is not None and kind == "expr":
            X.check(out.exc is n.error and not log, "an expression that cannot be evaluated is an error", outcome=out)
            return
    X.check(len(log) == 1 and log[0][1] is s and log[0][3] is ctx, "the element type reads once, with the stream and the context", got=log)
    if kind == "null": X.check(log[0][0] == "zero", "null-terminated")
    else:
        want = n if kind == "fixed" else EOF if kind == "none" or n.error is not None else n.asked[0][1]
        if kind == "fixed" or kind != "none" and n.error is None: want = want if X.truth(want > 0) else 0
        X.check(log[0][0] == "array" and log[0][2] == want, "count", got=log)
    X.check(out.ok and (out.value is result if base == "plain" else isinstance(out.value, A) and list(out.value) == result), "the elements", outcome=out)


@proof("C07 C01 C14 C15 C02", "BaseArray._write", ("fixed", "expr", "null", "none"))
def array_write(X, case):
    """A fixed-size array with another number of elements is refused, nothing written; otherwise all elements are handed to
    the writer of the element type, with the terminator when null-terminated."""
    log = []

    class T(BaseType):
        @classmethod
        def _write_array(cls, stream, data):
            log.append(("array", stream, data))
            return 77
        @classmethod
        def _write_0(cls, stream, data):
            log.append(("zero", stream, data))
            return 78

    n = X.bigint("n", 0) if case == "fixed" else Expr(X, "a") if case == "expr" else None
    A = type(Array)("A", (Array,), {"type": T, "num_entries": n, "null_terminated": case == "null", "size": None, "dynamic": True})
    m = X.bigint("m", 0) if X.symbolic else X.bigint("m", 0, 40)
    if not X.symbolic and case == "fixed" and X.pick("same", (True, False)): A.num_entries = n = m
    data = SymList(m, lambda i: None) if X.symbolic else [None] * m
    o = object()
    out = X.call(A._write, o, data)
    if case == "fixed" and X.truth(n != m):
        X.check(out.raised(ArraySizeError) and not log, "another number of elements is refused", outcome=out)
        return
    X.check(out.ok and out.value == (78 if case == "null" else 77), "number of bytes", outcome=out)
    X.check(len(log) == 1 and log[0][0] == ("zero" if case == "null" else "array") and log[0][1] is o and log[0][2] is data, "all elements are written, once", got=log)


class WriteCut:
    def __init__(self, X, o, data, log): self.X, self.o, self.data, self.log = X, o, data, log

    def __call__(self, f, it):
        ex = sym.EX
        from pyv.engine import PathEnd
        ex.shape(it is self.data, "iterates over the elements, in order")
        del self.log[:]
        if ex.choose(2) == 0:
            k = fresh_int("k", 0)
            ex.assume(k < self.data.n)
            v = self.data.fn(k)
            r = f(v)
            ex.oblige(len(self.log) == 1 and self.log[0][0] is self.o and self.log[0][1] is v, "_write_array: each element is written once")
            ex.oblige(r is self.log[0][2], "_write_array: and counted")
            raise PathEnd()
        self.total = fresh_int("total", 0)
        return SymTotal(self.total)


@proof("C07 C01 C14 C15 C02", "MetaType._write_array MetaType._write_0", ("array", "null"))
def generic_write(X, case):
    """Any element type, any number of elements: each is written once, in order, then the zero value when null-terminated;
    the number of bytes is the sum; an error of an element is the outcome."""
    log = []

    class T(BaseType):
        @classmethod
        def _write(cls, stream, data):
            if X.pick(f"fails{len(log)}", (False, False, True)):
                e = ValueError("does not fit")
                log.append((stream, data, e))
                raise e
            r = X.bigint(f"size{len(log)}", 0, 100)
            log.append((stream, data, r))
            return r
        @classmethod
        def __default__(cls): return zero

    zero = Val("zero")
    o = object()
    if X.symbolic:
        n = X.bigint("n", 0)
        elems = {}
        data = SymList(n, lambda i: elems.setdefault(id(i), (i, Val(("element", i))))[1])
        if case == "array":
            cut = WriteCut(X, o, data, log)
            X.loop("MetaType._write_array:ge1", cut)
            out = X.call(MetaType._write_array, T, o, data)
            if out.ok: X.check(out.value is cut.total, "the sum of the sizes")
            else: X.check(any(e[2] is out.exc for e in log), "only errors of an element", outcome=out)
            return
        calls = []
        T._write_array = lambda stream, array: (calls.append((stream, array)), 77)[1]
        out = X.call(MetaType._write_0, T, o, data)
        X.check(out.ok and out.value == 77 and len(calls) == 1 and calls[0][0] is o, "written once, as an array", outcome=out)
        got = calls[0][1]
        X.shape(exact(got) is SymList, "a list of all elements")
        X.check(got.n == n + 1, "one element more")
        X.check(got.fn(n) is zero, "the zero value last")
        for k in X.each(n): X.check(got.fn(k) is data.fn(k), "all elements, in order")
        return
    data = [Val(i) for i in range(X.bigint("n", 0, 5))]
    f = MetaType._write_array if case == "array" else MetaType._write_0
    out = X.call(f, T, o, list(data))
    want = data + ([zero] if case == "null" else [])
    bad = [e for e in log if isinstance(e[2], ValueError)]
    if bad: X.check(out.exc is bad[0][2], "an error of an element is the outcome", outcome=out)
    else: X.check(out.ok and out.value == sum(e[2] for e in log) and [e[1] for e in log] == want and all(e[0] is o for e in log), "each element once, in order", outcome=out)


@proof("C07 C04", "cstruct._make_array MetaType.__getitem__ MetaType.__len__", ("fixed", "expr", "null", "dynamic"))
def make_array(X, case):
    """The array type of n elements: size n times the element size (negative: 0), alignment of the element; dynamic when the
    length or the element is."""
    made = []
    cs = cstruct()
    cs._make_type = lambda name, bases, size, *, alignment=None, attrs=None: (made.append((bases, size, alignment, attrs)), "T")[1]

    class T(BaseType): pass
    T.cs, T.size, T.dynamic, T.alignment = cs, None if case == "dynamic" else X.bigint("size", 0, 1 << 40), case == "dynamic", X.pick("alignment", (1, 2, 4, 8, 16))
    n = X.bigint("n", None, 1 << 40) if case in ("fixed", "dynamic") else Expr(X, "a") if case == "expr" else None
    out = X.call(lambda: T[n])
    X.check(out.ok and out.value == "T" and len(made) == 1, "one type is made", outcome=out)
    bases, size, alignment, attrs = made[0]
    X.check(len(bases) == 1 and bases[0] is T.ArrayType, "of the array class of the element type")
    X.check(alignment == T.alignment and attrs["type"] is T and attrs["null_terminated"] == (case == "null"), "of the element type and its alignment")
    if case == "fixed":
        c = n if X.truth(n > 0) else 0
        X.check(attrs["num_entries"] == c, "number of elements", got=attrs)
        X.check(size == c * T.size, "size", got=size)
    else: X.check(size is None, "dynamic")


# ---------------------------------------------------------------------------------------------------------- characters

@proof("C07 C05 C08 C09 C14 C15 C01 C02", "Char._read_array Char._read CharArray._read", ("count", "scalar", "array", "EOF"))
def char_array(X, case):
    """char[n]: exactly the next n bytes, for every n; char[EOF]: all of the rest; EOFError when there are fewer."""
    cs = cs_of("<")
    T = cs.char
    s = X.stream("s", mode="int")
    p = s.tell()
    if case == "scalar": n, out = 1, X.call(T._read, s)
    elif case == "EOF": n, out = None, X.call(T._read_array, s, EOF)
    else:
        n = X.bigint("count", 0) if X.symbolic else X.bigint("count", 0, 30)
        if case == "count": out = X.call(T._read_array, s, n)
        else:
            T = type(CharArray)("A", (CharArray,), {"type": T, "num_entries": n, "null_terminated": False, "size": n, "dynamic": False, "cs": cs})
            out = X.call(T._read, s)
    left = s.N - p
    if n is None: n = left if X.truth(left > 0) else 0
    if X.truth(left >= n) or X.truth(n == 0):
        X.check(out.ok and isinstance(out.value, T), "no error", outcome=out)
        X.check(s.tell() == p + n, "position")
        X.check(X.is_slice(out.value, s, p, n), "exactly these bytes", outcome=out)
    else: X.check(out.raised(EOFError), "premature end is an EOFError", outcome=out)


class PiecesCut(Cut):
    """after m units, none of them zero: buf holds exactly the units from the start, the stream stands after them"""
    def __init__(self, s, w): self.s, self.w = s, w

    def enter(self, L, it):
        (self.r,) = self.roles(L, ("buf", lambda v: type(v) is list and not v))
        sym.EX.shape(self.s.pos == self.s.start, "_read_0: starts where the stream is")

    def havoc(self, L):
        s, w = self.s, self.w
        m = fresh_int("m", 0)
        self.m, self.q = m, s.start + m * w
        s.pos = self.q
        # the m units were read, so they are within the input
        sym.EX.assume(sym.bor(m == 0, self.q <= s.N))
        self.g = Ghost(m, lambda: Buf(s, s.start, m * w))
        return {self.r: self.g}

    def end(self, L):
        ex = sym.EX
        s, w, q = self.s, self.w, self.q
        ex.oblige(L[self.r] is self.g and len(self.g.new) == 1, "_read_0: one unit per iteration")
        v = self.g.new[0]
        ex.oblige(len(v) == w, "_read_0: a whole unit")
        ex.oblige(sym.band(*[v[j] == s.at(q + j) for j in range(w)]), "_read_0: the next unit of the input")
        ex.oblige(sym.bor(*[s.at(q + j) != 0 for j in range(w)]), "_read_0: which is not zero")
        ex.oblige(s.pos == q + w, "_read_0: the stream stands after it")


@proof("C07 C05 C08 C09 C02 C14 C15 C01", "Char._read_0 Wchar._read_0", ("char", "wchar<", "wchar>"))
def string_read_0(X, case):
    """char[] / wchar[]: the units before the first zero unit, which is consumed; EOFError when the input ends before one."""
    cs = cs_of("<")
    cs.endian = case[-1] if case != "char" else "<"
    T, w = (cs.char, 1) if case == "char" else (cs.wchar, 2)
    s = X.stream("s", mode="int")
    p = s.tell()
    if X.symbolic:
        cut = PiecesCut(s, w)
        X.loop(f"{'Char' if w == 1 else 'Wchar'}._read_0:1", cut)
        out = X.call(T._read_0, s)
        q = cut.q
        if not out.ok:
            X.check(out.raised(EOFError) and s.N - q < w, "error only when the input ends before a zero", outcome=out)
            return
        X.check(s.N - q >= w, "a zero unit was found")
        X.check(X.all([s.at(q + j) == 0 for j in range(w)]), "it ends at a zero unit of the input")
        X.check(s.tell() == q + w, "which is consumed")
        X.check(isinstance(out.value, T), "type")
        v = out.value
        if w == 2:
            X.check(v == "" if not isinstance(v, BufStr) else v.enc == ("utf-16-le" if case[-1] == "<" else "utf-16-be"), "decoded in the byte order")
            if not isinstance(v, BufStr):
                X.check(cut.m == 0, "empty only when it is")
                return
            v = v.buf
        X.check(X.is_slice(v, s, p, cut.m * w), "exactly the units before it", outcome=out)
        return
    out = X.call(T._read_0, s)
    q = p
    while s.N - q >= w:
        u = s.data[q:q + w]
        q += w
        if not any(u):
            raw = s.data[p:q - w]
            try: want = raw if w == 1 else raw.decode("utf-16-le" if case[-1] == "<" else "utf-16-be")
            except UnicodeDecodeError:
                X.check(not out.ok, "invalid UTF-16 is an error")
                return
            X.check(out.ok and out.value == want and s.tell() == q, "units before the zero", outcome=out, expected=want)
            return
    X.check(out.raised(EOFError), "premature end is an EOFError", outcome=out)


@proof("C07 C05 C08 C09 C14 C15 C01 C02", "Wchar._read_array Wchar._read", ("count<", "count>", "EOF<", "EOF>"))
def wchar_array(X, case):
    """wchar[n]: the next 2n bytes decoded as UTF-16 in the byte order of the instance, for every n; wchar[EOF]: all whole
    characters of the rest; EOFError when there are fewer."""
    cs = cs_of("<")
    cs.endian = case[-1]
    enc = "utf-16-le" if case[-1] == "<" else "utf-16-be"
    T = cs.wchar
    s = X.stream("s", mode="int")
    p = s.tell()
    left = s.N - p
    if case[0] == "E":
        out = X.call(T._read_array, s, EOF)
        n = left // 2 if X.truth(left > 0) else 0
    else:
        n = X.bigint("count", 0) if X.symbolic else X.bigint("count", 0, 15)
        out = X.call(T._read_array, s, n)
    if X.truth(left >= 2 * n) or X.truth(n == 0):
        if not X.symbolic:
            try: want = bytes(s.data[p:p + 2 * n]).decode(enc)
            except UnicodeDecodeError:
                X.check(not out.ok, "invalid UTF-16 is an error", outcome=out)
                return
            X.check(out.ok and out.value == want, "decoded", outcome=out)
        else:
            X.check(out.ok, "no error", outcome=out)
            v = out.value
            if isinstance(v, BufStr): X.check(v.enc == enc and X.is_slice(v.buf, s, p, 2 * n), "decoded from exactly these bytes in the byte order")
            else: X.check(len(v) == 0 and n == 0, "empty only when it is")
        X.check(isinstance(out.value, T), "type")
        X.check(s.tell() == p + 2 * n, "position")
    else: X.check(out.raised(EOFError), "premature end is an EOFError", outcome=out)


@proof("C07 C05 C01 C14 C15 C02", "CharArray._write Char._write", ("array", "null", "scalar"))
def char_write(X, case):
    """Any number of bytes are written as they are, with a terminator when null-terminated."""
    cs = cs_of("<")
    A = type(CharArray)("A", (CharArray,), {"type": cs.char, "num_entries": None, "null_terminated": case == "null", "size": None, "dynamic": True, "cs": cs})
    data = X.data("data")
    o = X.sink("o")
    T = cs.char if case == "scalar" else A
    if case == "scalar": data = X.bytes("c", 1)
    out = X.call(T._write, o, data)
    extra = 1 if case == "null" else 0
    n = len(data) if not X.symbolic or case == "scalar" else data.n
    X.check(out.ok and out.value == n + extra, "number of bytes", outcome=out)
    if case == "scalar" or not X.symbolic:
        X.check(len(o.written()) == n + extra and X.all([a == b for a, b in zip(o.written(), list(data) + [0])]), "the bytes", got=o.written())
        return
    if X.truth(n == 0) and not o.chunks:
        X.check(o.items == [0] * extra, "the terminator only")
        return
    c = o.chunks[0]
    X.check(len(o.chunks) == 1 and not o.items, "written once")
    if extra: X.check(exact(c) is Cat and len(c.parts) == 2 and c.parts[0] is data and c.parts[1] == b"\x00", "the bytes and the terminator")
    else: X.check(c is data, "exactly the bytes")


@proof("C07 C05 C01 C14 C15 C02", "Char._write CharArray._write Wchar._write WcharArray._write", lambda: {f"{t}{e}{n}": (t, e, n) for t in ("char", "chars", "wchar", "wchars") for e in "<>" for n in range(4)}, bounded="strings of at most 3 characters (any characters)")
def text_write(X, case):
    """Strings are written as latin-1 (char) or UTF-16 in the byte order of the instance (wchar), with terminator when
    null-terminated; what cannot be encoded is rejected and nothing is written."""
    t, e, n = case
    cs = cs_of("<")
    cs.endian = e
    wide = t[0] == "w"
    if t[-1] == "s":
        base = cs.wchar.ArrayType if wide else CharArray
        term = X.pick("null", (False, True))
        T = type(base)("A", (base,), {"type": cs.wchar if wide else cs.char, "num_entries": None, "null_terminated": term, "size": None, "dynamic": True, "cs": cs})
    else: T, term = (cs.wchar if wide else cs.char), False
    v = X.str("v", n, 0, 0x10FFFF)
    o = X.sink("o")
    cps = list(v.items) if hasattr(v, "items") else [ord(c) for c in v]
    out = X.call(T._write, o, v)
    want = []
    for c in cps + [0] * term:
        if not wide:
            if X.truth(c > 255):
                X.check(not out.ok and not o.written(), "rejected", outcome=out)
                return
            want.append(c)
            continue
        if X.truth(X.all([c >= 0xD800, c <= 0xDFFF])):
            X.check(not out.ok and not o.written(), "rejected", outcome=out)
            return
        units = [c] if X.truth(c < 0x10000) else [0xD800 + ((c - 0x10000) >> 10), 0xDC00 + ((c - 0x10000) & 0x3FF)]
        for u in units: want += [u & 255, u >> 8] if e == "<" else [u >> 8, u & 255]
    X.check(out.ok and out.value == len(want), "number of bytes", outcome=out)
    X.check(len(o.written()) == len(want) and X.all([a == b for a, b in zip(o.written(), want)]), "the encoding", got=o.written(), want=want)


@proof("C07 C05 C01 C02 C14 C15", "Char._write CharArray._write Wchar._write WcharArray._write", lambda: {f"{t}{e}": (t, e) for t in ("char", "chars", "chars[]", "wchar", "wchars", "wchars[]") for e in "<>"})
def any_text_write(X, case):
    """A string of any content and length is written once, as its encoding (latin-1, or UTF-16 in the byte order of the
    instance), followed by exactly one terminator when null-terminated; what cannot be encoded is rejected and nothing
    is written."""
    t, e = case
    cs = cs_of("<")
    cs.endian = e
    wide, null = t[0] == "w", t.endswith("[]")
    enc = ("utf-16-le" if e == "<" else "utf-16-be") if wide else "iso8859-1"
    T = cs.wchar if wide else cs.char
    if "s" in t:
        base = T.ArrayType
        T = type(base)("A", (base,), {"type": T, "num_entries": None, "null_terminated": null, "size": None, "dynamic": True, "cs": cs})
    v = X.text("v")
    o = X.sink("o")
    out = X.call(T._write, o, v)
    zero = b"\0" * (null * (1 + wide))
    if not X.symbolic:
        try: want = v.encode(enc) + zero
        except UnicodeEncodeError: X.check(not out.ok and not o.written(), "rejected", outcome=out)
        else:
            X.check(out.ok and out.value == len(want), "number of bytes", outcome=out)
            X.check(bytes(o.written()) == want, "the encoding and the terminator", got=o.written(), want=want)
        return
    if not out.ok:
        X.check(out.raised(UnicodeEncodeError) and not o.items and not o.chunks, "rejected only if it cannot be encoded, and nothing is written", outcome=out)
        return
    got = []
    for c in o.chunks: got += c.parts if exact(c) is AnyEnc else [c]
    tail = bytes(o.items) if not o.chunks or len(o.items) else b""
    text, n = v.parts[0], v.n
    merged = AnyEnc(got + [tail]).parts if all(type(q) in (tuple, bytes) for q in got) else got
    want = AnyEnc([(text, enc), zero]).parts
    if merged != want and X.truth(n == 0): want = AnyEnc([zero]).parts
    X.check(merged == want, "exactly the encoding and the terminator", got=merged)
    X.check(out.value == text.size(enc) + len(zero) or X.truth(n == 0), "number of bytes", outcome=out)
