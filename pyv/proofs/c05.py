"""C05 scalar codecs: contracts of every scalar _read/_write for any stream, any position, any value."""
import z3

from pyv import sym
from pyv.engine import Cut
from pyv.sym import SInt, Sym, mkb
from pyv.proofkit import proof, fresh_int, iv
from pyv import ref as R
from pyv.real import cstruct

ENDIAN = ("<", ">", "!", "=", "@", "network")
LITTLE = {"<": True, ">": False, "!": False, "=": True, "@": True, "network": False}
INTS = list(R.INT_TYPES)
CS = {}


def cs_of(e):
    if e not in CS: CS[e] = cstruct(endian=e)
    return CS[e]


def int_cases():
    out = {}
    for n in INTS:
        for e in ("<", ">", "!"): out[f"{n}{e}"] = (n, e)
    return out


def spec_view(s, off, n): return [s.at(off + i) for i in range(n)]


@proof("C05 C08 C09 C14 C15 C01 C02", "Packed._read Packed._read_array Int._read MetaType.read", int_cases)
def int_read(X, case):
    """For every stream, position and content: with at least w bytes left the value is the w-byte two's-complement
    integer in the instance's byte order and the stream advances by exactly w; otherwise EOFError."""
    name, e = case
    T = getattr(cs_of("<"), name)
    T.cs.endian = e   # set after the type was made
    w, signed, _ = R.INT_TYPES[name]
    s = X.stream("s")
    p = s.tell()
    out = X.call(T._read, s)
    if X.truth(s.N - p >= w):
        X.check(out.ok, "no error", outcome=out)
        X.check(out.value == R.dec_int(spec_view(s, p, w), LITTLE[e], signed), "value", outcome=out)
        X.check(isinstance(out.value, T), "type of the value", outcome=out)
        X.check(s.tell() == p + w, "position", outcome=out)
    else:
        X.check(out.raised(EOFError), "premature end is an EOFError", outcome=out)


@proof("C05 C01 C14 C15 C02", "Packed._write Int._write", int_cases)
def int_write(X, case):
    """For every integer: representable values are written as their encoding, every other value is rejected and
    nothing is written."""
    name, e = case
    T = getattr(cs_of("<"), name)
    T.cs.endian = e
    w, signed, _ = R.INT_TYPES[name]
    lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if signed else (0, (1 << (8 * w)) - 1)
    v = X.bigint("v")
    o = X.sink("o")
    out = X.call(T._write, o, v)
    if X.truth(v >= lo) and X.truth(v <= hi):
        X.check(out.ok, "no error", outcome=out)
        X.check(len(o.written()) == w, "size", outcome=out)
        X.check(R.dec_int(o.written(), LITTLE[e], signed) == v, "encoding", outcome=out)
    else:
        X.check(not out.ok, "a value that does not fit is rejected", outcome=out)
        X.check(len(o.written()) == 0, "nothing is written", outcome=out)


# ------------------------------------------------------------------------------------------------------- LEB128

class LebSpec:
    """Spec of the digits of a LEB128 number at position p of a stream (mathematical definitions, by recursion on k):
    val(0) = 0, val(k+1) = val(k) + (byte(p+k) mod 128) * 2^(7k);  cont(0), cont(k+1) = cont(k) and byte(p+k) >= 128"""
    def __init__(self, byte):
        self.byte = byte
        self.V = z3.Function("val", z3.IntSort(), z3.IntSort())
        self.C = z3.Function("cont", z3.IntSort(), z3.BoolSort())
        ex = sym.EX
        ex.assume_t(self.V(z3.IntVal(0)) == 0)
        ex.assume_t(self.C(z3.IntVal(0)))

    def val(self, k): return SInt(self.V(k), None, None)

    def p2(self, k):
        sym.EX.learn_pow2(7 * k)
        return sym.POW2(7 * k)

    def unfold(self, k):
        """definitions at k"""
        ex = sym.EX
        b = self.byte(SInt(k, 0, None)).t
        P, Q = self.p2(k), self.p2(k + 1)
        ex.assume_t(z3.Implies(k >= 0, Q == 128 * P))
        ex.assume_t(self.V(k + 1) == self.V(k) + (b % 128) * P)
        ex.assume_t(self.C(k + 1) == z3.And(self.C(k), b >= 128))


class LebRead(Cut):
    """At the head, after k bytes: result = val(k) < 2^(7k), shift = 7k, the k bytes are consumed and all continue."""
    def __init__(self, s, p, spec): self.s, self.p, self.spec = s, p, spec

    def inv(self, L, k):
        sp = self.spec
        return [("result", L[self.r] == sp.val(k)), ("bounds", mkb(z3.And(sp.V(k) >= 0, sp.V(k) < sp.p2(k)))), ("shift", L[self.sh] == SInt(7 * k, None, None)),
                ("position", self.s.pos == self.p + SInt(k, 0, None)), ("continuation", mkb(sp.C(k)))]

    def enter(self, L, it):
        self.r, self.sh = self.roles(L, ("result", lambda v: v == 0), ("shift", lambda v: v == 0))
        self.spec.unfold(z3.IntVal(0))
        for n, c in self.inv(L, z3.IntVal(0)): sym.EX.shape(c, f"LEB128._read loop: {n} initially")

    def havoc(self, L):
        k = fresh_int("k", 0).t
        self.k = k
        self.s.pos = self.p + SInt(k, 0, None)
        self.spec.unfold(k)
        h = {self.r: self.spec.val(k), self.sh: SInt(7 * k, 0, None)}
        for n, c in self.inv(h, k): sym.EX.assume(c)
        return h

    def end(self, L):
        for n, c in self.inv(L, self.k + 1): sym.EX.oblige(c, f"LEB128._read loop: {n} preserved")


@proof("C05 C08 C09 C14 C15 C01 C02", "LEB128._read", ("uleb128", "ileb128"))
def leb_read(X, case):
    """For every stream and position: the value is the number encoded by the bytes up to and including the first one
    below 128 (sign-extended from bit 6 of the last one when signed); exactly these are consumed; else EOFError."""
    T = getattr(cs_of("<"), case)
    s = X.stream("s", mode="int")
    p = s.tell()
    if X.symbolic:
        sp = LebSpec(lambda k: s.at(p + k))
        cut = LebRead(s, p, sp)
        X.loop("LEB128._read:1", cut)
        out = X.call(T._read, s)
        k = cut.k
        b = s.at(p + SInt(k, 0, None))
        if out.ok:
            v = sp.val(k + 1)
            if case == "ileb128" and X.truth(b % 128 >= 64): v = v - SInt(sp.p2(k + 1), None, None)
            X.check(mkb(sp.C(k)), "only continuation bytes before the last")
            X.check(b < 128, "the last byte ends the number")
            X.check(p + SInt(k, 0, None) < s.N, "all bytes are from the stream")
            X.check(out.value == v, "value")
            X.check(isinstance(out.value, T), "type of the value")
            X.check(s.tell() == p + SInt(k + 1, 0, None), "position")
        else:
            X.check(out.raised(EOFError), "premature end is an EOFError")
            X.check(X.all([mkb(sp.C(k)), p + SInt(k, 0, None) >= s.N]), "error only when the input ends inside the number")
        return
    out = X.call(T._read, s)
    v, k = 0, 0
    while p + k < s.N:
        b = s.at(p + k)
        v += (b & 127) << (7 * k)
        k += 1
        if b < 128:
            if case == "ileb128" and b & 64: v -= 1 << (7 * k)
            X.check(out.ok and out.value == v, "value", outcome=out, expected=v)
            X.check(s.tell() == p + k, "position")
            return
    X.check(out.raised(EOFError), "premature end is an EOFError", outcome=out)


class LebWrite(Cut):
    """After k bytes: value = val(k) + data * 2^(7k) over the written bytes, all of which continue, and data is still
    needed (k = 0 or the number is not finished)."""
    def __init__(self, v, spec, signed): self.v, self.spec, self.signed = v, spec, signed

    def enter(self, L, it):
        self.d, self.o = self.roles(L, ("data", lambda x: x is self.v or isinstance(x, int)), ("result", lambda x: isinstance(x, bytearray)))
        ex = sym.EX
        ex.shape(len(L[self.o]) == 0, "LEB128._write loop: nothing written initially")
        ex.shape(L[self.d] == self.v, "LEB128._write loop: value initially")

    def havoc(self, L):
        ex = sym.EX
        k = fresh_int("k", 0).t
        d = fresh_int("d")
        self.k, self.dk = k, d
        sp = self.spec
        P = sp.p2(k)
        ex.assume_t(sp.V(k) >= 0)
        ex.assume_t(sp.V(k) < P)
        ex.assume_t(sp.C(k))
        ex.assume_t(self.v.t == sp.V(k) + d.t * P)
        if not self.signed: ex.assume_t(d.t >= 0)
        ex.assume_t(z3.Implies(k == 0, d.t == self.v.t))
        ex.assume_t(z3.Implies(k > 0, self.needed(d.t, sp.last)))
        self.out = Digits(k)
        return {self.d: d, self.o: self.out}

    def needed(self, d, last):
        """what remains after the previous digit `last` is not already expressed by it (minimality)"""
        if not self.signed: return d != 0
        return z3.And(z3.Not(z3.And(d == 0, last < 64)), z3.Not(z3.And(d == -1, last >= 64)))

    def end(self, L):
        ex = sym.EX
        sp, k = self.spec, self.k
        o = L[self.o]
        ex.oblige(o is self.out and len(o.new) == 1, "LEB128._write loop: one byte per iteration")
        b = o.new[0]
        ex.assume_t(sp.B(k) == b.t)
        sp.unfold(k)
        P = sp.p2(k + 1)
        ex.oblige(mkb(sp.C(k + 1)), "LEB128._write loop: continuation")
        ex.oblige(mkb(z3.And(sp.V(k + 1) >= 0, sp.V(k + 1) < P)), "LEB128._write loop: bounds")
        ex.oblige(mkb(self.v.t == sp.V(k + 1) + iv(L[self.d]) * P), "LEB128._write loop: value preserved")
        ex.oblige(mkb(self.needed(iv(L[self.d]), b.t % 128)), "LEB128._write loop: minimality")
        if not self.signed: ex.oblige(L[self.d] >= 0, "LEB128._write loop: sign")


class Digits(Sym):
    """bytearray with k unknown bytes and the ones appended since"""
    __slots__ = ("k", "new")
    pytype = bytearray
    @property
    def __class__(self): return bytearray
    def __init__(self, k): self.k, self.new = k, []
    def append(self, x): self.new.append(x if isinstance(x, SInt) else SInt(z3.IntVal(x), x, x))
    def sym_len(self): return SInt(self.k + len(self.new), 0, None)
    def sym_write(self, sink):
        sink.chunks.append(self)
        return self.sym_len()


@proof("C05 C01 C14 C15 C02", "LEB128._write", ("uleb128", "ileb128"))
def leb_write(X, case):
    """For every integer: the written bytes are the minimal LEB128 encoding of it (all but the last continue; their value
    by the definition used for reading is the number); a negative number is rejected by the unsigned type."""
    T = getattr(cs_of("<"), case)
    signed = case == "ileb128"
    v = X.bigint("v")
    o = X.sink("o")
    if X.symbolic:
        B = z3.Function("written", z3.IntSort(), z3.IntSort())
        sp = LebSpec(lambda k: SInt(B(iv(k)), 0, 255))
        sp.B, sp.last = B, z3.Int("last")
        cut = LebWrite(v, sp, signed)
        X.loop("LEB128._write:1", cut)
        out = X.call(T._write, o, v)
        if not signed and X.truth(v < 0):
            X.check(not out.ok, "a negative value is rejected")
            X.check(not o.items and not o.chunks, "nothing is written")
            return
        X.check(out.ok, "no error")
        X.check(len(o.chunks) == 1 and not o.items and o.chunks[0] is cut.out and len(cut.out.new) == 1, "exactly the encoding is written")
        k = cut.k
        b = cut.out.new[0]
        X.check(out.value == SInt(k + 1, 0, None), "number of bytes")
        X.check(X.all([b >= 0, b < 128]), "the last byte ends the number")
        sym.EX.assume_t(B(k) == b.t)
        sp.unfold(k)
        e = sp.val(k + 1)
        if signed and X.truth(b % 128 >= 64): e = e - SInt(sp.p2(k + 1), None, None)
        X.check(e == v, "the bytes encode the value")
        X.check(mkb(sp.C(k)), "only continuation bytes before the last")
        if not signed: X.check(mkb(z3.Implies(k > 0, b.t != 0)), "minimal")
        else: X.check(mkb(z3.Implies(k > 0, z3.Not(z3.Or(z3.And(b.t == 0, sp.last < 64), z3.And(b.t == 127, sp.last >= 64))))), "minimal")
        return
    out = X.call(T._write, o, v)
    w = o.written()
    if not signed and v < 0:
        X.check(not out.ok and not w, "a negative value is rejected", outcome=out)
        return
    X.check(out.ok and out.value == len(w), "number of bytes", outcome=out)
    e = sum((b & 127) << (7 * i) for i, b in enumerate(w))
    if signed and w[-1] & 64: e -= 1 << (7 * len(w))
    X.check(e == v and all(b >= 128 for b in w[:-1]) and w[-1] < 128, "the bytes encode the value", got=bytes(w), value=v)
    if len(w) > 1:
        X.check(not (w[-1] == 0 and (not signed or not w[-2] & 64)) and not (signed and w[-1] == 127 and w[-2] & 64), "minimal", got=bytes(w), value=v)
