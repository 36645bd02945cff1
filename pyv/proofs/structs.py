"""Structures: reader, writer and layout, for every sequence of fields (loop invariants over an arbitrary field).

Field types are known by their contract only (absobj.AbsType).  The ghost state is the one of specstruct; the obligation is
that one iteration of the real loop maps states as the specification does, for every field and every state, that the
collaborators are called exactly as specified, and that errors of a field's type propagate.
"""
import io

import z3

from pyv import sym, specstruct as SP
from pyv.engine import Cut
from pyv.sym import SInt, mkb
from pyv.proofkit import proof, fresh_int, iv
from pyv.absobj import Log, AbsType, AbsField, AbsDict, AbsCS, AbsCls, AbsFields, AbsObj, Out, Val, ChildError, zeros
from pyv.real import cstruct
from dissect.cstruct.bitbuffer import BitBuffer
from dissect.cstruct.types.structure import Structure, StructureMetaType
from dissect.cstruct.types.enum import EnumMetaType
from dissect.cstruct.types.base import MetaType

ALIGN = (1, 2, 4, 8, 16)


CASES = {"packed": (False, 1), **{f"aligned{a}": (True, a) for a in ALIGN}}


def truth(c): return bool(c)


def some_field(X, log, al, dynamic=True, faulty=True):
    """an arbitrary field of the given alignment: (field, spec view)"""
    isbits = X.pick("field.isbits", (False, True))
    enum = X.pick("field.enum", (False, True))
    size = fresh_int("field.size", 1 if isbits else 0) if isbits or not dynamic or X.pick("field.static", (True, False)) else None
    if enum:
        st = AbsType("underlying", log, MetaType, size, al, faulty=faulty)
        typ = AbsType("enum", log, EnumMetaType, size, al, id=fresh_int("type.enum"), storage=st, faulty=faulty)
        sym.EX.assume(typ.id != st.id)
    else:
        st = typ = AbsType("type", log, MetaType, size, al, faulty=faulty)
    bits = fresh_int("field.bits", 1) if isbits else X.pick("field.nobits", (None, 0))
    off = fresh_int("field.offset", 0) if X.pick("field.hasoffset", (False, True)) else None
    f = AbsField(typ, bits, off, al)
    return f, SP.F(off, bits if isbits else 0, al, st, size, size)


class SpecReadBits:
    """Contract of BitBuffer.read (proved by bitbuffer_read): a new unit is read from the stream iff none is open or the
    type differs; the value is the next bits of the unit; a field that would straddle the unit is rejected."""
    def __init__(self, log): self.log = log
    def __call__(self, bb, typ, bits):
        if bool(bb._remaining == 0) or bb._type is None or bool(bb._type != typ):
            if typ.size is None: raise ValueError("Reading variable-length fields is unsupported")
            bb._type = typ
            bb._remaining = typ.size * 8
            bb._buffer = typ._read(bb.stream)
        if bool(bits > bb._remaining):
            e = ValueError("straddled")
            self.log.append(("straddle", e))
            raise e
        v = Val(("bits", bb._buffer, bb._remaining, bits))
        self.log.append(("bits", bb, typ, bb._remaining, bits, v))
        bb._remaining = bb._remaining - bits
        return v


class ReadLoop(Cut):
    heap = ()

    def __init__(self, X, s, start, align, al, cls, log): self.X, self.s, self.start, self.align, self.al, self.cls, self.log = X, s, start, align, al, cls, log

    def enter(self, L, it):
        ex = sym.EX
        ex.shape(isinstance(it, AbsFields), "_read: iterates over the fields of the class, in order")
        self.r, self.z, self.b = self.roles(L, ("result", lambda v: type(v) is dict and not v), ("sizes", lambda v: type(v) is dict and not v), ("bit_buffer", lambda v: isinstance(v, BitBuffer)))
        bb = L[self.b]
        ex.shape(self.s.pos == self.start, "_read: starts where the stream is")
        ex.oblige(bb.stream is self.s and bb.endian == self.endian and bb._type is None and bb._remaining == 0, "_read: no storage unit is open at the start")

    def havoc(self, L):
        X = self.X
        bb = L[self.b]
        self.bb = bb
        pos = fresh_int("pos", 0)
        self.s.pos = self.start + pos
        # an open unit, an exhausted one (type still known) or none
        k = X.pick("unit", ("none", "exhausted", "open"))
        if k == "none": bb._type, bb._remaining = None, 0
        else:
            self.ut = bb._type = AbsType("unit", self.log, MetaType, fresh_int("unit.size", 1))
            bb._remaining = 0 if k == "exhausted" else fresh_int("unit.rem", 1)
        self.unit = bb._buffer = Val("open unit")
        self.S = SP.R(pos, bb._remaining, bb._type)
        self.R, self.Z = AbsDict("fields read so far"), AbsDict("sizes so far")
        return {self.r: self.R, self.z: self.Z, self.b: bb}

    def iter(self, it):
        if self.X.pick("iteration", ("body", "done")) == "done":
            self.field = None
            return
        self.cls.__dict__["alignment"] = 32  # the alignment of the structure plays no role within it
        self.field, self.f = some_field(self.X, self.log, self.al)
        f = self.f
        if f.off is not None:
            # layout: only the first bit-field of a unit has an offset
            sym.EX.assume(sym.bnot(SP.continues(truth, f, self.S.rem, self.S.ut)))
        del self.log[:]
        yield self.field

    def end(self, L):
        ex = sym.EX
        f, log, fld = self.f, list(self.log), self.field
        reads = [e for e in log if e[0] == "read"]
        length = lambda at: reads[-1][5]
        isbits = bool(f.bits != 0)
        ex.oblige(isbits or len(reads) == 1, "_read step: an ordinary field is read once")
        at, cont, rem, N = SP.rstep(truth, f, self.S, self.align, length)
        ex.oblige(len(self.R.new) == 1 and self.R.new[0][0] == fld._name, "_read step: exactly this field is recorded")
        got = self.R.new[0][1]
        if isbits:
            ex.oblige(len(reads) == (0 if cont else 1), "_read step: a storage unit is read once, for the first of its bit-fields")
            if reads: ex.oblige(reads[0][1] is f.st and reads[0][2] == self.start + at, "_read step: the unit is read from the place of the field")
            b = [e for e in log if e[0] == "bits"]
            ex.oblige(len(b) == 1 and b[0][1] is self.bb and bool(b[0][2] == f.st) and bool(b[0][3] == rem) and bool(b[0][4] == f.bits), "_read step: the next bits of the unit")
            v = b[0][5]
            ex.oblige(v.what[1] is (self.unit if cont else reads[0][4]), "_read step: bits of the right unit")
            if fld.type is not f.st:
                c = [e for e in log if e[0] == "convert"]
                ex.oblige(len(c) == 1 and c[0][1] is fld.type and c[0][2] is v, "_read step: enum of the bits")
                v = c[0][3]
            ex.oblige(got is v, "_read step: the value of the field")
            ex.oblige(not self.Z.new, "_read step: bit-fields have no size of their own")
        else:
            _, t, q, ctx, v, n = reads[0]
            ex.oblige(t is fld.type, "_read step: read with the type of the field")
            ex.oblige(q == self.start + at, "_read step: read from the place of the field")
            ex.oblige(ctx is not None and type(ctx) is not dict, "_read step: a context is passed on")
            ex.shape(ctx is self.R, "_read step: the context are the fields before it")
            ex.oblige(got is v, "_read step: the value of the field")
            ex.oblige(len(self.Z.new) == 1 and self.Z.new[0][0] == fld._name and bool(self.Z.new[0][1] == n), "_read step: the size of the field")
        ex.oblige(self.s.pos == self.start + N.pos, "_read step: position after the field")
        ex.oblige(self.bb._remaining == N.rem, "_read step: bits left in the unit")
        if bool(N.rem != 0): ex.oblige(self.bb._type is not None and bool(self.bb._type == N.ut), "_read step: type of the unit")
        ex.oblige(self.bb.stream is self.s, "_read step: same stream")


@proof("C01 C02 C03 C04 C06 C08 C09 C14 C15", "StructureMetaType._read", CASES, timeout=120)
def struct_read(X, case):
    """For every structure (any number of fields, any mix of offsets, bit-fields, enums, static and dynamic types), every
    stream and position: the fields are read in order, each exactly once, at the place the layout specification gives,
    all positions relative to the start; the value consists of exactly these; any error of a field's type propagates."""
    align, al = case
    if not X.symbolic: return native_read(X, align)
    log = Log()
    s = X.stream("s", mode="int")
    p = s.tell()
    endian = X.pick("endian", ("<", ">"))
    alignment = al if align else 1
    cls = AbsCls(StructureMetaType, Structure, __fields__=AbsFields(), __align__=align, alignment=alignment, cs=AbsCS(endian), size=None, dynamic=True)
    cut = ReadLoop(X, s, p, align, al, cls, log)
    cut.endian = endian
    X.loop("StructureMetaType._read:1", cut)
    sym.EX.stubs[BitBuffer.read] = SpecReadBits(log)
    out = X.call(StructureMetaType._read, cls, s)
    if out.ok:
        X.check(cut.field is None, "a value is returned only after all fields")
        o = out.value
        X.shape(type(o) is AbsObj and o._pv_cls is cls and not o._pv_a and list(o._pv_k) == ["__pv_absdict__"] and o._pv_k["__pv_absdict__"] is cut.R, "the value consists of exactly the fields read")
        X.check(not cut.R.new and not cut.Z.new, "nothing is added after the last field")
        X.shape(getattr(o, "_sizes", None) is cut.Z and getattr(o, "_values", None) is cut.R, "recorded sizes and values")
        X.check(s.tell() == p + SP.rend(cut.S, align, alignment), "final position")
    else:
        X.check(any(e[0] in ("fail", "straddle") and (e[4] if e[0] == "fail" else e[1]) is out.exc for e in log), "only errors of a field's type, or of a straddling bit-field, unchanged", outcome=out)


# ------------------------------------------------------------------------------------------------------------ writer

class SpecWriteBits:
    """Contract of BitBuffer.write and flush (proved by bitbuffer_write): a new unit is opened iff none is or the type
    differs (the open one is written first); the bits are placed next; a complete unit is written."""
    def __init__(self, log): self.log = log

    def write(self, bb, typ, data, bits):
        if bool(bb._remaining == 0) or bb._type is None or bool(bb._type != typ):
            if bb._type is not None: self.flush(bb)
            if typ.size is None: raise ValueError("Writing variable-length fields is unsupported")
            bb._remaining = typ.size * 8
            bb._type = typ
        if self.log and X_reject(): raise OverflowError("does not fit")
        self.log.append(("bits", bb, typ, bb._remaining, bits, data))
        bb._remaining = bb._remaining - bits
        if bool(bb._remaining == 0): self.flush(bb)

    def flush(self, bb):
        if bb._type is not None:
            self.log.append(("unit", bb.stream.tell(), bb._type))
            bb.stream.skip(bb._type.size)
        bb._type, bb._remaining, bb._buffer = None, 0, 0


def X_reject(): return False


class Data:
    """the value written: an arbitrary value (or nothing) for each field"""
    def __init__(self, X): self.X, self.asked = X, []
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        v = Val(("field", n))
        if n == "fk" and self.X.pick("value", ("given", "None")) == "None": v = None
        self.asked.append((n, v))
        return v


class WriteLoop(Cut):
    optional = ("num",)

    def __init__(self, X, o, start, align, al, cls, log): self.X, self.o, self.start, self.align, self.al, self.cls, self.log = X, o, start, align, al, cls, log

    def enter(self, L, it):
        ex = sym.EX
        ex.shape(isinstance(it, AbsFields), "_write: iterates over the fields of the class, in order")
        (self.b,) = self.roles(L, ("bit_buffer", lambda v: isinstance(v, BitBuffer)))
        bb = L[self.b]
        ex.shape(self.o.pos == self.start and not self.log, "_write: nothing is written before the first field")
        ex.oblige(bb.stream is self.o and bb.endian == self.endian and bb._type is None and bb._remaining == 0, "_write: no storage unit is open at the start")

    def havoc(self, L):
        X = self.X
        self.bb = bb = L[self.b]
        pos = fresh_int("pos", 0)
        self.o.pos = self.start + pos
        if X.pick("unit", ("none", "open")) == "none": bb._type, bb._remaining, bb._buffer, us = None, 0, 0, 0
        else:
            us = fresh_int("unit.size", 1)
            bb._type, bb._remaining, bb._buffer = AbsType("unit", self.log, MetaType, us, self.al), fresh_int("unit.rem", 1), Val("open unit")
            sym.EX.assume(bb._remaining <= us * 8)
        self.S = SP.W(pos, bb._remaining, bb._type, us)
        if self.align and bb._type is not None:
            # an open unit starts at a multiple of the alignment of its type (struct_write: aligned)
            self.ual = X.pick("unit.alignment", ALIGN)
            sym.EX.assume(pos % self.ual == 0)
        else: self.ual = 1
        h = {self.b: bb}
        if "num" in L: h["num"] = fresh_int("num", 0)
        return h

    def iter(self, it):
        if self.X.pick("iteration", ("body", "done")) == "done":
            self.field = None
            return
        self.cls.__dict__["alignment"] = 32
        self.field, self.f = some_field(self.X, self.log, self.al, faulty=False)
        f, S = self.f, self.S
        if SP.continues(truth, f, S.rem, S.ut):
            # layout: only the first bit-field of a unit has an offset, and none straddles; one storage type, one size and alignment
            sym.EX.assume(f.off is None)
            sym.EX.assume(f.bits <= S.rem)
            sym.EX.assume(f.usize == S.usize)
            sym.EX.assume(self.ual == self.al)
        elif f.off is not None:
            # layout: offsets do not go back
            sym.EX.assume(f.off >= S.pos + (S.usize if S.ut is not None else 0))
            if self.align: sym.EX.assume(f.off % self.al == 0)
        if f.isbits: sym.EX.assume(f.bits <= f.usize * 8)
        del self.log[:]
        yield self.field

    def end(self, L):
        ex = sym.EX
        f, log, fld, S, start = self.f, list(self.log), self.field, self.S, self.start
        writes = [e for e in log if e[0] == "write"]
        isbits = bool(f.bits != 0)
        ex.oblige(isbits or len(writes) == 1, "_write step: an ordinary field is written once")
        at, cont, rem, N = SP.wstep(truth, f, S, self.align, lambda at: writes[-1][5])
        asked = [v for n, v in self.data.asked if n == fld._name]
        ex.oblige(len(asked) >= 1 and all(v is asked[0] for v in asked), "_write step: the value is the one of the field")
        val = asked[0] if asked[0] is not None else fld.type.__default__()
        # everything that reaches the output, in order: (from, to, what)
        runs, flushed = [], 0
        for e in log:
            if e[0] == "raw":
                ex.oblige(zeros(e[1]), "_write step: only zeros are written between fields")
                runs.append((e[2], e[2] + e[3], "zero"))
            elif e[0] == "unit": runs.append((e[1], e[1] + e[2].size, "unit"))
            elif e[0] == "write": runs.append((e[2], e[2] + e[5], "value"))
        units = [e for e in log if e[0] == "unit"]
        pos = S.pos
        want = []
        if bool(S.rem != 0) and not cont:
            want.append((pos, pos + S.usize, "unit"))
            pos = pos + S.usize
        if not cont:
            want.append((pos, at, "zero"))
            pos = at
        if isbits:
            if bool(N.rem == 0): want.append((at, at + f.usize, "unit"))
        else: want.append((at, N.pos, "value"))
        runs = [(a - start, b - start, w) for a, b, w in runs if not bool(a == b)]
        want = [(a, b, w) for a, b, w in want if not bool(a == b)]
        ex.oblige(len(runs) == len(want) and all(w == w2 for (_, _, w), (_, _, w2) in zip(runs, want)), "_write step: padding, units and values in order")
        for (a, b, _), (a2, b2, _) in zip(runs, want):
            ex.oblige(sym.band(a == a2, b == b2), "_write step: at the place of the field, padded with zeros")
        if isbits:
            b = [e for e in log if e[0] == "bits"]
            ex.oblige(len(b) == 1 and b[0][1] is self.bb and bool(b[0][2] == f.st) and bool(b[0][3] == rem) and bool(b[0][4] == f.bits), "_write step: the next bits of the unit")
            v = b[0][5]
            ex.oblige(v is (val.value if fld.type is not f.st else val), "_write step: the bits are the value of the field")
        else:
            ex.oblige(writes[0][1] is fld.type and writes[0][3] is val, "_write step: written with the type of the field")
            ex.oblige(not units or bool(S.rem != 0), "_write step: no stray unit")
        ex.oblige(self.o.pos == start + N.pos, "_write step: position after the field")
        ex.oblige(self.bb._remaining == N.rem, "_write step: bits left in the unit")
        if bool(N.rem != 0):
            ex.oblige(self.bb._type is not None and bool(self.bb._type == N.ut), "_write step: type of the unit")
            if self.align: ex.oblige(N.pos % self.al == 0 if not cont else N.pos % self.ual == 0, "_write step: an open unit is aligned")
        else: ex.oblige(self.bb._type is None, "_write step: no unit is open")
        ex.oblige(self.bb.stream is self.o, "_write step: same stream")


@proof("C01 C02 C03 C04 C06 C17 C14 C15", "StructureMetaType._write", CASES, timeout=120)
def struct_write(X, case):
    """For every structure whose layout is monotone and every value: the fields are written in order, each exactly once, at
    the place the specification gives, relative to the start; what lies between is zeros; bit units are written complete
    and exactly once; errors of a field's type propagate."""
    align, al = case
    if not X.symbolic: return native_write(X, align)
    log = Log()
    o = Out(log)
    p = o.tell()
    endian = X.pick("endian", ("<", ">"))
    cls = AbsCls(StructureMetaType, Structure, __fields__=AbsFields(), __align__=align, alignment=al if align else 1, cs=AbsCS(endian), size=None, dynamic=True)
    cut = WriteLoop(X, o, p, align, al, cls, log)
    cut.endian, cut.data = endian, Data(X)
    X.loop("StructureMetaType._write:1", cut)
    sp = SpecWriteBits(log)
    sym.EX.stubs[BitBuffer.write] = sp.write
    sym.EX.stubs[BitBuffer.flush] = sp.flush
    out = X.call(StructureMetaType._write, cls, o, cut.data)
    X.check(out.ok, "no error of its own", outcome=out)
    X.check(cut.field is None, "returns only after all fields")
    S = cut.S
    X.check(o.tell() == p + SP.wend(truth, S, align, al), "final position")
    units = [e for e in log if e[0] == "unit"]
    X.check(len(units) == (1 if truth(S.rem != 0) else 0) and all(bool(u[1] == p + S.pos) for u in units), "the last open unit is written")
    X.check(all(e[0] == "unit" or e[0] == "raw" and (zeros(e[1])) for e in log), "the tail is zeros")


# ------------------------------------------------------------------------------------------------------------ layout

class LayoutLoop(Cut):
    heap = ("offset",)

    def __init__(self, X, fields, align, al, log): self.X, self.fields, self.align, self.al, self.log = X, fields, align, al, log

    NAMES = ("offset", "alignment", "bits_type", "bits_field_offset", "bits_remaining")

    def enter(self, L, it):
        ex = sym.EX
        ex.shape(it is self.fields, "layout: iterates over the fields in order")
        self.n = self.roles(L, *[(n, (lambda v: v is None) if n == "bits_type" else (lambda v: type(v) is int and v == 0)) for n in self.NAMES])

    def havoc(self, L):
        X = self.X
        off = fresh_int("offset", 0) if X.pick("static so far", (True, False)) else None
        al = X.pick("alignment so far", (0,) + ALIGN) if self.align else fresh_int("alignment", 0)
        if type(al) is int and al == 0: off = 0  # no field yet
        k = X.pick("unit", ("none", "exhausted", "open")) if not (type(al) is int and al == 0) else "none"
        if k == "none": ut, rem, start, us = None, 0, 0, 0
        else:
            us = fresh_int("unit.size", 1)
            ut = AbsType("unit", self.log, MetaType, us)
            rem = 0 if k == "exhausted" else fresh_int("unit.rem", 1)
            start = fresh_int("unit.start", 0) if off is not None else None
            if off is not None: sym.EX.assume(off == start + us)
        self.S = SP.L(off, al, rem, ut, start, us)
        return dict(zip(self.n, (off, al, ut, start, rem)))

    def iter(self, it):
        if self.X.pick("iteration", ("body", "done")) == "done":
            self.field = None
            return
        self.field, self.f = some_field(self.X, self.log, self.al)
        f, S = self.f, self.S
        if SP.continues(truth, f, S.rem, S.ut): sym.EX.assume(sym.band(f.off is None, f.usize == S.usize))
        yield self.field

    def end(self, L):
        ex = sym.EX
        given, N = SP.lstep(truth, self.f, self.S, self.align)
        off, al, ut, start, rem = [L[n] for n in self.n]
        if given is None: ex.oblige(self.field.offset is None, "layout step: a field without a static position has no offset")
        else: ex.oblige(self.field.offset is not None and bool(self.field.offset == given), "layout step: offset of the field")
        if N.off is None: ex.oblige(off is None, "layout step: not static after a dynamic field")
        else: ex.oblige(off is not None and bool(off == N.off), "layout step: offset after the field")
        ex.oblige(al == N.al, "layout step: alignment of the structure")
        ex.oblige(al >= 1, "layout step: the alignment is known after the first field")
        ex.oblige(rem == N.rem, "layout step: bits left in the unit")
        ex.oblige(rem >= 0, "layout step: no field straddles its unit")
        if bool(N.rem != 0):
            ex.oblige(ut is not None and bool(ut == N.ut), "layout step: type of the unit")
            if N.off is not None: ex.oblige(start is not None and bool(start == N.ustart) and bool(N.off == N.ustart + N.usize), "layout step: start of the unit")


@proof("C04 C06 C01 C02 C18", "StructureMetaType._calculate_size_and_offsets", CASES, timeout=120)
def struct_layout(X, case):
    """For every list of fields: each field gets the position of the layout specification (next multiple of its alignment,
    shared unit, dynamic after a dynamic field), size and alignment are those of the specification; a straddling bit-field
    is rejected."""
    align, al = case
    if not X.symbolic: return native_layout(X, align)
    log = Log()
    fields = AbsFields()
    cls = AbsCls(StructureMetaType, Structure, __align__=align, cs=AbsCS("<"))
    cut = LayoutLoop(X, fields, align, al, log)
    X.loop("StructureMetaType._calculate_size_and_offsets:1", cut)
    out = X.call(StructureMetaType._calculate_size_and_offsets, cls, fields, align)
    if cut.field is not None:
        f, S = cut.f, cut.S
        X.check(out.raised(ValueError), "the layout is only refused with a ValueError", outcome=out)
        left = S.rem if SP.continues(truth, f, S.rem, S.ut) else f.usize * 8
        X.check(sym.band(f.bits != 0, f.bits > left), "only a straddling bit-field is rejected")
        return
    X.check(out.ok, "no error", outcome=out)
    size, alignment = out.value
    S = cut.S
    want = SP.lend(S, align)
    if want is None: X.check(size is None, "dynamic size")
    else: X.check(size is not None and bool(size == want), "size: padded to the alignment of the structure")
    X.check(alignment == S.al, "alignment of the structure")


# ------------------------------------------------------------------------------------------------ lemmas over the specification

def lemma_state(X, al, align):
    """an arbitrary field together with layout, reader and writer states in the relation of the induction hypothesis"""
    log = Log()
    _, f = some_field(X, log, al)
    rem = fresh_int("rem", 1) if X.pick("unit", ("none", "open")) == "open" else 0
    pos = fresh_int("pos", 0)     # of the reader
    us = fresh_int("usize", 1)
    ut = AbsType("unit", log, MetaType, us) if type(rem) is SInt else None
    ual = X.pick("unit.alignment", ALIGN) if ut is not None and align else 1
    if ut is not None:
        sym.EX.assume(sym.band(rem < us * 8, pos >= us))
        if align: sym.EX.assume((pos - us) % ual == 0)
    return f, rem, pos, us, ut, ual


@proof("C04 C08 C09", "spec", CASES)
def lemma_layout_read(X, case):
    """Induction step: if the layout is static before a field, the reader stands at the offset the layout computed and has
    the same unit open; then so it does after the field (whose type, if its size is fixed, reads exactly that size), and it
    found the field at its offset.  Hence size = bytes consumed, and every field is read at its offset."""
    align, al = case
    if not X.symbolic: return X.check(True, "lemma over the specification")
    f, rem, pos, us, ut, ual = lemma_state(X, al, align)
    alS = X.pick("alignment", ALIGN) if align else 1
    static = X.pick("static", (True, False))
    Ls = SP.L(pos if static else None, alS, rem, ut, pos - us if static and ut is not None else None, us)
    cont = SP.continues(truth, f, rem, ut)
    if cont: sym.EX.assume(sym.band(f.off is None, f.usize == us))
    elif align and f.off is not None: sym.EX.assume(f.off % al == 0)
    if f.off is not None: sym.EX.assume(f.off >= pos)
    given, Ln = SP.lstep(truth, f, Ls, align)
    if bool(Ln.rem < 0): return
    f.off = given  # what the layout stored
    Rs = SP.R(pos, rem, ut)
    n = fresh_int("length", 0)
    at, c, left, Rn = SP.rstep(truth, f, Rs, align, lambda at: f.size if f.size is not None else n)
    if given is not None: X.check(at == given, "the field is read at its offset")
    X.check(Ln.rem == Rn.rem, "same bits left")
    if Ln.off is not None:
        X.check(Rn.pos == Ln.off, "the reader stands at the computed offset")
        X.check(SP.rend(Rn, align, Ln.al) == SP.lend(Ln, align), "bytes consumed = size")
    X.check(Rn.pos >= pos, "the reader never goes back")
    if align: X.check(at % al == 0 if not cont else True, "the field is aligned")


@proof("C01 C02 C04", "spec", CASES)
def lemma_read_write(X, case):
    """Induction step: the writer stands where the reader does, minus the unit that is still open; then so it does after the
    field, and both put the field (or the bits in the unit) at the same place, provided the encoding of the value is as long
    as the reader finds it.  Hence dumping and parsing agree on every position and on the total size."""
    align, al = case
    if not X.symbolic: return X.check(True, "lemma over the specification")
    f, rem, pos, us, ut, ual = lemma_state(X, al, align)
    cont = SP.continues(truth, f, rem, ut)
    if cont: sym.EX.assume(sym.band(f.off is None, f.usize == us, f.bits <= rem))
    elif f.off is not None: sym.EX.assume(f.off >= pos)
    if f.isbits: sym.EX.assume(f.bits <= f.usize * 8)
    Rs = SP.R(pos, rem, ut)
    Ws = SP.W(pos - us if ut is not None else pos, rem, ut, us if ut is not None else 0)
    n = fresh_int("length", 0)
    length = lambda at: f.size if f.size is not None else n
    at, c, left, Rn = SP.rstep(truth, f, Rs, align, length)
    wat, wc, wleft, Wn = SP.wstep(truth, f, Ws, align, length)
    X.check(c == wc, "both continue the unit or none does")
    if not f.isbits: X.check(at == wat, "the field is written where it is read")
    elif not c: X.check(at == wat, "the unit is written where it is read")
    X.check(left == wleft, "the bits are written where they are read")
    X.check(Rn.rem == Wn.rem, "same bits left")
    X.check(Rn.pos == Wn.pos + (Wn.usize if truth(Wn.rem != 0) else 0), "same position")
    X.check(SP.rend(Rn, align, al) == SP.wend(truth, Wn, align, al), "same total size")


# ------------------------------------------------------------------------------------------------ native counterpart

NAT = {}


def native_fields(X, align):
    """a small concrete structure: (class, [(field, spec view)])"""
    from dissect.cstruct.types.structure import Field
    cs = cstruct(endian=X.pick("endian", ("<", ">")))
    cs.load("enum E : uint16 { A, B = 7 }; flag G : uint8 { P, Q };")
    pool = ["uint8", "uint16", "uint32", "uint64", "int16", "int24", "uleb128", "E", "G", "char", "uint16[2]", "uint8[]"]
    bitpool = ["uint8", "uint16", "uint32", "int16", "E"]
    fs, left, last = [], 0, None
    for i in range(X.pick("fields", range(0, 6))):
        if X.pick(f"{i}.bits", (0, 0, 1)):
            n = X.pick(f"{i}.type", bitpool) if not left or X.pick(f"{i}.new", (0, 0, 1)) else last
            t = cs.resolve(n)
            if not left or storage(t) is not storage(cs.resolve(last)): left = t.size * 8
            b = X.pick(f"{i}.width", range(1, left + 1))
            left, last = left - b, n
            fs.append(Field(f"f{i}", t, bits=b))
        else:
            n = X.pick(f"{i}.type", pool)
            t = cs.resolve(n.split("[")[0])
            if "[" in n: t = t[int(n[:-1].split("[")[1]) if n[:-1].split("[")[1] else None]
            left, last = 0, None
            fs.append(Field(f"f{i}", t))
    T = cs._make_struct("S", fs, align=align)
    return cs, T, [(f, SP.F(f.offset, f.bits or 0, f.alignment, storage(f.type), f.type.size, storage(f.type).size)) for f in fs]


def storage(t): return t.type if isinstance(t, EnumMetaType) else t


def native_read(X, align):
    cs, T, fs = native_fields(X, align)
    s = X.stream("s")
    p = s.tell()
    out = X.call(T._read, s)
    data = bytes(s.data)
    S, vals, sizes, unit, fail = SP.R(0, 0, None), {}, {}, None, False
    for f, F in fs:
        got = {}
        def length(at):
            b = io.BytesIO(data)
            b.seek(p + at)
            got["v"] = f.type._read(b, vals)
            return b.tell() - p - at
        try:
            at, cont, rem, N = SP.rstep(truth, F, S, align, length)
            if F.bits:
                if not cont:
                    raw = data[p + at:p + at + F.usize]
                    if len(raw) < F.usize: raise EOFError
                    unit = int.from_bytes(raw, "little" if cs.endian == "<" else "big")
                low = F.usize * 8 - rem if cs.endian == "<" else rem - F.bits
                v = (unit >> low) & ((1 << F.bits) - 1)
                got["v"] = f.type(v) if F.st is not f.type else v
            else:
                sizes[f._name] = N.pos - at
        except EOFError:
            fail = True
            break
        vals[f._name] = got["v"]
        S = N
    if fail:
        X.check(out.raised(EOFError), "only errors of a field's type", outcome=out)
        return
    X.check(out.ok, "no error", outcome=out)
    X.check(all(getattr(out.value, k) == v for k, v in vals.items()), "the value of every field", got=out.value, want=vals)
    X.check(out.value._sizes == sizes, "the size of every field", got=out.value._sizes, want=sizes)
    X.check(s.tell() == p + SP.rend(S, align, T.alignment), "final position", got=s.tell())


def native_write(X, align):
    cs, T, fs = native_fields(X, align)
    vals = {}
    for f, F in fs:
        if F.bits:
            v = X.int("v." + f._name, 0, (1 << F.bits) - 1)
            vals[f._name] = f.type(v) if F.st is not f.type else v
        else:
            vals[f._name] = f.type(io.BytesIO(bytes(X.int(f"v.{f._name}.{i}", 0, 255 if i < 20 else 0) for i in range(80))))
    o = X.sink("o")
    out = X.call(T._write, o, T(**vals))
    X.check(out.ok, "no error", outcome=out)
    got = bytes(o.written())
    S, want, units = SP.W(0, 0, None, 0), {}, {}
    for f, F in fs:
        enc = b"" if F.bits else f.type.dumps(vals[f._name])
        at, cont, rem, N = SP.wstep(truth, F, S, align, lambda at: len(enc))
        if F.bits:
            low = F.usize * 8 - rem if cs.endian == "<" else rem - F.bits
            v = int(vals[f._name]) << low
            for i, b in enumerate(v.to_bytes(F.usize, "little" if cs.endian == "<" else "big")): want[at + i] = want.get(at + i, 0) | b
        for i, b in enumerate(enc): want[at + i] = b
        S = N
    n = SP.wend(truth, S, align, T.alignment)
    X.check(got == bytes(want.get(i, 0) for i in range(n)), "every field at its place, zeros between", got=got, want=want)


def native_layout(X, align):
    cs, T, fs = native_fields(X, align)
    S = SP.L(0, 0, 0, None, None, 0)
    for f, F in fs:
        F.off = None
        given, S = SP.lstep(truth, F, S, align)
        X.check(f.offset == given, "offset of the field", got=f.offset, want=given)
    X.check(T.size == SP.lend(S, align), "size", got=T.size, want=SP.lend(S, align))
    X.check((T.alignment or 0) == S.al, "alignment", got=T.alignment)
