"""C11 unions, one definition at a time: for all bytes and all assigned values.  The definitions are enumerated: the bound of
these proofs.  An assignment is made in an arbitrary state (any bytes) and establishes the same again, so that the result
carries over to any number of assignments."""
import os
import random

from contracts import c11
from contracts.common import build, rand_value
from pyv import sym
from pyv import ref as R
from pyv import specstruct as SP
from pyv.engine import Cut
from pyv.proofkit import proof, exact, fresh_int
from pyv.absobj import Log, AbsType, AbsField, AbsDict, AbsCS, AbsCls, AbsFields, Out, Val
from pyv.proofs.defs import KINDS, THOROUGH, members
from pyv.proofs.structs import CASES, ALIGN
from pyv.real import cstruct, load, norm
from dissect.cstruct.types.base import MetaType
from dissect.cstruct.types.structure import Field, Union, UnionMetaType

I, A = R.Int, R.Arr
INNER = R.Struct("Na", [R.F("p", I("uint8")), R.F("q", R.Struct("Nb", [R.F("r", I("uint16")), R.F("s", A(R.Char(), 2))]))])
BITS = R.Struct("Nc", [R.F("x", I("uint8"), 3), R.F("y", I("uint8"), 5), R.F("z", I("uint16"))])
DEEP = R.Struct("Nd", [R.F("h", I("uint8")), R.F("v", R.Struct("Ne", [R.F("l", I("uint8")), R.F("w", I("uint32"))], True))])
TWO = R.Struct("Nf", [R.F("a1", I("uint16")), R.F("a2", I("uint32"))], True)
UK = {k: KINDS[k] for k in ("uint8", "int16", "uint32", "uint24", "uint128", "float", "char", "wchar", "enum8", "enum24", "flag8", "ptr", "struct", "char[3]", "wchar[2]", "uint8[3]", "uint16[2]", "int24[2]", "enum16[2]", "uint16[0]", "uint16[2][2]", "struct[2]")}
UK |= {"nested": INNER, "bits": BITS, "deep union": DEEP, "union": TWO}
ANON = {"anonymous struct": R.Struct(None, [R.F("g1", I("uint8")), R.F("g2", I("uint16"))]), "anonymous union": R.Struct(None, [R.F("h1", I("uint8")), R.F("h2", I("uint32"))], True)}


def catalogue():
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ks = [*UK, *ANON]
    groups = [(a,) for a in ks] + [(a, b) for x, a in enumerate(ks) for y, b in enumerate(ks) if a != b and (THOROUGH or (x + y + seed) % 2)]
    rng = random.Random(seed)
    groups += [tuple(rng.sample(ks, rng.choice((3, 4)))) for _ in range(300 if THOROUGH else 30)]
    out = {}
    for i, g in enumerate(groups):
        for j in (0, 1, 2, 3) if len(g) == 1 else ((i + i // 7) % 4,):
            m = R.Mode("<>"[j % 2], bool(j // 2), I(("uint32", "uint16")[i % 2]))
            fs = [R.F(f"f{n}", UK[k]) if k in UK else R.F(None, ANON[k]) for n, k in enumerate(g)]
            if i % 5 == 4 and len(g) > 1 and fs[0].name: fs[0] = R.F("f0", fs[0].type, None, 4 if m.aligned else 1)
            st = R.Struct("T", fs, True)
            if c11.has(st, lambda t: isinstance(t, R.Int) and t.name == "uint128") and m.aligned and fs[0].offset: fs[0].offset = 16
            if not R.layout(st, m)[0]: continue
            out[f"{' | '.join(g)} {m.endian}{'a' if m.aligned else 'p'}{'+' if fs[0].offset else ''}"] = (st, m)
    return out


def make(X, st, m):
    if not c11.placed(st): return load(R.source(st, m), m)
    class C: pass
    c = C()
    c.st, c.mode, c.compiled = st, m, False
    cs = load(R.source(st, m), m)
    t = cs._make_union("T", [Field(f.name, f.type, bits=f.bits, offset=s.offset) for f, s in zip(cs.T.__fields__, st.fields)], align=m.aligned)
    cs.add_type("T", t, replace=True)
    return cs


def same_norm(a, b, conds):
    """two values in normal form: the same shape; equality of the leaves is added to conds"""
    if isinstance(a, dict): return isinstance(b, dict) and list(a) == list(b) and all(same_norm(a[k], b[k], conds) for k in a)
    if exact(a) in (list, tuple) or exact(b) in (list, tuple): return exact(a) is exact(b) and len(a) == len(b) and all(same_norm(x, y, conds) for x, y in zip(a, b))
    if a is None or b is None or exact(a) is str: return a is b or a == b
    conds.append(a == b)
    return True


def coherent(X, u, st, buf, m, when):
    """every member is the view of the bytes; the dump gives the bytes"""
    want = R.read(st, list(buf), 0, m, {}, X.env)[0]
    conds = []
    X.check(same_norm(norm(u, st), want, conds) and X.all(conds), f"every member is a view of the union's bytes {when}")
    d = X.call(u.dumps)
    X.check(d.ok and len(d.value) == len(buf), f"dumping gives as many bytes {when}", outcome=d)
    car = c11.carried(st, m)
    X.check(X.all([d.value[j] & k == buf[j] & k for j, k in enumerate(car) if k]), f"dumping gives the union's bytes {when}", outcome=d)


def no_nan(X, st, buf, m):
    v = R.read(st, list(buf), 0, m, {}, X.env)[0]
    for x in c11.values(v):
        if isinstance(x, tuple) and x[0] == "f":
            mant = {2: 10, 4: 23, 8: 52}[x[1]]
            mag = x[2] & ((1 << (8 * x[1] - 1)) - 1)
            X.assume(mag <= ((1 << (8 * x[1] - 1)) - (1 << mant)))


@proof("C11", "UnionMetaType._read UnionMetaType._read_fields UnionMetaType._calculate_size_and_offsets UnionMetaType._write Union._update Union._proxify", catalogue, bounded="the definitions enumerated (all inputs of each)", timeout=40, native=4)
def union_parse(X, case):
    """The size is that of the largest member (rounded up when aligned); parsing consumes exactly it, or fails at the end of
    the input; every member is what its type makes of the bytes; the dump gives them back."""
    st, m = case
    cs = make(X, st, m)
    size = R.layout(st, m)[0]
    X.check(cs.T.size == size and len(cs.T) == size, "a union has the size of its largest member", got=cs.T.size)
    members_of(X, cs)
    s = X.stream("s")
    if X.symbolic: s.coarse = True
    start = s.tell()
    p = X.call(cs.T._read, s)
    if p.raised(UnicodeError): return
    have = s.N - start if X.symbolic else len(s.getvalue()) - start
    if not X.truth(have >= size):
        X.check(p.raised(EOFError), "too short an input is refused", outcome=p)
        return
    X.check(p.ok, "parsing succeeds", outcome=p)
    X.check(s.tell() == start + size, "parsing consumes exactly the union's size")
    buf = [s.at(start + i) for i in range(size)] if X.symbolic else list(s.getvalue()[start:start + size])
    no_nan(X, st, buf, m)
    coherent(X, p.value, st, buf, m, "after parsing")


def members_of(X, cs):
    if X.symbolic: members(cs)


def targets(st, m):
    """what can be assigned: (path, field, offset, bit, top-level member), unless padding of the value would hide data of another"""
    car = c11.carried(st, m)
    out = []
    for t in c11.assignables(st, m):
        ok = True
        for k in range(1, len(t[0]) + 1):
            ft, fo = c11.at(st, t[0][:k], m)
            if ft is None: continue
            mk = c11.masks(ft, m)
            if any(car[fo + j] & ~mk[j] for j in range(len(mk))): ok = False
        # unions inside the assigned value must be coherent themselves: covered by assigning their members
        if ok and not c11.has(t[1].type, lambda x: isinstance(x, R.Struct) and x.union): out.append(t)
    return out


WRAPS = ("alone", "member", "element", "alone after another assignment", "nested", "alone after another assignment")


def wrapped():
    """the same definitions, each in one of the places a union can be"""
    return {f"{k} {WRAPS[i % 6]}": (st, m, WRAPS[i % 6]) for i, (k, (st, m)) in enumerate(catalogue().items()) if targets(st, m)}


def surround(st, where):
    """(outer definition, path to the union)"""
    if where == "member": return R.Struct("O", [R.F("k", I("uint8")), R.F("u", st), R.F("z", I("uint16"))])
    if where == "nested": return R.Struct("O", [R.F("k", I("uint8")), R.F("n", R.Struct("On", [R.F("b", I("uint8")), R.F("u", st)])), R.F("z", I("uint16"))])
    return R.Struct("O", [R.F("k", I("uint8")), R.F("u", A(st, 2)), R.F("z", I("uint16"))])


def inner(o, where): return o.u if where == "member" else o.n.u if where == "nested" else o.u[1]


def put(X, u, st, m, buf, target, label):
    """assign an arbitrary value to the target of the union u; -> the specified new bytes (None: not encodable text)"""
    path, f, off, bit, top = target
    v = rand_value(X, f.type, m, label, {}, f.bits)
    buf = c11.poke(buf, f, off, bit, v, m)
    no_nan(X, st, buf, m)
    o, name = c11.reach(X, u, path)
    cls = c11.cls_at(u, path)
    rv = build(cls, f.type, v) if not f.bits or isinstance(f.type, R.Enum) else v
    folded = f.name and len(path) > 1 and all(c11.anon(st, path[:k]) for k in range(1, len(path))) and X.pick(f"{label}.via", ("path", "folded")) == "folded"
    a = X.call(setattr, u if folded else o, name, rv)
    if a.raised(UnicodeError): return None
    X.check(a.ok, "assigning a member succeeds", outcome=a)
    return buf


@proof("C11", "Union.__setattr__ Union._rebuild Union._update Union._proxify UnionProxy.__setattr__ UnionProxy.__getattr__ UnionMetaType._write UnionMetaType._read_fields", wrapped, bounded="the definitions enumerated (all inputs of each)", timeout=60, native=4)
def union_assign(X, case):
    """In any state, after assigning any value to any member, directly or through nested structures: every member is the view of
    the new bytes of that member and the old bytes elsewhere, and so is the dump.  A union inside a structure or an array
    behaves the same and leaves its neighbours alone."""
    st, m, where = case
    whole = st if where.startswith("alone") else surround(st, where)
    size = R.layout(st, m)[0]
    if where.startswith("alone"): cs = make(X, st, m)
    elif c11.placed(st): return X.check(True, "the placed definitions are examined alone")
    else: cs = load(R.source(whole, m), m)
    ts = targets(st, m)
    members_of(X, cs)
    total = R.layout(whole, m)[0]
    start = X.pick("from", ("bytes", "default"))
    data = X.bytes("data", total) if start == "bytes" else bytes(total)
    p = X.call(cs.resolve(whole.name), data) if start == "bytes" else X.call(cs.resolve(whole.name))
    if p.raised(UnicodeError): return
    X.check(p.ok, "parsing succeeds", outcome=p)
    if where.startswith("alone"): u, at = p.value, 0
    else:
        u = inner(p.value, where)
        offs = R.layout(whole, m)[2]
        at = offs[1][0] + (R.layout(whole.fields[1].type, m)[2][1][0] if where == "nested" else size if where == "element" else 0)
    buf = list(data)[at:at + size]
    no_nan(X, whole, list(data), m)
    target = X.pick("target", ts)
    if start == "default" and target is not ts[0]: return
    if where == "alone after another assignment":
        before = X.pick("before", ts)
        if before is not ts[(ts.index(target) + 1) % len(ts)] and before is not ts[-1]: return
        buf = put(X, u, st, m, buf, before, "w")
        if buf is None: return
    buf = put(X, u, st, m, buf, target, "v")
    if buf is None: return
    coherent(X, u, st, buf, m, "after an assignment")
    if where.startswith("alone"): return
    want = list(data)[:at] + buf + list(data)[at + size:]
    d = X.call(p.value.dumps)
    X.check(d.ok and len(d.value) == total, "the structure around dumps as many bytes", outcome=d)
    car = [k for _, k in R.write(whole, R.zero(whole, m), m)]
    X.check(X.all([d.value[j] & k == want[j] & k for j, k in enumerate(car) if k]), "the assignment leaves the bytes around the union alone", outcome=d)


# ------------------------------------------------------------------------- any number of members, known by their contract only

class UnionLayoutLoop(Cut):
    def __init__(self, X, fields, align, al): self.X, self.fields, self.align, self.al = X, fields, align, al

    def enter(self, L, it):
        sym.EX.shape(it is self.fields, "union layout: iterates over the fields in order")
        self.n = self.roles(L, *[(n, lambda v: type(v) is int and v == 0) for n in ("size", "alignment")])

    def havoc(self, L):
        X = self.X
        self.size = fresh_int("size", 0) if X.pick("static so far", (True, False)) else None
        self.amax = X.pick("alignment so far", (0,) + ALIGN) if self.align else fresh_int("alignment", 0)
        return dict(zip(self.n, (self.size, self.amax)))

    def iter(self, it):
        if self.X.pick("iteration", ("body", "done")) == "done":
            self.field = None
            return
        size = fresh_int("field.size", 0) if self.X.pick("field.static", (True, False)) else None
        off = fresh_int("field.offset", 0) if self.X.pick("field.hasoffset", (False, True)) else None
        self.field = AbsField(AbsType("type", Log(), MetaType, size, self.al), None, off, self.al)
        yield self.field

    def end(self, L):
        ex = sym.EX
        size, al = [L[n] for n in self.n]
        f = self.field
        if self.size is None or f.type.size is None: ex.oblige(size is None, "union layout step: a dynamic member makes the union dynamic")
        else:
            end = f.type.size + (0 if f.offset is None else f.offset)
            ex.oblige(size is not None and bool(sym.band(size >= self.size, size >= end)) and bool(sym.bor(size == self.size, size == end)), "union layout step: the size covers the member and no more")
        ex.oblige(sym.band(al >= self.amax, al >= self.al, sym.bor(al == self.amax, al == self.al)), "union layout step: the largest alignment")


@proof("C11 C04 C06", "UnionMetaType._calculate_size_and_offsets", CASES, timeout=60)
def union_layout(X, case):
    """For any number of members of any types: the size is the largest end of a member, rounded up to the largest alignment in
    aligned mode; a dynamic member makes the union dynamic; no member's position is touched."""
    align, al = case
    if not X.symbolic: return native_layout(X, align)
    fields = AbsFields()
    cls = AbsCls(UnionMetaType, Union, __align__=align, cs=AbsCS("<"))
    cut = UnionLayoutLoop(X, fields, align, al)
    X.loop("UnionMetaType._calculate_size_and_offsets:1", cut)
    out = X.call(UnionMetaType._calculate_size_and_offsets, cls, fields, align)
    X.check(cut.field is None and out.ok, "no error", outcome=out)
    size, alignment = out.value
    X.check(alignment == cut.amax, "the largest alignment of a member")
    if cut.size is None: return X.check(size is None, "dynamic size")
    want = cut.size if not align or type(cut.amax) is int and cut.amax == 0 else SP.roundup(cut.size, cut.amax)
    if align and type(cut.amax) is int and cut.amax == 0: sym.EX.assume(cut.size == 0)
    X.check(size is not None and bool(size == want), "size: padded to the alignment of the union")


def native_layout(X, align):
    cs = cstruct()
    pool = ["uint8", "uint16", "uint32", "uint64", "int24", "uint128", "uleb128", "char"]
    fs = []
    for i in range(X.pick("fields", range(0, 6))):
        t = cs.resolve(X.pick(f"{i}.type", pool))
        if X.pick(f"{i}.array", (0, 1)): t = t[X.pick(f"{i}.n", (0, 1, 3))]
        fs.append(Field(f"f{i}", t, offset=X.pick(f"{i}.offset", (None, None, 0, 1, 4))))
    T = cs._make_union("U", fs, align=align)
    al = max([f.alignment for f in fs], default=0)
    if any(f.type.size is None for f in fs): return X.check(T.size is None and T.dynamic, "dynamic size")
    size = max([f.type.size + (f.offset or 0) for f in fs], default=0)
    X.check(T.size == (SP.roundup(size, al) if align else size), "size", got=T.size)


class UnionReadLoop(Cut):
    def __init__(self, X, s, start, cls, log): self.X, self.s, self.start, self.cls, self.log = X, s, start, cls, log

    def enter(self, L, it):
        ex = sym.EX
        ex.shape(isinstance(it, AbsFields), "_read_fields: iterates over the fields of the class")
        self.r, self.z, self.b = self.roles(L, ("result", lambda v: type(v) is dict and not v), ("sizes", lambda v: type(v) is dict and not v), ("buf", lambda v: hasattr(v, "seek")))
        self.buf = L[self.b]
        self.base = self.start if self.cls.size is None else 0
        if self.cls.size is None: ex.oblige(self.buf is self.s, "_read_fields: a dynamic union is read from the stream itself")
        else: ex.oblige(self.buf is not self.s and bool(self.buf.tell() == 0), "_read_fields: a static union is read from its own bytes")

    def havoc(self, L):
        self.buf.pos = fresh_int("anywhere", 0)
        self.R, self.Z = AbsDict("members read so far"), AbsDict("sizes so far")
        return {self.r: self.R, self.z: self.Z, self.b: self.buf}

    def iter(self, it):
        if self.X.pick("iteration", ("body", "done")) == "done":
            self.field = None
            return
        size = fresh_int("field.size", 0) if self.X.pick("field.static", (True, False)) else None
        off = fresh_int("field.offset", 0) if self.X.pick("field.hasoffset", (False, True)) else None
        self.field = AbsField(AbsType("type", self.log, MetaType, size), None, off, 1)
        del self.log[:]
        yield self.field

    def end(self, L):
        ex = sym.EX
        reads = [e for e in self.log if e[0] == "read"]
        ex.oblige(len(reads) == 1, "_read_fields step: the member is read once")
        _, t, q, ctx, v, n = reads[0]
        ex.oblige(t is self.field.type, "_read_fields step: with its type")
        ex.oblige(q == self.base + (0 if self.field.offset is None else self.field.offset), "_read_fields step: from its place in the union")
        ex.oblige(len(self.R.new) == 1 and self.R.new[0][0] == self.field._name and self.R.new[0][1] is v, "_read_fields step: exactly this member is recorded")
        ex.oblige(len(self.Z.new) == 1 and self.Z.new[0][0] == self.field._name and bool(self.Z.new[0][1] == n), "_read_fields step: with its size")


@proof("C11 C08 C09", "UnionMetaType._read_fields", ("static", "dynamic"), timeout=60, native=None)
def union_read_fields(X, case):
    """For any number of members of any types: each is read exactly once with its type, from its place in the union's bytes (not
    from where the member before it ended); errors of a member's type propagate.  Static: of a union that is not empty, with
    some input left."""
    log = Log()
    s = X.stream("s", mode="int")
    start = s.tell()
    cls = AbsCls(UnionMetaType, Union, __fields__=AbsFields(), cs=AbsCS("<"), size=fresh_int("size", 0) if case == "static" else None, dynamic=case == "dynamic")
    if case == "static": X.assume(X.all([start < s.N, cls.size >= 1]))
    cut = UnionReadLoop(X, s, start, cls, log)
    X.loop("UnionMetaType._read_fields:1", cut)
    out = X.call(UnionMetaType._read_fields, cls, s)
    if out.ok:
        X.check(cut.field is None, "returns only after all members")
        r, z = out.value
        X.check(r is cut.R and z is cut.Z and not r.new and not z.new, "the members read and their sizes")
        if case == "static": X.check(X.any([s.tell() == start + cls.size, s.tell() == s.N, start >= s.N]), "the stream moves over the union's bytes only")
    else:
        X.check(any(e[0] == "fail" and e[4] is out.exc for e in log), "only errors of a member's type", outcome=out)


class UnionObj:
    """a new instance: what is done to it is recorded"""
    def __init__(self, cls, a, k): self.__dict__.update(_pv=(cls, a, k), _pv_log=[])
    def _update(self): self._pv_log.append(("update", self.__dict__.get("_buf"), self.__dict__.get("_stream")))
    def _proxify(self): self._pv_log.append(("proxify",))


class UnionCls(AbsCls):
    def sym_construct(self, a, k): return UnionObj(self, a, k)
    __call__ = lambda self, *a, **k: UnionObj(self, a, k)


@proof("C11 C08 C09", "UnionMetaType._read", (None,), timeout=60, native=None)
def union_read(X, case):
    """Every union of fixed size: parsing takes exactly the union's size from the stream, or fails at the end of the input; these
    bytes become the state of the new instance, from which its members are then made, once."""
    s = X.stream("s", mode="int")
    start = s.tell()
    size = fresh_int("size", 1)
    cls = UnionCls(UnionMetaType, Union, __fields__=AbsFields(), cs=AbsCS("<"), size=size, dynamic=False)
    X.assume(start < s.N)
    out = X.call(UnionMetaType._read, cls, s)
    if not X.truth(s.N - start >= size):
        X.check(out.raised(EOFError), "too short an input is refused", outcome=out)
        return
    X.check(out.ok, "no error", outcome=out)
    o = out.value
    X.shape(exact(o) is UnionObj and o._pv[0] is cls, "an instance of the union")
    X.check(s.tell() == start + size, "exactly the union's size is taken")
    b = o.__dict__.get("_buf")
    X.check(b is not None and bool(len(b) == size), "the state is the bytes taken")
    i = fresh_int("i", 0)
    X.assume(i < size)
    X.check(b[i] == s.at(start + i), "the state is the bytes taken")
    ups = [e for e in o._pv_log if e[0] == "update"]
    X.check(len(ups) == 1 and ups[0][1] is b, "the members are made from the state, once")
    X.check(o._pv_log[-1] == ("proxify",), "nested members refer to the union")


class State:
    """the bytes of a union: only where they come from is known"""
    def __init__(self, what): self.what = what
    @property
    def __class__(self): return bytes
    def sym_stream(self): return Edit(self)
    def sym_len(self): raise sym.Unsupported("length of a union's state")


class Edit(Out):
    """the bytes of a union, to be changed in place"""
    def __init__(self, of):
        self.of, self.pos, self.N, self.log = of, 0, None, sym.EX.union_log
    def seek(self, o, whence=0):
        if whence: raise sym.Unsupported("relative seek in a union's bytes")
        if bool(o < 0): raise ValueError("negative seek value")
        self.pos = o
        return o
    def read(self, n=-1): raise sym.Unsupported("reading a union's bytes")
    def getvalue(self): return State((self, len(self.log)))


def repeat_stream(r):
    if not hasattr(sym.EX, "union_log"): raise sym.Unsupported("a stream over bytes of symbolic length")
    return Edit(r)


sym.SRepeat.sym_stream = repeat_stream


def abs_union(X, **ns):
    """an arbitrary union class (of fixed size unless said otherwise) and an instance that has not been given anything"""
    base = {"__fields__": AbsFields(), "cs": AbsCS("<"), "size": fresh_int("size", 1), "dynamic": False, "lookup": {}, "__module__": "pyv.abs"}
    cls = type.__new__(UnionMetaType, "AbsUnion", (Union,), base | ns)
    return cls, object.__new__(cls)


def rebuild_cases():
    return {f"{a}, {b}, {c}": (a == "has bytes", b == "at an offset", c == "a value") for a in ("has bytes", "no bytes yet") for b in ("at an offset", "at the start") for c in ("a value", "no value")}


@proof("C11", "Union._rebuild", rebuild_cases, timeout=30, native=None)
def union_rebuild(X, case):
    """For any union, member and value: the bytes of the union become the bytes it had (zero if it had none) with the value's
    bytes written once, by the member's type, at the member's place; then all members are made from these bytes, once, and
    nested structures refer to the union afterwards."""
    has, placed, given = case
    ex = X.ex
    log = ex.union_log = Log()
    off = fresh_int("offset", 1) if placed else X.pick("offset", (None, 0))
    f = AbsField(AbsType("type", log, MetaType, fresh_int("fsize", 0)), None, off, 1)
    cls, u = abs_union(X, lookup={"fk": f, "other": None})
    old, stream = State("old"), object()
    value = Val("value") if given else None
    u.__dict__.update(fk=value, other=Val("other"), _stream=stream)
    if has: u.__dict__["_buf"] = old
    after = []
    def note(what):
        def f(self, *a, **k):
            X.shape(not a and not k, "called without arguments")
            after.append((what, self is u, u.__dict__.get("_buf")))
        return f
    ex.stubs[Union._update], ex.stubs[Union._proxify] = note("update"), note("proxify")
    out = X.call(Union._rebuild, u, "fk")
    X.check(out.ok, "rebuilding succeeds", outcome=out)
    b = u.__dict__.get("_buf")
    X.shape(type(b) is State and type(b.what) is tuple, "the bytes are edited through a stream")
    edit, n = b.what
    X.check(edit.of is old if has else exact(edit.of) is sym.SRepeat and edit.of.pat == b"\0" and bool(edit.of.n == cls.size), "the other bytes are the ones it had")
    X.check(n == len(log) == 1, "one value is written", log=len(log))
    kind, t, pos, v, _, _ = log[0]
    X.check(kind == "write" and t is f.type, "by the member's type")
    X.check(pos == (off or 0), "at the member's place")
    X.check(v is value if given else isinstance(v, Val) and v is f.type.__default__(), "the member's value, or its type's zero value")
    ups = [a for a in after if a[0] == "update"]
    X.check(len(ups) == 1 and ups[0][1] and ups[0][2] is b, "all members are made from the new bytes, once")
    X.check(after[-1][0] == "proxify" and after[-1][1], "nested structures refer to the union afterwards")
    X.check(u.__dict__.get("_stream") is stream and u.__dict__["fk"] is value, "nothing else changes")


class Members(AbsDict):
    """what reading the members gave"""
    def values(self): return [self.__dict__.setdefault("_all", Val("any member's value"))]
    def items(self): raise sym.Unsupported("arbitrary members")


@proof("C11 C16", "Union._update", (None,), timeout=30, native=None)
def union_update(X, case):
    """For any union: its members become what its bytes say, read once from the start; pointers in them refer to the stream of
    the union."""
    import dissect.cstruct.types.structure as ST
    ex = X.ex
    ex.union_log = Log()
    cls, u = abs_union(X)
    state, stream = State("state"), object()
    u.__dict__.update(_buf=state, _stream=stream)
    res, sizes = Members("members"), AbsDict("sizes")
    calls, told = [], []
    def read_fields(c, s, context=None):
        calls.append((c, s, s.tell(), context))
        return res, sizes
    ex.stubs[UnionMetaType._read_fields] = read_fields
    def set_stream(value=None, stream=None, *a, **k):
        X.shape(value is not None and not a and not k, "told the value and the stream")
        told.append((value, stream))
    ex.stubs[ST._set_stream] = set_stream
    out = X.call(Union._update, u)
    X.check(out.ok, "updating succeeds", outcome=out)
    X.check(len(calls) == 1 and calls[0][0] is cls and exact(calls[0][1]) is Edit and calls[0][1].of is state and bool(calls[0][2] == 0), "the members are read once from the union's bytes")
    X.check(u.__dict__.get("__pv_absdict__") is res, "the members become what was read")
    X.check(u.__dict__.get("_values") is res and u.__dict__.get("_sizes") is sizes, "values and sizes become what was read")
    X.shape(all(t[0] == res.values() or t[0] is res.values()[0] for t in told), "the members are told about the stream all alike")
    X.check(len(told) >= 1 and all(t[1] is stream for t in told), "pointers in the members refer to the union's stream")
    X.check(u.__dict__["_buf"] is state and u.__dict__["_stream"] is stream, "the bytes stay")


@proof("C11", "Union.__setattr__", ("member", "first member", "member of an anonymous structure", "other attribute", "dynamic"), timeout=30, native=None)
def union_setattr(X, case):
    """For any union: assigning a member stores the value and then makes the union's bytes anew from it, once; assigning something
    else does not touch the bytes; a dynamic union refuses, unchanged."""
    ex = X.ex
    ex.union_log = Log()
    f = AbsField(AbsType("type", Log(), MetaType, 1), None, None, 1)
    sets = []
    ns = {"lookup": {"fk": f}, "dynamic": case == "dynamic"}
    if case == "member of an anonymous structure": ns["folded"] = property(lambda self: None, lambda self, v: sets.append(v))
    cls, u = abs_union(X, **ns)
    state, value = State("state"), Val("value")
    if case != "first member": u.__dict__["_buf"] = state
    calls = []
    def rebuild(self, attr=None, *a, **k):
        X.shape(attr is not None and not a and not k, "called with the name of the member")
        calls.append((self is u, attr, u.__dict__.get(attr)))
    ex.stubs[Union._rebuild] = rebuild
    name = {"member": "fk", "first member": "fk", "member of an anonymous structure": "folded", "other attribute": "note", "dynamic": "fk"}[case]
    before = dict(u.__dict__)
    out = X.call(Union.__setattr__, u, name, value)
    if case == "dynamic":
        X.check(out.raised(NotImplementedError), "a dynamic union cannot be modified", outcome=out)
        return X.check(u.__dict__ == before and not calls, "and is unchanged")
    X.check(out.ok, "assignment succeeds", outcome=out)
    if name == "fk":
        X.check(u.__dict__.get("fk") is value, "the value is stored")
        X.check(len(calls) == 1 and calls[0] == (True, "fk", value), "the bytes are made anew once, after the value is stored")
    elif case == "other attribute":
        X.check(not calls and u.__dict__.get("note") is value, "other attributes do not touch the bytes")
    else:
        X.check(len(sets) == 1 and sets[0] is value and not calls, "the anonymous structure gets the value (and rebuilds through its proxy)")
