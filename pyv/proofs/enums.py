"""C12 enumerations: contracts of enum and flag types for arbitrary members and every underlying value.

In the symbolic runs the members of the enumeration are arbitrary: lookup by value is known only by its contract
(engine.any_members); natively they are real members."""
from pyv import sym
from pyv.engine import Cut, any_members
from pyv.proofkit import proof, fresh_int, SymList, exact
from pyv.absobj import Val
from pyv.real import cstruct
from dissect.cstruct.expression import Expression
from dissect.cstruct.parser import TokenParser
from dissect.cstruct.types.base import BaseType
from dissect.cstruct.types.enum import Enum, EnumMetaType
from dissect.cstruct.types.flag import Flag

KINDS = {"enum": ("enum", True), "enum unsigned": ("enum", False), "flag": ("flag", False), "flag signed": ("flag", True)}


class Underlying:
    """what happened to the underlying type"""
    def __init__(self, X, signed):
        self.X, self.signed, self.reads, self.writes, self.n = X, signed, [], [], 0

    def value(self, name=None):
        self.n += 1
        name = name or f"value{self.n}"
        X, lo, hi = self.X, -(1 << 127) if self.signed else 0, (1 << (127 if self.signed else 128)) - 1
        if X.symbolic: return X.bigint(name, lo, hi)
        return X.pick(name + "k", (0, 1, 2, 3, 4, 5, 6, 7, 9, 255)) if X.pick(name + "s", (True, False)) else X.int(name, lo, hi)


def make(X, kind, signed, name="E"):
    """an enumeration over an arbitrary integer type: its reader fails or yields any value, its writer writes any"""
    u = Underlying(X, signed)

    class U(int, BaseType):
        @classmethod
        def _read(cls, stream, context=None):
            if X.pick(f"{name}.fails", (False, True)):
                e = EOFError("end of input")
                u.reads.append(("one", stream, context, None, e))
                raise e
            v = u.value()
            u.reads.append(("one", stream, context, v, None))
            return int.__new__(cls, v)
        @classmethod
        def _read_array(cls, stream, count, context=None): return cls.many("array", stream, context, count)
        @classmethod
        def _read_0(cls, stream, context=None): return cls.many("zero", stream, context, None)
        @classmethod
        def many(cls, what, stream, context, count):
            if X.pick(f"{name}.fails", (False, True)):
                e = EOFError("end of input")
                u.reads.append((what, stream, context, None, e, count))
                raise e
            if X.symbolic:
                import z3
                V = z3.Function("element", z3.IntSort(), z3.IntSort())
                def at(i):
                    t = V(sym.to_int(sym.as_sint(i)).t)
                    if not signed: sym.EX.assume_t(t >= 0)
                    return sym.SInt(t, None if signed else 0, None, U)
                l = SymList(X.bigint("n", 0), at)
            else: l = [int.__new__(cls, u.value()) for _ in range(X.bigint("n", 0, 5))]
            u.reads.append((what, stream, context, l, None, count))
            return l
        @classmethod
        def _write(cls, stream, data):
            u.writes.append(("one", stream, data))
            return 77
        @classmethod
        def _write_array(cls, stream, data):
            u.writes.append(("array", stream, data))
            return 78
        @classmethod
        def __default__(cls):
            if not hasattr(u, "default"): u.default = u.value("default")
            return u.default

    U.size, U.dynamic, U.alignment, U.signed = X.bigint("usize", 1, 16), False, 8, signed
    U.__name__ = U.__qualname__ = f"U{name}"
    cs = cstruct()
    members = {"A": 1, "B": 2, "C": 4} if kind == "flag" else {"A": 0, "B": 1, "C": 5, "Ca": 5}
    E = (cs._make_flag if kind == "flag" else cs._make_enum)(name, U, members)
    if X.symbolic: sym.EX.enums[E] = any_members(E)
    return u, U, E


def is_value(X, E, x, v, what, outcome=None):
    X.check(type(x) is E, f"{what}: an instance of the enumeration", outcome=outcome)
    X.check(x.value == v, f"{what}: its value is exactly the underlying integer", outcome=outcome)
    X.check(int(x) == v, f"{what}: it is that integer", outcome=outcome)
    X.check(x == v, f"{what}: it equals that integer", outcome=outcome)
    X.check(not (x != v), f"{what}: it is not unequal to it", outcome=outcome)


@proof("C12 C02 C08 C09 C14 C15 C01", "EnumMetaType._read Enum._missing_ Flag._missing_", KINDS)
def enum_read(X, case):
    """For all members and every underlying value: one value of the underlying type is read, with the context; the result is
    an instance with exactly this value; an error of the underlying type is the outcome."""
    u, U, E = make(X, *case)
    s, ctx = object(), {"a": 1}
    out = X.call(E._read, s, ctx)
    X.check(len(u.reads) == 1 and u.reads[0][1] is s and u.reads[0][2] is ctx, "one value of the underlying type is read", outcome=out)
    v, e = u.reads[0][3:5]
    if e is not None:
        X.check(out.exc is e, "the error of the underlying type", outcome=out)
        return
    X.check(out.ok, "no error", outcome=out)
    is_value(X, E, out.value, v, "parsed", out)


@proof("C12 C07 C02 C14 C15 C01", "EnumMetaType._read_array EnumMetaType._read_0", {f"{k} {f}": v + (f,) for k, v in KINDS.items() for f in ("array", "zero")})
def enum_read_array(X, case):
    """Arrays and null-terminated arrays: the elements are exactly the underlying values that were read, all of them, in order."""
    kind, signed, form = case
    u, U, E = make(X, kind, signed)
    s, ctx = object(), {"a": 1}
    n = X.bigint("count", 0)
    out = X.call(E._read_array, s, n, ctx) if form == "array" else X.call(E._read_0, s, ctx)
    X.check(len(u.reads) == 1 and u.reads[0][0] == form and u.reads[0][1] is s and u.reads[0][2] is ctx, "read once through the underlying type", outcome=out)
    if form == "array": X.check(u.reads[0][5] == n, "as many elements as asked for")
    l, e = u.reads[0][3:5]
    if e is not None:
        X.check(out.exc is e, "the error of the underlying type", outcome=out)
        return
    X.check(out.ok, "no error", outcome=out)
    X.check(len(out.value) == len(l), "as many elements", outcome=out)
    for i in X.each(len(l)): is_value(X, E, out.value[i], l[i], "element", out)


@proof("C12 C01 C02 C14 C15", "EnumMetaType._write EnumMetaType._write_array EnumMetaType._write_0", {f"{k} {f}": v + (f,) for k, v in KINDS.items() for f in ("one", "array", "zero")})
def enum_write(X, case):
    """Writing hands exactly the integers to the underlying type, all of them, in order, plus the zero value for a terminator."""
    kind, signed, form = case
    u, U, E = make(X, kind, signed)
    o = object()
    if form == "one":
        v = u.value()
        out = X.call(E._write, o, E(v))
        X.check(out.ok and out.value == 77 and len(u.writes) == 1 and u.writes[0][:2] == ("one", o), "written once through the underlying type", outcome=out)
        w = u.writes[0][2]
        X.check(w == v and not isinstance(w, Enum), "the integer")
        return
    if X.symbolic:
        import z3
        V, M = z3.Function("item", z3.IntSort(), z3.IntSort()), z3.Function("ismember", z3.IntSort(), z3.BoolSort())
        n = X.bigint("n", 0)
        def at(i):
            t = sym.to_int(sym.as_sint(i)).t
            v = sym.SInt(V(t), None, None)
            if not signed: sym.EX.assume_t(V(t) >= 0)
            return E(v) if bool(sym.mkb(M(t))) else v
        data, val = SymList(n, at), lambda i: sym.SInt(V(sym.to_int(sym.as_sint(i)).t), None, None)
    else:
        vs = [u.value() for _ in range(X.bigint("n", 0, 5))]
        n, data, val = len(vs), [E(v) if X.pick(f"member{i}", (True, False)) else v for i, v in enumerate(vs)], lambda i: vs[i]
    out = X.call(E._write_array if form == "array" else E._write_0, o, data)
    X.check(out.ok and out.value == 78 and len(u.writes) == 1 and u.writes[0][0] == "array" and u.writes[0][1] is o, "written once through the underlying type", outcome=out)
    w = u.writes[0][2]
    X.check(len(w) == n + (form == "zero"), "as many elements")
    if form == "zero": X.check(w[n] == u.default, "the zero value last")
    for i in X.each(n): X.check(w[i] == val(i) and type(w[i]) is not E, "the integers, in order")


def member(X, E, v, name):
    """an instance of the enumeration under some name (enumerations may have several names for a value)"""
    m = int.__new__(E, v)
    m._value_, m._name_ = v, name
    return m


@proof("C12 C14 C15", "Enum.__eq__ Enum.__ne__ Flag.__eq__ Flag.__ne__", {f"{k} {o}": v + (o,) for k, v in KINDS.items() for o in ("int", "same", "alias", "enum", "flag", "object")})
def enum_eq(X, case):
    """A member equals its integer value and every instance of the same enumeration with that value, whatever its name, and no
    member of another enumeration; != is the negation; both ways round."""
    kind, signed, other = case
    u, U, E = make(X, kind, signed)
    v = u.value("v")
    w = v if not X.symbolic and X.pick("equal", (False, True)) else u.value("w")
    a = E(v)
    if other == "int": b, want = w, v == w
    elif other == "same": b, want = E(w), v == w
    elif other == "alias": b, want = member(X, E, w, "Z"), v == w
    elif other == "object": b, want = Val("thing"), False
    else:
        _, _, F = make(X, other, signed, "F")
        b, want = F(w), False
    want = X.truth(want)
    for x, y in ((a, b), (b, a)):
        X.check((x == y) == want, "equal exactly when it is the same value of the same enumeration", other=b)
        X.check((x != y) == (not want), "unequal exactly when not equal", other=b)


@proof("C12 C14 C15", "Enum.__hash__ Flag.__hash__ EnumMetaType.__call__", KINDS)
def enum_hash(X, case):
    """Two parses of the same underlying value yield equal objects with equal hashes; so do equal values constructed."""
    u, U, E = make(X, *case)
    v = u.value("v")
    w = v if not X.symbolic and X.pick("equal", (False, True)) else u.value("w")
    a, b = E(v), E(w)
    if X.truth(v == w):
        X.check(a == b, "equal")
        X.check(hash(a) == hash(b), "equal hashes")


@proof("C12 C09 C14 C15", "EnumMetaType.__call__", {f"{k} {f}": v + (f,) for k, v in KINDS.items() for f in ("int", "none", "stream")})
def enum_call(X, case):
    """E(v) is the instance with value v; E() the one of the zero value; E(input) the one of the integer parsed from it."""
    kind, signed, form = case
    u, U, E = make(X, kind, signed)
    if form == "int": arg, v = (u.value("v"),), u.value
    elif form == "none": arg = ()
    else: arg = (X.stream("s", mode="int"),)
    out = X.call(E, *arg)
    if form == "stream":
        X.check(len(u.reads) == 1 and u.reads[0][1] is arg[0], "parsed from the input by the underlying type", outcome=out)
        if u.reads[0][4] is not None:
            X.check(out.exc is u.reads[0][4], "the error of the underlying type", outcome=out)
            return
        v = u.reads[0][3]
    else: v = arg[0] if arg else u.default
    X.check(out.ok, "no error", outcome=out)
    is_value(X, E, out.value, v, "constructed", out)


@proof("C12 C04", "EnumMetaType.__call__ cstruct._make_enum cstruct._make_flag", ("enum", "flag"))
def enum_create(X, case):
    """An enumeration has size, alignment and dynamic-ness of its underlying type, and belongs to its cstruct instance."""
    cs = cstruct()

    class U(int, BaseType): pass
    U.size, U.dynamic, U.alignment = X.bigint("size", 0), X.pick("dynamic", (False, True)), X.bigint("alignment", 1)
    E = (cs._make_flag if case == "flag" else cs._make_enum)("E", U, {"A": 1, "B": 2})
    X.check(E.size is U.size and E.alignment is U.alignment and E.dynamic is U.dynamic and E.type is U and E.cs is cs, "size, alignment, type and owner")


# ---------------------------------------------------------------------------------------------------------- numbering

MEMBERS = ("A", " A ", "A = e0", "\n A=e0 ", "  ", "")


class MembersCut(Cut):
    """after any members: nextval is what the last one implies, values holds the members so far in order"""
    def __init__(self, X, flag, log): self.X, self.flag, self.log = X, flag, log

    def enter(self, L, it):
        self.values, self.nextval = self.roles(L, ("values", lambda v: type(v) is dict and not v), ("nextval", lambda v: type(v) is int and v == (1 if self.flag else 0)))

    def havoc(self, L):
        ex = sym.EX
        self.d = Members()
        self.nv = self.X.int("next", 0 if self.flag else -(1 << 127), (1 << 128) - 1)
        return {self.values: self.d, self.nextval: self.nv}

    def iter(self, it):
        if sym.EX.choose(2) == 1: return
        self.text = self.X.pick("member", MEMBERS)
        yield self.text

    def end(self, L):
        ex = sym.EX
        d = self.d
        ex.oblige(L[self.values] is d, "members: the same collection")
        name, _, val = (x.strip() for x in self.text.partition("="))
        if not name:
            ex.oblige(not d.new and not self.log, "members: an empty entry is none")
            ex.oblige(L[self.nextval] == self.nv, "members: and changes nothing")
            return
        ex.oblige(len(d.new) == 1 and d.new[0][0] == name, "members: exactly the member is added")
        v = d.new[0][1]
        if val:
            ex.oblige(len(self.log) == 1 and self.log[0][0] == val and self.log[0][1] is d, "members: the explicit value is the expression over the earlier members")
            ex.oblige(v == self.log[0][2], "members: with the explicit value")
        else: ex.oblige(not self.log and bool(v == self.nv), "members: with the value continuing from the previous one")
        p = L[self.nextval]
        if not self.flag: ex.oblige(p == v + 1, "members: the next one is the previous + 1")
        else:
            ex.oblige(p > v, "members: the next flag is higher")
            ex.oblige(p == 1 if bool(v == 0) else p <= 2 * v, "members: the next flag is the next power of two")
            ex.oblige(p & (p - 1) == 0, "members: the next flag is a power of two")


class Members:
    """the members so far: arbitrary, and those added since"""
    def __init__(self): self.new = []
    @property
    def __class__(self): return dict
    def __setitem__(self, k, v): self.new.append((k, v))


@proof("C12", "TokenParser._enum", ("enum", "flag"), timeout=120)
def numbering(X, case):
    """For any number of members: one without an explicit value continues from the previous one (enum: + 1; flag: the next
    higher power of two; the first: 0 and 1); explicit values are expressions over the earlier members."""
    cs = cstruct()
    log, made = [], []
    p = TokenParser(cs)
    if X.symbolic:
        def evaluate(self, context=None):
            v = X.int("explicit", 0 if case == "flag" else -(1 << 127), (1 << 127) - 1)
            log.append((self.expression, context, v))
            return v
        sym.EX.stubs[Expression.evaluate] = evaluate
        cut = MembersCut(X, case == "flag", log)
        X.loop("TokenParser._enum:1", cut)

        class Type: pass
        Type.__name__ = "E"

        def mk(name, type_, values):
            made.append((name, type_, values))
            return Type
        cs._make_flag = lambda *a: (made.append(("flag",)), mk(*a))[1]
        cs._make_enum = lambda *a: (made.append(("enum",)), mk(*a))[1]
        toks = Tokens(f"{case} E : uint16 {{ A, B = 1 }}")
        out = X.call(p._enum, toks)
        X.check(out.ok, "no error", outcome=out)
        X.check(made[0] == (case,) and made[1][:2] == ("E", cs.uint16) and made[1][2] is cut.d and len(made) == 2, "made with exactly these members", got=made)
        X.check(cs.typedefs["E"] is Type, "registered under its name")
        return
    n = X.bigint("n", 1, 8)
    vals, texts, nxt = {}, [], 1 if case == "flag" else 0
    for i in range(n):
        if X.pick(f"x{i}", (True, False)):
            prev = X.pick(f"p{i}", [None] + list(vals))
            k = X.int(f"k{i}", 0, 40)
            v = k if prev is None else vals[prev] + k
            texts.append(f"m{i} = {k}" if prev is None else f"m{i} = {prev} + {k}")
        else:
            v = nxt
            texts.append(f"m{i}")
        vals[f"m{i}"] = v
        nxt = (1 << v.bit_length()) if case == "flag" else v + 1
    out = X.call(cs.load, f"{case} E : uint64 {{ {', '.join(texts)} }};")
    if any(v >= 1 << 64 for v in vals.values()): return
    X.check(out.ok and {k: m.value for k, m in cs.E.__members__.items()} == vals, "members are numbered like in C", outcome=out, expected=vals)


class Tokens:
    """token stream holding one enum token"""
    def __init__(self, text): self.text = text
    def consume(self): return self
    @property
    def value(self): return self.text
    def eol(self): pass
