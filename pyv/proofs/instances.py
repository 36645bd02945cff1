"""C17/C14 instances of structures: construction, defaults, equality, truth, hash, assignment, forwarding of anonymous members.

Field values are arbitrary objects, of which only two facts matter to the code: which of them are equal (with equal hashes),
and which are true; every combination is covered.  Field types are arbitrary types, known by what __default__ returns: an
immutable value, or a new mutable object per call.  The number of fields is bounded, per proof (the generated methods are
straight-line code; sizes include both sides of the 255/256 boundary of the byte code arguments)."""
from pyv.proofkit import proof
from pyv.real import cstruct
from dissect.cstruct.types.base import BaseType
from dissect.cstruct.types.structure import Field, Structure, Union

SIZES = (0, 1, 2, 3, 4)
LARGE = (9, 16, 255, 256, 257, 300)
ODD = ["self", "other", "_self", "any", "hash", "object", "value", "fields", "size", "None_"]


class V:
    """an arbitrary value: equal to those of its class k (which hash equally), true or not"""
    def __init__(self, k, truth=True): self.k, self.truth = k, truth
    def __eq__(self, o): return self.k == o.k if type(o) is V else NotImplemented
    def __hash__(self): return hash(self.k)
    def __bool__(self): return self.truth
    def __repr__(self): return f"V{self.k}"


class Mutable:
    """a mutable default value"""
    def __repr__(self): return "mutable"


def some_type(kind, log):
    """an arbitrary field type"""
    class T(BaseType):
        size, dynamic, alignment = 1, False, 1

        @classmethod
        def __default__(cls):
            v = {"int": 0, "bytes": b"\0", "str": "", "float": 0.0}.get(kind)
            if v is None: v = Mutable()
            log.append((cls, v))
            return v
    return T


def names_of(n, odd=False):
    if odd: return ODD[:n]
    return [f"f{i}" for i in range(n)]


def make(names, types, union=False, align=False):
    cs = cstruct()
    fields = [Field(n, t) for n, t in zip(names, types)]
    return (cs._make_union if union else cs._make_struct)("T", fields, align=align)


def positions(X, n):
    """an arbitrary position (for large n: one of the representative ones)"""
    return X.pick("position", sorted({i for i in (0, 1, 2, n // 2, 254, 255, 256, n - 1) if 0 <= i < n}))


SHAPES = {**{f"{n}": (n, False) for n in SIZES + LARGE}, "odd names": (len(ODD), True)}


def agreement(X, n, what):
    """for n values: which hold; every combination for small n, otherwise all, none, or all/none but one arbitrary one"""
    if n <= 4: return [X.pick(f"{what}{i}", (True, False)) for i in range(n)]
    k = X.pick(what, ("all", "none", "all but", "only"))
    p = positions(X, n) if k in ("all but", "only") else None
    return [(i != p) if k in ("all", "all but") else (i == p) for i in range(n)]


BOUND = "0-4 fields with every combination; 9, 10, 16, 255, 256, 257 and 300 fields with all but one alike"


@proof("C17", "_make__eq__ _generate__eq__ _patch_attributes _codegen StructureMetaType._update_fields", SHAPES, bounded=BOUND)
def instance_eq(X, case):
    """For all field values: two instances are equal exactly when they are of the same type and all their fields are equal;
    != is the opposite; equal instances hash equally; comparing changes nothing."""
    n, odd = case
    names, log = names_of(n, odd), []
    ft = some_type("int", log)
    T, U = make(names, [ft] * n), make(names, [ft] * n)
    eq = agreement(X, n, "equal")
    va = [V(i) for i in range(n)]
    vb = [V(i) if e else V(-1 - i) for i, e in enumerate(eq)]
    a, b = T(), T()
    for nm, x, y in zip(names, va, vb):
        setattr(a, nm, x)
        setattr(b, nm, y)
    before = dict(a.__dict__), dict(b.__dict__)
    r = X.call(lambda: a == b)
    X.check(r.ok, "comparing does not fail", outcome=r)
    X.check((r.value is True) == all(eq) and (r.value is False) == (not all(eq)), "equal exactly when all fields are equal", got=r.value, want=all(eq))
    r = X.call(lambda: a != b)
    X.check(r.ok and r.value == (not all(eq)), "!= is the opposite", outcome=r)
    if all(eq): X.check(hash(a) == hash(b), "equal instances hash equally")
    c = U()
    for nm, x in zip(names, va): setattr(c, nm, x)
    X.check((a == c) is False and (c == a) is False, "instances of different types are not equal")
    X.check((a == 5) is False and (a == None) is False and (a == tuple(va)) is False, "not equal to something else")  # noqa: E711
    same = lambda d, e: list(d) == list(e) and all(d[k] is e[k] for k in d)
    X.check(same(a.__dict__, before[0]) and same(b.__dict__, before[1]), "nothing is changed")


@proof("C17", "_make__bool__ _generate__bool__ _patch_attributes", SHAPES, bounded=BOUND)
def instance_bool(X, case):
    """An instance is false exactly when all its fields are."""
    n, odd = case
    names, log = names_of(n, odd), []
    T = make(names, [some_type("int", log)] * n)
    tr = agreement(X, n, "true")
    a = T()
    for i, (nm, t) in enumerate(zip(names, tr)): setattr(a, nm, V(i, t))
    r = X.call(bool, a)
    X.check(r.ok and r.value == any(tr), "false exactly when all fields are false", outcome=r)


@proof("C17 C14", "_make_structure__init__ _make_union__init__ _generate_structure__init__ _generate_union__init__ _unshare_defaults StructureMetaType.__call__ MetaType.__call__",
       {f"{u} {k}": (u, v) for u in ("struct",) for k, v in {**{str(n): (n, False) for n in (1, 2, 3)}, **{str(n): (n, False) for n in LARGE}, "odd names": (len(ODD), True)}.items()}, bounded=BOUND)
def instance_init(X, case):
    """For every choice of positional and keyword arguments and all values: each field given (and not None) is that very object,
    every other field has its type's zero value; mutable zero values are new objects, shared with no other instance; constructing
    equals assigning the fields on a default instance; nothing is shared through the class."""
    _, (n, odd) = case
    names, log = names_of(n, odd), []
    kinds = ("int", "mutable", "bytes")
    if n <= 2: ks = [X.pick(f"default{i}", kinds) for i in range(n)]
    else:
        k, j = X.pick("defaults", (("int", "mutable"), ("mutable", "bytes"), ("mutable", "mutable")))
        p = positions(X, n)
        ks = [j if i == p else k for i in range(n)]
    types = [some_type(k, log) for k in ks]
    T = make(names, types)
    made = len(log)
    if n <= 3:
        npos = X.pick("positional", range(n + 1))
        how = ["pos"] * npos + [X.pick(f"kw{i}", ("absent", "given", "None")) for i in range(npos, n)]
        none = X.pick("a positional None", (False, True)) if npos else False
    else:
        npos = X.pick("positional", sorted({0, 1, min(255, n), n}))
        how = ["pos"] * npos + ["given" if i == p else "absent" for i in range(npos, n)]
        none = False
    vals = [V(i, i % 2 == 0) for i in range(n)]
    args = [vals[i] for i in range(npos)]
    if none: args[-1] = None
    kw = {names[i]: vals[i] if how[i] == "given" else None for i in range(npos, n) if how[i] != "absent"}
    given = [(how[i] == "pos" and args[i] is not None) or how[i] == "given" for i in range(n)]
    out = X.call(lambda: T(*args, **kw))
    X.check(out.ok, "construction does not fail", outcome=out)
    a = out.value
    b = T(*args, **kw)
    d = T()
    X.check(type(a) is T and type(d) is T, "an instance of the type")
    maker = {id(v): t for t, v in log if type(v) is Mutable}
    zero = lambda i, v: maker.get(id(v)) is types[i] if ks[i] == "mutable" else type(v) in (int, bytes) and v == {"int": 0, "bytes": b"\0"}[ks[i]]
    wrong = [nm for i, nm in enumerate(names) if given[i] and not (getattr(a, nm) is vals[i] and getattr(b, nm) is vals[i])]
    X.check(not wrong, "the value given", fields=wrong)
    wrong = [nm for i, nm in enumerate(names) if not given[i] and not (zero(i, getattr(a, nm)) and zero(i, getattr(b, nm)))]
    X.check(not wrong, "the zero value of the type of the field", fields=wrong)
    wrong = [nm for i, nm in enumerate(names) if not zero(i, getattr(d, nm))]
    X.check(not wrong, "zero values of a default instance", fields=wrong)
    muts = [getattr(o, nm) for o in (a, b, d, T()) for i, nm in enumerate(names) if ks[i] == "mutable" and not (given[i] and o is not d)]
    muts = [m for m in muts if type(m) is Mutable]
    X.check(len({id(m) for m in muts}) == len(muts), "no mutable zero value is shared")
    for i, nm in enumerate(names):
        if given[i]: setattr(d, nm, vals[i])
    X.check(all(getattr(d, nm) is getattr(a, nm) or ks[i] != "mutable" and getattr(d, nm) == getattr(a, nm) or type(getattr(d, nm)) is type(getattr(a, nm)) is Mutable for i, nm in enumerate(names)),
            "constructing equals assigning the fields on a default instance")
    # assignment is local
    if n:
        p = p if n > 3 else X.pick("assigned", range(n))
        others = {nm: getattr(a, nm) for nm in names if nm != names[p]}
        w = V("new")
        setattr(a, names[p], w)
        X.check(getattr(a, names[p]) is w, "assignment sets the field")
        X.check(all(getattr(a, nm) is v for nm, v in others.items()), "assignment changes no other field")
        X.check(getattr(b, names[p]) is not w and getattr(T(), names[p]) is not w, "assignment changes no other instance")
    r = X.call(lambda: T(*vals, V("extra")))
    X.check(r.raised(TypeError), "too many values are refused", outcome=r)
    r = X.call(lambda: T(no_such_field=V(0)))
    X.check(r.raised(TypeError), "unknown fields are refused", outcome=r)


@proof("C14 C17 C11", "_make_union__init__ _generate_union__init__ _unshare_defaults", {str(n): n for n in (1, 2, 3, 9)}, bounded="1, 2, 3 and 9 members")
def union_defaults(X, n):
    """Default instances of a union: every member has its type's zero value; mutable ones are shared with no other instance."""
    names, log = names_of(n), []
    ks = [X.pick(f"default{i}", ("int", "mutable")) for i in range(min(n, 3))] + ["mutable"] * max(0, n - 3)
    T = make(names, [some_type(k, log) for k in ks], union=True)
    a, b = T(), T()
    for i, nm in enumerate(names):
        x, y = getattr(a, nm), getattr(b, nm)
        if ks[i] == "mutable": X.check(type(x) is Mutable and type(y) is Mutable and x is not y, "zero values are not shared between instances", field=nm)
        else: X.check(x == 0 and y == 0, "the zero value", field=nm)


NESTS = {"a [b]": ["a", ["b"]], "[a] b": [["a"], "b"], "[a b] c": [["a", "b"], "c"], "a [b [c]] d": ["a", ["b", ["c"]], "d"], "[[[a]]]": [[[["a"]]]], "[a] [b]": [["a"], ["b"]], "[a [b] [c]] d": [["a", ["b"], ["c"]], "d"]}


def nested(cs, shape, leaf, name, union=False):
    fields = [Field(s, leaf[s]) if isinstance(s, str) else Field(None, nested(cs, s, leaf, f"{name}_{i}")) for i, s in enumerate(shape)]
    T = cs._make_struct(name, fields)
    if name != "T": T.__anonymous__ = True
    return T


def leaves(shape): return [x for s in shape for x in ([s] if isinstance(s, str) else leaves(s))]


def holder(obj, shape, name, prefix="T"):
    """the (nested) instance that holds the field itself, found through the fields of the types"""
    for f, s in zip(type(obj).__fields__, shape):
        if s == name: return obj
        if not isinstance(s, str) and name in leaves(s): return holder(getattr(obj, f._name), s, name)


@proof("C17 C18", "StructureMetaType._update_fields attrsetter", NESTS, bounded="the listed nestings of anonymous structures (up to depth 4), all values")
def anonymous_members(X, shape):
    """Members of anonymous structures read and assign like fields of the enclosing structure, and are the same as those of the
    nested instance; equality, truth and hash are over all of them."""
    cs, log = cstruct(), []
    names = leaves(shape)
    ft = some_type("int", log)
    T = nested(cs, shape, {n: ft for n in names}, "T")
    X.check(list(T.fields) == names, "members of anonymous structures are fields", got=list(T.fields))
    a, b = T(), T()
    eq, tr = agreement(X, len(names), "equal"), agreement(X, len(names), "true")
    for i, n in enumerate(names):
        v, w = V(i, tr[i]), V(i if eq[i] else -1 - i, tr[i])
        others = {m: getattr(a, m) for m in names if m != n}
        out = X.call(setattr, a, n, v)
        X.check(out.ok, "assigning a member does not fail", outcome=out)
        X.check(getattr(a, n) is v, "the member is the value assigned", member=n)
        X.check(holder(a, shape, n).__dict__[n] is v, "held by the nested instance", member=n)
        X.check(all(getattr(a, m) is x for m, x in others.items()), "no other member changes", member=n)
        X.check(getattr(b, n) is not v, "no other instance changes", member=n)
        setattr(holder(b, shape, n), n, w)
        X.check(getattr(b, n) is w, "assigning on the nested instance shows", member=n)
    X.check((a == b) == all(eq), "equal exactly when all members are", want=all(eq))
    if all(eq): X.check(hash(a) == hash(b), "equal instances hash equally")
    X.check(bool(a) == any(tr), "false exactly when all members are")
