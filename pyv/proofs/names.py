"""C13 names of types: for every table of names.  The table is chosen while it is looked at (a name is absent, a type, an alias
of a new name or of one seen before), so that every finite table is covered; cycles included."""
from pyv import core
from pyv.sym import Unsupported
from pyv.proofkit import proof
from pyv.real import cstruct
from dissect.cstruct.exceptions import ResolveError
from dissect.cstruct.types.base import BaseType

MISSING = object()


class Table(dict):
    """an arbitrary table of type names"""
    def __init__(self, X, deep=11):
        self.X, self.seen, self.writes, self.deep = X, {}, [], deep

    def find(self, n):
        if n in self.seen: return self.seen[n]
        i = len(self.seen)
        names = sorted(self.seen) + [n]
        k = "type" if i >= self.deep else self.X.pick(f"entry{i}", ("type", "alias of a new name", "alias", "absent"))
        if k == "type": v = type(f"T{i}", (BaseType,), {})
        elif k == "alias of a new name": v = f"n{i + 1}"
        elif k == "alias": v = names[0] if len(names) == 1 else self.X.pick(f"target{i}", (names[0], names[-1], names[len(names) // 2]))
        else: v = MISSING
        self.seen[n] = v
        return v

    def __contains__(self, n): return self.find(n) is not MISSING

    def __getitem__(self, n):
        v = self.find(n)
        if v is MISSING: raise KeyError(n)
        return v

    def get(self, n, d=None): return self[n] if n in self else d

    def __setitem__(self, n, v):
        self.writes.append((n, v))
        self.seen[n] = v

    def setdefault(self, n, d=None):
        if n not in self: self[n] = d
        return self[n]

    def __delitem__(self, n):
        self.writes.append((n, MISSING))
        self.seen[n] = MISSING

    def __iter__(self, *a): raise (Unsupported if self.X.symbolic else core.Skip)("an operation on the whole of an arbitrary table")
    keys = items = values = __len__ = __bool__ = __eq__ = __or__ = __ror__ = __ior__ = __reversed__ = copy = clear = pop = popitem = update = __iter__


def make(X, deep=11):
    cs = cstruct()
    cs.typedefs = Table(X, deep)
    return cs, cs.typedefs


def follow(t, n):
    """the type a name stands for: (type or None, number of names passed)"""
    steps = 0
    while isinstance(n, str):
        if n is MISSING or steps > 40: return None, steps
        steps += 1
        n = t.find(n)
        if n is MISSING: return None, 0
    return n, steps


@proof("C13", "cstruct.resolve", (None,))
def resolve(X, case):
    """For every table of names and every name: the type at the end of its chain of aliases (of up to ten names), the very same
    object; an unknown or cyclic alias is a ResolveError; a type is itself; the table stays as it is."""
    cs, t = make(X)
    if X.pick("given", ("name", "type")) == "type":
        T = type("T", (BaseType,), {})
        out = X.call(cs.resolve, T)
        X.check(out.ok and out.value is T, "a type is itself", outcome=out)
        X.check(not t.writes, "the table stays as it is")
        return
    out = X.call(cs.resolve, "n0")
    T, steps = follow(t, "n0")
    if T is None: X.check(out.raised(ResolveError), "an unknown or cyclic alias is a resolve error", outcome=out)
    elif steps <= 10: X.check(out.ok and out.value is T, "the very type at the end of the chain", outcome=out)
    else: X.check(out.ok and out.value is T or out.raised(ResolveError), "never another type", outcome=out)
    X.check(not t.writes, "the table stays as it is")


@proof("C13", "cstruct.add_type", ("name", "type", "replace"))
def add_type(X, case):
    """For every table: a new name is added and nothing else changes; a known one is accepted only if both stand for the very
    same type, and is then left alone; a rejected one changes nothing."""
    cs, t = make(X, 3)
    what = type("New", (BaseType,), {}) if case == "type" and X.pick("same", (False, True)) is False else "m0"
    if case == "type" and what == "m0":
        what, _ = follow(t, "n0")
        if what is None: return X.check(True, "no such type")
    known = t.find("n0") is not MISSING
    before = t.find("n0")
    out = X.call(cs.add_type, "n0", what, replace=True) if case == "replace" else X.call(cs.add_type, "n0", what)
    if case == "replace" or not known:
        X.check(out.ok, "a new name is accepted", outcome=out)
        X.check(t.writes == [("n0", what)], "exactly this name is added", got=t.writes)
        return
    X.check(not t.writes, "a known name stays as it is", got=t.writes)
    a, b = follow(t, before), follow(t, what)
    if a[0] is None or b[0] is None: X.check(out.raised(ResolveError), "a reference to an unknown or cyclic alias is a resolve error", outcome=out)
    elif a[0] is b[0]: X.check(out.ok, "declaring the same again is accepted", outcome=out)
    else: X.check(out.raised(ValueError) and not out.raised(ResolveError), "a known name is not given to another type", outcome=out)


@proof("C13", "cstruct.__getattr__", (None,))
def attribute(X, case):
    """For every table: an attribute is the constant of that name, or else what the name resolves to."""
    cs, t = make(X)
    const = X.pick("constant", (False, True))
    v = object()
    if const: cs.consts["n0"] = v
    out = X.call(getattr, cs, "n0")
    if const:
        X.check(out.ok and out.value is v, "the constant", outcome=out)
        return
    if t.find("n0") is MISSING:
        X.check(out.raised(AttributeError), "no such attribute", outcome=out)
        return
    T, steps = follow(t, "n0")
    if T is None: X.check(out.raised(ResolveError), "an unknown or cyclic alias is a resolve error", outcome=out)
    elif steps <= 10: X.check(out.ok and out.value is T, "the very type the name stands for", outcome=out)
    else: X.check(out.ok and out.value is T or out.raised(ResolveError), "never another type", outcome=out)
