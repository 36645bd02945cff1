"""C18 structures built in steps, or referring to themselves.

Layout: unbounded, by a lemma over the layout specification (which struct_layout proves of the real code): an offset that an
earlier commit stored in a field does not change what a later commit computes.  Readers, writers and instances: one definition
at a time, for all inputs; the definitions and the histories are enumerated (the bound of those proofs)."""
import os
import random

from contracts.common import rand_value
from contracts.c18 import signature, shape as layout_shape, pointers
from pyv import sym, specstruct as SP
from pyv import ref as R
from pyv.proofkit import proof, exact
from pyv.proofs.defs import KINDS, THOROUGH, Twin, twin, members, same_value, definition, I, A
from pyv.proofs.structs import CASES, lemma_state, truth, ALIGN, fresh_int
from pyv.real import load
from dissect.cstruct import compiler
from dissect.cstruct.types import Pointer
from dissect.cstruct.types.structure import Field


@proof("C18", "spec", CASES)
def lemma_recommit(X, case):
    """For every state of the layout computation and every field: the offset it stores in the field leads to the same offset
    and the same next state again.  By induction over the fields, computing the layout any number of times, over growing
    lists of fields, ends in the layout of the whole list."""
    align, al = case
    if not X.symbolic: return X.check(True, "lemma over the specification")
    f, rem, pos, us, ut, ual = lemma_state(X, al, align)
    alS = X.pick("alignment", ALIGN) if align else 1
    static = X.pick("static", (True, False))
    S = SP.L(pos if static else None, alS, rem, ut, pos - us if static and ut is not None else None, us)
    if SP.continues(truth, f, rem, ut): sym.EX.assume(f.off is None)  # precondition: see DESIGN.md
    g1, N1 = SP.lstep(truth, f, S, align)
    if g1 is not None: f.off = g1
    g2, N2 = SP.lstep(truth, f, S, align)
    X.check((g1 is None) == (g2 is None) and (g1 is None or bool(g1 == g2)), "the same offset again")
    for k in ("off", "al", "rem", "ustart", "usize"):
        a, b = getattr(N1, k), getattr(N2, k)
        X.check((a is None) == (b is None) and (a is None or bool(a == b)), f"the same next state again: {k}")
    X.check((N1.ut is None) == (N2.ut is None) and (N1.ut is None or bool(N1.ut == N2.ut)), "the same unit again")


HISTORIES = ("one by one", "batch after the first", "two batches", "all in one batch", "first one, used, rest by fields list", "one by one, compiled in between", "batch of the rest, compiled last", "one by one, used in between")


SLOW = ("dynamic struct", "uint16[k]", "char[k]", "wchar", "wchar[2]")  # many paths


def catalogue():
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ks = list(KINDS)
    rng = random.Random(seed + 18)
    groups = [(a,) for a in ks] + [(a, b) for x, a in enumerate(ks) for y, b in enumerate(ks) if (x + y * 3 + seed) % (2 if THOROUGH else 5) == 0]
    bits = [k for k in ks if type(KINDS[k]) is tuple]
    groups += [(b, b, k) for x, b in enumerate(bits) for y, k in enumerate(ks) if (x + y + seed) % (2 if THOROUGH else 5) == 0]
    groups += [tuple(rng.choice(ks) for _ in range(rng.choice((3, 4, 5)))) for _ in range(1500 if THOROUGH else 100)]
    out = {}
    for i, g in enumerate(groups):
        m = R.Mode("<>"[i % 2], bool(i // 2 % 2), I(("uint32", "uint16")[i % 2]))
        st = definition(g, m)
        if st is None or len(g) > 2 and sum(k in SLOW for k in g) > 1: continue
        if i % 6 == 5 and not any(f.bits for f in st.fields): st = R.Struct("T", st.fields, True)
        out[f"{' '.join(g)} {m.endian}{'a' if m.aligned else 'p'}{'u' if st.union else ''}{'c' if i % 3 else 'i'}"] = (st, m, bool(i % 3), HISTORIES if THOROUGH or len(g) == 1 else tuple(HISTORIES[(i + j) % 8] for j in (0, 3)))
    return out


def use(cls):
    """fill whatever caches there are"""
    for f in (lambda: cls(), lambda: cls(bytes(range(64))), lambda: hash(cls()), lambda: cls() == cls(), lambda: cls().dumps(), lambda: cls[2](bytes(128)), lambda: repr(cls()), lambda: bool(cls())):
        try: f()
        except Exception: pass


def grow(cs, make, spec, m, compiled, how):
    """the structure built in steps"""
    def fields(l): return [Field(n, t, bits=b) for n, t, b in l]
    k = 0 if how in ("all in one batch", "one by one", "one by one, compiled in between") else len(spec) // 2 if how == "two batches" else min(1, len(spec))
    T = make("T", fields(spec[:k]), align=m.aligned)
    late = how in ("one by one, compiled in between", "batch of the rest, compiled last")
    if compiled and not late: T = compiler.compile(T)
    rest = spec[k:]
    if "used" in how: use(T)
    if how.startswith("one by one"):
        for j, (n, t, b) in enumerate(rest):
            T.add_field(n, t, bits=b)
            if "used" in how: use(T)
            if compiled and late and j == (len(rest) - 1) // 2: T = compiler.compile(T)
    elif "fields list" in how:
        T.__fields__.extend(fields(rest))
        T.commit()
    else:
        with T.start_update():
            for n, t, b in rest: T.add_field(n, t, bits=b)
    if compiled and how.startswith("batch of the rest"): T = compiler.compile(T)
    return T


@proof("C18", "StructureMetaType.add_field StructureMetaType.start_update StructureMetaType.commit StructureMetaType._update_fields Compiler.compile_read", catalogue, bounded="the definitions and histories enumerated (all inputs of each)", timeout=40, native=2)
def incremental_is_oneshot(X, case):
    """A structure built in steps has the layout, the (compiled) reader, the writer and the instances of the one declared in one
    piece: for every input."""
    st, m, compiled, histories = case
    cs = load(R.source(st, m), m, compiled)
    one = cs.T
    make = cs._make_union if st.union else cs._make_struct
    spec = [(f.name, f.type, f.bits) for f in one.__fields__]
    inc = grow(cs, make, spec, m, compiled, X.pick("history", histories))
    s1, s2 = signature(one), signature(inc)
    for k in s1: X.check(s1[k] == s2[k], f"the layout of the structure declared in one piece: {k}", got=s2[k], expected=s1[k])
    X.check(bool(one.__compiled__) == bool(inc.__compiled__), "compiled exactly when the one declared in one piece is")
    if X.symbolic: members(cs)
    if X.pick("what", ("reading", "instances")) == "instances": return same_instances(X, st, m, one, inc)
    s = X.stream("s")
    if X.symbolic: s.coarse = True
    t = twin(X, s)
    a, b = X.call(one._read, s), X.call(inc._read, t)
    if a.ok or b.ok or not a.raised(UnicodeError, EOFError) or not b.raised(UnicodeError, EOFError):
        X.check(a.ok and b.ok, "both read or both refuse", one=a, steps=b)
        conds = []
        ok = same_fields(X, a.value, b.value, conds)
        X.check(ok and X.all(conds), "the same values", one=a, steps=b)
        X.check(s.tell() == t.tell(), "the same number of bytes read")
        za, zb = dict(a.value._sizes), dict(b.value._sizes)
        X.check(sorted(za) == sorted(zb) and X.all([za[k] == zb[k] for k in za]), "the same recorded sizes", one=za, steps=zb)


def same_fields(X, a, b, conds):
    fa, fb = a.__class__.__fields__, b.__class__.__fields__
    return len(fa) == len(fb) and all(same_value(X, getattr(a, x._name), getattr(b, y._name), conds, x.bits) for x, y in zip(fa, fb))


def same_instances(X, st, m, one, inc):
    """the writer and the instances, on arbitrary values"""
    d1, d2 = X.call(one), X.call(inc)
    X.check(d1.ok == d2.ok, "default instances alike", one=d1, steps=d2)
    if not d1.ok: return
    if st.union: return  # the members of a union depend on each other: covered by union_assign
    from contracts.common import build
    env = {}
    kw = {}
    for i, f in enumerate(st.fields):
        v = rand_value(X, f.type, m, f"v{i}", env, f.bits)
        env[f.name] = v
        cls = one.__fields__[i].type
        kw[f.name] = build(cls, f.type, v) if not f.bits or isinstance(f.type, R.Enum) else v
    e1, e2 = X.call(lambda: one(**kw)), X.call(lambda: inc(**kw))
    X.check(e1.ok and e2.ok, "construction by keyword alike", one=e1, steps=e2)
    w1, w2 = X.call(e1.value.dumps), X.call(e2.value.dumps)
    if w1.raised(UnicodeError) and w2.raised(UnicodeError): return
    X.check(w1.ok and w2.ok and len(w1.value) == len(w2.value) and X.all([x == y for x, y in zip(list(w1.value), list(w2.value))]), "written alike", one=w1, steps=w2)
    X.check(X.truth(bool(e1.value)) == X.truth(bool(e2.value)), "truth alike")
    other = X.call(lambda: inc(**kw))
    o1 = X.call(lambda: one(**kw))
    X.check(X.truth(other.value == e2.value) == X.truth(o1.value == e1.value), "equality alike")
    p1, p2 = X.call(lambda: one(*[kw[f.name] for f in st.fields])), X.call(lambda: inc(*[kw[f.name] for f in st.fields]))
    X.check(p1.ok == p2.ok, "construction by position alike", one=p1, steps=p2)
    for f in st.fields: X.check(e1.value.__dict__[f.name] is e2.value.__dict__[f.name], "fields hold what was given")


def selves():
    """structures that refer to themselves, in every place a pointer can be"""
    ptr = R.Ptr(R.Char("T"))
    places = {"pointer": ptr, "array of pointers": A(ptr, 2), "pointer to pointer": R.Ptr(ptr), "in an anonymous structure": R.Struct(None, [R.F("q", ptr), R.F("w", I("uint8"))]),
              "in an anonymous union": R.Struct(None, [R.F("aq", ptr), R.F("aw", I("uint16"))], True)}
    around = ["uint8", "uint32", "char[3]", "char[k]", "u8:3", "struct", "enum24", "uint16[2]", "uint16[k]"]
    out, i = {}, 0
    for p, t in places.items():
        for k in around:
            for first in (False, True):
                i += 1
                m = R.Mode("<>"[i % 2], bool(i // 2 % 2), I(("uint32", "uint16", "uint64")[i % 3]))
                st = definition((k,), m)
                if st is None: continue
                at = len(st.fields) - 1 if first else len(st.fields)
                st.fields.insert(at, R.F("self" if t.__class__ is not R.Struct else None, t))
                out[f"{p} {'before' if first else 'after'} {k} {m.endian}{'a' if m.aligned else 'p'}{'c' if i % 4 < 2 else 'i'}"] = (st, m, i % 4 < 2)
    return out


@proof("C18", "TokenParser._struct StructureMetaType.commit", selves, bounded="the definitions enumerated (all inputs of each)", timeout=40, native=4)
def self_reference(X, case):
    """A structure that refers to itself has the layout of the same structure with another pointer target, its pointers refer to
    the structure itself, and for every input it reads, and dumps, what the reference says."""
    st, m, compiled = case
    import re
    src = R.source(st, m)
    plain = re.sub(r"(?m)^(\s*)T (\*+)", r"\1char \2", src)
    cs, cp = load(src, m, compiled), load(plain, m, compiled)
    X.check(plain != src, "the definition refers to itself")
    X.check(layout_shape(cs.T, True) == layout_shape(cp.T, True), "a self reference does not change the layout")
    size, al, offs = R.layout(st, m)
    X.check(cs.T.size == size and cs.T.alignment == al, "size and alignment")
    for t in targets(cs.T): X.check(t is cs.T, "a self reference refers to the structure itself", got=t)
    s = X.stream("s")
    if X.symbolic:
        s.coarse = True
        members(cs, cp)
    t = twin(X, s)
    a, b = X.call(cs.T._read, s), X.call(cp.T._read, t)
    X.check(a.ok == b.ok, "both read or both refuse", itself=a, other=b)
    if not a.ok: return
    conds = []
    X.check(same_value(X, a.value, b.value, conds, loose=True) and X.all(conds), "the same values", itself=a, other=b)
    X.check(s.tell() == t.tell(), "the same number of bytes read")
    if R.layout(st, m)[0] is None and X.symbolic: return  # dumping values of arbitrary length: the writer's own proofs
    d, e = X.call(a.value.dumps), X.call(b.value.dumps)
    X.check(d.ok and e.ok and len(d.value) == len(e.value) and X.all([x == y for x, y in zip(list(d.value), list(e.value))]), "written alike", itself=d, other=e)


def targets(cls):
    for f in cls.__fields__:
        t = f.type
        if hasattr(t, "__fields__") and t.__anonymous__: yield from targets(t)
        while issubclass(t, (list, Pointer)) and hasattr(t, "type"): t = t.type
        if t.__name__ == "T": yield t
