"""Translation validation (C03), one definition at a time: for every input (any bytes, any length) of the definition, the reader
compiled for it and the interpreted reader agree.  The definitions are enumerated: the bound of these proofs."""
import os
import random

from pyv import sym, engine
from pyv import ref as R
from pyv.proofkit import proof, exact, AbsIO, SymList, fresh_int
from pyv.real import cstruct, load, norm
from pyv.gen import Gen, occupies
from dissect.cstruct import compiler
from dissect.cstruct.types import Structure, Pointer
from dissect.cstruct.types.structure import Field

I = R.Int
E1 = R.Enum("Ea", I("uint8"), [("EA", None), ("EB", 7)])
E2 = R.Enum("Eb", I("uint16"), [("EC", 1), ("ED", 300)])
E3 = R.Enum("Ec", I("int24"), [("EE", None)])
F1 = R.Enum("Fa", I("uint8"), [("FA", None), ("FB", None)], True)
S1 = R.Struct("Sa", [R.F("a", I("uint8")), R.F("b", I("uint16"))])
S2 = R.Struct("Sb", [R.F("n", I("uint8")), R.F("d", R.Arr(I("uint16"), "n & 1"))])
U1 = R.Struct("Ua", [R.F("a", I("uint8")), R.F("b", I("uint32"))], True)
A = R.Arr

KINDS = {
    "uint8": I("uint8"), "int16": I("int16"), "uint32": I("uint32"), "int64": I("int64"), "uint24": I("uint24"), "int48": I("int48"), "uint128": I("uint128"),
    "float16": R.Float("float16"), "float": R.Float("float"), "double": R.Float("double"), "char": R.Char(), "wchar": R.WChar(),
    "enum8": E1, "enum16": E2, "enum24": E3, "flag8": F1, "ptr": R.Ptr(I("uint16")), "struct": S1, "union": U1, "dynamic struct": S2,
    "char[3]": A(R.Char(), 3), "wchar[2]": A(R.WChar(), 2), "uint8[3]": A(I("uint8"), 3), "uint16[2]": A(I("uint16"), 2), "int24[2]": A(I("int24"), 2), "float[2]": A(R.Float("float"), 2),
    "enum16[2]": A(E2, 2), "enum24[2]": A(E3, 2), "ptr[2]": A(R.Ptr(I("uint8")), 2), "struct[2]": A(S1, 2), "union[1]": A(U1, 1), "uint16[2][2]": A(A(I("uint16"), 2), 2), "char[2][2]": A(A(R.Char(), 2), 2),
    "uint16[0]": A(I("uint16"), 0), "char[0]": A(R.Char(), 0), "int24[0]": A(I("int24"), 0), "uint16[k]": A(I("uint16"), "k & 1"), "char[k]": A(R.Char(), "k & 1"), "float[1]": A(R.Float("double"), 1), "uint8[1]": A(I("uint8"), 1),
    "u8:3": (I("uint8"), 3), "i8:3": (I("int8"), 3), "i16:4": (I("int16"), 4), "u8:8": (I("uint8"), 8), "u16:5": (I("uint16"), 5), "i32:17": (I("int32"), 17), "u24:9": (I("uint24"), 9), "enum16:4": (E2, 4), "enum24:7": (E3, 7), "flag8:2": (F1, 2),
}

# the storage unit of a char: its value is an integer
CHARS = {"char:3": (R.Char(), 3), "char:8": (R.Char(), 8)}


def fields_of(kinds):
    out = [R.F("k", I("uint8"))] if any("[k]" in k for k in kinds) else []
    for j, k in enumerate(kinds):
        t = KINDS.get(k) or CHARS[k]
        out.append(R.F(f"f{j}", *t) if type(t) is tuple else R.F(f"f{j}", t))
    return out


def definition(kinds, m):
    """the structure of those kinds, or None where the statement asks for a rejection (straddling bit-fields)"""
    st = R.Struct("T", fields_of(kinds))
    try: R.layout(st, m)
    except R.RefReject: return None
    return st


THOROUGH = os.environ.get("VERIF_TIER") == "thorough"


def catalogue():
    """every kind in every mode; ordered pairs of kinds (quick: every other one); longer definitions at random"""
    out, i = {}, 0
    ks = list(KINDS)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    groups = [(a,) for a in ks] + [(a, b) for x, a in enumerate(ks) for y, b in enumerate(ks) if THOROUGH or (x + y + seed) % 2]
    # bit-fields around something else
    bits = [k for k in ks if type(KINDS[k]) is tuple]
    groups += [(b, k, b) for x, b in enumerate(bits) for y, k in enumerate(ks) if THOROUGH or "[0]" in k or (x + y + seed) % 4 == 0]
    rng = random.Random(seed)
    groups += [tuple(rng.choice(ks) for _ in range(rng.choice((3, 3, 4, 5, 6)))) for _ in range(2500 if THOROUGH else 120)]
    groups += [(c,) for c in CHARS] + [("char:3", "char:3"), ("char:8", "char:3", "uint8"), ("int16", "char:3", "uint32")]
    groups += [g for b in ("u8:3", "i8:3", "u8:8", "u16:5", "flag8:2") for g in ((b, "char:3"), ("char:3", b), (b, "char:3", b), ("char:3", b, "char:3", "uint8"))]
    for g in groups:
        i += 1
        for j in (0, 1, 2, 3) if len(g) == 1 or THOROUGH and len(g) < 4 else ((i + i // len(ks)) % 4,):
            m = R.Mode("<>"[j % 2], bool(j // 2), I(("uint32", "uint16", "uint64", "uint8", "uint48")[i % 5]))
            st = definition(g, m)
            if st is None: continue
            out[name := f"{' '.join(g)} {m.endian}{'a' if m.aligned else 'p'}{m.ptr.name[4:]}"] = (st, m)
            # some of them with fields at offsets of their own, in any order (only the first field of a bit-field unit has one)
            if len(g) > 1 and i % (3 if len(g) > 2 else 9) == 0:
                fs = [R.F(f.name, f.type, f.bits, rng.choice((None, 0, 1, 2, 3, 4, 7, 8, 16)) if not (f.bits and p and p.bits) else None) for p, f in zip([None, *st.fields], st.fields)]
                if any(f.offset is not None for f in fs) and not any(f.bits for f in fs[1:] if f.offset is None): out[name + " placed"] = (R.Struct("T", fs), m)
    return out


def make(st, m, compiled):
    """the structure, its fields at the offsets given"""
    cs = load(R.source(st, m), m, compiled)
    if any(f.offset is not None for f in st.fields):
        t = cs._make_struct("T", [Field(f.name, f.type, bits=f.bits, offset=s.offset) for f, s in zip(cs.T.__fields__, st.fields)], align=m.aligned)
        if compiled: t = compiler.compile(t)
        cs.add_type("T", t, replace=True)
    return cs


class Twin(AbsIO):
    """the same stream again"""
    def __init__(self, s):
        self.__dict__.update(s.__dict__)
        self.pos = self.start


def twin(X, s):
    if X.symbolic: return Twin(s)
    import io
    t = io.BytesIO(s.getvalue())
    t.seek(s.start if hasattr(s, "start") else 0)
    return t


def members(*css):
    """Assumed here (C12 has the proof): an enumeration gives every value one object with that value."""
    for cs in css:
        for n in ("Ea", "Eb", "Ec", "Fa"):
            if n in cs.typedefs:
                E = getattr(cs, n)
                sym.EX.enums[E] = lambda v, E=E: v.with_type(E, {"_value_": v._plain(), "_name_": None})


def same_value(X, a, b, conds, bits=False, loose=False):
    """-> equal in kind and value (conditions still to be shown are added to conds); integers of bit-fields only in value; loose: whatever the
    targets of pointers"""
    if bits and not hasattr(a.__class__, "__members__"):
        conds.append(a == b)
        return True
    if exact(a) is SymList and exact(b) is SymList:
        j = fresh_int("element", 0)
        c = []
        if not same_value(X, a.fn(j), b.fn(j), c, loose=loose): return False
        conds += [a.n == b.n, X.any([j >= a.n, X.all(c)])]
        return loose or a.__class__.__name__ == b.__class__.__name__
    if not loose and (exact(a).__name__ != exact(b).__name__ and not (sym.is_sym(a) or sym.is_sym(b)) or a.__class__.__name__ != b.__class__.__name__): return False
    if hasattr(a.__class__, "__fields__"):
        fa, fb = a.__class__.__fields__, b.__class__.__fields__
        return len(fa) == len(fb) and all(same_value(X, getattr(a, x._name), getattr(b, y._name), conds, x.bits, loose) for x, y in zip(fa, fb))
    if exact(a) is sym.SFloat:
        conds.append(a.bits == b.bits)
        return a.n == b.n
    if isinstance(a, list): return len(a) == len(b) and all(same_value(X, x, y, conds, loose=loose) for x, y in zip(a, b))
    if hasattr(a, "_stream") and (a._stream is None) != (b._stream is None): return False
    if hasattr(a.__class__, "__members__"): a, b = a.value, b.value
    elif hasattr(a, "_stream"): a, b = int(a), int(b)
    if not X.symbolic and a != a: return b != b
    conds.append(a == b)
    return True


@proof("C03", "Compiler.compile_read StructureMetaType._read", catalogue, bounded="the definitions enumerated (all inputs of each)", timeout=30, native=2)
def compiled_is_interpreted(X, case):
    """The compiled reader and the interpreted reader accept the same inputs, with the same values, sizes and position."""
    st, m = case
    ci, cc = make(st, m, False), make(st, m, True)
    X.check(cc.T.__compiled__ and not ci.T.__compiled__, "the structure is compiled")
    s = X.stream("s")
    if X.symbolic:
        s.coarse = True
        members(ci, cc)
    t = twin(X, s)
    a, b = X.call(ci.T._read, s), X.call(cc.T._read, t)
    if not (a.ok and b.ok):
        # text that cannot be decoded in an input that is too short as well: either error is right
        X.check(a.raised(EOFError, UnicodeError) and b.raised(EOFError, UnicodeError), "both readers accept or both reject", interpreted=a, compiled=b)
        return
    conds = []
    ok = same_value(X, a.value, b.value, conds)
    X.check(ok and X.all(conds), "equal field values", interpreted=a, compiled=b)
    X.check(s.tell() == t.tell(), "same number of consumed bytes")
    za, zb = dict(a.value._sizes), dict(b.value._sizes)
    X.check(X.all([za.get(k, 0) == zb.get(k, 0) for k in sorted({*za, *zb})]), "equal recorded sizes", interpreted=za, compiled=zb)
