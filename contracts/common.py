"""Helpers shared by the contracts."""
import io
import math
import random
import sys

from pyv import ref as R, real  # noqa: E402  (makes the code under test importable)

from dissect.cstruct import cstruct, types as T  # noqa: E402
from dissect.cstruct.exceptions import *  # noqa: E402,F403
from pyv.core import contract, Skip, short  # noqa: E402
from pyv.gen import Gen  # noqa: E402

PTRS = ["uint8", "uint16", "uint32", "uint64"]


class Case:
    def __init__(self, **k):
        self.__dict__.update(k)

    def describe(self):
        out = []
        for k, v in self.__dict__.items():
            if k == "mode":
                out.append(f"endian={v.endian} aligned={v.aligned} pointer={v.ptr.name} consts={v.consts}")
            elif k == "st":
                out.append("src=" + R.source(v, self.mode) + (f" manual offsets {[f.offset for f in v.fields]}" if placed(v) else ""))
            elif k.startswith("_"):
                continue
            else:
                out.append(f"{k}={v!r}")
        return "; ".join(out)


def mode(rng, ptrs=PTRS):
    return R.Mode(rng.choice("<>") if rng.random() < .92 else rng.choice("!=@"), rng.random() < .5, R.Int(rng.choice(ptrs)))


def struct_case(rng, **o):
    fixed = o.pop("fixed", None)
    if fixed is None:
        fixed = rng.random() < .35
    m = mode(rng)
    if fixed:
        o.update(dynamic=False)
    offsets = o.pop("offsets", True)
    o.setdefault("big", True)
    st = Gen(rng, **o).struct(name="T")
    if offsets and rng.random() < .08: place(rng, st, m)
    return Case(st=st, mode=m, compiled=rng.random() < .5)


def place(rng, st, m):
    """Give some fields a manual offset behind the preceding ones (unions: anywhere)."""
    for i, f in enumerate(st.fields):
        if f.bits: continue
        pos = R.layout(st, m)[2][i][0]
        if pos is None: break
        if rng.random() < .4:
            k = pos + rng.choice((0, 1, 2, 3, 4, 8))
            f.offset = R.up(k, f.type.align(m)) if m.aligned else k


def placed(st): return any(f.offset is not None for f in st.fields)


def lens(c, base):
    """lengths of input to try: large structures need more"""
    n = R.layout(c.st, c.mode)[0]
    return base if n is None or n <= max(base) else (n - 1, n, n + 9, n)


def gen_struct(**o):
    return lambda rng: struct_case(rng, **o)


def load(X, c, src=None, compiled=None, m=None):
    """Load a definition of the supported grammar: must succeed."""
    m = m or c.mode
    src = R.source(c.st, m) if src is None else src
    o = X.call(real.load, src, m, c.compiled if compiled is None else compiled)
    X.check(o.ok, "a definition of the supported grammar loads", definition=src, outcome=o)
    if hasattr(c, "st") and placed(c.st): return with_offsets(X, c, o.value, c.compiled if compiled is None else compiled, m)
    return o.value


def with_offsets(X, c, cs, compiled, m):
    """Replace T by the structure with the manual offsets."""
    from dissect.cstruct import compiler
    from dissect.cstruct.types.structure import Field
    fs = [(f.name, f.type, f.bits, s.offset) for f, s in zip(cs.T.__fields__, c.st.fields)]
    def make():
        mk = cs._make_union if c.st.union else cs._make_struct
        if X.pick("how to place", ("at once", "added")) == "at once":
            t = mk("T", [Field(n, ty, bits=b, offset=o) for n, ty, b, o in fs], align=m.aligned)
            if compiled: t = compiler.compile(t)
        else:
            t = mk("T", [], align=m.aligned)
            if compiled: t = compiler.compile(t)
            with t.start_update():
                for n, ty, b, o in fs: t.add_field(n, ty, bits=b, offset=o)
        cs.add_type("T", t, replace=True)
    o = X.call(make)
    # a full unit may end early when a bit-field of the unit is placed: what follows then straddles
    if getattr(c, "anywhere", False) and o.raised(ValueError) and "traddle" in str(o.exc): raise Skip()
    X.check(o.ok, "a structure with manual offsets can be made", fields=fs, outcome=o)
    return cs


def ref_read(X, t, data, pos, m, ctx=None, info=None):
    """-> (value, newpos) or None when the spec says the input ends too early"""
    try:
        return R.read(t, data, pos, m, ctx, X.env, info)
    except R.RefEOF:
        return None
    except R.RefAmbiguous:
        raise Skip()


def has(t, pred):
    if pred(t): return True
    if isinstance(t, R.Arr): return has(t.elem, pred)
    if isinstance(t, R.Struct): return any(has(f.type, pred) for f in t.fields)
    return False


def is_eof(t): return isinstance(t, R.Arr) and t.n == "EOF"


def values(v):
    """leaves of a normal form"""
    if isinstance(v, dict):
        for x in v.values(): yield from values(x)
    elif isinstance(v, list):
        for x in v: yield from values(x)
    else:
        yield v


def nan(leaf):
    if not (isinstance(leaf, tuple) and leaf[0] == "f"): return False
    n, b = leaf[1], leaf[2]
    m, e = {2: (10, 5), 4: (23, 8), 8: (52, 11)}[n]
    return (b & ((1 << (8 * n - 1)) - 1)) > (((1 << e) - 1) << m)


def has_nan(v): return any(nan(x) for x in values(v))


def bad_utf16(v):
    """contains an unpaired surrogate: not decodable, hence not accepted"""
    for x in values(v):
        if isinstance(x, tuple) and x[0] == "w":
            i, u = 0, x[1]
            while i < len(u):
                if 0xD800 <= u[i] < 0xDC00 and i + 1 < len(u) and 0xDC00 <= u[i + 1] < 0xE000:
                    i += 2
                elif 0xD800 <= u[i] < 0xE000:
                    return True
                else:
                    i += 1
    return False


def wsplit(v, t):
    """a surrogate pair inside a plain wchar array would be split by per-element reading: exclude"""
    return False


def last_data(st, spec, m):
    """index one past the last byte that carries data"""
    n = 0
    for i, (_, mask) in enumerate(R.write(st, spec, m)):
        if mask: n = i + 1
    return n


def field_of(cls, rf_index):
    return cls.__fields__[rf_index]


def build(cls, t, v, kw=True):
    """Construct a real value of class cls for spec type t from normal form v."""
    if isinstance(t, R.Enum): return cls(v)
    if isinstance(t, R.Ptr): return v
    if isinstance(t, (R.Int, R.Leb)): return v
    if isinstance(t, R.Float):
        import struct
        return struct.unpack("<" + {2: "e", 4: "f", 8: "d"}[v[1]], v[2].to_bytes(v[1], "little"))[0]
    if isinstance(t, R.Char): return bytes(v[1])
    if isinstance(t, R.WChar): return b"".join(u.to_bytes(2, "little") for u in v[1]).decode("utf-16-le")
    if isinstance(t, R.Void): return cls()
    if isinstance(t, R.Arr):
        if isinstance(t.elem, R.Char): return bytes(v[1])
        if isinstance(t.elem, R.WChar): return b"".join(u.to_bytes(2, "little") for u in v[1]).decode("utf-16-le")
        return [build(cls.type, t.elem, x) for x in v]
    if isinstance(t, R.Struct):
        d = {}
        for i, f in enumerate(t.fields):
            rf = cls.__fields__[i]
            x = v[R.fkey(i, f)]
            d[rf._name] = build(rf.type, f.type, x) if not isinstance(f.type, R.Char) or not f.bits else x
        return cls(**d)
    raise TypeError(t)


def rand_value(X, t, m, name, ctx, bits=None):
    """Arbitrary value of type t (normal form) satisfying the type's invariant."""
    if bits:
        return X.int(name, 0, (1 << bits) - 1)
    if isinstance(t, R.Enum): return rand_value(X, t.base, m, name, ctx)
    if isinstance(t, R.Ptr): return rand_value(X, m.ptr, m, name, ctx)
    if isinstance(t, R.Int):
        w = 8 * t.size(m)
        return X.int(name, -(1 << (w - 1)), (1 << (w - 1)) - 1) if t.signed else X.int(name, 0, (1 << w) - 1)
    if isinstance(t, R.Leb):
        return X.int(name, -(1 << 70) if t.signed else 0, 1 << 70)
    if isinstance(t, R.Float):
        n = t.size(m)
        v = ("f", n, X.int(name, 0, (1 << (8 * n)) - 1))
        X.assume(not nan(v))
        return v
    if isinstance(t, R.Char): return ("c", list(X.bytes(name, 1)))
    if isinstance(t, R.WChar): return ("w", [X.int(name, 0, 0xD7FF)])
    if isinstance(t, R.Void): return None
    if isinstance(t, R.Arr):
        if t.n is None: n = X.pick(name + "#", range(4))
        elif t.n == "EOF": n = X.pick(name + "#", range(4))
        else: n = R.fixed_len(t, ctx, m, X.env)
        out = []
        for i in range(n):
            x = rand_value(X, t.elem, m, f"{name}.{i}", ctx)
            if t.n is None:
                X.assume(not R.zero_elem(x, t.elem, X.env))
            out.append(x)
        return R.join(t.elem, out)
    if isinstance(t, R.Struct):
        out = {}
        for i, f in enumerate(t.fields):
            k = R.fkey(i, f)
            out[k] = rand_value(X, f.type, m, f"{name}.{k}", out, f.bits)
        return out
    raise TypeError(t)


class MinStream:
    """a file-like object with nothing but read/seek/tell"""
    def __init__(self, data): self._f = io.BytesIO(data)
    def read(self, n=-1): return self._f.read(n)
    def seek(self, *a): return self._f.seek(*a)
    def tell(self): return self._f.tell()


def sizes_of(v):
    return dict(getattr(v, "_sizes", None) or {}) if hasattr(type(v), "__fields__") else {}
