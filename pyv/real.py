"""Bridge to the real code: load definitions, convert real values to the spec's normal form."""
import sys, io
sys.dont_write_bytecode = True
import os
REPO = os.environ.get("PV_REPO", "/repo")  # only the maintenance tools point it elsewhere
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import struct as _struct
from dissect.cstruct import cstruct
from dissect.cstruct import types as T
from pyv import ref as R


def load(src, m: R.Mode, compiled=False):
    cs = cstruct(endian=m.endian, pointer=m.ptr.name)
    cs.load(src, compiled=compiled, align=m.aligned)
    return cs


def fbits(x, n, little=True):
    return int.from_bytes(_struct.pack("<" + {2: "e", 4: "f", 8: "d"}[n], x), "little")


def wunits(s):
    b = s.encode("utf-16-le", "surrogatepass")
    return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]


def norm(v, t: R.TD):
    """Real value -> normal form (see ref.py)."""
    if isinstance(t, R.Enum):
        return v.value
    if isinstance(t, (R.Int, R.Leb, R.Ptr)):
        return int(v)
    if isinstance(t, R.Float):
        n = R.FLOAT_TYPES[t.name]
        return ("f", n, fbits(float(v), n))
    if isinstance(t, R.Char):
        return ("c", list(bytes(v)))
    if isinstance(t, R.WChar):
        return ("w", wunits(v))
    if isinstance(t, R.Void):
        return None
    if isinstance(t, R.Arr):
        if isinstance(t.elem, R.Char):
            return ("c", list(bytes(v)))
        if isinstance(t.elem, R.WChar):
            return ("w", wunits(v))
        return [norm(x, t.elem) for x in v]
    if isinstance(t, R.Struct):
        cls = v.__class__ if not hasattr(v, "__target__") else v.__target__.__class__
        out = {}
        for i, (f, rf) in enumerate(zip(t.fields, cls.__fields__)):
            x = getattr(v, rf._name)
            if f.bits:
                x = x.value if isinstance(f.type, R.Enum) else int.from_bytes(x, "little") if isinstance(x, bytes) else int(x)
            else:
                x = norm(x, f.type)
            out[R.fkey(i, f)] = x
        return out
    raise TypeError(t)
