import ctypes
from contracts.common import *

CT = {"int8": ctypes.c_int8, "uint8": ctypes.c_uint8, "int16": ctypes.c_int16, "uint16": ctypes.c_uint16,
      "int32": ctypes.c_int32, "uint32": ctypes.c_uint32, "int64": ctypes.c_int64, "uint64": ctypes.c_uint64}


def ctype(t, m, memo):
    """the same declaration for the platform's C ABI, or None outside its vocabulary"""
    if isinstance(t, R.Enum): return ctype(t.base, m, memo)
    if isinstance(t, R.Ptr): return CT.get(m.ptr.name)
    if isinstance(t, R.Int): return CT.get(t.name)
    if isinstance(t, R.Float): return {"float": ctypes.c_float, "double": ctypes.c_double, "float16": ctypes.c_uint16}[t.name]
    if isinstance(t, R.Char): return ctypes.c_char
    if isinstance(t, R.WChar): return ctypes.c_uint16
    if isinstance(t, R.Arr):
        e = ctype(t.elem, m, memo)
        return None if e is None else e * max(0, t.n)
    if isinstance(t, R.Struct):
        fs = []
        for i, f in enumerate(t.fields):
            if f.bits: return None
            e = ctype(f.type, m, memo)
            if e is None: return None
            fs.append((f"m{i}", e))
        d = {"_fields_": fs}
        if not m.aligned: d["_pack_"] = 1
        return type("S", (ctypes.Union if t.union else ctypes.Structure,), d)
    return None


def gen_fixed(rng):
    m = mode(rng)
    g = Gen(rng, dynamic=False, maxint=8 if rng.random() < .5 else 16, bits=rng.random() < .5)
    return Case(st=g.struct(name="T"), mode=m, compiled=rng.random() < .5)


def check_layout(X, cls, t, m, path="T"):
    size, al, offs = R.layout(t, m)
    X.check(cls.size == size, "declared size", path=path, got=cls.size, expected=size)
    X.check((cls.alignment or 1) == al, "alignment of a structure is its largest member alignment", path=path, got=cls.alignment, expected=al)
    X.check(cls.dynamic == (size is None), "dynamic iff the size is not fixed", path=path, got=cls.dynamic, expected=size)
    X.check(len(cls.__fields__) == len(t.fields), "one field per declaration", path=path)
    for f, rf, (off, _) in zip(t.fields, cls.__fields__, offs):
        exp = off
        got = rf.offset
        if f.bits and got is None and exp is not None:
            continue  # a bit-field that continues a unit carries no offset of its own
        if t.union:
            got = got or 0
        X.check(got == exp, "field offset", path=f"{path}.{rf._name}", got=got, expected=exp)
        check_type(X, rf.type, f.type, m, f"{path}.{rf._name}")


def check_type(X, cls, t, m, path):
    if isinstance(t, R.Struct):
        return check_layout(X, cls, t, m, path)
    s, a = t.size(m), t.align(m)
    X.check(cls.size == s, "declared size", path=path, got=cls.size, expected=s)
    X.check((cls.alignment or 1) == a, "alignment", path=path, got=cls.alignment, expected=a)
    if isinstance(t, R.Arr):
        check_type(X, cls.type, t.elem, m, path + "[]")


@contract("C04", gen_fixed, 3000, 40000)
def layout_fixed(X, c):
    """size, alignment and offsets equal the C rules; len(T) == sizeof(T) == bytes consumed == bytes dumped."""
    cs = load(X, c)
    st, m = c.st, c.mode
    check_layout(X, cs.T, st, m)
    size = R.layout(st, m)[0]
    ln = X.call(len, cs.T)
    X.check(ln.ok and ln.value == size, "len(T)", got=ln, expected=size)
    ct = ctype(st, m, {})
    if ct is not None:
        X.check(ctypes.sizeof(ct) == size, "size equals the C compiler's", got=size, expected=ctypes.sizeof(ct))
        for i, rf in enumerate(cs.T.__fields__):
            X.check((rf.offset or 0) == getattr(ct, f"m{i}").offset, "offset equals the C compiler's", field=rf._name, got=rf.offset, expected=getattr(ct, f"m{i}").offset)
        X.check((cs.T.alignment or 1) == ctypes.alignment(ct) or not m.aligned, "alignment equals the C compiler's", got=cs.T.alignment, expected=ctypes.alignment(ct))
    so = X.call(lambda: cs.load("#define SZ sizeof(T)\nstruct U_ { char x[sizeof(T)]; };").U_.__fields__[0].type.num_entries)
    if so.ok and isinstance(so.value, int):
        X.check(so.value == size, "sizeof(T) in an expression", got=so, expected=size)
    from dissect.cstruct.expression import Expression
    so = X.call(lambda: Expression(cs, "sizeof(T)").evaluate({}))
    X.check(so.ok and so.value == size, "sizeof(T) in an expression", got=so, expected=size)
    data = X.bytes("data", size + 3)
    s = io.BytesIO(data)
    p = X.call(cs.T.read, s)
    if p.ok:
        X.check(s.tell() == size, "bytes consumed by parsing", got=s.tell(), expected=size)
        d = X.call(p.value.dumps)
        X.check(d.ok and len(d.value) == size, "bytes produced by dumping", got=d, expected=size)
        ln = X.call(len, p.value)
        X.check(ln.ok and ln.value == size, "len(value)", got=ln, expected=size)
    d = X.call(lambda: cs.T().dumps())
    X.check(d.ok and len(d.value) == size, "bytes produced by dumping a default instance", got=d, expected=size)
    e = X.call(lambda: cs.T.read(b"\0" * size))
    X.check(e.ok, "size bytes suffice", outcome=e)
    if size:
        # an array of the type has the element as its stride
        a = X.call(lambda: cs.T[3])
        X.check(a.ok and a.value.size == 3 * size and (a.value.alignment or 1) == R.layout(st, m)[1], "an array of T has three times its size and its alignment", got=a)
        data3 = b"\0" * (3 * size)
        d = X.call(lambda: a.value.dumps(a.value(data3)))
        X.check(d.ok and len(d.value) == 3 * size, "an array of T dumps three times its size", got=d)


@contract("C04", gen_struct(dynamic=True), 1500, 20000)
def layout_dynamic(X, c):
    """Up to the first field without a fixed size the offsets follow the C rules, afterwards there are none; in the
    parsed stream every field still starts at the next multiple of its alignment."""
    cs = load(X, c)
    check_layout(X, cs.T, c.st, c.mode)
    data = X.bytes("data", X.pick("len", lens(c, (12, 40, 160))))
    s = io.BytesIO(data)
    info = {}
    try:
        spec = ref_read(X, c.st, list(data), 0, c.mode, None, info)
    except Exception:
        raise Skip()
    X.assume(spec is not None and not bad_utf16(spec[0]) and not has_nan(spec[0]))
    p = X.call(cs.T.read, s)
    X.check(p.ok, "parsing succeeds", outcome=p)
    X.check(s.tell() == spec[1], "bytes consumed", got=s.tell(), expected=spec[1])
    X.check(real.norm(p.value, c.st) == spec[0], "every field is read at its aligned position", got=lambda: real.norm(p.value, c.st), expected=spec[0])
    d = X.call(p.value.dumps)
    if not has_nan(spec[0]):
        w = R.write(c.st, spec[0], c.mode)
        X.check(d.ok and d.value == bytes(b for b, _ in w), "every field is written at its aligned position", got=d, expected=bytes(b for b, _ in w))


BUILTIN = ("int8 uint8 int16 uint16 int24 uint24 int32 uint32 int48 uint48 int64 uint64 int128 uint128 float16 float double char wchar").split()


def gen_scalar(rng):
    return Case(name=rng.choice(BUILTIN), n=rng.randrange(0, 5), mode=mode(rng))


@contract("C04", gen_scalar, 400, 2000)
def scalars(X, c):
    """len(T), sizeof, bytes read and written agree for scalars and fixed arrays of them."""
    cs = real.load("", c.mode)
    t = cs.resolve(c.name)
    w = {"float16": 2, "float": 4, "double": 8, "char": 1, "wchar": 2}.get(c.name) or R.INT_TYPES[c.name][0]
    from dissect.cstruct.expression import Expression
    for ty, exp in ((t, w), (t[c.n], w * c.n)):
        X.check(len(ty) == ty.size == exp, "len(T)", type=ty.__name__, got=ty.size, expected=exp)
        s = io.BytesIO(b"\0" * (exp + 5))
        v = X.call(ty.read, s)
        X.check(v.ok and s.tell() == exp, "bytes consumed", type=ty.__name__, got=s.tell(), expected=exp)
        d = X.call(ty.dumps, v.value)
        X.check(d.ok and len(d.value) == exp, "bytes dumped", type=ty.__name__, got=d, expected=exp)
    X.check(Expression(cs, f"sizeof({c.name})").evaluate({}) == w, "sizeof")
