from contracts.common import *


def no_union(t): return not has(t, lambda x: isinstance(x, R.Struct) and x.union)


def roundtrip(X, cs, cls, st, m, v, spec, where):
    d = X.call(cls.dumps, v) if where != "instance" else X.call(v.dumps)
    X.check(d.ok, "a value of the type can be dumped", outcome=d, value=short(v))
    data = d.value
    eof = has(st, is_eof)
    suf = b"" if eof else b"\xaa\x55\x00"
    s = io.BytesIO(data + suf)
    r = X.call(cls.read, s)
    X.check(r.ok, "parsing dumps(v) succeeds", outcome=r, data=data.hex(), value=short(v))
    X.check(s.tell() == len(data), "parsing dumps(v) consumes len(dumps(v)) bytes", consumed=s.tell(), dumped=len(data), data=data.hex())
    n2 = real.norm(r.value, st)
    if eof and m.aligned and last_data(st, spec, m) != len(data):
        # known finding: the tail padding is indistinguishable from elements of the array
        X.check(n2 == spec, "tail padding after a to-end-of-stream array is read back as elements", got=n2, expected=spec)
    X.check(n2 == spec, "parsing dumps(v) returns the fields of v", got=n2, expected=spec, data=data.hex())
    if not has_nan(spec):
        X.check(r.value == v, "parsing dumps(v) == v", got=r.value, expected=v)


@contract("C01", gen_struct(), 2500, 40000)
def roundtrip_parsed(X, c):
    """A structure value obtained by parsing arbitrary bytes: T(dumps(v)) == v, consuming len(dumps(v))."""
    cs = load(X, c)
    data = X.bytes("data", X.pick("len", lens(c, (8, 16, 40, 120))))
    p = X.call(cs.T.read, io.BytesIO(data))
    if not p.ok: raise Skip()
    spec = real.norm(p.value, c.st)
    roundtrip(X, cs, cs.T, c.st, c.mode, p.value, spec, "instance")


@contract("C01", gen_struct(unions=False), 2500, 40000)
def roundtrip_constructed(X, c):
    """A structure value constructed from arbitrary field values: the field values survive dumps + parse."""
    cs = load(X, c)
    spec = rand_value(X, c.st, c.mode, "v", {})
    b = X.call(build, cs.T, c.st, spec)
    X.check(b.ok, "a structure can be constructed from its field values", outcome=b)
    roundtrip(X, cs, cs.T, c.st, c.mode, b.value, spec, X.pick("how", ("type", "instance")))


def gen_scalar(rng):
    m = mode(rng)
    g = Gen(rng, maxfields=2)
    k = rng.random()
    t = g.scalar(True)
    if k < .5:
        t = R.Arr(t if k < .35 else g.zelem(), rng.choice((0, 1, 3)) if k < .35 else None)
    return Case(st=R.Struct("T", [R.F("x", t)]), mode=m, compiled=rng.random() < .5)


@contract("C01", gen_scalar, 1500, 20000)
def roundtrip_types(X, c):
    """Scalars and arrays used directly as types (T.x's type): T.dumps(v) parsed by T gives v."""
    cs = load(X, c)
    t = c.st.fields[0].type
    cls = cs.T.__fields__[0].type
    spec = rand_value(X, t, c.mode, "v", {})
    v = X.call(build, cls, t, spec)
    X.check(v.ok, "construct", outcome=v)
    v = v.value
    roundtrip(X, cs, cls, t, c.mode, v, spec, "type")


def targets(st, path=()):
    """paths to fixed-width integer-like fields"""
    out = []
    for i, f in enumerate(st.fields):
        t = f.type
        if isinstance(t, (R.Int, R.Enum, R.Ptr)): out.append((path + (i,), t, f.bits))
        elif isinstance(t, R.Arr) and isinstance(t.elem, (R.Int, R.Enum, R.Ptr)) and not isinstance(t.elem, R.Arr):
            out.append((path + (i,), t, None))
        elif isinstance(t, R.Struct) and not t.union: out += targets(t, path + (i,))
    return out


def gen_range(rng):
    while True:
        c = struct_case(rng, unions=False)
        ts = targets(c.st)
        if ts:
            c.target = rng.choice(ts)
            return c


@contract("C01", gen_range, 2000, 30000)
def out_of_range(X, c):
    """An integer outside the range of a fixed-width integer, enum, pointer or bit field is rejected with an error."""
    cs = load(X, c)
    spec = rand_value(X, c.st, c.mode, "v", {})
    path, t, bits = c.target
    arr = isinstance(t, R.Arr)
    e = t.elem if arr else t
    base = c.mode.ptr if isinstance(e, R.Ptr) else R.storage(e)
    w = bits or 8 * base.size(c.mode)
    signed = base.signed and not bits
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    k = X.pick("side", ("above", "below", "far", "far below"))
    bad = {"above": hi + 1, "below": lo - 1, "far": X.int("far", hi + 1, (hi + 1) << 70), "far below": -X.int("far", 1 - lo, (1 + hi) << 70)}[k]
    b = X.call(build, cs.T, c.st, spec)
    X.assume(b.ok)
    obj = b.value
    o, st = obj, c.st
    for i in path[:-1]:
        o = getattr(o, o.__class__.__fields__[i]._name)
        st = st.fields[i].type
    rf = o.__class__.__fields__[path[-1]]
    et = rf.type.type if arr else rf.type
    if isinstance(e, R.Enum):
        mk = X.call(et, bad)
        if not mk.ok: return
        X.assume(mk.value.value == bad)  # IntFlag reads a negative number as a complement of members
        bad = mk.value
    if arr:
        l = list(getattr(o, rf._name))
        X.assume(len(l) > 0 )
        l[X.pick("at", range(len(l)))] = bad
        bad = l
    if len(path) == 1 and X.pick("ctor", (0, 1)):
        kw = {f._name: getattr(obj, f._name) for f in obj.__class__.__fields__}
        kw[rf._name] = bad
        r = X.call(lambda: cs.T(**kw).dumps())
    else:
        setattr(o, rf._name, bad)
        r = X.call(obj.dumps)
    X.check(not r.ok, "an integer that does not fit is rejected", field=rf._name, value=bad, type=repr(e), bits=bits, outcome=r)


def gen_chars(rng):
    return Case(mode=mode(rng), n=rng.choice((None, 0, 1, 2, 5, "k", "EOF")), compiled=rng.random() < .5, pre=rng.choice(("", "uint8 a;", "uint32 a;")))


@contract("C01", gen_chars, 600, 6000)
def characters(X, c):
    """Every accepted form of a character value (bytes, text, number, list of numbers) is written as that many characters."""
    m = c.mode
    src = f"struct T {{ uint8 k; {c.pre} char c; wchar w; char s[{'' if c.n is None else c.n}]; }};"
    o = X.call(real.load, src, m, c.compiled)
    X.check(o.ok, "loads", outcome=o)
    cs = o.value
    if c.n == "EOF" and m.aligned: raise Skip()  # known finding: tail padding is read back as elements
    k = X.pick("k", range(4))
    n = X.pick("len", range(4)) if c.n in (None, "EOF") else k if c.n == "k" else c.n
    ch = X.int("c", 0, 255)
    raw = X.bytes("s", n)
    if c.n is None: X.assume(0 not in raw)
    w = X.int("w", 0, 0xD7FF)
    form = X.pick("form", ("int", "str", "bytes"))
    cv = {"int": ch, "str": chr(ch), "bytes": bytes([ch])}[form]
    sform = X.pick("sform", ("list", "str", "bytes", "bytearray"))
    sv = {"list": list(raw), "str": raw.decode("latin-1"), "bytes": raw, "bytearray": bytearray(raw)}[sform]
    if sform == "list" and not raw: sv = b""
    v = X.call(lambda: cs.T(k=k, c=cv, w=chr(w), s=sv))
    X.check(v.ok, "a structure can be constructed from its field values", outcome=v)
    d = X.call(v.value.dumps)
    X.check(d.ok, "a value of the type can be dumped", outcome=d, form=form, sform=sform)
    s = io.BytesIO(d.value)
    r = X.call(cs.T.read, s)
    X.check(r.ok and r.value.c == bytes([ch]) and r.value.s == raw and r.value.w == chr(w) and r.value.k == k, "parsing dumps(v) returns the fields of v", form=form, sform=sform, dumped=d, got=r, expected=(k, ch, w, raw))
    X.check(s.tell() == len(d.value) or c.n == "EOF", "parsing dumps(v) consumes len(dumps(v)) bytes", got=s.tell(), dumped=d)
