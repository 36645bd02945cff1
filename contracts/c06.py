from contracts.common import *

UNITS = ["uint8", "int8", "uint16", "int16", "uint24", "int24", "uint32", "int32", "uint48", "int48", "uint64", "int64", "uint128", "int128"]


def gen_bits(rng, valid=True):
    m = mode(rng)
    while True:
        g = Gen(rng)
        fields, k = [], 0
        pool = [R.Int(rng.choice(UNITS)) for _ in range(2)] + [g.enum()] + [R.Char()] * (rng.random() < .15) + [R.Int("uint8")] * (rng.random() < .1)
        for _ in range(rng.randint(1, 9)):
            k += 1
            r = rng.random()
            if r < .75:
                t = rng.choice(pool)
                w = 8 * t.size(m)
                b = rng.choice((1, 2, 3, 5, 7, 8, rng.randint(1, w), w, w // 2 or 1, w - 1 or 1))
                fields.append(R.F(f"b{k}", t, min(b, w)))
            elif r < .9:
                fields.append(R.F(f"f{k}", R.Int(rng.choice(UNITS[:8]))))
            elif r < .95:
                fields.append(R.F(f"c{k}", R.Arr(R.Char(), None)))
            else:
                fields.append(R.F(f"n{k}", R.Struct(f"N{k}", [R.F("p", pool[0], 3), R.F("q", R.Int("uint8"))])))
        st = R.Struct("T", fields)
        try:
            R.layout(st, m)
            ok = True
        except R.RefReject:
            ok = False
        if ok == valid and any(f.bits for f in fields):
            return Case(st=st, mode=m, compiled=rng.random() < .5)


@contract("C06", gen_bits, 6000, 80000)
def partition(X, c):
    """Bit-fields are the slices of their storage unit in endian-defined order; every value is in [0, 2^bits); writing
    is the inverse for every value that fits, clobbers nothing and leaves unassigned bits zero."""
    cs = load(X, c)
    st, m = c.st, c.mode
    data = X.bytes("data", 120)
    if has(st, lambda t: isinstance(t, R.Arr)): data += bytes(3)
    spec = ref_read(X, st, list(data), 0, m)
    X.assume(spec is not None)
    s = io.BytesIO(data)
    p = X.call(cs.T.read, s)
    X.check(p.ok, "parsing succeeds", outcome=p)
    got = real.norm(p.value, st)
    for f in st.fields:
        if f.bits:
            X.check(0 <= got[f.name] < 1 << f.bits, "a bit-field value lies in [0, 2^bits)", field=f.name, got=got[f.name], bits=f.bits)
    X.check(got == spec[0], "every bit-field is its slice of the storage unit", got=got, expected=spec[0], data=data[:spec[1]].hex())
    X.check(s.tell() == spec[1], "storage units are consumed once", got=s.tell(), expected=spec[1])
    d = X.call(p.value.dumps)
    exp = bytes(b for b, _ in R.write(st, spec[0], m))
    X.check(d.ok and d.value == exp, "writing is the inverse of reading", got=d, expected=exp.hex())
    v = rand_value(X, st, m, "v", {})
    b = X.call(build, cs.T, st, v)
    X.check(b.ok, "construct", outcome=b)
    d = X.call(b.value.dumps)
    exp = bytes(x for x, _ in R.write(st, v, m))
    X.check(d.ok and d.value == exp, "values that fit are written into their slice", got=d, expected=exp.hex(), value=v)
    f = X.pick("field", [f for f in st.fields if f.bits])
    k = X.int("new", 0, (1 << f.bits) - 1)
    rt = next(rf.type for rf in cs.T.__fields__ if rf._name == f.name)
    setattr(b.value, f.name, rt(k) if isinstance(f.type, R.Enum) else k)
    v[f.name] = k
    d = X.call(b.value.dumps)
    exp = bytes(x for x, _ in R.write(st, v, m))
    X.check(d.ok and d.value == exp, "assigning one bit-field changes only its slice", field=f.name, got=d, expected=exp.hex())
    bad = X.pick("bad", (1 << f.bits, -1, (1 << f.bits) + X.int("x", 0, 1 << 80), -X.int("y", 1, 1 << 80)))
    mk = X.call(rt, bad) if isinstance(f.type, R.Enum) else None
    X.assume(mk is None or mk.ok and mk.value.value == bad)
    setattr(b.value, f.name, bad if mk is None else mk.value)
    d = X.call(b.value.dumps)
    X.check(not d.ok, "a value that does not fit is rejected", field=f.name, value=bad, outcome=d)


@contract("C06", lambda rng: gen_bits(rng, False), 800, 8000)
def straddling(X, c):
    """A field that would straddle its storage unit is rejected."""
    src = R.source(c.st, c.mode)
    o = X.call(real.load, src, c.mode, c.compiled)
    if not o.ok: return X.check(True, "")
    r = X.call(o.value.T.read, io.BytesIO(bytes(200)))
    X.check(not r.ok, "a straddling bit-field is rejected", definition=src, outcome=r)
