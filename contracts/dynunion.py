"""Unions with members of a dynamic size: where members are read from, and where the stream is left."""
from contracts.common import *


def gen_dynamic(rng):
    m = mode(rng)
    while True:
        g = Gen(rng, bits=False, unions=rng.random() < .2, eof=False, maxdepth=2)
        fs = []
        for i in range(rng.randint(1, 4)):
            t = g.field_type(1, True, [], False)
            if has(t, is_eof): t = R.Int("uint16")
            fs.append(R.F(f"u{i}", t))
        st = R.Struct("T", fs, True)
        try:
            if not any(f.type.size(m) is None for f in fs): continue
        except Exception: continue
        if has(st, lambda t: isinstance(t, R.Struct) and t is not st and t.name is None): continue
        for f in fs:
            if rng.random() < .35: f.offset = rng.choice((0, 1, 2, 3, 4, 8, 13))
        return Case(st=st, mode=m, compiled=rng.random() < .5, anywhere=True)


def dynamic_unions(X, c):
    """Every member is read from its own place in the union; the stream ends behind the largest one, wherever the union starts;
    a shorter input is refused."""
    st, m = c.st, c.mode
    cs = load(X, c)
    data = X.bytes("data", X.pick("len", (12, 40, 100)))
    want, sizes, used, whole = {}, {}, 0, True
    for f in st.fields:
        off = f.offset or 0
        r = ref_read(X, f.type, list(data), off, m)
        X.assume(r is not None and not bad_utf16(r[0]) and not has_nan(r[0]))
        want[f.name], end = r
        sizes[f.name] = end - off
        if end > used: used, whole = end, not has(f.type, lambda t: isinstance(t, R.Struct))
    X.assume(used <= len(data))
    p = X.pick("at", (0, 0, 1, 5, 16, 48)) if not m.aligned else X.pick("at", (0, 16, 64))
    for tail in (b"\x99" * 9, b""):
        s = io.BytesIO(b"\x77" * p + data[:used] + tail)
        s.seek(p)
        o = X.call(cs.T.read, s)
        if not o.ok and not tail and has(st, lambda t: isinstance(t, R.Arr) and t.n is None): pass
        X.check(o.ok, "parsing succeeds", outcome=o)
        got = real.norm(o.value, st)
        X.check(list(got) == list(want) and got == want, "every member is read from its place in the union", got=got, expected=want)
        X.check(s.tell() == p + used, "the stream ends behind the largest member", got=s.tell() - p, expected=used)
        z = sizes_of(o.value)
        X.check(all(z.get(k, 0) == v for k, v in sizes.items()), "the recorded sizes are those of the members", got=z, expected=sizes)
    for j in range(3):
        k = X.pick(f"cut{j}", range(used)) if used else 0
        if k >= used: continue
        s = io.BytesIO(b"\x77" * p + data[:k])
        s.seek(p)
        o = X.call(cs.T.read, s)
        if whole: X.check(o.raised(EOFError) or o.raised(UnicodeError), "an input that ends inside the union is refused", cut=k, of=used, outcome=o)
        elif o.ok: X.check(real.norm(o.value, st) == want, "a value for a shorter input is that of the complete one", cut=k, outcome=o)


for _p in ("C08", "C09", "C11"): contract(_p, gen_dynamic, 1200, 12000, cap=20)(dynamic_unions)
