from contracts.common import *


def check_fidelity(X, c, cs, cls, st, data, start=0):
    m = c.mode
    s = io.BytesIO(data)
    p = X.call(cls.read, s)
    if not p.ok: raise Skip()
    used = s.tell()
    spec = ref_read(X, st, list(data), 0, m)
    if spec is not None:
        # canonical encodings only: re-encoding by the spec reproduces the data-carrying bytes
        w = R.write(st, spec[0], m)
        X.assume(not has_nan(spec[0]))
        if any(k and j < len(data) and (data[j] & k) != (b & k) for j, (b, k) in enumerate(w)) or spec[1] < len(w) and len(w) - spec[1] > 0:
            raise Skip()
    v = p.value
    d = X.call(v.dumps)
    X.check(d.ok, "a parsed value can be dumped", outcome=d)
    out = d.value
    X.check(len(out) == used, "dumping yields as many bytes as parsing consumed", dumped=len(out), consumed=used, data=data.hex(), out=out.hex())
    d2 = X.call(cls.dumps, v)
    X.check(d2.ok and d2.value == out, "T.dumps(v) == v.dumps()", outcome=d2, expected=out)
    s2 = io.BytesIO()
    d3 = X.call(cls.write, s2, v)
    X.check(d3.ok and s2.getvalue() == out, "T.write(stream, v) writes dumps(v)", outcome=d3)
    X.check(spec is not None, "parsing accepts only inputs that hold every data-carrying byte", value=short(v))
    X.check(spec[1] == used, "parsing consumes the encoded extent", consumed=used, expected=spec[1])
    X.check(len(w) == len(out), "dumping yields the encoded extent", got=len(out), expected=len(w), data=data.hex(), out=out.hex())
    for j, (b, k) in enumerate(w):
        o = out[j]
        i = data[j] if j < len(data) else 0
        X.check((o & k) == (i & k), "every data-carrying bit is reproduced", index=j, mask=hex(k), data=data.hex(), out=out.hex())
        X.check((o & ~k & 0xFF) == 0, "padding is written as zero", index=j, mask=hex(k), data=data.hex(), out=out.hex())


@contract("C02", gen_struct(unions=False), 3500, 60000)
def fidelity(X, c):
    """dumps(T(data)) reproduces every data-carrying bit of the consumed prefix; everything else is zero."""
    cs = load(X, c)
    data = X.bytes("data", X.pick("len", lens(c, (8, 16, 40, 120))))
    check_fidelity(X, c, cs, cs.T, c.st, data)


@contract("C02", gen_struct(dynamic=False), 2500, 40000)
def fidelity_fixed(X, c):
    """The same for fixed-size structures, including unions, on exactly size bytes.

    Bits of a union that are padding in every member may be kept; C11 states what unions write."""
    cs = load(X, c)
    size = R.layout(c.st, c.mode)[0]
    data = X.bytes("data", size)
    if has(c.st, lambda t: isinstance(t, R.Struct) and t.union):
        s = io.BytesIO(data)
        p = X.call(cs.T.read, s)
        if not p.ok: raise Skip()
        spec = ref_read(X, c.st, list(data), 0, c.mode)
        X.assume(spec is not None and not has_nan(spec[0]))
        d = X.call(p.value.dumps)
        X.check(d.ok, "a parsed value can be dumped", outcome=d)
        w = R.write(c.st, spec[0], c.mode)
        X.check(len(d.value) == s.tell() == size, "dumping yields as many bytes as parsing consumed", dumped=len(d.value), consumed=s.tell())
        for j, (b, k) in enumerate(w):
            X.check((d.value[j] & k) == (data[j] & k), "every data-carrying bit is reproduced", index=j, data=data.hex(), out=d.value.hex())
        return
    check_fidelity(X, c, cs, cs.T, c.st, data)


def gen_wide(rng):
    n = rng.choice((1, 2, 3, 4, "k", "k + 1", None, None, "EOF"))
    return Case(mode=R.Mode(rng.choice("<>!@=<>"), rng.random() < .4 and n != "EOF", R.Int("uint32")), n=n, compiled=rng.random() < .6,
                pre=rng.choice(("", "uint8 a; ", "uint16 a; ")), nested=rng.random() < .3)


@contract("C02", gen_wide, 1200, 12000)
def wide_text(X, c):
    """Wide characters of any 16-bit units (surrogate pairs, lone surrogates, zero, byte order marks): whenever parsing accepts
    them, dumping writes the same units, for scalars, counted, null-terminated and to-end-of-stream arrays."""
    m = c.mode
    n = "" if c.n is None else c.n
    src = f"struct I {{ wchar s[{n}]; }}; struct T {{ uint8 k; {c.pre}wchar w; " + ("I i; };" if c.nested and c.n not in ("k", "k + 1") else f"wchar s[{n}]; }};")
    o = X.call(real.load, src, m, c.compiled)
    X.check(o.ok, "loads", outcome=o)
    cs = o.value
    k = X.pick("k", range(4))
    count = {"k": k, "k + 1": k + 1, None: None, "EOF": X.pick("len", range(5))}.get(c.n, c.n)
    if count is None: count = X.pick("len", range(5))
    units = []
    for i in range(count + 1):
        u = X.pick(f"kind{i}", ("any", "pair", "low", "high", "bom", "zero", "ascii"))
        if u == "any": units.append(X.int(f"u{i}", 0, 0xFFFF))
        elif u == "pair": units += [X.int(f"u{i}", 0xD800, 0xDBFF), X.int(f"v{i}", 0xDC00, 0xDFFF)]
        else: units.append({"low": 0xDC00, "high": 0xD800, "bom": X.pick(f"b{i}", (0xFEFF, 0xFFFE)), "zero": 0, "ascii": 0x41}[u])
    units = units[:count + 1]
    if c.n is None: units = [units[0]] + [u or 1 for u in units[1:]]
    bo = "little" if R.LITTLE[m.endian] else "big"
    enc = lambda l: b"".join(u.to_bytes(2, bo) for u in l)
    head, al = bytearray([k]), (lambda b, a: b.extend(bytes(-len(b) % a))) if m.aligned else (lambda b, a: None)
    if c.pre:
        a = 1 if "8" in c.pre else 2
        al(head, a)
        head += b"\x07" * a
    al(head, 2)
    data = head + enc(units)
    if c.n is None: data += b"\0\0"
    al(data, 2)
    data = bytes(data)
    s = io.BytesIO(data + (b"" if c.n == "EOF" else b"\x99\x99"))
    v = X.call(cs.T.read, s)
    if not v.ok:
        X.check(isinstance(v.exc, UnicodeError), "complete input is accepted unless it is not UTF-16", outcome=v, data=data.hex())
        return
    X.check(s.tell() == len(data), "all of it is consumed", got=s.tell(), expected=len(data))
    for how in (v.value.dumps, lambda: cs.T.dumps(v.value)):
        d = X.call(how)
        X.check(d.ok and d.value == data, "dumping writes the same units", got=d, expected=data)
