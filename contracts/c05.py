import struct
from contracts.common import *

ALIASES = {  # C / Windows / GNU synonyms -> width, signed
    "signed char": (1, True), "short": (2, True), "signed short": (2, True), "unsigned short": (2, False), "int": (4, True),
    "signed int": (4, True), "unsigned int": (4, False), "long": (4, True), "signed long": (4, True), "unsigned long": (4, False),
    "long long": (8, True), "signed long long": (8, True), "unsigned long long": (8, False),
    "BYTE": (1, False), "SHORT": (2, True), "WORD": (2, False), "DWORD": (4, False), "LONG": (4, True), "LONG32": (4, True),
    "LONG64": (8, True), "LONGLONG": (8, True), "QWORD": (8, False), "OWORD": (16, False), "UCHAR": (1, False),
    "USHORT": (2, False), "ULONG": (4, False), "ULONG64": (8, False), "ULONGLONG": (8, False), "INT": (4, True), "INT8": (1, True),
    "INT16": (2, True), "INT32": (4, True), "INT64": (8, True), "INT128": (16, True), "UINT": (4, False), "UINT8": (1, False),
    "UINT16": (2, False), "UINT32": (4, False), "UINT64": (8, False), "UINT128": (16, False), "__int8": (1, True), "__int16": (2, True),
    "__int32": (4, True), "__int64": (8, True), "__int128": (16, True), "unsigned __int8": (1, False), "unsigned __int16": (2, False),
    "unsigned __int32": (4, False), "unsigned __int64": (8, False), "unsigned __int128": (16, False), "int8_t": (1, True),
    "int16_t": (2, True), "int32_t": (4, True), "int64_t": (8, True), "int128_t": (16, True), "uint8_t": (1, False), "uint16_t": (2, False),
    "uint32_t": (4, False), "uint64_t": (8, False), "uint128_t": (16, False), "_BYTE": (1, False), "_WORD": (2, False), "_DWORD": (4, False),
    "_QWORD": (8, False), "_OWORD": (16, False), "u1": (1, False), "u2": (2, False), "u4": (4, False), "u8": (8, False), "u16": (16, False),
    "__u8": (1, False), "__u16": (2, False), "__u32": (4, False), "__u64": (8, False), "uchar": (1, False), "ushort": (2, False),
    "uint": (4, False), "ulong": (4, False)}
WIDTHS = {**{n: (w, s) for n, (w, s, *_) in R.INT_TYPES.items()}, **ALIASES}
NAMES = sorted(WIDTHS)


def gen_int(rng):
    return Case(name=rng.choice(NAMES), mode=mode(rng), switch=rng.choice("<><>!=@"), n=rng.randrange(0, 4), compiled=rng.random() < .5,
                via=rng.choice(("type", "struct", "array", "bits0")))


@contract("C05", gen_int, 4000, 40000)
def integers(X, c):
    """w-byte two's complement / unsigned integer in the byte order currently set, both ways, through the type itself,
    through a structure (also one compiled before the byte order changed) and through arrays."""
    w, signed = WIDTHS[c.name]
    cs = real.load(f"struct S {{ {c.name} x; {c.name} y[{c.n}]; uint16 tail; }};", c.mode, c.compiled)
    if X.pick("read first", (0, 1)): X.call(cs.S.read, bytes(200))
    if X.pick("switch", (0, 1)): cs.endian = c.switch
    order = "little" if R.LITTLE[cs.endian] else "big"
    t = cs.resolve(c.name)
    raw = X.bytes("raw", w * (c.n + 1))
    exp = [int.from_bytes(raw[i * w:i * w + w], order, signed=signed) for i in range(c.n + 1)]
    v = X.call(t, raw[:w])
    X.check(v.ok and v.value == exp[0], "decoding", name=c.name, got=v, expected=exp[0])
    d = X.call(t.dumps, exp[0])
    X.check(d.ok and d.value == raw[:w], "encoding is the exact inverse", got=d, expected=raw[:w].hex())
    d = X.call(v.value.dumps)
    X.check(d.ok and d.value == raw[:w], "encoding of an instance", got=d, expected=raw[:w].hex())
    arr = t[c.n + 1]
    v = X.call(arr, raw)
    X.check(v.ok and list(v.value) == exp, "decoding an array", got=v, expected=exp)
    d = X.call(arr.dumps, exp)
    X.check(d.ok and d.value == raw, "encoding an array", got=d, expected=raw.hex())
    if all(exp):
        z = X.call(t[None], raw + bytes(w))
        X.check(z.ok and list(z.value) == exp, "decoding a null-terminated array", got=z, expected=exp)
        d = X.call(t[None].dumps, exp)
        X.check(d.ok and d.value == raw + bytes(w), "encoding a null-terminated array", got=d, expected=(raw + bytes(w)).hex())
    S = cs.S
    off = [f.offset for f in S.__fields__]
    buf = bytearray(len(S))
    buf[off[0]:off[0] + w] = raw[:w]
    buf[off[1]:off[1] + w * c.n] = raw[w:]
    buf[off[2]:off[2] + 2] = (0x1234).to_bytes(2, order)
    v = X.call(S, bytes(buf))
    X.check(v.ok and v.value.x == exp[0] and list(v.value.y) == exp[1:] and v.value.tail == 0x1234, "decoding inside a structure", compiled=S.__compiled__, got=v, expected=exp)
    d = X.call(v.value.dumps)
    X.check(d.ok and d.value == bytes(buf), "encoding inside a structure", got=d, expected=bytes(buf).hex())


def gen_float(rng):
    return Case(name=rng.choice(("float16", "float", "double")), mode=mode(rng), switch=rng.choice("<><>!=@"), n=rng.randrange(0, 3), compiled=rng.random() < .5)


@contract("C05", gen_float, 1200, 15000)
def floats(X, c):
    """IEEE-754 binary16/32/64 in the current byte order (independent decoder: exact rational arithmetic)."""
    from fractions import Fraction
    n = {"float16": 2, "float": 4, "double": 8}[c.name]
    mb, eb = {2: (10, 5), 4: (23, 8), 8: (52, 11)}[n]
    cs = real.load(f"struct S {{ {c.name} x; {c.name} y[{c.n}]; }};", c.mode, c.compiled)
    if X.pick("switch", (0, 1)): cs.endian = c.switch
    order = "little" if R.LITTLE[cs.endian] else "big"
    bits = [X.int(f"b{i}", 0, (1 << 8 * n) - 1) for i in range(c.n + 1)]
    X.assume(not any(nan(("f", n, b)) for b in bits))
    def dec(b):
        s, e, f = b >> (8 * n - 1), b >> mb & ((1 << eb) - 1), b & ((1 << mb) - 1)
        bias = (1 << (eb - 1)) - 1
        if e == (1 << eb) - 1: return -math.inf if s else math.inf
        m, x = (f, 1 - bias - mb) if e == 0 else (f | 1 << mb, e - bias - mb)
        return (-1 if s else 1) * m * Fraction(2) ** x
    raw = b"".join(b.to_bytes(n, order) for b in bits)
    t = cs.resolve(c.name)
    def same(v, b):
        return isinstance(v, float) and (v == dec(b)) and (math.copysign(1, v) < 0) == bool(b >> (8 * n - 1))
    v = X.call(t, raw[:n])
    X.check(v.ok and same(v.value, bits[0]), "decoding", got=v, bits=hex(bits[0]))
    d = X.call(t.dumps, v.value)
    X.check(d.ok and d.value == raw[:n], "encoding is the exact inverse", got=d, expected=raw[:n].hex())
    v = X.call(t[c.n + 1], raw)
    X.check(v.ok and len(v.value) == len(bits) and all(same(a, b) for a, b in zip(v.value, bits)), "decoding an array", got=v)
    d = X.call(t[c.n + 1].dumps, v.value)
    X.check(d.ok and d.value == raw, "encoding an array", got=d, expected=raw.hex())
    v = X.call(cs.S, raw)
    X.check(v.ok and same(v.value.x, bits[0]) and all(same(a, b) for a, b in zip(v.value.y, bits[1:])), "decoding inside a structure", got=v)
    d = X.call(v.value.dumps)
    X.check(d.ok and d.value == raw, "encoding inside a structure", got=d, expected=raw.hex())


def gen_text(rng):
    return Case(mode=mode(rng), switch=rng.choice("<><>!=@"), n=rng.randrange(1, 6), compiled=rng.random() < .5)


@contract("C05", gen_text, 1500, 15000)
def characters(X, c):
    """char is raw bytes, wchar is UTF-16 in the current byte order."""
    names = X.pick("names", (("char", "wchar"), ("CHAR", "WCHAR"), ("unsigned char", "wchar_t")))
    cs = real.load(f"struct S {{ {names[0]} a; {names[0]} b[{c.n}]; {names[1]} w; {names[1]} x[{c.n}]; {names[1]} z[]; {names[0]} e[]; }};", R.Mode(c.mode.endian, False, c.mode.ptr), c.compiled)
    if X.pick("switch", (0, 1)): cs.endian = c.switch
    order = "little" if R.LITTLE[cs.endian] else "big"
    raw = X.bytes("raw", 1 + c.n)
    units = [X.int(f"u{i}", 0, 0xFFFF) for i in range(2 * c.n + 1)]
    units = [u if not 0xD800 <= u <= 0xDFFF else u & 0xFFF for u in units]
    if X.pick("pair", (0, 1)) and c.n >= 2:
        units[1:3] = [0xD800 | X.int("hs", 0, 0x3FF), 0xDC00 | X.int("ls", 0, 0x3FF)]
    tail = [u or 1 for u in units[c.n + 1:]]
    units[c.n + 1:] = tail
    enc = lambda us: b"".join(u.to_bytes(2, order) for u in us)
    def text(us):
        out, i = [], 0
        while i < len(us):
            if 0xD800 <= us[i] <= 0xDBFF:
                out.append(0x10000 + ((us[i] & 0x3FF) << 10) + (us[i + 1] & 0x3FF)); i += 1
            else: out.append(us[i])
            i += 1
        return "".join(map(chr, out))
    data = raw + enc(units) + enc([0]) + bytes(x or 1 for x in raw) + b"\0"
    v = X.call(cs.S, data)
    X.check(v.ok, "parses", outcome=v)
    v = v.value
    X.check(bytes(v.a) == raw[:1] and bytes(v.b) == raw[1:], "char is raw bytes", got=(v.a, v.b), expected=raw)
    X.check(v.w == text(units[:1]) and v.x == text(units[1:c.n + 1]) and v.z == text(tail), "wchar is UTF-16", got=(v.w, v.x, v.z), units=units)
    X.check(bytes(v.e) == bytes(x or 1 for x in raw), "null-terminated char is raw bytes", got=v.e)
    d = X.call(v.dumps)
    X.check(d.ok and d.value == data, "encoding is the exact inverse", got=d, expected=data.hex())
    wch, ch = cs.resolve(names[1]), cs.resolve(names[0])
    one = X.call(wch, enc(units[:1]))
    X.check(one.ok and one.value == text(units[:1]), "wchar by itself", got=one)
    X.check(wch.dumps(one.value) == enc(units[:1]), "wchar encodes by itself")
    X.check(bytes(ch(raw[:1])) == raw[:1] and ch.dumps(raw[:1]) == raw[:1], "char by itself")


def gen_leb(rng):
    return Case(mode=mode(rng), signed=rng.random() < .5, compiled=rng.random() < .5)


@contract("C05", gen_leb, 1500, 15000)
def leb128(X, c):
    """LEB128: the minimal encoding of every integer, decoded with sign extension; other encodings decode by value."""
    cs = real.load(f"struct S {{ {'ileb128' if c.signed else 'uleb128'} x; uint8 t; }};", c.mode, c.compiled)
    t = cs.ileb128 if c.signed else cs.uleb128
    n = X.pick("bits", (6, 7, 8, 13, 14, 20, 28, 33, 64, 100, 200))
    x = X.int("x", -(1 << n) if c.signed else 0, 1 << n)
    k = 1
    while not ((-(1 << (7 * k - 1)) <= x < (1 << (7 * k - 1))) if c.signed else x < (1 << 7 * k)): k += 1
    u = x & ((1 << 7 * k) - 1)
    enc = bytes((u >> 7 * i & 0x7F) | (0x80 if i < k - 1 else 0) for i in range(k))
    d = X.call(t.dumps, x)
    X.check(d.ok and d.value == enc, "minimal encoding", x=x, got=d, expected=enc.hex())
    s = io.BytesIO(enc + b"\x80\xff")
    v = X.call(t.read, s)
    X.check(v.ok and v.value == x and s.tell() == k, "decoding", got=v, expected=x)
    v = X.call(cs.S, enc + b"\x07")
    X.check(v.ok and v.value.x == x and v.value.t == 7 and v.value.dumps() == enc + b"\x07", "inside a structure", got=v, expected=x)
    j = X.pick("longer", (0, 1, 3))
    fill = 0x7F if x < 0 else 0
    loose = bytes((b | 0x80) for b in enc) + bytes([fill | 0x80] * j) + bytes([fill])
    v = X.call(t, loose)
    X.check(v.ok and v.value == x, "decoding a longer encoding", got=v, expected=x)
    if not c.signed:
        bad = X.call(t.dumps, -1 - x)
        X.check(not bad.ok, "a negative number has no unsigned encoding", got=bad)
    arr = X.call(t[3], enc * 3)
    X.check(arr.ok and list(arr.value) == [x] * 3 and t[3].dumps([x] * 3) == enc * 3, "array", got=arr)


def gen_switch(rng):
    c = struct_case(rng)
    c.seq = "".join(rng.choice("<><>!=@") for _ in range(4))
    return c


@contract("C05", gen_switch, 1500, 20000)
def switching(X, c):
    """After cs.endian = e every read and write of every type, compiled or not, equals that of an instance created
    with endian e."""
    cs = load(X, c)
    data = X.bytes("data", X.pick("len", (16, 60)))
    for e in c.seq:
        cs.endian = e
        m = R.Mode(e, c.mode.aligned, c.mode.ptr)
        fresh = load(X, c, m=m)
        def look(k):
            s = io.BytesIO(data)
            v = k.T.read(s)
            return real.norm(v, c.st), s.tell(), v.dumps()
        a, b = X.call(look, cs), X.call(look, fresh)
        X.check(a.ok == b.ok and a.value == b.value, "same as an instance created with this byte order", endian=e, got=a, expected=b)
