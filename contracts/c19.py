import ast
import contextlib
import re
import string
from contracts.common import *
from contracts.c11 import fix_any
from dissect.cstruct import utils as U
from dissect.cstruct.utils import hexdump, dumpstruct, pack, unpack, swap

CODE = re.compile("\033\\[[0-9;]*m")
COLORS = [getattr(U, n) for n in dir(U) if n.startswith("COLOR_")]
PRINTABLE = set(string.printable) - set("\t\n\r\x0b\x0c")
ENDIANS = {"little": True, "<": True, "big": False, ">": False, "!": False, "network": False,
           "@": sys.byteorder == "little", "=": sys.byteorder == "little"}


def plain(s): return CODE.sub("", s)


def check_hexdump(X, text, data, offset, prefix):
    """text (without colour codes) lists exactly data"""
    lines = text.split("\n") if text else []
    X.check(len(lines) == -(-len(data) // 16), "sixteen bytes per line", got=text, data=bytes(data))
    for i, line in enumerate(lines):
        part = bytes(data[16 * i:16 * i + 16])
        X.check(line.startswith(prefix), "each line starts with the prefix", got=line, prefix=prefix)
        rest = line[len(prefix):]
        off, _, rest = rest.partition(" ")
        X.check(off and int(off, 16) == offset + 16 * i, "running offset", line=line, expected=offset + 16 * i)
        chars, hexes = rest[-len(part):], rest[:-len(part)]
        X.check(hexes.split() == [f"{b:02x}" for b in part], "every byte is listed exactly once, in order", line=line, expected=part)
        X.check(chars == "".join(chr(b) if chr(b) in PRINTABLE and b < 128 else "." for b in part), "the text column shows the same bytes", line=line, expected=part)


def gen_dump(rng):
    n = rng.choice((0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 48, 49, 64, rng.randint(0, 100), rng.randint(0, 400)))
    pal = []
    style = rng.random()
    while style > .1 and sum(k for k, _ in pal) < n * 1.2 + 2 and len(pal) < 60:
        k = rng.choice((0, 0, 1, 1, 2, 3, 4, 7, 8, 15, 16, 17, 32)) if style < .7 else rng.choice((1, 4, 16, 20))
        pal.append((k, rng.choice(COLORS)))
        if rng.random() < .05: break
    if rng.random() < .15: pal.append((0, rng.choice(COLORS)))
    if rng.random() < .1: pal += [(0, rng.choice(COLORS))] * 3
    return Case(n=n, palette=pal, offset=rng.choice((0, 0, 1, 16, 0x1000, 0xFFFFFFF8, 0x123456789A, rng.randrange(1 << 32))),
                prefix=rng.choice(("", "", "  ", "> ", "12: ", "0", "prefix\t")), kind=rng.choice((bytes, bytearray, memoryview)))


@contract("C19", gen_dump, 6000, 100000)
def hexdumps(X, c):
    """Every byte exactly once, in order, sixteen per line, right offset; a palette only inserts colour codes."""
    data = X.bytes("data", c.n)
    d = c.kind(data)
    o = X.call(hexdump, d, offset=c.offset, prefix=c.prefix, output="string")
    X.check(o.ok, "dumping succeeds", outcome=o)
    X.check("\033" not in o.value, "no colour codes without a palette", got=o)
    check_hexdump(X, o.value, data, c.offset, c.prefix)
    pal = list(c.palette)
    p = X.call(hexdump, d, pal, c.offset, c.prefix, "string")
    X.check(p.ok and plain(p.value) == o.value, "a palette changes nothing but the inserted colour codes", got=p, expected=o, palette=pal)
    X.check(pal == c.palette, "the palette is left alone")
    g = X.call(lambda: list(hexdump(d, pal, c.offset, c.prefix, output="generator")))
    X.check(g.ok and "\n".join(g.value) == p.value, "the generator gives the same lines", got=g, expected=p)
    if X.pick("print", (0, 0, 0, 1)):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf): r = X.call(hexdump, d, pal, c.offset, c.prefix)
        X.check(r.ok and r.value is None and buf.getvalue() == p.value + "\n", "printing prints the same", got=buf.getvalue(), expected=p)


def gen_dumpstruct(rng):
    m = mode(rng)
    while True:
        st = Gen(rng, dynamic=rng.random() < .6, maxfields=rng.choice((2, 4, 7)), maxdepth=2).struct(name="T", union=rng.random() < .08)
        if st.fields: break
    return Case(st=st, mode=m, compiled=rng.random() < .5, offset=rng.choice((0, 0, 16, 0x1234)))


def entry(X, name, v, text):
    """the text shows the value"""
    bad = lambda: X.check(False, "every field is listed with its value", field=name, got=text, value=repr(v))
    try:
        if hasattr(v.__class__, "__fields__"):
            ok = text == repr(v) or text == str(v)
        elif isinstance(v, T.Pointer):
            ok = text == repr(v) and f"{int(v):#x}" in text
        elif isinstance(v, (T.Enum, T.Flag)):
            ok = text == repr(v) and str(v.value) in text
        elif isinstance(v, list):
            ok = squeeze(text) == squeeze(repr(v)) or plain_eval(text) == plain_eval(repr(v))
        elif isinstance(v, (bytes, str)):
            ok = ast.literal_eval(text) == v
        elif isinstance(v, float):
            ok = float(text) == v or v != v
        elif isinstance(v, int):
            ok = int(text, 0) == v
        else:
            ok = True
    except (ValueError, SyntaxError):
        ok = False
    if not ok: bad()


def squeeze(s): return re.sub(r"\s+", "", s)


def plain_eval(s):
    try: return ast.literal_eval(s)
    except (ValueError, SyntaxError): return s


@contract("C19", gen_dumpstruct, 8000, 80000)
def structdumps(X, c):
    """Dumping a structure shows a hex dump of exactly its bytes and every field with its value."""
    cs = load(X, c)
    st, m = c.st, c.mode
    data = X.bytes("data", X.pick("n", range(0, 80)))
    e = ref_read(X, st, list(data), 0, m)
    if e is None or bad_utf16(e[0]) or has_nan(e[0]) or e[1] > len(data): raise Skip()
    how = X.pick("how", ("parsed", "class", "built", "default"))
    if how == "default": obj = X.call(cs.T)
    elif how == "built":
        if st.union: raise Skip()
        obj = X.call(lambda: build(cs.T, st, fix_any(X, st, e[0], m)))
    else: obj = X.call(cs.T.read, data)
    X.check(obj.ok, "an instance can be made", how=how, outcome=obj)
    obj = obj.value
    if how == "class":
        exact = data[:e[1]]
        try:
            if real.norm(cs.T.read(exact), st) != e[0]: raise Skip()
        except EOFError:
            raise Skip()
        raw = exact
        args = (cs.T, exact)
    else:
        d = X.call(obj.dumps)
        if not d.ok: raise Skip()
        raw = d.value
        args = (obj,)
        if how == "parsed" and not st.union:
            w = R.write(st, e[0], m)
            X.check(len(raw) == len(w) and all(x & k == b & k for x, (b, k) in zip(raw, w)), "dump of the parsed value", got=raw)
    o = X.call(dumpstruct, *args, offset=c.offset, color=False, output="string")
    X.check(o.ok, "dumping a structure succeeds", how=how, outcome=o)
    shown = plain(o.value)
    k = X.call(dumpstruct, *args, offset=c.offset, color=True, output="string")
    X.check(k.ok and plain(k.value) == shown, "colour changes nothing but the inserted colour codes", got=k, expected=o)
    if X.pick("print", (0, 0, 0, 1)):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf): r = X.call(dumpstruct, *args, offset=c.offset)
        X.check(r.ok and buf.getvalue().strip("\n") == k.value.strip("\n"), "printing prints the same", got=buf.getvalue(), expected=k)
    head, sep, tail = shown.partition("\n\nstruct ") if raw else ("", "x", shown.partition("struct ")[2])
    X.check(sep, "a hex dump and a list of fields", got=o)
    check_hexdump(X, head[1:] if head else "", raw, c.offset, "")
    lines = tail.split("\n")
    X.check(lines[0].rstrip(":") == "T", "the name of the structure", got=lines[0])
    items = []
    for line in lines[1:]:
        if line.startswith("- "): items.append(line[2:])
        elif items: items[-1] += "\n" + line
    names = [f._name for f in cs.T.__fields__]
    X.check([i.partition(": ")[0] for i in items] == names, "every field is listed, once and in order", got=items, expected=names)
    for i, n in zip(items, names): entry(X, n, getattr(obj, n), i.partition(": ")[2])


def gen_int(rng):
    return Case(bits=rng.choice((1, 3, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 128, 200, rng.randint(1, 300))), endian=rng.choice(list(ENDIANS)))


def twos(v, nbytes, little):
    u = v & ((1 << (8 * nbytes)) - 1)
    b = [u >> (8 * i) & 255 for i in range(nbytes)]
    return bytes(b if little else b[::-1])


@contract("C19", gen_int, 20000, 300000)
def integers(X, c):
    """pack and unpack are inverse and two's complement; swapping twice is the identity."""
    little, e, bits = ENDIANS[c.endian], c.endian, c.bits
    n = -(-bits // 8)
    v = X.int("v", -(1 << (bits - 1)), (1 << bits) - 1)
    o = X.call(pack, v, bits, e)
    X.check(o.ok and type(o.value) is bytes and o.value == twos(v, n, little), "pack is two's complement in the requested byte order", value=v, bits=bits, endian=e, got=o, expected=twos(v, n, little))
    u = X.call(unpack, o.value, bits, e, v < 0)
    X.check(u.ok and u.value == v, "unpack inverts pack", value=v, bits=bits, endian=e, got=u)
    if -(1 << (bits - 1)) <= v < (1 << (bits - 1)):
        u = X.call(unpack, o.value, bits, e, True)
        X.check(u.ok and (u.value == v), "unpack with a sign inverts pack", value=v, bits=bits, endian=e, got=u)
    u = X.call(unpack, o.value, endian=e, sign=v < 0)
    X.check(u.ok and u.value == v, "unpack inverts pack, without a size", value=v, bits=bits, endian=e, got=u)
    # bytes first
    b = X.bytes("b", n)
    for sign in (False, True):
        exp = int.from_bytes(b, "little" if little else "big")
        if sign and exp >= 1 << (8 * n - 1): exp -= 1 << (8 * n)
        u = X.call(unpack, b, 8 * n, e, sign)
        X.check(u.ok and u.value == exp, "unpack is two's complement in the requested byte order", data=b, endian=e, sign=sign, got=u, expected=exp)
        p = X.call(pack, u.value, 8 * n, e)
        X.check(p.ok and p.value == b, "pack inverts unpack", data=b, endian=e, sign=sign, got=p)
    # no size: as many bytes as the value needs
    p = X.call(pack, v, endian=e)
    X.check(p.ok and p.value == twos(v, len(p.value), little), "pack without a size", value=v, endian=e, got=p)
    u = X.call(unpack, p.value, endian=e, sign=v < 0)
    X.check(u.ok and u.value == v, "unpack inverts pack without a size", value=v, endian=e, packed=p, got=u)
    # what does not fit is refused
    for w in (1 << (8 * n), (1 << (8 * n)) + v % 7 + 1, -(1 << (8 * n - 1)) - 1):
        X.check(not X.call(pack, w, bits, e).ok, "a value that does not fit is refused", value=w, bits=bits)
    for k in (n - 1, n + 1):
        X.check(not X.call(unpack, bytes(k), bits, e).ok, "data of another width is refused", bits=bits, width=k)
    # byte order
    x = v & ((1 << bits) - 1)
    s = X.call(swap, x, bits)
    X.check(s.ok and s.value == int.from_bytes(twos(x, n, True), "big"), "swap reverses the bytes", value=x, bits=bits, got=s)
    t = X.call(swap, s.value, bits)
    X.check(t.ok and t.value == x, "swapping twice is the identity", value=x, bits=bits, got=t)
    for w in (8, 16, 32, 64):
        y = X.int(f"y{w}", -(1 << (w - 1)), (1 << w) - 1)
        P, Q = getattr(U, f"p{w}"), getattr(U, f"u{w}")
        p = X.call(P, y, e)
        X.check(p.ok and p.value == twos(y, w // 8, little), "the fixed-width helpers pack two's complement", width=w, value=y, endian=e, got=p)
        q = X.call(Q, p.value, e, y < 0)
        X.check(q.ok and q.value == y, "the fixed-width helpers are inverse", width=w, value=y, endian=e, got=q)
        X.check(X.call(P, y).value == twos(y, w // 8, True), "the default byte order is little", width=w)
        X.check(not X.call(P, 1 << w, e).ok and not X.call(P, -(1 << (w - 1)) - 1, e).ok, "a value that does not fit is refused", width=w)
        X.check(not X.call(Q, bytes(w // 8 + 1), e).ok and not X.call(Q, bytes(w // 8 - 1), e).ok, "data of another width is refused", width=w)
        if w > 8:
            y &= (1 << w) - 1
            S = getattr(U, f"swap{w}")
            s = X.call(S, y)
            X.check(s.ok and s.value == int.from_bytes(y.to_bytes(w // 8, "little"), "big"), "swap reverses the bytes", width=w, value=y, got=s)
            X.check(X.call(S, s.value).value == y, "swapping twice is the identity", width=w, value=y)
