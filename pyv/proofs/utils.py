"""C19 utilities: hexdump for data of any length and any palette, dumpstruct for any fields, integer helpers for any value."""
import re
import sys

from pyv import sym, engine
from pyv.sym import Sym, SInt, SStr, Unsupported, is_sym
from pyv.engine import Cut, SText, SRange, Poison
from pyv.proofkit import proof, fresh_int, Ghost, exact, Buf
from pyv.absobj import Val, AbsFields, AbsCls
from pyv.real import cstruct
from dissect.cstruct import utils as U
from dissect.cstruct.types.base import BaseType
from dissect.cstruct.types.structure import Field, Structure

CODE = re.compile("\033\\[[0-9;]*m")
PRINT = {c for c in range(32, 127)}


# ------------------------------------------------------------------------------------------------------------- hexdump

class Code(Sym):
    """some colour code (not empty)"""
    __slots__ = ()
    pytype = str
    @property
    def __class__(self): return str
    def __bool__(self): return True
    def __add__(self, o): return SText([self, o])
    def __radd__(self, o): return SText([o, self])


class Text(Sym):
    """a text known (apart from colour codes) to be correct so far, and what was appended since"""
    __slots__ = ("new",)
    pytype = str
    def __init__(self, new=()): self.new = list(new)
    @property
    def __class__(self): return str
    def __add__(self, o): return Text([*self.new, o])
    def __bool__(self): raise Unsupported("truth of the text so far")


class Palette(Sym):
    """an arbitrary list of (count, colour code), of arbitrary length"""
    __slots__ = ("n",)
    pytype = list
    def __init__(self, n=None): self.n = fresh_int("palette", 0) if n is None else n
    @property
    def __class__(self): return list
    def __bool__(self): return bool(self.n != 0)
    def sym_len(self): return self.n
    def __getitem__(self, k):
        if not (type(k) is slice and k.start is None and k.stop is None and k.step in (None, 1, -1)): raise Unsupported("item of an arbitrary palette")
        return Palette(self.n)
    def pop(self, i=-1):
        if not bool(self.n > 0): raise IndexError("pop from empty list")
        self.n = self.n - 1
        return fresh_int("run", 0), Code()


def pieces(xs):
    """texts, characters and formatted values in order, colour codes removed"""
    out = []
    for x in xs:
        k = exact(x)
        if k is tuple and exact(x[1]) is Text and x[2:] in (("", ""), ("s", "")): x, k = x[1], Text
        if k is SText: out += pieces(x.parts)
        elif k is Code: continue
        elif k is Text: out += [x] + pieces(x.new)
        elif k is SStr: out += [("char", i) for i in x.items]
        elif k is tuple: out.append(x)
        elif k is str:
            x = CODE.sub("", x)
            if x and out and exact(out[-1]) is str: out[-1] += x
            elif x: out.append(x)
        else: raise Unsupported(f"{k.__name__} in the text")
    return out


def eq_pieces(got, want):
    if len(got) != len(want): return False
    for g, w in zip(got, want):
        if exact(g) is not exact(w): return False
        if exact(g) is tuple:
            if g[0] != w[0] or g[2:] != w[2:] or not bool(g[1] == w[1]): return False
        elif exact(g) is Text:
            if g is not w: return False
        elif g != w: return False
    return True


class Lines(Cut):
    """the lines: an arbitrary one (any state of the palette)"""
    def __init__(self, X, data, pal): self.X, self.data, self.pal, self.i = X, data, pal, None

    def enter(self, L, it):
        ex = sym.EX
        if exact(it) is range: ex.shape(it.start == 0 and it.step == 16 and bool(self.data.n == len(it)), "hexdump: steps of sixteen bytes")
        else: ex.shape(exact(it) is SRange and not is_sym(it.step) and it.step == 16 and bool(it.start == 0) and bool(it.stop == self.data.n), "hexdump: from the start to the end of the data, in steps of sixteen bytes")
        self.names = [n for n in L if not n.startswith("__pv")]
        self.p = next((n for n in L if exact(L[n]) is Palette), None)
        (self.r, self.a) = self.roles(L, ("remaining", lambda v: exact(v) is int and v == 0), ("active", lambda v: v is None))

    def havoc(self, L):
        # the columns of the line start from any state of the palette; nothing else may depend on it
        h = {self.r: Poison(self.r), self.a: Poison(self.a)}
        if self.p is not None: h[self.p] = Palette()
        return h

    def iter(self, it):
        if self.X.pick("line", ("some", "end")) == "end": return
        self.i = fresh_int("line", 0) * 16
        sym.EX.assume(self.i < self.data.n)
        yield self.i

    def end(self, L): pass


def state(X, p, r, a):
    """any state of the palette; without one, there is no active colour"""
    h = {r: fresh_int("remaining"), a: None}
    if p is not None:
        h[a] = {"none": None, "code": Code(), "empty": ""}[X.pick("active", ("none", "code", "empty"))]
        h[p] = Palette()
    return h


class Columns(Cut):
    """the sixteen columns of a line: an arbitrary one"""
    optional = ("remaining", "active")

    def __init__(self, X, lines): self.X, self.lines, self.j = X, lines, None

    def enter(self, L, it):
        ex = sym.EX
        ex.shape(exact(it) is range and it == range(16), "hexdump: sixteen columns")
        k = self.lines
        (self.v, self.c) = self.roles(L, ("values", lambda v: exact(v) is str and v == ""), ("chars", lambda v: exact(v) is list and not v))

    def havoc(self, L):
        d, i = self.lines.data, self.lines.i
        self.j = self.X.pick("column", list(range(16)) + ["end"])
        m = d.n - i
        cap = 16 if self.j == "end" else self.j
        if bool(m > cap): m = cap
        self.hex, self.txt = Text(), Text()
        self.m, self.ghost = m, Ghost(m, lambda: self.txt)
        k = self.lines
        if self.j != "end": return {self.v: self.hex, self.c: self.ghost, **state(self.X, k.p, k.r, k.a)}
        h = {self.v: self.hex, self.c: self.ghost, k.r: Poison(k.r), k.a: Poison(k.a)}
        if k.p is not None: h[k.p] = Palette()
        return h

    def iter(self, it):
        if self.j == "end": return
        yield self.j

    def end(self, L):
        ex, d, i, j = sym.EX, self.lines.data, self.lines.i, self.j
        v, c = L[self.v], L[self.c]
        ex.shape(exact(v) is Text and c is self.ghost, "hexdump: the line is built in two texts")
        gap = "  " if j == 7 else " "
        inside = bool(i + j < d.n)
        b = d.s.at(d.off + i + j)
        got = pieces(v.new)
        if inside:
            ex.oblige(eq_pieces(got, [("fmt", b, "", "02x"), gap]), "every byte is listed exactly once, in order")
            ex.oblige(len(c.new) == 1, "one character per byte")
            t = pieces(c.new)
            ok = sym.band(b >= 32, b <= 126)
            if bool(ok): ex.oblige(eq_pieces(t, [("char", b)]) , "the text column shows the same bytes")
            else: ex.oblige(t == ["."], "the text column shows a dot for the others")
        else:
            ex.oblige(got == ["  " + gap], "nothing is listed after the last byte")
            ex.oblige(not c.new, "no character after the last byte")
        if self.lines.p is None: ex.oblige(L[self.lines.a] is None and no_codes(v.new) and no_codes(c.new), "no colour codes without a palette")


def no_codes(xs):
    for x in xs:
        if exact(x) is Code or exact(x) is str and "\033" in x: return False
        if exact(x) is SText and not no_codes(x.parts): return False
    return True


class Skip(Cut):
    """skipping empty entries of the palette"""
    def __init__(self, lines): self.lines = lines
    def enter(self, L, it): self.p = next(n for n in L if exact(L[n]) is Palette)
    def havoc(self, L):
        h = {self.lines.r: fresh_int("remaining", 0), self.lines.a: Code(), self.p: Palette()}
        return h
    def end(self, L):
        sym.EX.oblige(exact(L[self.lines.a]) is Code and bool(L[self.lines.r] >= 0), "the next entry of the palette")


def native_line(data, i, offset, prefix):
    part = data[i:i + 16]
    cols = ["%02x" % b for b in part] + ["  "] * (16 - len(part))
    return prefix + "%08x" % (offset + i) + "  " + " ".join(cols[:8]) + "  " + " ".join(cols[8:]) + "   " + "".join(chr(b) if b in PRINT else "." for b in part)


@proof("C19", "_hexdump", {"no palette": False, "palette": True}, timeout=120, native=400)
def hexdump_lines(X, coloured):
    """For data of any length and content, any offset, prefix and palette: line k shows prefix, offset + 16k and exactly the bytes
    16k to 16k + 15 (or to the end), each once, in order, in both columns; the palette only adds colour codes."""
    if not X.symbolic: return native_hexdump(X, coloured)
    data = X.data("data")
    offset, prefix = X.bigint("offset", 0), Prefix()
    pal = Palette() if coloured else None
    cut = Lines(X, data, pal)
    cols = Columns(X, cut)
    X.loop("_hexdump:1", cut)
    X.loop("_hexdump:2", cols)
    if coloured: sym.EX.loops["_hexdump:3"] = Skip(cut)
    before = pal.n if coloured else None
    out = X.call(U._hexdump, data, pal, offset, prefix)
    X.check(out.ok, "no error", outcome=out)
    line = X.call(lambda: next(out.value, None))
    X.check(line.ok, "no error", outcome=line)
    if coloured: X.check(pal.n == before, "the palette given is left alone")
    if cut.i is None:
        X.check(line.value is None, "no line after the last byte")
        return
    X.check(line.value is not None, "a line for every sixteen bytes")
    if cols.j != "end": raise Unsupported("a line is produced before its columns are complete")
    got = pieces([line.value])
    X.shape(len(got) >= 1 and exact(got[0]) is tuple, "hexdump: the line starts with the prefix")
    X.check(eq_pieces(got[:1], [("fmt", prefix, "", "")]), "the line starts with the prefix")
    X.check(eq_pieces(got[1:2], [("fmt", offset + cut.i, "", "08x")]), "the offset of the line")
    rest = got[2:]
    X.shape(len(rest) in (4, 3) , "hexdump: two columns")
    # the hexadecimal column is at least 49 wide: any smaller minimum width adds nothing
    col = lambda p, t: exact(p) is Text and p is t or exact(p) is tuple and exact(p[1]) is Text and p[1] is t and not p[1].new and p[2] == "" and re.fullmatch("<?[0-4]?[0-9]?s?", p[3]) is not None
    X.check(rest[0] == "  " and col(rest[1], cols.hex) and rest[2] == "  " and col(rest[3], cols.txt), "the bytes of the line and their characters")
    X.call(lambda: next(out.value, None))


class Prefix(Sym):
    """an arbitrary prefix"""
    __slots__ = ()
    pytype = str
    @property
    def __class__(self): return str
    def __eq__(self, o): return self is o
    __hash__ = None


def native_hexdump(X, coloured):
    data = bytes(X.data("data")) * X.pick("times", (1, 1, 2, 3))
    offset, prefix = X.int("offset", 0, 1 << 36), X.pick("prefix", ("", "  ", "> "))
    pal = [(X.pick(f"run{i}", (0, 1, 2, 3, 8, 16, 17)), X.pick(f"color{i}", (U.COLOR_RED, U.COLOR_BG_BLUE, "\033[0m"))) for i in range(X.pick("entries", range(6)))] if coloured else None
    out = X.call(lambda: list(U._hexdump(data, pal, offset, prefix)))
    X.check(out.ok, "no error", outcome=out)
    got = [CODE.sub("", s) for s in out.value] if coloured else out.value
    X.check(got == [native_line(data, i, offset, prefix) for i in range(0, len(data), 16)], "the lines", got=got, data=data)


@proof("C19", "hexdump", ("string", "generator", "print", "other"))
def hexdump_forms(X, form):
    """Every output form gives exactly the lines, for the data, palette, offset and prefix given."""
    lines = [f"line {i}" for i in range(X.pick("lines", range(4)))]
    asked = []
    def spec(data, palette=None, offset=0, prefix=""):
        asked.append((data, palette, offset, prefix))
        return iter(lines)
    data, pal, off, pre = X.data("data"), X.pick("palette", (None, [(1, "")])), X.bigint("offset", 0), X.pick("prefix", ("", "> "))
    shown = []
    old, U._hexdump = U._hexdump, spec
    oldp = U.__dict__.get("print")
    U.print = lambda *a, sep=" ", end="\n": shown.append(sep.join(a) + end)
    try: out = X.call(U.hexdump, data, pal, off, pre, form)
    finally:
        U._hexdump = old
        if oldp is None: del U.print
        else: U.print = oldp
    if form == "other":
        X.check(out.raised(ValueError), "unknown forms are refused", outcome=out)
        return
    X.check(out.ok, "no error", outcome=out)
    if form == "print": X.check(out.value is None and "".join(shown) == "\n".join(lines) + "\n", "the lines are printed", got=shown)
    elif form == "generator": X.check(list(out.value) == lines, "the lines", got=out)
    else: X.check(out.value == "\n".join(lines), "the lines", got=out)
    X.check(len(asked) == 1 and asked[0][0] is data and asked[0][1] is pal and asked[0][2] is off and asked[0][3] is pre, "of the data given")


# ---------------------------------------------------------------------------------------------------- integer helpers

ENDS = {"little": True, "<": True, "big": False, ">": False, "!": False, "network": False, "@": sys.byteorder == "little", "=": sys.byteorder == "little"}
BITS = (1, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 48, 64, 65, 72, 128)


@proof("C19", "pack unpack", {f"{n} {e}": (n, e) for n in BITS for e in ENDS}, native=20)
def pack_bits(X, case):
    """For every integer: pack gives its two's complement in the requested order and size, or refuses a value that does not
    fit; unpack gives it back."""
    n, e = case
    k = (n + 7) // 8
    v = X.bigint("value")
    out = X.call(U.pack, v, n, e)
    if not X.truth(X.all([v >= -(1 << (8 * k - 1)), v < 1 << (8 * k)])):
        X.check(out.raised(OverflowError), "a value that does not fit is refused", outcome=out)
        return
    X.check(out.ok, "no error", outcome=out)
    b = list(out.value)
    X.check(len(b) == k, "the size", got=out)
    le = b if ENDS[e] else b[::-1]
    X.check(sum(x << (8 * i) for i, x in enumerate(le)) == v % (1 << (8 * k)), "two's complement in the order requested", got=out)
    back = X.call(U.unpack, out.value, n, e, X.truth(v < 0))
    X.check(back.ok and back.value == v, "unpack gives the value back", outcome=back)
    back = X.call(U.unpack, out.value, None, e, X.truth(v < 0))
    X.check(back.ok and back.value == v, "unpack without a size gives the value back", outcome=back)


@proof("C19", "unpack", {f"{n} {e}": (n, e) for n in BITS for e in ENDS}, native=20)
def unpack_bits(X, case):
    """For all bytes: unpack gives the number they encode in the requested order and sign; pack gives the bytes back; bytes of
    another length are refused."""
    n, e = case
    k = (n + 7) // 8
    data = X.bytes("data", k)
    sign = X.pick("sign", (False, True))
    le = list(data) if ENDS[e] else list(data)[::-1]
    want = sum(x << (8 * i) for i, x in enumerate(le))
    if sign and X.truth(want >= 1 << (8 * k - 1)): want = want - (1 << (8 * k))
    out = X.call(U.unpack, data, n, e, sign)
    X.check(out.ok and out.value == want, "the number the bytes encode", outcome=out)
    out = X.call(U.unpack, data, None, e, sign)
    X.check(out.ok and out.value == want, "the number the bytes encode (any length)", outcome=out)
    back = X.call(U.pack, out.value, n, e)
    X.check(back.ok and back.value == data, "pack gives the bytes back", outcome=back)
    other = X.bytes("other", X.pick("length", [x for x in (0, 1, k - 1, k + 1, 2 * k) if x != k]))
    out = X.call(U.unpack, other, n, e, sign)
    X.check(out.raised(ValueError), "bytes of another length are refused", outcome=out)


@proof("C19", "p8 p16 p32 p64 u8 u16 u32 u64", {f"{n} {e}": (n, e) for n in (8, 16, 32, 64) for e in ENDS}, native=20)
def fixed_width(X, case):
    """The fixed-width helpers are pack and unpack of their width, for every value and byte string; little endian by default."""
    n, e = case
    p, u = getattr(U, f"p{n}"), getattr(U, f"u{n}")
    k = n // 8
    v = X.bigint("value")
    fits = X.truth(X.all([v >= -(1 << (n - 1)), v < 1 << n]))
    for args in ((e,), ()):
        out = X.call(p, v, *args)
        if not fits:
            X.check(out.raised(OverflowError), "a value that does not fit is refused", outcome=out)
            continue
        little = ENDS[args[0]] if args else True
        le = list(out.value) if little else list(out.value)[::-1]
        X.check(len(le) == k and sum(x << (8 * i) for i, x in enumerate(le)) == v % (1 << n), "two's complement", outcome=out)
        back = X.call(u, out.value, *args, sign=X.truth(v < 0))
        X.check(back.ok and back.value == v, "the inverse", outcome=back)
        back = X.call(u, out.value, *args)
        X.check(back.ok and back.value == v % (1 << n), "unsigned by default", outcome=back)
    data = X.bytes("data", X.pick("length", (k - 1, k + 1)))
    X.check(X.call(u, data, e).raised(ValueError), "bytes of another length are refused")


@proof("C19", "swap swap16 swap32 swap64", {**{f"swap {n}": ("swap", n) for n in (8, 16, 24, 32, 40, 64, 72, 128)}, "swap16": ("swap16", 16), "swap32": ("swap32", 32), "swap64": ("swap64", 64)})
def swaps(X, case):
    """For every value of the width: swap reverses its bytes, and swapping twice is the identity; other values are refused."""
    f, n = case
    g = (lambda v: U.swap(v, n)) if f == "swap" else getattr(U, f)
    v = X.int("value", 0, (1 << n) - 1)
    out = X.call(g, v)
    X.check(out.ok, "no error", outcome=out)
    X.check(sum(((v >> (8 * i)) & 255) << (n - 8 - 8 * i) for i in range(n // 8)) == out.value, "the bytes are reversed", got=out)
    back = X.call(g, out.value)
    X.check(back.ok and back.value == v, "swapping twice is the identity", outcome=back)
    w = X.bigint("too big", 1 << n)
    X.check(X.call(g, w).raised(OverflowError), "a value that does not fit is refused")


@proof("C19", "pack", {f"{n} {e}": (n, e) for n in range(0, 18) for e in ("little", "big", "<", ">", "network")}, bounded="values of at most 136 bits")
def pack_auto(X, case):
    """Without a size: the shortest two's complement, which unpack gives back."""
    n, e = case
    neg = X.pick("negative", (False, True))
    if neg: v = X.int("value", -(1 << (8 * n - 1)), -1 - (1 << (8 * n - 9)) if n > 1 else -1) if n else -1
    else: v = X.int("value", 1 << (8 * n - 8) if n else 0, (1 << (8 * n)) - 1)
    if n == 0 and neg: return
    for size in (None, 0):
        out = X.call(U.pack, v, size, e)
        X.check(out.ok and len(out.value) == n, "the shortest length", outcome=out)
        back = X.call(U.unpack, out.value, None, e, neg)
        X.check(back.ok and back.value == v, "unpack gives the value back", outcome=back)


# ---------------------------------------------------------------------------------------------------------- dumpstruct

class Entries(Cut):
    """the fields: an arbitrary one, after any number of others"""
    optional = ("ci", "foreground", "background", "palette")

    def __init__(self, X, fields, obj, color, value):
        self.X, self.fields, self.obj, self.color, self.value, self.done = X, fields, obj, color, value, False

    def enter(self, L, it):
        ex = sym.EX
        ex.shape(it is self.fields, "dumpstruct: over the fields")
        lists = [n for n in L if exact(L[n]) is list]
        out = [n for n in lists if len(L[n]) == 1 and exact(L[n][0]) is str]
        ex.shape(len(out) == 1, "dumpstruct: lines are collected")
        (self.out,) = out
        ex.oblige(CODE.sub("", L[self.out][0]).strip(" :").split() == ["struct", type(self.obj).__name__], "the name of the structure comes first")
        pal = [n for n in lists if not L[n]]
        ex.shape(len(pal) <= 1, "dumpstruct: a palette is collected")
        self.pal = pal[0] if pal else None
        self.ints = [n for n in L if exact(L[n]) is int and L[n] == 0 and n != "offset"]

    def havoc(self, L):
        self.text = Text()
        self.lines = Ghost(fresh_int("fields", 1), lambda: self.text, "\n")
        h = {self.out: self.lines}
        if self.pal: h[self.pal] = self.palette = Ghost(fresh_int("palette", 0))
        for n in self.ints: h[n] = self.X.pick("colour", range(9)) if self.color else fresh_int(n, 0)
        return h

    def iter(self, it):
        if self.X.pick("field", ("some", "end")) == "end": return
        yield AField()

    def end(self, L):
        ex = sym.EX
        ex.shape(L[self.out] is self.lines, "dumpstruct: lines are collected")
        new = pieces(self.lines.new)
        ex.oblige(len(self.lines.new) == 1 and len(new) == 1 and exact(new[0]) is str, "one entry per field")
        name, sep, text = new[0].partition(": ")
        ex.oblige(name == "- fk" and sep and shows(text, self.value), "every field is listed with its value")
        if self.pal:
            ex.shape(L[self.pal] is self.palette, "dumpstruct: a palette is collected")
            for e in self.palette.new: ex.oblige(exact(e) is tuple and len(e) == 2 and exact(e[1]) is str and bool(e[1]) and CODE.sub("", e[1]) == "" and bool(e[0] >= 0), "the palette holds counts and colours")
        if not self.color: ex.oblige(no_codes(self.lines.new), "no colour codes without colour")


class AField:
    name = _name = "fk"
    def __getattr__(self, n): raise Unsupported(f"{n} of an arbitrary field")


def shows(text, v):
    """the text shows the value"""
    from ast import literal_eval as ev
    try:
        if isinstance(v, (bytes, str, list, float)): return ev(" ".join(text.split()) if exact(v) is list else text) == v
        if isinstance(v, U.Pointer): return text == repr(v)
        if isinstance(v, U.Enum): return text == repr(v)
        if isinstance(v, int): return int(text, 0) == v
    except (ValueError, SyntaxError): return False
    return text in (str(v), repr(v))


def dump_values():
    cs = cstruct(pointer="uint32")
    cs.load("enum E : uint8 { A = 1 }; flag F : uint8 { X = 1, Y = 2 }; struct N { uint8 a; char b[2]; }; union W { uint8 a; uint16 b; };")
    D = {"zero": cs.uint8(0), "int": cs.uint32(0xDEADBEEF), "negative": cs.int16(-5), "big": cs.uint128(1 << 100), "plain": 7, "bytes": cs.char[4](b"a\n\0'"),
         "char": cs.char(b"\xff"), "str": cs.wchar[2]("é\n"), "float": cs.double(-1.5), "enum": cs.E.A, "enum unknown": cs.E(9), "flag": cs.F(3), "flag none": cs.F(0),
         "pointer": cs._make_pointer(cs.uint8)(0x1234, None), "array": cs.uint16[3]([1, 2, 3]), "array empty": cs.uint16[0]([]), "array long": cs.uint32[60](list(range(1000000, 1000060))),
         "list": [1, 2], "struct": cs.N(a=1, b=b"xy"), "union": cs.W(b=258), "texts": cs.wchar[2][2](["ab", "c\n"]), "void": cs.void.read(b"")}
    return D


VALUES = dump_values()


@proof("C19", "_dumpstruct", {f"{v} {'colour' if c else 'plain'} {f}": (v, c, f) for v in VALUES for c in (False, True) for f in ("string", "print")}, native=4)
def dumpstruct_lines(X, case):
    """For any number of fields (values: one of every kind): the hex dump of exactly the data given, at its offset, then one
    entry per field in order, naming it and showing its value; colour adds only colour codes."""
    kind, color, form = case
    v = VALUES[kind]
    if not X.symbolic: return native_dumpstruct(X, v, color, form)
    obj = type("T", (), {"__fields__": AbsFields()})()
    obj.fk = v
    s = X.pick("sizes", ("known", "missing", "none"))
    if s != "none": obj._sizes = {"fk": fresh_int("size", 0)} if s == "known" else {}
    data, offset = X.data("data"), X.bigint("offset", 0)
    dump, shown, asked = Text(), [], []
    def spec(d, palette=None, offset=0, prefix="", output="print"):
        asked.append((d, offset, prefix))
        if output == "print":
            shown.extend([dump, "\n"])
            return None
        X.shape(output == "string", "dumpstruct: the hex dump as text")
        return dump
    cut = Entries(X, obj.__class__.__fields__, obj, color, v)
    X.loop("_dumpstruct:1", cut)
    old, U.hexdump = U.hexdump, spec
    U.print = lambda *a, sep=" ", end="\n": shown.extend([*a, end])
    try: out = X.call(U._dumpstruct, obj, data, offset, color, form)
    finally:
        U.hexdump = old
        del U.print
    # the colour of a field may be counted in ways the loop contract does not know
    X.shape(not (color and out.raised(IndexError)), "dumpstruct: the number of the colour has no bound")
    X.check(out.ok, "no error", outcome=out)
    X.check(len(asked) == 1 and asked[0][0] is data and asked[0][1] is offset and asked[0][2] == "", "a hex dump of exactly the bytes")
    if form == "print": X.check(out.value is None and eq_pieces(pieces(shown), ["\n", dump, "\n\n", cut.text, "\n"]), "the dump, then the fields")
    else: X.check(not shown and eq_pieces(pieces([out.value]), ["\n", dump, "\n\n", cut.text]), "the dump, then the fields")


def native_dumpstruct(X, v, color, form):
    import io, contextlib
    obj = type("T", (), {})()
    names = [f"f{i}" for i in range(X.pick("fields", range(10)))]
    type(obj).__fields__ = [type("F", (), {"_name": n, "name": n})() for n in names]
    for n in names: setattr(obj, n, v)
    s = X.pick("sizes", ("known", "missing", "none"))
    if s != "none": obj._sizes = {n: X.pick(f"size {n}", (0, 1, 4, 20)) for n in names if s == "known"}
    data, offset = bytes(X.data("data")), X.int("offset", 0, 1 << 36)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf): out = X.call(U._dumpstruct, obj, data, offset, color, form)
    X.check(out.ok, "no error", outcome=out)
    text = out.value if form == "string" else buf.getvalue()
    if form == "print": X.check(out.value is None and text[-1:] == "\n", "the dump, then the fields")
    text = CODE.sub("", text if form == "string" else text[:-1])
    head = "\n" + "\n".join(native_line(data, i, offset, "") for i in range(0, len(data), 16)) + "\n\n"
    X.check(text.startswith(head), "a hex dump of exactly the bytes", got=text)
    top, *items = text[len(head):].split("\n- ")
    X.check(top.strip(" :").split() == ["struct", "T"] and [i.partition(": ")[0] for i in items] == names and all(shows(i.partition(": ")[2], v) for i in items), "every field is listed with its value", got=text)


@proof("C19", "dumpstruct", {f"{a} {o}": (a, o) for a in ("instance", "class", "class only", "other class", "other") for o in ("print", "string", "generator")}, native=10)
def dumpstruct_forms(X, case):
    """An instance is dumped with exactly its bytes, a class with exactly the data given; anything else is refused."""
    how, form = case
    cs = cstruct().load("struct T { uint8 a; };")
    asked = []
    def spec(structure, data, offset, color, output):
        asked.append((structure, data, offset, color, output))
        return "the dump"
    data, off, color = b"\x07", X.bigint("offset", 0), X.pick("color", (False, True))
    inst, parsed = cs.T(a=5), []
    obj = {"instance": inst, "class": cs.T, "class only": cs.T, "other class": cs.uint8, "other": None}[how]
    args = (obj, data) if how in ("class", "other class") else (obj,)
    old, U._dumpstruct = U._dumpstruct, spec
    try: out = X.call(U.dumpstruct, *args, offset=off, color=color, output=form)
    finally: U._dumpstruct = old
    if form == "generator" or how not in ("instance", "class"):
        X.check(out.raised(ValueError) or how == "other" and out.raised(TypeError), "anything else is refused", outcome=out)
        return
    X.check(out.ok and out.value == "the dump", "the dump", outcome=out)
    X.check(len(asked) == 1, "one dump", got=len(asked))
    (s, d, o, c, f), = asked
    X.check(o is off and c is color and f == form, "in the form asked for")
    if how == "instance": X.check(s is inst and d == b"\x05", "of exactly its bytes", got=d)
    else: X.check(exact(s) is cs.T and s.a == data[0] and d is data, "of exactly the data given", got=d)
