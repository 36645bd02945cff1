"""Independent specification model of cstruct definitions.

Type descriptors, their C text, their layout, and decode/encode spec functions.  Written from the property
statements, not from the code.  All functions work both on concrete ints and on symbolic ints (pyv.sym.SInt):
byte strings are lists of byte items, ints are combined with the ordinary operators.
"""
from __future__ import annotations

import sys
from dataclasses import dataclass, field as dfield
from typing import Any, Optional

INT_TYPES = {  # name: (size, signed, alignment)
    "int8": (1, True, 1), "uint8": (1, False, 1),
    "int16": (2, True, 2), "uint16": (2, False, 2),
    "int24": (3, True, 4), "uint24": (3, False, 4),
    "int32": (4, True, 4), "uint32": (4, False, 4),
    "int48": (6, True, 8), "uint48": (6, False, 8),
    "int64": (8, True, 8), "uint64": (8, False, 8),
    "int128": (16, True, 16), "uint128": (16, False, 16),
}
FLOAT_TYPES = {"float16": 2, "float": 4, "double": 8}


class RefEOF(Exception):
    """The spec says: input ends before the last data-carrying byte."""


class RefAmbiguous(Exception):
    """The statement does not determine the result."""


class RefReject(Exception):
    """The spec says: this definition/value must be rejected."""


@dataclass
class TD:
    def size(self, m) -> Optional[int]: raise NotImplementedError
    def align(self, m) -> int: raise NotImplementedError


@dataclass
class Int(TD):
    name: str
    def size(self, m): return INT_TYPES[self.name][0]
    def align(self, m): return INT_TYPES[self.name][2]
    @property
    def signed(self): return INT_TYPES[self.name][1]


@dataclass
class Float(TD):
    name: str
    def size(self, m): return FLOAT_TYPES[self.name]
    def align(self, m): return FLOAT_TYPES[self.name]


@dataclass
class Char(TD):
    name: str = "char"
    def size(self, m): return 1
    def align(self, m): return 1


@dataclass
class WChar(TD):
    name: str = "wchar"
    def size(self, m): return 2
    def align(self, m): return 2


@dataclass
class Leb(TD):
    name: str  # uleb128 / ileb128
    def size(self, m): return None
    def align(self, m): return 1
    @property
    def signed(self): return self.name == "ileb128"


@dataclass
class Void(TD):
    name: str = "void"
    def size(self, m): return 0
    def align(self, m): return 1


@dataclass
class Enum(TD):
    name: str
    base: Int
    members: list  # [(name, value or None)]
    flag: bool = False
    def size(self, m): return self.base.size(m)
    def align(self, m): return self.base.align(m)
    def values(self):
        out, nxt = {}, 1 if self.flag else 0
        for k, v in self.members:
            v = nxt if v is None else v
            out[k] = v
            nxt = (1 << v.bit_length()) if self.flag else v + 1
        return out


@dataclass
class Ptr(TD):
    target: TD
    def size(self, m): return m.ptr.size(m)
    def align(self, m): return m.ptr.align(m)


@dataclass
class Arr(TD):
    elem: TD
    n: Any  # int | str expression | None (null terminated) | "EOF"
    def size(self, m):
        if isinstance(self.n, int):
            s = self.elem.size(m)
            return None if s is None else s * max(0, self.n)
        return None
    def align(self, m): return self.elem.align(m)


@dataclass
class F:
    name: Optional[str]
    type: TD
    bits: Optional[int] = None
    offset: Optional[int] = None  # manual offset


@dataclass
class Struct(TD):
    name: Optional[str]
    fields: list
    union: bool = False
    def align(self, m): return max([f.type.align(m) for f in self.fields], default=0) or 1
    def size(self, m):
        r = layout(self, m)
        return r[0]


LITTLE = {"<": True, ">": False, "!": False, "=": sys.byteorder == "little", "@": sys.byteorder == "little"}


@dataclass
class Mode:
    endian: str = "<"
    aligned: bool = False
    ptr: Int = dfield(default_factory=lambda: Int("uint64"))
    consts: dict = dfield(default_factory=dict)

    @property
    def little(self): return LITTLE[self.endian]


def up(x, a):
    """Next multiple of a."""
    return x + (-x) % a


def storage(t: TD) -> TD:
    return t.base if isinstance(t, Enum) else t


def layout(st: Struct, m: Mode):
    """-> (size or None, alignment, [(offset or None, bit_offset or None)])  static layout, C rules."""
    al = st.align(m)
    if st.union:
        size = 0
        for f in st.fields:
            s = f.type.size(m)
            if s is None or size is None:
                size = None
            else:
                size = max(size, s + (f.offset or 0))
        if m.aligned and size is not None:
            size = up(size, al)
        return size, al, [(f.offset or 0, None) for f in st.fields]
    pos, out = 0, []
    unit = None  # (storage name, unit offset, used bits)
    for f in st.fields:
        if f.bits:
            s = storage(f.type)
            key, width = s.name, s.size(m) * 8
            if f.bits > width:
                raise RefReject("bit-field wider than its unit")
            if unit is None or unit[0] != key or unit[2] == width:
                if pos is not None and m.aligned:
                    pos = up(pos, f.type.align(m))
                unit = [key, pos, 0]
                if pos is not None:
                    pos += s.size(m)
            if unit[2] + f.bits > width:
                raise RefReject("straddle")
            out.append((unit[1], unit[2]))
            unit[2] += f.bits
            continue
        unit = None
        if f.offset is not None:
            pos = f.offset
        if pos is not None and m.aligned:
            pos = up(pos, f.type.align(m))
        out.append((pos, None))
        s = f.type.size(m)
        pos = None if pos is None or s is None else pos + s
    if pos is not None and m.aligned:
        pos = up(pos, al)
    return pos, al, out


# --------------------------------------------------------------------------------------------- spec functions

def dec_uint(items, little):
    r = 0
    seq = items if little else list(reversed(items))
    for i, b in enumerate(seq):
        r = r + (b << (8 * i))
    return r


def dec_int(items, little, signed):
    u = dec_uint(items, little)
    if signed and items:
        w = 8 * len(items)
        u = u - ((u >> (w - 1)) << w)
    return u


def enc_uint(u, n, little):
    out = [(u >> (8 * i)) & 0xFF for i in range(n)]
    return out if little else out[::-1]


class Env:
    """Pluggable primitives so that the same spec runs concretely and symbolically."""
    def concretize(self, v): return int(v)
    def truth(self, v): return bool(v)


def read(t: TD, data: list, pos: int, m: Mode, ctx: dict | None = None, env: Env = Env(), info=None):
    """Decode t at data[pos:].  -> (value, newpos).  Raises RefEOF when a data byte is missing."""
    if isinstance(t, Enum):
        return read(t.base, data, pos, m, ctx, env)
    if isinstance(t, Ptr):
        return read(m.ptr, data, pos, m, ctx, env)
    if isinstance(t, Int):
        n = t.size(m)
        return dec_int(take(data, pos, n), m.little, t.signed), pos + n
    if isinstance(t, Float):
        n = t.size(m)
        return ("f", n, dec_uint(take(data, pos, n), m.little)), pos + n
    if isinstance(t, Char):
        return ("c", take(data, pos, 1)), pos + 1
    if isinstance(t, WChar):
        return ("w", [dec_uint(take(data, pos, 2), m.little)]), pos + 2
    if isinstance(t, Void):
        return None, pos
    if isinstance(t, Leb):
        r, sh = 0, 0
        while True:
            b = take(data, pos, 1)[0]
            pos += 1
            r = r | ((b & 0x7F) << sh)
            sh += 7
            if env.truth((b & 0x80) == 0):
                break
        if t.signed and env.truth((b & 0x40) != 0):
            r = r - (1 << sh)
        return r, pos
    if isinstance(t, Arr):
        return read_arr(t, data, pos, m, ctx, env)
    if isinstance(t, Struct):
        return read_struct(t, data, pos, m, ctx, env, info)
    raise TypeError(t)


def take(data, pos, n):
    if pos + n > len(data):
        raise RefEOF()
    return list(data[pos:pos + n])


def is_zero(v, env):
    if v is None:
        return True
    if isinstance(v, tuple):
        if v[0] == "f":
            n = v[1] * 8
            return env.truth((v[2] & ((1 << (n - 1)) - 1)) == 0)
        return all(env.truth(x == 0) for x in v[1])
    if isinstance(v, list):
        return len(v) == 0
    if isinstance(v, dict):
        return all(is_zero_field(x, env) for x in v.values())
    return env.truth(v == 0)


def is_zero_field(v, env):
    # an array field is falsy when empty
    return is_zero(v, env)


def fixed_len(t, ctx, m, env):
    if isinstance(t.n, int):
        return max(0, t.n)
    from pyv.refexpr import evaluate
    return max(0, env.concretize(evaluate(t.n, {**m.consts, **{k: v for k, v in (ctx or {}).items()}}, lambda n: Int(n).size(m))))


def read_arr(t: Arr, data, pos, m, ctx, env):
    e = t.elem
    if t.n is None:
        out = []
        while True:
            v, pos = read(e, data, pos, m, ctx, env)
            if zero_elem(v, e, env):
                break
            out.append(v)
        return join(e, out), pos
    if t.n == "EOF":
        out = []
        es = e.size(m)
        while pos < len(data):
            if es == 0:
                raise RefAmbiguous()
            try:
                v, p2 = read(e, data, pos, m, ctx, env)
            except RefEOF:
                if has_wchar(e) and any(isinstance(b, int) and 0xD8 <= b <= 0xDF for b in data[pos:]):
                    raise RefAmbiguous()  # possibly undecodable characters in an element that is not whole
                break  # only whole elements
            if p2 > len(data):
                raise RefAmbiguous()  # all data of the element is there, its tail padding is not
            if p2 == pos:
                raise RefAmbiguous()  # infinitely many empty elements
            out.append(v)
            pos = p2
        return join(e, out), pos
    n = fixed_len(t, ctx, m, env)
    out = []
    for _ in range(n):
        v, pos = read(e, data, pos, m, ctx, env)
        out.append(v)
    return join(e, out), pos


def has_wchar(t):
    if isinstance(t, Arr): return has_wchar(t.elem)
    if isinstance(t, Struct): return any(has_wchar(f.type) for f in t.fields)
    return isinstance(t, WChar)


def zero_elem(v, e, env):
    if isinstance(e, (Char, WChar)):
        return env.truth(v[1][0] == 0)
    return is_zero(v, env)


def join(e, vals):
    if isinstance(e, Char):
        return ("c", [x for v in vals for x in v[1]])
    if isinstance(e, WChar):
        return ("w", [x for v in vals for x in v[1]])
    return vals


def fkey(i, f):
    return f.name if f.name is not None else f"#{i}"


def read_struct(st: Struct, data, pos, m, ctx, env, info=None):
    start = pos
    if st.union:
        size, al, _ = layout(st, m)
        if size is None:
            raise RefReject("dynamic union")
        buf = list(data[pos:pos + size])  # a missing member byte raises below; padding bytes need not be there
        out = {}
        for i, f in enumerate(st.fields):
            out[fkey(i, f)], _ = read(f.type, buf, f.offset or 0, m, out, env)
        if len(buf) < size:
            raise RefAmbiguous()
        return out, start + size
    out, sizes = {}, {}
    unit = None  # [key, value, used, width]
    for i, f in enumerate(st.fields):
        if f.bits:
            s = storage(f.type)
            width = s.size(m) * 8
            if unit is None or unit[0] != s.name or unit[2] == width:
                if m.aligned:
                    pos = start + up(pos - start, f.type.align(m))
                raw = dec_uint(take(data, pos, s.size(m)), m.little)
                pos += s.size(m)
                unit = [s.name, raw, 0, width]
            if unit[2] + f.bits > width:
                raise RefReject("straddle")
            sh = unit[2] if m.little else width - unit[2] - f.bits
            out[fkey(i, f)] = (unit[1] >> sh) & ((1 << f.bits) - 1)
            unit[2] += f.bits
            continue
        unit = None
        if f.offset is not None:
            pos = start + f.offset
        if m.aligned:
            pos = start + up(pos - start, f.type.align(m))
        p0 = pos
        v, pos = read(f.type, data, pos, m, out, env)
        out[fkey(i, f)] = v
        sizes[fkey(i, f)] = pos - p0
    if info is not None:
        info["sizes"] = sizes
    if m.aligned:
        pos = start + up(pos - start, st.align(m))
    return out, pos


# ---------------------------------------------------------------- encode; None items are padding (written as zero)

def write(t: TD, v, m: Mode, env: Env = Env()):
    """-> list of (byte item, data mask) pairs; mask 0 means padding."""
    if isinstance(t, Enum):
        return write(t.base, v, m, env)
    if isinstance(t, Ptr):
        return write(m.ptr, v, m, env)
    if isinstance(t, Int):
        n = t.size(m)
        return [(b, 0xFF) for b in enc_uint(v, n, m.little)]
    if isinstance(t, Float):
        return [(b, 0xFF) for b in enc_uint(v[2], v[1], m.little)]
    if isinstance(t, Char):
        return [(b, 0xFF) for b in v[1]]
    if isinstance(t, WChar):
        return [(b, 0xFF) for u in v[1] for b in enc_uint(u, 2, m.little)]
    if isinstance(t, Void):
        return []
    if isinstance(t, Leb):
        out = []
        while True:
            b, v = v & 0x7F, v >> 7
            if t.signed:
                last = env.truth(v == 0) and env.truth((b & 0x40) == 0) or env.truth(v == -1) and env.truth((b & 0x40) != 0)
            else:
                last = env.truth(v == 0)
            if last:
                out.append((b, 0xFF))
                return out
            out.append((b | 0x80, 0xFF))
    if isinstance(t, Arr):
        e = t.elem
        if isinstance(e, (Char, WChar)):
            out = write(e, v, m, env)
            if t.n is None:
                out = out + [(0, 0xFF)] * e.size(m)
            return out
        out = []
        for x in v:
            out += write(e, x, m, env)
        if t.n is None:
            out += write(e, zero(e, m), m, env)
        return out
    if isinstance(t, Struct):
        return write_struct(t, v, m, env)
    raise TypeError(t)


def zero(t: TD, m: Mode):
    if isinstance(t, (Int, Leb, Enum, Ptr)):
        return 0
    if isinstance(t, Float):
        return ("f", t.size(m), 0)
    if isinstance(t, Char):
        return ("c", [0])
    if isinstance(t, WChar):
        return ("w", [0])
    if isinstance(t, Void):
        return None
    if isinstance(t, Arr):
        n = t.n if isinstance(t.n, int) else 0
        return join(t.elem, [zero(t.elem, m) for _ in range(max(0, n))])
    if isinstance(t, Struct):
        return {fkey(i, f): 0 if f.bits else zero(f.type, m) for i, f in enumerate(t.fields)}
    raise TypeError(t)


def write_struct(st: Struct, v, m, env):
    if st.union:
        size, _, _ = layout(st, m)
        out = [(0, 0)] * size
        for i, f in enumerate(st.fields):
            for j, (b, k) in enumerate(write(f.type, v[fkey(i, f)], m, env)):
                j += f.offset or 0
                if k:
                    out[j] = (b | out[j][0], k | out[j][1])  # members agree wherever both carry data
        return out
    out = []
    unit = None  # [key, value, used, width, mask, n]
    def pad(a):
        out.extend([(0, 0)] * (up(len(out), a) - len(out)))
    def flush():
        nonlocal unit
        if unit:
            bs = enc_uint(unit[1], unit[5], m.little)
            ms = enc_uint(unit[4], unit[5], m.little)
            out.extend(zip(bs, ms))
        unit = None
    for i, f in enumerate(st.fields):
        x = v[fkey(i, f)]
        if f.bits:
            s = storage(f.type)
            width = s.size(m) * 8
            if unit is None or unit[0] != s.name or unit[2] == width:
                flush()
                if m.aligned:
                    pad(f.type.align(m))
                unit = [s.name, 0, 0, width, 0, s.size(m)]
            sh = unit[2] if m.little else width - unit[2] - f.bits
            unit[1] = unit[1] | (x << sh)
            unit[4] |= ((1 << f.bits) - 1) << sh
            unit[2] += f.bits
            continue
        flush()
        if f.offset is not None:
            out.extend([(0, 0)] * (f.offset - len(out)))
        if m.aligned:
            pad(f.type.align(m))
        out.extend(write(f.type, x, m, env))
    flush()
    if m.aligned:
        pad(st.align(m))
    return out


# ------------------------------------------------------------------------------------------------ C text

def ctext(t: TD, m: Mode, decls: list, seen: dict) -> None:
    """Append declarations needed for t."""
    if isinstance(t, Enum):
        if t.name not in seen:
            seen[t.name] = t
            vals = ", ".join(k if v is None else f"{k} = {v}" for k, v in t.members)
            decls.append(f"{'flag' if t.flag else 'enum'} {t.name} : {t.base.name} {{ {vals} }};")
    elif isinstance(t, (Ptr,)):
        ctext(t.target, m, decls, seen)
    elif isinstance(t, Arr):
        ctext(t.elem, m, decls, seen)
    elif isinstance(t, Struct):
        if t.name and t.name in seen:
            return
        for f in t.fields:
            ctext(f.type, m, decls, seen)
        if t.name:
            seen[t.name] = t
            decls.append(f"{'union' if t.union else 'struct'} {t.name} {{\n{body(t)}}};")


def body(st: Struct) -> str:
    return "".join(f"    {decl(f)}\n" for f in st.fields)


def decl(f: F) -> str:
    t, dims, stars = f.type, "", ""
    while isinstance(t, Arr):
        dims += f"[{'' if t.n is None else t.n}]"
        t = t.elem
    while isinstance(t, Ptr):
        stars += "*"
        t = t.target
    if isinstance(t, Struct) and not t.name:
        inner = "".join(f"        {decl(x)}\n" for x in t.fields)
        head = f"{'union' if t.union else 'struct'} {{\n{inner}    }}"
    else:
        head = t.name
    if f.name is None:
        return f"{head};"
    b = f" : {f.bits}" if f.bits else ""
    return f"{head} {stars}{f.name}{b}{dims};"


def source(st: Struct, m: Mode) -> str:
    decls: list = []
    ctext(st, m, decls, {})
    return "\n".join(decls)
