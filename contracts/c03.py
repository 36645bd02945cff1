from contracts.common import *


def observe(X, cls, data, st, pos=0):
    s = io.BytesIO(data)
    s.seek(pos)
    p = X.call(cls.read, s)
    if not p.ok: return p, None, None, None
    return p, real.norm(p.value, st), sizes_of(p.value), s.tell()


def layout_of(cls):
    return (cls.size, cls.alignment, cls.dynamic, [(f._name, f.offset, f.bits, f.alignment) for f in cls.__fields__])


def kinds(v):
    """class names of the field values (integers of bit-fields count as integers)"""
    return [type(getattr(v, f._name)).__name__ for f in v.__class__.__fields__ if not (f.bits and not hasattr(f.type, "__members__"))]


def clean(sizes):
    return {k: v for k, v in sizes.items() if v}


@contract("C03", gen_struct(), 4000, 60000, cap=20)
def equivalence(X, c):
    """Compiled and interpreted readers agree on values, recorded sizes, consumed bytes and layout; on truncated input
    neither returns a value that contradicts the other."""
    ci = load(X, c, compiled=False)
    cc = load(X, c, compiled=True)
    st = c.st
    X.check(layout_of(ci.T) == layout_of(cc.T), "same layout", got=layout_of(cc.T), expected=layout_of(ci.T))
    data = X.bytes("data", X.pick("len", lens(c, (4, 12, 40, 160))))
    start = X.pick("start", (0, 0, 16, 3, 1, 32))
    data = b"\x5a" * start + data
    i, iv, isz, ie = observe(X, ci.T, data, st, start)
    k, kv, ksz, ke = observe(X, cc.T, data, st, start)
    X.check(i.ok == k.ok, "both readers accept or both reject", interpreted=i, compiled=k)
    if i.ok:
        X.check(iv == kv, "equal field values", got=kv, expected=iv)
        X.check(clean(isz) == clean(ksz), "equal recorded sizes", got=ksz, expected=isz)
        X.check(ie == ke, "same number of consumed bytes", got=ke, expected=ie)
        X.check(kinds(i.value) == kinds(k.value),
                "field values have the same types", got=k.value, expected=i.value)
        di, dk = X.call(i.value.dumps), X.call(k.value.dumps)
        X.check(di.ok == dk.ok and di.value == dk.value, "both values dump alike", got=dk, expected=di)
        cuts = [X.pick(f"cut{j}", range(start, min(ie, len(data)) + 1)) for j in range(4)]
        for cut in cuts:
            i2, iv2, _, ie2 = observe(X, ci.T, data[:cut], st, start)
            k2, kv2, _, ke2 = observe(X, cc.T, data[:cut], st, start)
            if i2.ok and k2.ok:
                X.check(iv2 == kv2, "equal values on truncated input", cut=cut, got=kv2, expected=iv2)
            elif i2.ok or k2.ok:
                v = iv2 if i2.ok else kv2
                if has(st, is_eof): continue
                X.check(v == iv, "a value returned for truncated input is not contradicted", cut=cut, got=v, expected=iv, interpreted=i2, compiled=k2)
    elif not (isinstance(i.exc, UnicodeError) or isinstance(k.exc, UnicodeError)):  # undecodable text in an input that is too short as well: either is right
        X.check(isinstance(i.exc, EOFError) == isinstance(k.exc, EOFError), "both fail the same way", interpreted=i, compiled=k)


def gen_anywhere(rng):
    c = struct_case(rng, offsets=False)
    c.anywhere = True
    if not c.st.union:
        for p, f in zip([None, *c.st.fields], c.st.fields):
            # a bit-field after another may continue its unit: the offset of a unit is that of its first field
            if not (f.bits and p and p.bits) and rng.random() < .4: f.offset = rng.choice((0, 1, 2, 3, 4, 5, 6, 8, 8, 12, 16, 24, 24, 32))
    return c


@contract("C03", gen_anywhere, 1500, 20000, cap=20)
def offsets_anywhere(X, c):
    """Fields placed at any offsets, in any order, with gaps, overlapping, behind members of a dynamic size, and bit-field units likewise: both readers agree."""
    equivalence(X, c)


def gen_fallback(rng):
    c = struct_case(rng, offsets=False)
    c.where = rng.randrange(len(c.st.fields) + 1)
    c.as_array = rng.random() < .3
    return c


class CustomType(T.BaseType):
    @classmethod
    def _read(cls, stream, context=None):
        data = stream.read(2)
        if len(data) != 2: raise EOFError
        return type.__call__(cls)

    @classmethod
    def _write(cls, stream, data):
        return stream.write(b"\0\0")


@contract("C03", gen_fallback, 400, 4000)
def fallback(X, c):
    """A structure the source generator cannot handle falls back to the interpreted reader instead of failing."""
    src = R.source(c.st, c.mode)
    head, _, tail = src.rpartition("struct T {\n")
    lines = tail.split("\n")
    depth, at, n = 0, [0], 0
    for j, l in enumerate(lines):
        depth += l.count("{") - l.count("}")
        if depth == 0 and l.strip() and j + 1 < len(lines): at.append(j + 1)
    at = [a for a in at if a < len(lines) - 0 and not lines[a - 1].startswith("}")]
    eof = has(c.st, is_eof)
    w = at[0] if eof else at[min(c.where, len(at) - 1)]
    lines.insert(w, "    custom_t zz;" if not c.as_array else "    custom_t zz[2];")
    src = head + "struct T {\n" + "\n".join(lines)
    m = c.mode
    def mk(compiled):
        cs = cstruct(endian=m.endian, pointer=m.ptr.name)
        cs.add_custom_type("custom_t", CustomType, 2, 2)
        cs.load(src, compiled=compiled, align=m.aligned)
        return cs
    i, k = X.call(mk, False), X.call(mk, True)
    # the inserted member may end a full unit early: what follows then straddles
    if i.raised(ValueError) and k.raised(ValueError) and "traddle" in str(i.exc): raise Skip()
    X.check(i.ok and k.ok, "an unsupported type falls back to the interpreted reader", interpreted=i, compiled=k, src=src)
    data = X.bytes("data", 120)
    def look(cs):
        s = io.BytesIO(data)
        v = cs.T.read(s)
        return {f._name: (real.norm(getattr(v, f._name), spec_t(c, f._name)) if f._name != "zz" else None) for f in cs.T.__fields__}, sizes_of(v), s.tell()
    a, b = X.call(look, i.value), X.call(look, k.value)
    X.check(a.ok == b.ok and a.value == b.value, "same result as the interpreted reader", got=b, expected=a)


def spec_t(c, name):
    named = {f.name: f for f in c.st.fields if f.name}
    if name in named:
        return bits_t(named[name])
    return next(f.type for f in c.st.fields if f.name is None and f"__anonymous" in name)


def bits_t(f):
    return f.type


def gen_mixed(rng):
    g = Gen(rng, maxdepth=1, maxfields=4)
    m = mode(rng)
    inner, outer = g.struct(depth=1, name="In"), g.struct(depth=1, name="Mid")
    k = rng.randint(0, len(outer.fields))
    return Case(_inner=inner, _outer=outer, inner=R.source(inner, m), outer=R.source(outer, m), at=k, arr=rng.choice(("", "[2]", "")), mode=m, al=(rng.random() < .5, rng.random() < .5), comp=rng.random() < .5)


@contract("C03", gen_mixed, 1200, 12000, cap=20)
def mixed_modes(X, c):
    """Packed structures inside aligned ones and the other way around, and compiled inside interpreted ones."""
    m = c.mode
    def mk(compiled):
        cs = cstruct(endian=m.endian, pointer=m.ptr.name)
        cs.load(c.inner, compiled=compiled, align=c.al[0])
        known = [t for t in R_decls(c._outer, m) if t not in R_decls(c._inner, m)]
        fields = R.body(c._outer).split("\n    ")
        text = "\n".join(known[:-1]) + "\nstruct T {\n    uint8 first;\n    In x" + c.arr + ";\n" + R.body(c._outer) + "};"
        if any(is_eof(f.type) for f in c._inner.fields): raise Skip()
        cs.load(text, compiled=compiled, align=c.al[1])
        return cs
    i, k = X.call(mk, False), X.call(mk, True)
    X.check(i.ok and k.ok, "both load", interpreted=i, compiled=k)
    X.check(layout_of(i.value.T) == layout_of(k.value.T), "same layout", got=layout_of(k.value.T), expected=layout_of(i.value.T))
    data = X.bytes("data", X.pick("len", (30, 120)))
    start = X.pick("start", (0, 1, 16))
    def look(cs):
        s = io.BytesIO(b"\x11" * start + data)
        s.seek(start)
        v = cs.T.read(s)
        from contracts.c14 import snapshot
        from contracts.c13 import plain
        return plain(v), clean(sizes_of(v)), s.tell(), v.dumps()
    a, b = X.call(look, i.value), X.call(look, k.value)
    X.check(a.ok == b.ok and (not a.ok or a.value == b.value), "same result as the interpreted reader", got=b, expected=a)
    t = i.value.T
    if a.ok and t.size is not None:
        X.check(a.value[2] == start + t.size == start + len(a.value[3]), "bytes read and written are the declared size", got=(a.value[2] - start, len(a.value[3])), expected=t.size)


def R_decls(st, m):
    d = []
    R.ctext(st, m, d, {})
    return d


from contracts import c16 as _c16  # noqa: E402


@contract("C03", _c16.gen_context, 500, 5000)
def dereferenced(X, c):
    """Pointers read by a compiled reader lead to the same values as those of the interpreted one: targets whose length depends on
    earlier fields, pointers in arrays, pointers to pointers."""
    src = "enum E : uint16 { A, B }; #define m 2\ntypedef " + c.elem + f" arr[{c.k}]; struct t {{ uint8 n; {c.decl} uint8 m; }};"
    data = bytearray(X.bytes("data", 160))
    if X.pick("small n", (0, 1, 1, 1)): data[0] %= 6
    start = X.pick("start", (0, 0, 16))
    low = X.pick("addresses", (0, 1, 2))
    out = []
    for compiled in (False, True):
        cs = cstruct(endian=c.endian, pointer=c.w)
        o = X.call(cs.load, src, compiled=compiled, align=c.aligned)
        X.check(o.ok, "loads", outcome=o)
        w = cs.pointer.size
        d = bytearray(data)
        if low:  # addresses inside the data
            f = cs.t.__fields__[-2]
            for p in range(1, 100):
                if w > 1 and (p % w != 1 % w) ^ bool(c.aligned): d[p] = d[p] if low == 2 and p % 7 == 0 else 0
        s = io.BytesIO(b"\x21" * start + bytes(d))
        s.seek(start)
        t = X.call(cs.t.read, s)
        if not t.ok:
            out.append(type(t.exc).__name__)
            continue
        end = s.tell()
        flat = lambda x: [z for y in x for z in flat(y)] if isinstance(x, list) else [x]
        ints = lambda x: [ints(y) for y in x] if isinstance(x, list) else int(x) if isinstance(x, int) else x
        res = []
        for p in flat(t.value.p):
            for _ in range(2 if "**" in c.decl else 1):
                v = X.call(p.dereference)
                res.append((type(v.exc).__name__ if not v.ok else ints(v.value)))
                X.check(s.tell() == end, "dereferencing does not move the stream")
                if not v.ok: break
                p = v.value
        out.append((end, [int(p) for p in flat(t.value.p)], res))
    X.check(out[0] == out[1], "compiled and interpreted pointers lead to the same values", got=out[1], expected=out[0])
