import operator
from contracts.common import *
from contracts.c14 import snapshot

WIDTHS = ["uint8", "uint16", "uint24", "uint32", "uint48", "uint64", "uint128"]


def gen_ptr(rng):
    w = rng.choice(["uint8", "uint16", "uint32", "uint64"] if rng.random() < .85 else WIDTHS)
    m = R.Mode(rng.choice("<>") if rng.random() < .9 else rng.choice("!=@"), rng.random() < .5, R.Int(w))
    g = Gen(rng, maxfields=3, maxdepth=2, eof=False)
    def target():
        k = rng.random()
        if k < .25: return g.int()
        if k < .4: return R.Char()
        if k < .5: return R.WChar()
        if k < .6: return g.enum()
        if k < .65: return R.Float(rng.choice(["float16", "float", "double"]))
        if k < .7: return R.Leb(rng.choice(["uleb128", "ileb128"]))
        return g.struct(depth=1, union=rng.random() < .2)
    t = target()
    depth = 1 if rng.random() < .7 else rng.randint(2, 3)
    p = t
    for _ in range(depth): p = R.Ptr(p)
    fs = [R.F("h", g.int())]
    shape = rng.random()
    if shape < .6: fs.append(R.F("p", p))
    elif shape < .75: fs.append(R.F("p", R.Arr(p, rng.randint(1, 3))))
    elif shape < .85: fs.append(R.F("p", R.Struct("In", [R.F("x", R.Int("uint8")), R.F("q", p)])))
    else: fs.append(R.F("p", R.Struct("Un", [R.F("q", p), R.F("x", R.Arr(R.Int("uint8"), rng.randint(1, 9)))], True)))
    fs.append(R.F("t", g.int()))
    if rng.random() < .3: fs.insert(0, R.F("n", R.Arr(R.Char(), None)))
    return Case(st=R.Struct("T", fs), mode=m, compiled=rng.random() < .5, _target=p.target, _ptr=p, shape=shape, rewrite=rng.random() < .5)


def pointer_of(v, c):
    if c.shape < .6: return v.p
    if c.shape < .75: return v.p[-1]
    return v.p.q


def norm_at(X, t, data, pos, m):
    """what parsing the target at an absolute offset gives: ('ok', value) or ('eof',)"""
    if isinstance(t, R.Char): t = R.Arr(R.Char(), None)
    r = ref_read(X, t, list(data), pos, m)
    if r is None: return ("eof",)
    return ("ok", r[0])


def check_deref(X, p, c, data, s, target):
    """dereferencing p on stream s with the given contents"""
    m = c.mode
    for again in range(2):
        pos = X.pick("pos", range(0, len(data) + 1, 7))
        s.seek(pos)
        o = X.call(p.dereference)
        X.check(s.tell() == pos, "dereferencing does not move the stream", got=s.tell(), expected=pos, outcome=o)
        if int(p) == 0:
            X.check(o.raised(NullPointerDereference), "a null pointer raises the dedicated error", outcome=o)
            X.check(s.tell() == pos, "dereferencing does not move the stream", got=s.tell(), expected=pos)
            return None
        if int(p) > len(data) + 64: addr = len(data)
        else: addr = int(p)
        if m.aligned and addr % target.align(m):
            # a misaligned start: what the type itself reads there
            b = io.BytesIO(data); b.seek(addr)
            e = X.call(type(p).type.read, b)
            exp = ("ok", norm_target(e.value, target)) if e.ok else ("eof",)
        else:
            exp = norm_at(X, target, data, addr, m)
        if int(p) >= 1 << 63:
            X.check(not o.ok or exp[0] == "ok", "an address beyond the stream cannot be read", outcome=o)
            continue
        if exp[0] == "eof":
            X.check(o.raised(EOFError, UnicodeDecodeError), "reading beyond the stream is an end-of-file error", outcome=o, address=addr)
            continue
        if bad_utf16(exp[1]): return None
        X.check(o.ok, "dereferencing succeeds", outcome=o, address=addr, expected=exp[1])
        got = norm_target(o.value, target)
        X.check(got == exp[1] or has_nan(exp[1]), "dereferencing gives what parsing the target at that offset gives", address=addr, got=got, expected=exp[1])
        if not again:
            first = snapshot(o.value), o.value
            if c.rewrite and hasattr(s, "getbuffer"):
                # the stream changes underneath: what was dereferenced stays
                s.getbuffer()[:] = bytes(255 - b for b in data)
        else: 
            if c.rewrite and hasattr(s, "getbuffer"): s.getbuffer()[:] = data
            X.check(has_nan(exp[1]) or first[0] == snapshot(o.value), "dereferencing is stable", got=o.value, expected=first[1])
    return o.value if o.ok else None


def norm_target(v, t):
    if isinstance(t, R.Char): return ("c", list(bytes(v)))
    return real.norm(v, t)


@contract("C16", gen_ptr, 5000, 70000)
def dereference(X, c):
    """Value, width, dereference in place, null pointers, arithmetic and dumping, at any position of a stream."""
    cs = load(X, c)
    m, st = c.mode, c.st
    base = X.pick("base", (0, 0, 0, 16, 64))
    data = bytearray(X.bytes("data", 140))
    if X.pick("text", (0, 1)): data[60:90] = b"hello\0wor\0\0\0" + bytes(18)
    w = m.ptr.size(m)
    spec = ref_read(X, st, list(data), base, m)
    X.assume(spec is not None and not has_nan(spec[0]))
    # put an interesting address into the pointer
    addr = X.pick("addr", (0, 1, 3, 64, 66, 70, 100, 128, 135, 139, 140, 150, (1 << (8 * w)) - 1, None, None))
    vtag = None
    if addr is not None:
        addr &= (1 << (8 * w)) - 1
        def put(t, v):
            if isinstance(t, R.Ptr): return addr
            if isinstance(t, R.Arr) and isinstance(t.elem, R.Ptr): return v[:-1] + [addr]
            if isinstance(t, R.Struct) and t.union:
                b = R.enc_uint(addr, w, m.little); xs = (b + v["x"][len(b):])[:len(v["x"])]
                return {"q": addr, "x": xs}
            return {**v, "q": addr}
        pf = next(f for f in st.fields if f.name == "p")
        spec[0]["p"] = put(pf.type, spec[0]["p"])
        for j, (b, k) in enumerate(R.write(st, spec[0], m)):
            if k: data[base + j] = data[base + j] & ~k | b & k
    data = bytes(data)
    spec = ref_read(X, st, list(data), base, m)
    X.assume(spec is not None and not bad_utf16(spec[0]) and not has_nan(spec[0]))
    s = io.BytesIO(data)
    s.seek(base)
    o = X.call(cs.T.read, s)
    X.check(o.ok, "parsing succeeds", outcome=o)
    X.check(s.tell() == spec[1], "a pointer field occupies exactly the configured width", got=s.tell(), expected=spec[1])
    X.check(real.norm(o.value, st) == spec[0], "a pointer's integer value is the unsigned integer stored there", got=lambda: real.norm(o.value, st), expected=spec[0])
    v = o.value
    p = pointer_of(v, c)
    X.check(isinstance(p, T.Pointer) and type(p).type is not None and type(p).size == w, "a pointer field is a pointer of the configured width", got=type(p))
    d = X.call(v.dumps)
    exp = R.write(st, spec[0], m)
    X.check(d.ok and len(d.value) == len(exp) and all(x & k == b & k for x, (b, k) in zip(d.value, exp)), "dumping writes the address back", got=d, expected=bytes(b for b, _ in exp))
    val = check_deref(X, p, c, data, s, c._target)
    if val is not None and isinstance(c._target, R.Struct) and not has(c._target, lambda t: isinstance(t, R.Float)):
        f = X.pick("f", c._target.fields)
        if f.name:
            a = X.call(getattr, p, f.name)
            X.check(a.ok and snapshot(a.value) == snapshot(getattr(val, f.name)), "attributes of a pointer are those of its target", field=f.name, got=a)
    if val is not None and isinstance(c._target, R.Ptr):
        X.check(isinstance(val, T.Pointer), "a pointer to a pointer gives a pointer")
        check_deref(X, val, c, data, s, c._target.target)
    # arithmetic
    op = X.pick("op", ("add", "sub", "mul", "floordiv", "mod", "and_", "or_", "xor", "lshift", "rshift", "pow"))
    n = X.pick("n", (0, 1, 2, 4, 7)) if op not in ("floordiv", "mod") else X.pick("n", (1, 2, 3))
    if op == "pow": n = min(n, 2)
    f = getattr(operator, op)
    q = X.call(f, p, n)
    X.check(q.ok and type(q.value) is type(p) and int(q.value) == f(int(p), n), "pointer arithmetic gives a pointer of the same type", op=op, n=n, got=q, expected=f(int(p), n))
    if int(q.value) >= 0: check_deref(X, q.value, c, data, s, c._target)
    k = X.pick("k", (0, 1, 5))
    q = X.call(lambda: p + k - k)
    X.check(q.ok and int(q.value) == int(p) and type(q.value) is type(p), "p + n - n is p")
    check_deref(X, q.value, c, data, s, c._target)
    d2 = X.call(v.dumps)
    X.check(d2.ok and d2.value == d.value, "dereferencing and arithmetic do not change what is dumped", got=d2, expected=d)
    # dereferencing between reads of one stream
    s.seek(base)
    r = X.call(cs.T.read, s)
    X.call(pointer_of(r.value, c).dereference)
    X.check(s.tell() == spec[1], "dereferencing does not disturb reading on", got=s.tell())


@contract("C16", gen_ptr, 1200, 12000)
def without_stream(X, c):
    """Pointers without a stream: the dedicated error, also after arithmetic; assignment and dumping of plain addresses."""
    cs = load(X, c)
    m, st = c.mode, c.st
    v = X.call(cs.T)
    X.check(v.ok, "default construction", outcome=v)
    p = pointer_of(v.value, c)
    X.check(isinstance(p, T.Pointer) and int(p) == 0, "a default pointer is null", got=p)
    for q in (p, p + 4, (p + 8) * 2, (p + 3) - 1, (p + 8) & 12, (p + 5) | 2, (p + 5) ^ 1, (p + 1) << 3, (p + 16) >> 1, (p + 9) // 2, (p + 9) % 4, (p + 2) ** 3):
        X.check(type(q) is type(p), "pointer arithmetic gives a pointer of the same type", got=type(q))
        o = X.call(q.dereference)
        X.check(o.raised(NullPointerDereference), "a pointer without a stream raises the dedicated error", address=int(q), outcome=o)
    w = m.ptr.size(m)
    a = X.int("address", 0, (1 << (8 * w)) - 1)
    zero = R.zero(st, m)
    ty = type(p)
    b = X.call(ty.dumps, a)
    X.check(b.ok and b.value == bytes(R.enc_uint(a, w, m.little)), "an address is dumped in the configured width and byte order", got=b, address=a)
    s = io.BytesIO(b.value)
    q = X.call(ty.read, s)
    X.check(q.ok and int(q.value) == a and s.tell() == w and type(q.value) is ty, "a pointer type reads exactly its width", got=q, expected=a)
    d = X.call(ty.dumps, q.value)
    X.check(d.ok and d.value == b.value, "dumping writes the address back", got=d)
    if c.shape < .6:
        v.value.p = a
        zero["p"] = a
        d = X.call(v.value.dumps)
        e = R.write(st, zero, m)
        X.check(d.ok and d.value == bytes(x for x, _ in e), "an assigned address is dumped", got=d, expected=bytes(x for x, _ in e))


def gen_list(rng):
    return Case(w=rng.choice(["uint16", "uint32", "uint64"]), endian=rng.choice("<><><>=@!"), compiled=rng.random() < .5, mode=R.Mode(), n=rng.randint(1, 5), order=rng.sample(range(5), 5))


@contract("C16", gen_list, 400, 4000)
def linked_list(X, c):
    """A self-referential structure: following next pointers visits exactly the nodes stored."""
    cs = cstruct(endian=c.endian, pointer=c.w)
    o = X.call(cs.load, "struct node { uint8 v; node *next; char *name; uint16 tail; };", compiled=c.compiled)
    X.check(o.ok, "loads", outcome=o)
    size = cs.node.size
    at = [10 + i * (size + 8) for i in c.order][:c.n]
    buf = bytearray(10 + 5 * (size + 8) + 20)
    bo = "little" if R.LITTLE[c.endian] else "big"
    w = cs.pointer.size
    vals = list(X.bytes("v", c.n))
    for i, a in enumerate(at):
        nxt = at[i + 1] if i + 1 < c.n else 0
        buf[a:a + size] = bytes([vals[i]]) + nxt.to_bytes(w, bo) + (a + size).to_bytes(w, bo) + (1000 + i).to_bytes(2, bo)
        buf[a + size:a + size + 8] = (b"n%d" % i).ljust(8, b"\0")
    s = io.BytesIO(bytes(buf))
    s.seek(at[0])
    n = X.call(cs.node.read, s)
    X.check(n.ok, "parses", outcome=n)
    n, i = n.value, 0
    end = s.tell()
    while True:
        X.check(n.v == vals[i] and n.tail == 1000 + i, "a node reached through pointers is the node stored there", index=i, got=n)
        nm = X.call(n.name.dereference)
        X.check(nm.ok and nm.value == b"n%d" % i, "a char pointer is the string stored there", got=nm)
        X.check(s.tell() == end, "dereferencing does not move the stream")
        i += 1
        if int(n.next) == 0: break
        n = n.next.dereference()
    X.check(i == c.n, "the list has the stored length", got=i, expected=c.n)
    X.check(X.call(n.next.dereference).raised(NullPointerDereference), "the last pointer is null")


def gen_context(rng):
    return Case(w=rng.choice(["uint8", "uint16", "uint24", "uint32", "uint48", "uint64"]), endian=rng.choice("<><><>=@!"), aligned=rng.random() < .4, compiled=rng.random() < .6,
                elem=rng.choice(("uint8", "uint16", "uint24", "char", "wchar", "E")), k=rng.choice(("n", "n + 1", "n * 2 - 1", "n & 3", "m")),
                decl=rng.choice(("arr *p;", "arr *p[1];", "arr *p[3];", "arr *p[2][2];", "arr *p[n];", "uint8 z[n]; arr *p[2];", "arr **p;", "arr **p[2];")), mode=R.Mode())


@contract("C16", gen_context, 600, 8000)
def context_of_target(X, c):
    """A pointer to an array whose length is an expression over the fields before the pointer: dereferencing returns that
    many elements from the target address, for pointers alone, in arrays, in nested arrays, behind a pointer, compiled or not."""
    cs = cstruct(endian=c.endian, pointer=c.w)
    o = X.call(cs.load, "enum E : uint16 { A, B }; #define m 2\ntypedef " + c.elem + f" arr[{c.k}]; struct t {{ uint8 n; {c.decl} uint8 m; }};", compiled=c.compiled, align=c.aligned)
    X.check(o.ok, "loads", outcome=o)
    n = X.pick("n", (0, 1, 2, 3, 5))
    bo = "little" if R.LITTLE[c.endian] else "big"
    w, es = cs.pointer.size, {"char": 1, "wchar": 2, "E": 2, "uint8": 1, "uint16": 2, "uint24": 3}[c.elem]
    count = max(0, {"n": n, "n + 1": n + 1, "n * 2 - 1": n * 2 - 1, "n & 3": n & 3, "m": 2}[c.k])
    body = X.bytes("body", 40)
    if c.elem == "wchar": body = bytes(b & 0x7F for b in body)
    data = bytearray(120) + bytearray(body) + bytearray(60)
    addr = lambda i: 120 + 3 * i
    # every address in the structure: fill the structure area with the addresses once its layout is known from a first parse
    dims = {"arr *p;": 1, "arr *p[1];": 1, "arr *p[3];": 3, "arr *p[2][2];": 4, "arr *p[n];": n, "uint8 z[n]; arr *p[2];": 2, "arr **p;": 1, "arr **p[2];": 2}[c.decl]
    pos = 1 + (n if c.decl.startswith("uint8 z") else 0)
    if c.aligned: pos += -pos % (cs.pointer.alignment or 1)
    data[0] = n
    double = "**" in c.decl
    for i in range(dims):
        a = addr(i)
        if double:
            data[180 + i * w:180 + (i + 1) * w] = a.to_bytes(w, bo)
            a = 180 + i * w
        data[pos + i * w:pos + (i + 1) * w] = a.to_bytes(w, bo)
    data[pos + dims * w] = 77
    s = io.BytesIO(bytes(data))
    t = X.call(cs.t.read, s)
    X.check(t.ok and t.value.m == 77, "parses", outcome=t)
    end = s.tell()
    def flat(x):
        return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]
    ps = flat(t.value.p)
    X.check(len(ps) == dims, "as many pointers", got=t)
    for i, p in enumerate(ps):
        if double:
            q = X.call(p.dereference)
            X.check(q.ok and int(q.value) == addr(i), "a pointer to a pointer", got=q)
            p = q.value
        X.check(int(p) == addr(i), "the address", got=p)
        for again in range(3):
            # the third time a pointer made by arithmetic, which has the same address
            k = X.pick("k", (0, 1, 5))
            q = p if again < 2 else X.pick("arithmetic", (lambda p: p + k - k, lambda p: p & ((1 << (8 * w)) - 1), lambda p: p | 0, lambda p: p ^ 0, lambda p: p * 1, lambda p: (p - k) + k, lambda p: p << 1 >> 1, lambda p: p // 1))(p)
            v = X.call(q.dereference)
            raw = bytes(data[addr(i):addr(i) + count * es])
            if c.elem == "char": want = raw
            elif c.elem == "wchar": want = raw.decode("utf-16-le" if bo == "little" else "utf-16-be")
            else: want = [int.from_bytes(raw[j:j + es], bo) for j in range(0, len(raw), es)]
            X.check(v.ok and v.value == want, "the elements at the address, as many as the fields before the pointer say", got=v, expected=want)
        X.check(s.tell() == end, "dereferencing does not move the stream")


def gen_in_union(rng):
    return Case(w=rng.choice(["uint8", "uint16", "uint24", "uint32", "uint48", "uint64"]), endian=rng.choice("<>"), aligned=rng.random() < .4, compiled=rng.random() < .6,
                decl=rng.choice(("uint16 *p;", "uint16 *p[3];", "uint16 *p[2][2];", "uint16 *p[2][1][3];", "struct { uint16 *q; } p;", "struct { uint16 *q; } p[2];", "struct { uint16 *q[2]; } p[2];",
                                 "struct { uint16 *q[2][2]; } p;", "union { uint16 *q; uint8 r; } p[2];", "struct { struct { uint16 *q; } i[2]; } p[2];")),
                outer=rng.choice(("U", "U", "S", "A")), mode=R.Mode())


@contract("C16", gen_in_union, 400, 6000)
def inside_unions(X, c):
    """Every pointer inside a union, in arrays, nested arrays and nested structures: dereferencing returns what is stored at the absolute
    offset of the stream; null pointers raise the dedicated error; the same after another member is assigned."""
    cs = cstruct(endian=c.endian, pointer=c.w)
    src = f"union U {{ {c.decl} uint8 raw[100]; }}; struct S {{ uint8 h; U u; uint8 t; }}; struct A {{ uint8 h; U u[2]; }};"
    o = X.call(cs.load, src, compiled=c.compiled, align=c.aligned)
    X.check(o.ok, "loads", outcome=o)
    bo = "little" if c.endian == "<" else "big"
    w = cs.pointer.size
    base = X.pick("base", (0, 16))
    data = bytearray(256)
    # small addresses everywhere a pointer may be
    vals = X.bytes("vals", 256)
    al = cs.pointer.alignment if c.aligned else 1
    fb = base + (0 if c.outer == "U" else al)
    for at in range(fb, fb + 208 if c.outer == "A" else fb + 104, w):
        data[at:at + w] = (vals[at] & 0x7F).to_bytes(w, bo)
    s = io.BytesIO(bytes(data))
    s.seek(base)
    r = X.call(getattr(cs, c.outer).read, s)
    X.check(r.ok, "parses", outcome=r)
    end = s.tell()
    us = [r.value] if c.outer == "U" else [r.value.u] if c.outer == "S" else r.value.u
    def found(v):
        if isinstance(v, T.Pointer): return [v]
        if isinstance(v, list): return [p for x in v for p in found(x)]
        if hasattr(v.__class__, "__fields__"): return [p for f in v.__class__.__fields__ for p in found(getattr(v, f._name))]
        return []
    def check(u, after):
        ps = found(u.p)
        X.check(ps, "the union has pointers", after=after)
        for p in ps:
            a, o = int(p), X.call(p.dereference)
            if a == 0: X.check(o.raised(NullPointerDereference), "a null pointer raises the dedicated error", got=o, after=after)
            elif a + 2 > len(data): X.check(o.raised(EOFError), "the target is not in the stream", got=o, after=after)
            else: X.check(o.ok and o.value == int.from_bytes(data[a:a + 2], bo), "a pointer inside a union refers to the stream", address=a, got=o, expected=bytes(data[a:a + 2]), after=after)
            X.check(s.tell() == end, "dereferencing does not move the stream", after=after)
    for u in us: check(u, "parsing")
    u = us[-1]
    raw = bytearray(u.raw)
    k = X.pick("where", range(4)) * w
    raw[k:k + w] = X.int("address", 0, 0x7F).to_bytes(w, bo)
    a = X.call(setattr, u, "raw", list(raw))
    X.check(a.ok, "assigning another member", outcome=a)
    check(u, "assigning another member")
