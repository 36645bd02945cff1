from contracts.common import *


def gen_union(rng):
    m = mode(rng)
    while True:
        g = Gen(rng, dynamic=False, bits=rng.random() < .35, maxfields=4, maxdepth=2, big=True)
        st = g.struct(union=True, name="T")
        # bit-fields directly in a union are outside the claimed domain (no unit is shared)
        if any(f.bits for f in st.fields) or ubits(st): continue
        if rng.random() < .12: place(rng, st, m)
        return Case(st=st, mode=m, compiled=rng.random() < .5)


def ubits(t):
    return has(t, lambda x: isinstance(x, R.Struct) and x.union and any(f.bits for f in x.fields))


def view(st, buf, m, X):
    try:
        return R.read(st, list(buf), 0, m, {}, X.env)[0]
    except (R.RefEOF, R.RefAmbiguous):
        raise Skip()


def masks(t, m):
    """[mask per byte] of the bits of t that carry data"""
    z = R.zero(t, m)
    return [k for _, k in R.write(t, z, m)]


def assignables(st, m, path=(), top=None):
    """every (path of names, spec type, byte offset, bit slice, top-level member index) reachable for assignment"""
    out = []
    _, _, offs = R.layout(st, m)
    for i, (f, (o, b)) in enumerate(zip(st.fields, offs)):
        t0 = i if top is None else top
        out.append((path + (i,), f, o, b, t0))
        if isinstance(f.type, R.Struct):
            for p, ff, oo, bb, _ in assignables(f.type, m, path + (i,), t0):
                out.append((p, ff, o + oo, bb, t0))
    return out


def unit(f, m): return R.storage(f.type).size(m)


def value_bytes(t, v, m): return [(b, k) for b, k in R.write(t, v, m)]


def poke(buf, f, off, bit, v, m):
    """the union's bytes after writing v into field f at off; -> (bytes, set of byte indexes fully defined)"""
    buf = list(buf)
    if f.bits:
        n = unit(f, m)
        u = R.dec_uint(buf[off:off + n], m.little)
        sh = bit if m.little else n * 8 - bit - f.bits
        u = u & ~(((1 << f.bits) - 1) << sh) | v << sh
        buf[off:off + n] = R.enc_uint(u, n, m.little)
        return buf
    for j, (b, k) in enumerate(R.write(f.type, v, m)):
        buf[off + j] = buf[off + j] & ~k & 0xFF | b & k
    return buf


def carried(st, m):
    """bits that carry data in at least one member"""
    size = R.layout(st, m)[0]
    out = [0] * size
    for f in st.fields:
        for j, k in enumerate(masks(f.type, m)):
            out[j + (f.offset or 0)] |= k
    return out


def reach(X, obj, path):
    """the object holding the last step of path, and the name there (through names, or folded anonymous members)"""
    for i in path[:-1]:
        obj = getattr(obj, obj.__class__.__fields__[i]._name)
    return obj, obj.__class__.__fields__[path[-1]]._name


def check_view(X, u, st, buf, m, label):
    exp = view(st, buf, m, X)
    got = real.norm(u, st)
    X.check(got == exp, f"every member is a view of the union's bytes {label}", got=got, expected=exp, bytes=bytes(buf).hex())
    d = X.call(u.dumps)
    X.check(d.ok and len(d.value) == len(buf), f"dumping gives the union's bytes {label}", got=d, expected=bytes(buf).hex())
    for j, k in enumerate(carried(st, m)):
        X.check(d.value[j] & k == buf[j] & k, f"dumping gives the union's bytes {label}", got=d, expected=bytes(buf).hex(), index=j)


@contract("C11", gen_union, 5000, 70000)
def coherence(X, c):
    """Parsing consumes the size of the largest member; every member equals its type parsed from the bytes; after every
    assignment, direct or through nested or anonymous members, all members and the dump reflect the new bytes."""
    cs = load(X, c)
    st, m = c.st, c.mode
    size, al, _ = R.layout(st, m)
    X.check(cs.T.size == size == len(cs.T), "a union has the size of its largest member", got=cs.T.size, expected=size)
    if X.pick("from", ("bytes", "bytes", "default")) == "bytes":
        buf = list(X.bytes("data", size))
        view(st, buf, m, X)
        s = io.BytesIO(bytes(buf) + b"\xcc" * 5)
        u = X.call(cs.T.read, s)
        if not u.ok and bad_utf16(view(st, buf, m, X)): raise Skip()
        X.check(u.ok, "parsing succeeds", outcome=u)
        X.check(s.tell() == size, "parsing consumes exactly the union's size", got=s.tell(), expected=size)
    else:
        buf = [0] * size
        u = X.call(cs.T)
    u = u.value
    X.assume(not has_nan(view(st, buf, m, X)))
    check_view(X, u, st, buf, m, "after parsing")
    opts = assignables(st, m)
    for step in range(X.pick("steps", range(4))):
        path, f, off, bit, top = X.pick(f"target{step}", opts)
        v = rand_value(X, f.type, m, f"v{step}", {}, f.bits)
        if isinstance(f.type, R.Struct): v = fix_union(X, f.type, v, m)
        if isinstance(f.type, R.Arr) and has(f.type, lambda t: isinstance(t, R.Struct) and t.union): v = [fix_union(X, f.type.elem, x, m) if isinstance(f.type.elem, R.Struct) else fix_arr(X, f.type.elem, x, m) for x in v]
        nb = poke(buf, f, off, bit, v, m)
        nv = view(st, nb, m, X)
        X.assume(not has_nan(nv) and not bad_utf16(nv))
        o, name = reach(X, u, path)
        # padding of an assigned structure is part of its new bytes: it must carry no data in another member
        car = carried(st, m)
        for k in range(1, len(path) + 1):
            ft, fo = at(st, path[:k], m)
            if ft is None: continue
            mk = masks(ft, m)
            X.assume(not any(car[fo + j] & ~mk[j] for j in range(len(mk))))
        rv = X.call(build, cls_at(u, path), f.type, v) if not f.bits else X.call(lambda: cls_at(u, path)(v) if isinstance(f.type, R.Enum) else v)
        X.assume(rv.ok)
        via = X.pick(f"via{step}", ("path", "folded"))
        if via == "folded" and all(anon(st, path[:k]) for k in range(1, len(path))) and st_at(st, path[:-1]) is not None and f.name and len(path) > 1:
            a = X.call(setattr, u, name, rv.value)
        else:
            a = X.call(setattr, o, name, rv.value)
        X.check(a.ok, "assigning a member succeeds", member=name, value=v, outcome=a)
        buf = nb
        check_view(X, u, st, buf, m, f"after assigning {name}")


def st_at(st, path):
    for i in path:
        st = st.fields[i].type
    return st


def at(st, path, m):
    """(type, absolute offset) of the member at path; None for a bit-field"""
    off, t = 0, st
    for i in path:
        off += R.layout(t, m)[2][i][0]
        f = t.fields[i]
        t = f.type
    return (None if f.bits else t), off


def anon(st, path):
    f = None
    for i in path:
        f = st.fields[i]
        st = f.type
    return f.name is None


def cls_at(u, path):
    cls = u.__class__
    for i in path: cls = cls.__fields__[i].type
    return cls


def fix_union(X, t, v, m):
    """Make the value of every union inside coherent: all members are views of its first member's bytes."""
    out = dict(v)
    if t.union:
        size = R.layout(t, m)[0]
        f0 = t.fields[0]
        buf = [0] * size
        x = fix_any(X, f0.type, v[R.fkey(0, f0)], m)
        for j, (b, k) in enumerate(R.write(f0.type, x, m)): buf[j + (f0.offset or 0)] = b
        r = view(t, buf, m, X)
        if bad_utf16(r) or has_nan(r): raise Skip()
        return r
    for i, f in enumerate(t.fields):
        out[R.fkey(i, f)] = fix_any(X, f.type, v[R.fkey(i, f)], m)
    return out


def fix_arr(X, t, v, m): return fix_any(X, t, v, m)


def fix_any(X, t, v, m):
    if isinstance(t, R.Struct): return fix_union(X, t, v, m)
    if isinstance(t, R.Arr) and isinstance(v, list): return [fix_any(X, t.elem, x, m) for x in v]
    return v


def gen_nested(rng):
    m = mode(rng)
    g = Gen(rng, dynamic=False, maxfields=3)
    while True:
        un = g.struct(depth=1, union=True)
        if not any(f.bits for f in un.fields) and not ubits(un) and un.fields: break
    anon_ = rng.random() < .4
    uf = R.F(None if anon_ and rng.random() < .6 else "u", R.Struct(None if anon_ else "U", un.fields, True))
    st = R.Struct("T", [R.F("a", g.int()), uf, R.F("z", g.int())])
    return Case(st=st, mode=m, compiled=rng.random() < .5)


@contract("C11", gen_nested, 2500, 30000)
def inside_structures(X, c):
    """A union that is a (possibly anonymous) member of a structure: same coherence, neighbours untouched."""
    cs = load(X, c)
    st, m = c.st, c.mode
    size = R.layout(st, m)[0]
    buf = list(X.bytes("data", size))
    v0 = view(st, buf, m, X)
    X.assume(not bad_utf16(v0) and not has_nan(v0))
    p = X.call(cs.T.read, bytes(buf))
    X.check(p.ok and real.norm(p.value, st) == v0, "every member is a view of the union's bytes", got=p, expected=v0)
    v = p.value
    uf, un = st.fields[1], st.fields[1].type
    off = R.layout(st, m)[2][1][0]
    i = X.pick("member", range(len(un.fields)))
    f = un.fields[i]
    if isinstance(f.type, R.Struct) or isinstance(f.type, R.Arr) and has(f.type, lambda t: isinstance(t, R.Struct)): raise Skip()
    x = rand_value(X, f.type, m, "v", {})
    ucls = cs.T.__fields__[1].type
    rv = build(ucls.__fields__[i].type, f.type, x)
    nb = poke(buf, f, off, None, x, m)
    exp = view(st, nb, m, X)
    X.assume(not bad_utf16(exp) and not has_nan(exp))
    if uf.name is None and X.pick("folded", (0, 1)):
        setattr(v, f.name, rv)
    else:
        setattr(getattr(v, cs.T.__fields__[1]._name), f.name, rv)
    got = X.call(real.norm, v, st)
    X.check(got.ok and got.value == exp, "after assigning a member of a nested union all its members reflect it", member=f.name, got=got, expected=exp)
    d = X.call(v.dumps)
    w = R.write(st, exp, m)
    X.check(d.ok and len(d.value) == size, "dump after assignment", got=d)
    for j, (b, k) in enumerate(w):
        X.check(d.value[j] & k == nb[j] & k, "the dump reflects the assignment and nothing else", got=d, expected=bytes(nb).hex(), index=j)
from contracts import dynunion as _dynunion  # noqa: E402
