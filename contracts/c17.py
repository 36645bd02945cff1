import struct as _struct
from contracts.common import *
from contracts.c11 import fix_any, ubits, masks, view
from contracts.c14 import snapshot

NAMES = ["_0", "_1", "_2", "any", "hash", "self", "other", "cls", "args", "kwargs", "func", "name", "type", "value", "data", "stream", "result", "x", "y", "a", "b", "c", "obj", "r", "s", "o", "f", "i", "n", "mutable", "default", "context", "field", "_self", "__self", "buf"]


def pyval(v):
    """normal form with Python's own notion of equality (0.0 == -0.0)"""
    if isinstance(v, dict): return {k: pyval(x) for k, x in v.items()}
    if isinstance(v, list): return [pyval(x) for x in v]
    if isinstance(v, tuple) and v[0] == "f":
        return ("f", _struct.unpack("<" + {2: "e", 4: "f", 8: "d"}[v[1]], v[2].to_bytes(v[1], "little"))[0])
    return v


def rename(st, rng):
    """give the members of the outermost structure names that collide with names the generated code uses"""
    used, ren = set(), {}
    for f in st.fields:
        if f.name and rng.random() < .6:
            n = rng.choice(NAMES)
            if n not in used: ren[f.name] = n; used.add(n)
    import re
    for f in st.fields:
        f.name = ren.get(f.name, f.name)
        t = f.type
        while isinstance(t, R.Arr):
            if isinstance(t.n, str) and t.n != "EOF": t.n = re.sub(r"[A-Za-z_]\w*", lambda k: ren.get(k[0], k[0]), t.n)
            t = t.elem
    return st


def gen_value_struct(rng):
    m = mode(rng)
    while True:
        g = Gen(rng, dynamic=rng.random() < .5, maxfields=rng.choice((1, 2, 4, 7)), maxdepth=2, big=True)
        st = g.struct(name="T")
        if not ubits(st): break
    if rng.random() < .4: rename(st, rng)
    elif rng.random() < .1: place(rng, st, m)
    return Case(st=st, mode=m, compiled=rng.random() < .5)


def some_value(X, st, m, name):
    v = rand_value(X, st, m, name, {})
    v = fix_any(X, st, v, m)
    if bad_utf16(v) or has_nan(v): raise Skip()
    return v


def leaves(t, v, path=()):
    """(path, leaf field type, bits) of everything that can be changed on its own"""
    if isinstance(t, R.Struct):
        if t.union: return
        for i, f in enumerate(t.fields):
            if f.bits: yield path + (R.fkey(i, f),), f.type, f.bits
            else: yield from leaves(f.type, v[R.fkey(i, f)], path + (R.fkey(i, f),))
    elif isinstance(t, R.Arr) and isinstance(v, list):
        for i, x in enumerate(v): yield from leaves(t.elem, x, path + (i,))
    else: yield path, t, None


def put(v, path, x):
    if not path: return x
    if isinstance(v, dict): return {**v, path[0]: put(v[path[0]], path[1:], x)}
    return [put(y, path[1:], x) if i == path[0] else y for i, y in enumerate(v)]


def change(X, st, m, v, name):
    opts = list(leaves(st, v))
    if not opts: return None
    path, t, bits = X.pick(name, opts)
    cur = v
    for p in path: cur = cur[p]
    if bits: new = cur ^ (1 << X.pick(name + "b", range(bits)))
    elif isinstance(t, (R.Arr, R.Char, R.WChar)) or isinstance(cur, tuple) and cur[0] in "cw":
        kind, xs = cur
        if not xs: return None
        i = X.pick(name + "i", range(len(xs)))
        new = (kind, [((x ^ 1) if (x ^ 1) or isinstance(t, R.Char) or getattr(t, 'n', 0) is not None else 3) if j == i else x for j, x in enumerate(xs)])
        if new == cur: return None
    elif isinstance(t, R.Float): new = ("f", cur[1], cur[2] ^ (1 << X.pick(name + "b", range(8 * cur[1] - 8))))
    elif isinstance(t, R.Void): return None
    else:
        s = R.storage(t) if not isinstance(t, R.Ptr) else m.ptr
        w = 8 * s.size(m) - (1 if getattr(s, "signed", False) else 0) if s.size(m) else 30
        new = cur ^ (1 << X.pick(name + "b", range(w)))
    out = put(v, path, new)
    if null_zero(st, out) or has_nan(out) or bad_utf16(out): return None
    return out


def null_zero(t, v):
    if isinstance(t, R.Struct): return any(null_zero(f.type, v[R.fkey(i, f)]) for i, f in enumerate(t.fields))
    if isinstance(t, R.Arr) and isinstance(v, list):
        if t.n is None and any(R.zero_elem(x, t.elem, R.Env()) for x in v): return True
        return any(null_zero(t.elem, x) for x in v)
    return False


def make(X, cls, st, v, m, name):
    """an instance with value v: by keywords, by position, by assignment to a default, or parsed from its bytes"""
    how = X.pick(name, ("kw", "pos", "assign", "parse", "kw"))
    vals = [(rf._name, build(rf.type, f.type, v[R.fkey(i, f)]) if not f.bits else bitv(rf, f, v[R.fkey(i, f)])) for i, (f, rf) in enumerate(zip(st.fields, cls.__fields__))]
    if how == "kw":
        order = vals[:]
        if X.pick(name + "rev", (0, 1)): order.reverse()
        return how, X.call(lambda: cls(**dict(order)))
    if how == "pos":
        if len(vals) == 1 and (isinstance(vals[0][1], (bytes, bytearray)) or hasattr(vals[0][1], "read")): return "kw", X.call(lambda: cls(**dict(vals)))
        return how, X.call(lambda: cls(*[x for _, x in vals]))
    if how == "assign":
        def f():
            o = cls()
            for k, x in vals: setattr(o, k, x)
            return o
        return how, X.call(f)
    data = bytes(b for b, _ in R.write(st, v, m))
    try:
        held = R.read(st, list(data), 0, m)[0] == v  # e.g. the zero value of an array whose length is an expression
    except R.RefEOF: held = False
    if tail_problem(st) or not held: return "kw", X.call(lambda: cls(**dict(vals)))
    return how, X.call(cls.read, data)


def tail_problem(st): return has(st, is_eof)


def bitv(rf, f, x): return rf.type(x) if isinstance(f.type, R.Enum) else x


def hashed(X, v):
    h = X.call(hash, v)
    X.check(h.ok or h.raised(TypeError), "hash gives a value or says unhashable", outcome=h)
    return h


def falsy(v):
    if hasattr(v.__class__, "__fields__"): return all(falsy(getattr(v, f._name)) for f in v.__class__.__fields__)
    return not v


@contract("C17", gen_value_struct, 5000, 70000)
def equality(X, c):
    """Instances are equal exactly when of the same type with equal fields; equal instances hash alike; falsy exactly when
    all fields are."""
    cs = load(X, c)
    st, m = c.st, c.mode
    cs2 = load(X, c, compiled=not c.compiled)
    v1 = some_value(X, st, m, "v") if X.pick("zero", (0, 0, 1)) == 0 else R.zero(st, m)
    kind = X.pick("kind", ("same", "changed", "changed", "other"))
    v2 = v1 if kind == "same" else change(X, st, m, v1, "ch") if kind == "changed" else some_value(X, st, m, "w")
    if v2 is None: raise Skip()
    h1, a = make(X, cs.T, st, v1, m, "ha")
    h2, b = make(X, cs.T, st, v2, m, "hb")
    X.check(a.ok and b.ok, "instances can be constructed", how=(h1, h2), got=(a, b), values=(v1, v2))
    a, b = a.value, b.value
    X.check(real.norm(a, st) == v1 or pyval(real.norm(a, st)) == pyval(v1), "an instance holds the given values", how=h1, got=lambda: real.norm(a, st), expected=v1)
    exp = pyval(v1) == pyval(v2)
    for x, y in ((a, b), (b, a)):
        e, n = X.call(lambda: x == y), X.call(lambda: x != y)
        X.check(e.ok and n.ok and bool(e.value) == exp and bool(n.value) != exp, "equal exactly when all fields are equal", how=(h1, h2), got=(e, n), expected=exp, values=(v1, v2))
    X.check(a == a and b == b, "an instance equals itself")
    ha, hb = hashed(X, a), hashed(X, b)
    if exp:
        X.check(ha.ok == hb.ok and ha.value == hb.value, "equal instances hash equally", how=(h1, h2), got=(ha, hb))
    hashable = not has(st, lambda t: isinstance(t, R.Arr) and not isinstance(t.elem, (R.Char, R.WChar)))
    if hashable: X.check(ha.ok, "hashable when its fields are", outcome=ha)
    for x in (a, b):
        t = X.call(bool, x)
        X.check(t.ok and t.value == (not falsy(x)), "falsy exactly when all fields are", got=t, value=x)
    # another type with the same fields and values is never equal
    h3, o = make(X, cs2.T, st, v1, m, "ho")
    if o.ok:
        X.check(not (a == o.value) and a != o.value and not (o.value == a), "instances of different types are never equal")
    for o in (None, 3, b"", "x", (), object(), cs.T): X.check(not (a == o) and a != o, "an instance equals no other kind of object", other=o)


@contract("C17", gen_value_struct, 4000, 50000)
def construction(X, c):
    """T(values) equals assigning them on a default instance; the others have the zero value."""
    cs = load(X, c)
    st, m = c.st, c.mode
    v = some_value(X, st, m, "v")
    z = R.zero(st, m)
    d = X.call(cs.T)
    X.check(d.ok and real.norm(d.value, st) == z, "unspecified fields take the zero value", got=d, expected=z)
    n = len(st.fields)
    fields = list(zip(range(n), st.fields, cs.T.__fields__))
    val = lambda i, f, rf: build(rf.type, f.type, v[R.fkey(i, f)]) if not f.bits else bitv(rf, f, v[R.fkey(i, f)])
    npos = X.pick("npos", range(0, n + 1))
    kw = [t for t in fields[npos:] if X.pick(f"kw{t[0]}", (0, 1))]
    pos = [val(*t) for t in fields[:npos]]
    kwd = {t[2]._name: val(*t) for t in kw}
    if npos == 1 and not kwd and (isinstance(pos[0], bytes) or hasattr(pos[0], "read")): raise Skip()
    if npos == 1 and not kwd and isinstance(pos[0], cs.T): raise Skip()
    o = X.call(lambda: cs.T(*pos, **kwd))
    exp = {R.fkey(i, f): v[R.fkey(i, f)] if i < npos or rf._name in kwd else z[R.fkey(i, f)] for i, f, rf in fields}
    X.check(o.ok, "constructing from values succeeds", positional=pos, keywords=kwd, outcome=o)
    X.check(real.norm(o.value, st) == exp, "constructing gives the given values, and zero for the rest", got=lambda: real.norm(o.value, st), expected=exp, positional=npos, keywords=list(kwd))
    e = X.call(cs.T)
    for t in fields[:npos] + kw: setattr(e.value, t[2]._name, val(*t))
    X.check(e.value == o.value and real.norm(e.value, st) == exp, "constructing equals assigning on a default instance", got=o.value, expected=e.value)
    X.check(not X.call(lambda: cs.T(*[0] * (n + 1))).ok, "too many values are rejected")
    X.check(not X.call(lambda: cs.T(**{"no such field": 0})).ok, "an unknown field is rejected")
    # constructing does not remember
    d = X.call(cs.T)
    X.check(d.ok and real.norm(d.value, st) == z, "unspecified fields take the zero value, also after other constructions", got=d, expected=z)


def bitmask(f, off, bit, m):
    """[(byte index, mask)] of the bits of a field"""
    if f.bits:
        n = R.storage(f.type).size(m)
        sh = bit if m.little else 8 * n - bit - f.bits
        return [(off + j, k) for j, k in enumerate(R.enc_uint(((1 << f.bits) - 1) << sh, n, m.little))]
    return [(off + j, k) for j, k in enumerate(masks(f.type, m))]


def gen_fixed_struct(rng):
    m = mode(rng)
    while True:
        st = Gen(rng, dynamic=False, maxfields=rng.choice((2, 4, 7)), maxdepth=2, big=True).struct(name="T")
        if not ubits(st): break
    if rng.random() < .3: rename(st, rng)
    elif rng.random() < .1: place(rng, st, m)
    return Case(st=st, mode=m, compiled=rng.random() < .5)


@contract("C17", gen_fixed_struct, 5000, 70000)
def assignment(X, c):
    """Assigning one field, also of a nested or anonymous member, changes exactly that field's bits in the dump."""
    cs = load(X, c)
    st, m = c.st, c.mode
    v = some_value(X, st, m, "v")
    h, a = make(X, cs.T, st, v, m, "how")
    X.check(a.ok, "instances can be constructed", outcome=a)
    a = a.value
    before = X.call(a.dumps)
    w = R.write(st, v, m)
    X.check(before.ok and len(before.value) == len(w) and all(x & k == b & k for x, (b, k) in zip(before.value, w)), "dump of the instance", got=before, expected=bytes(b for b, _ in w))
    # descend
    o, t, off, val, path = a, st, 0, v, []
    while True:
        size, al, offs = R.layout(t, m)
        i = X.pick("field" + "." * len(path), range(len(t.fields)))
        f, (fo, bit) = t.fields[i], offs[i]
        rf = o.__class__.__fields__[i]
        if isinstance(f.type, R.Struct) and not f.type.union and f.type.fields and X.pick("descend" + "." * len(path), (0, 1, 1)):
            path.append(R.fkey(i, f))
            o, t, off, val = getattr(o, rf._name), f.type, off + fo, val[R.fkey(i, f)]
            continue
        break
    x = fix_any(X, f.type, rand_value(X, f.type, m, "x", {}, f.bits), m)
    if bad_utf16(x) or has_nan(x): raise Skip()
    rv = build(rf.type, f.type, x) if not f.bits else bitv(rf, f, x)
    target, tname = o, rf._name
    # through the outer structure when all the way is anonymous
    if path and all(p.startswith("#") for p in path) and f.name and X.pick("folded", (0, 1)): target = a
    s = X.call(setattr, target, tname, rv)
    X.check(s.ok, "assigning succeeds", outcome=s)
    new = put(v, tuple(path) + (R.fkey(i, f),), x)
    X.check(real.norm(a, st) == new, "exactly the assigned field changes", path=path, field=tname, got=lambda: real.norm(a, st), expected=new)
    after = X.call(a.dumps)
    X.check(after.ok and len(after.value) == len(before.value), "the dump keeps its size", got=after)
    own = dict((j, k) for j, k in bitmask(f, off + fo, bit, m))
    exp = bytearray(before.value)
    wn = R.write(st, new, m)
    for j in range(len(exp)):
        k = own.get(j, 0)
        X.check((after.value[j] ^ before.value[j]) & ~k & 0xFF & wn[j][1] == 0 and (after.value[j] ^ before.value[j]) & ~k & 0xFF == 0, "assigning a field changes exactly its bits in the dump", path=path, field=tname, index=j, got=after, before=before)
        X.check(after.value[j] & k == wn[j][0] & k, "the dump holds the assigned value", path=path, field=tname, index=j, got=after, expected=bytes(b for b, _ in wn))


def gen_classes(rng):
    k = rng.choice((1, 2, 3, 5, 8, 17, 40, 300) if rng.random() < .2 else (1, 2, 3, 4, 5))
    out = []
    for i in range(rng.randint(2, 4)):
        kinds = ("uint8", "int16", "uint32", "char", "wchar", "float", "uint24", "char[2]", "In") if rng.random() < .5 else ("uint8", "int16", "uint32", "float", "uint24", "In")
        names = rng.sample(NAMES, k) if k <= len(NAMES) and rng.random() < .7 else [f"m{j}" for j in rng.sample(range(k * 2), k)]
        out.append((f"T{i}", rng.random() < .2, [(n, rng.choice(kinds)) for n in names]))
    return Case(classes=out, mode=R.Mode(rng.choice("<>")), compiled=rng.random() < .5)


def dec(n, t):
    return f"{t[:-3]} {n}[2];" if t.endswith("[2]") else f"{t} {n};"


VALS = {"uint8": (0, 7), "int16": (0, 7), "uint32": (0, 1 << 31), "char": (b"\0", b"x"), "wchar": ("\0", "q"), "float": (0.0, 1.5), "uint24": (0, 99), "char[2]": (b"\0\0", b"ab")}


@contract("C17", gen_classes, 1200, 10000)
def classes(X, c):
    """Generated methods of many classes with equal numbers of fields and colliding names stay apart."""
    src = "struct In { uint16 p; uint8 q; };\n" + "\n".join(f"{'union' if u else 'struct'} {n} {{ {' '.join(dec(*f) for f in fs)} }};" for n, u, fs in c.classes)
    o = X.call(real.load, src, c.mode, c.compiled)
    X.check(o.ok, "a definition of the supported grammar loads", definition=src, outcome=o)
    cs = o.value
    def val(t, k): return cs.In(p=k, q=0) if t == "In" else VALS[t][k]
    for n, u, fs in c.classes:
        cls = getattr(cs, n)
        if u:
            nm, t = X.pick("u" + n, fs)
            a, b = cls(**{nm: val(t, 1)}), cls(**{nm: val(t, 1)})
            X.check(a == b and hash(a) == hash(b) and bool(a) and a != cls(), "unions with equal bytes are equal", cls=n, got=(a, b))
            X.check(getattr(a, nm) == val(t, 1), "a union constructed from one member has that member", cls=n, member=nm, got=a)
            continue
        base = {nm: val(t, 0) for nm, t in fs}
        full = {nm: val(t, 1) for nm, t in fs}
        a = cls(**full)
        X.check(all(getattr(a, k) == x for k, x in full.items()), "constructing by keyword sets each field", cls=n, got=a, expected=full)
        if len(fs) > 1:
            b = cls(*full.values())
            X.check(a == b and hash(a) == hash(b), "constructing by position equals constructing by keyword", cls=n, got=b, expected=a)
        d = cls()
        X.check(all(getattr(d, k) == x for k, x in base.items()), "default values", cls=n, got=d, expected=base)
        for nm, t in fs if len(fs) < 20 else fs[::37] + fs[-2:]:
            e = cls(**{**full, nm: val(t, 0)})
            X.check(e != a and not (e == a), "instances that differ in one field are not equal", cls=n, field=nm)
            X.check(getattr(e, nm) == val(t, 0) and all(getattr(e, k) == full[k] for k in full if k != nm), "each field has its own value", cls=n, field=nm, got=e)
            g = cls(**{nm: val(t, 1)})
            X.check(bool(g), "one truthy field makes the instance truthy", cls=n, field=nm, got=g)
            h = cls()
            setattr(h, nm, val(t, 1))
            X.check(h == g and hash(h) == hash(g), "constructing equals assigning on a default instance", cls=n, field=nm)
        numeric = all(t not in ("char", "wchar", "char[2]") for _, t in fs)
        X.check(bool(d) == (not numeric), "falsy exactly when all fields are", cls=n, got=d)
