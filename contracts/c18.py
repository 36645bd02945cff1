from contracts.common import *
from contracts.c14 import snapshot, mutate
from contracts.c17 import some_value, gen_value_struct, ubits
from dissect.cstruct import compiler
from dissect.cstruct.types.structure import Field


def signature(cls):
    """everything a structure type says about its layout"""
    return dict(size=cls.size, alignment=cls.alignment, dynamic=cls.dynamic, align=cls.__align__,
                fields=[(f.name, f._name, f.type, f.bits, f.offset, f.alignment) for f in cls.__fields__],
                names=list(cls.fields), raw=list(cls.lookup), length=_len(cls))


def _len(cls):
    try: return len(cls)
    except TypeError as e: return "dynamic"


def same_outcome(a, b):
    return a.ok == b.ok and (a.ok or type(a.exc) is type(b.exc))


def unify(x, one, inc):
    """snapshot with the one type standing in for the other"""
    if isinstance(x, (list, tuple)): return type(x)(unify(y, one, inc) for y in x)
    return one if x is inc else x


def behaves_alike(X, one, inc, st, m, c, name):
    s1, s2 = signature(one), signature(inc)
    for k in s1: X.check(s1[k] == s2[k], "a structure built in steps has the layout of the one declared in one piece", what=k, got=s2[k], expected=s1[k])
    X.check(bool(one.__compiled__) == bool(inc.__compiled__), "the reader is compiled exactly when that of the structure declared in one piece is", got=inc.__compiled__, expected=one.__compiled__)
    # reading
    n = X.pick(name + "n", range(0, 60))
    data = X.bytes(name + "data", n)
    start = X.pick(name + "start", (0, 0, 3))
    b1, b2 = io.BytesIO(data), io.BytesIO(data)
    b1.seek(start); b2.seek(start)
    r1, r2 = X.call(one.read, b1), X.call(inc.read, b2)
    X.check(same_outcome(r1, r2), "reading succeeds or fails alike", got=r2, expected=r1, data=data)
    if r1.ok:
        v1, v2 = r1.value, r2.value
        X.check(b1.tell() == b2.tell(), "reading consumes alike", got=b2.tell(), expected=b1.tell(), data=data)
        X.check(unify(snapshot(v2), one, inc) == snapshot(v1), "reading gives the same values", got=v2, expected=v1, data=data)
        X.check(sizes_of(v1) == sizes_of(v2), "recorded field sizes", got=sizes_of(v2), expected=sizes_of(v1))
        compare_instances(X, v1, v2, one, inc)
        w1, w2 = io.BytesIO(), io.BytesIO()
        w1.write(b"x" * start); w2.write(b"x" * start)
        k1, k2 = X.call(one.write, w1, v1), X.call(inc.write, w2, v2)
        X.check(same_outcome(k1, k2) and (not k1.ok or k1.value == k2.value and w1.getvalue() == w2.getvalue()), "writing gives the same bytes", got=(k2, w2.getvalue()), expected=(k1, w1.getvalue()))
    d1, d2 = X.call(one), X.call(inc)
    X.check(same_outcome(d1, d2), "default instances alike", got=d2, expected=d1)
    if d1.ok:
        X.check(unify(snapshot(d2.value), one, inc) == snapshot(d1.value), "default instances alike", got=d2, expected=d1)
        compare_instances(X, d1.value, d2.value, one, inc)
        # by keyword: whatever was read, field by field
        src = r1.value if r1.ok else d1.value
        names = [f._name for f in one.__fields__ if X.pick(name + "kw" + f._name, (0, 1))]
        kw = {k: getattr(src, k) for k in names}
        e1, e2 = X.call(lambda: one(**kw)), X.call(lambda: inc(**kw))
        X.check(same_outcome(e1, e2), "construction by keyword alike", got=e2, expected=e1)
        if e1.ok:
            X.check(unify(snapshot(e2.value), one, inc) == snapshot(e1.value), "construction by keyword alike", got=e2, expected=e1)
            compare_instances(X, e1.value, e2.value, one, inc)
        pos = [getattr(src, f._name) for f in one.__fields__[:X.pick(name + 'pos', range(len(one.__fields__) + 1))]]
        e1, e2 = X.call(lambda: one(*pos)), X.call(lambda: inc(*pos))
        X.check(same_outcome(e1, e2), "construction by position alike", got=e2, expected=e1)
        if e1.ok and hasattr(e1.value, "__class__") and e1.value.__class__ is one: compare_instances(X, e1.value, e2.value, one, inc)
    # derived types
    a1, a2 = X.call(lambda: one[2]), X.call(lambda: inc[2])
    X.check(same_outcome(a1, a2) and (not a1.ok or (a1.value.size, a1.value.dynamic) == (a2.value.size, a2.value.dynamic)), "arrays of the type alike", got=a2, expected=a1)
    q1, q2 = X.call(lambda: one[2].read(data)), X.call(lambda: inc[2].read(data))
    X.check(same_outcome(q1, q2) and (not q1.ok or [unify(snapshot(v), one, inc) for v in q2.value] == [snapshot(v) for v in q1.value]), "reading an array of the type alike", got=q2, expected=q1)


def compare_instances(X, v1, v2, one, inc):
    if "'nan'" in repr(snapshot(v1)): return  # not equal to itself, and hashed by identity
    for what, f in (("dumps", lambda v: v.dumps()), ("len", len), ("bool", bool), ("repr", repr), ("bytes", bytes), ("hash", hash)):
        o1, o2 = X.call(f, v1), X.call(f, v2)
        X.check(same_outcome(o1, o2) and (not o1.ok or o1.value == o2.value), "instances behave alike", what=what, got=o2, expected=o1, instance=short(v1))
    for k in one.fields:
        o1, o2 = X.call(lambda: v1[k]), X.call(lambda: v2[k])
        X.check(same_outcome(o1, o2) and (not o1.ok or snapshot(o1.value) == snapshot(o2.value)), "fields are reachable alike", field=k, got=o2, expected=o1)
    # equality looks at every field
    for f in one.__fields__:
        o1, o2 = X.call(copy_with, v1, one, f), X.call(copy_with, v2, inc, f)
        X.check(same_outcome(o1, o2), "instances can be rebuilt alike", field=f._name, got=o2, expected=o1)
        if o1.ok:
            X.check((o1.value == v1) == (o2.value == v2) and bool(o1.value) == bool(o2.value), "equality alike", field=f._name, got=o2.value == v2, expected=o1.value == v1)
    o = X.call(lambda: setattr_all(v1, v2, one))
    X.check(o.ok, "assignment alike", outcome=o)


def copy_with(v, cls, f):
    """a copy with the default value in one field"""
    kw = {g._name: getattr(v, g._name) for g in cls.__fields__ if g is not f and g._name != f._name}
    return cls(**kw)


def setattr_all(v1, v2, one):
    for k in one.fields:
        setattr(v1, k, getattr(v1, k)); setattr(v2, k, getattr(v2, k))
    a, b = [None, None]
    try: a = v1.dumps()
    except Exception as e: a = type(e)
    try: b = v2.dumps()
    except Exception as e: b = type(e)
    assert a == b, (a, b)


def gen_incremental(rng):
    m = mode(rng)
    g = Gen(rng, maxfields=rng.choice((2, 3, 5, 8)), maxdepth=2)
    union = rng.random() < .15
    st = g.struct(name="T", union=union, dyn=False if union else None)
    if union and not st.fields: st.fields.append(R.F("x", R.Int("uint8")))
    offs = None
    if rng.random() < .3:
        # explicit offsets
        offs = []
        p = 0
        for f in st.fields:
            p += rng.choice((0, 1, 2, 3, 5, 8))
            offs.append(p if rng.random() < .4 else None)
            p += f.type.size(m) or 0 if not f.bits else 0
    return Case(st=st, mode=m, compiled=rng.random() < .6, offsets=offs, cut=rng.random())


def probe(X, cs, cls, name):
    """use the half-built type, to fill any cache there might be"""
    k = X.pick(name, range(9))
    if k == 0: X.call(cls)
    elif k == 1: X.call(cls.read, bytes(range(40)))
    elif k == 2:
        a = X.call(cls)
        if a.ok: X.call(hash, a.value); X.call(bool, a.value); X.call(repr, a.value); X.call(a.value.dumps); X.call(lambda: a.value == cls())
    elif k == 3: X.call(lambda: cls[2].read(bytes(64)))
    elif k == 4: X.call(lambda: cs._make_struct("Outer", [Field("a", cls), Field("b", cls[2])])(bytes(200)))
    elif k == 5: X.call(lambda: cs._make_pointer(cls))
    elif k == 6: X.call(cls.commit)


@contract("C18", gen_incremental, 5000, 60000)
def incremental(X, c):
    """A structure extended by any sequence of add_field/start_update/commit steps equals the one declared in one piece."""
    cs = load(X, c)
    st, m = c.st, c.mode
    tpl = cs.T
    union = st.union
    make = cs._make_union if union else cs._make_struct
    spec = [(f.name, f.type, f.bits, (c.offsets[i] if c.offsets else None)) for i, f in enumerate(tpl.__fields__)]
    def fields(): return [Field(n, t, bits=b, offset=o) for n, t, b, o in spec]
    o = X.call(make, "T", fields(), align=m.aligned)
    if c.offsets is None:
        X.check(o.ok, "a structure can be made from its fields", outcome=o)
        one = o.value
        if c.compiled: one = compiler.compile(one)
        X.check({**signature(one), "fields": 0} == {**signature(tpl), "fields": 0} and bool(one.__compiled__) == bool(tpl.__compiled__), "made from its fields or from its text: the same layout", got=signature(one), expected=signature(tpl))
    else:
        if not o.ok: raise Skip()
        one = o.value
        if c.compiled: one = compiler.compile(one)
    # the same in steps
    n = len(spec)
    first = X.pick("first", range(0, n + 1))
    o = X.call(make, "T", fields()[:first], align=m.aligned)
    X.check(o.ok, "the first fields of a structure make a structure", outcome=o, first=first)
    inc = o.value
    comp_at = X.pick("compile at", range(first, n + 1)) if c.compiled else None
    i, hist = first, [("made with", first)]
    def maybe_compile():
        nonlocal inc, comp_at
        if comp_at is not None and i >= comp_at:
            X.check(compiler.compile(inc) is inc, "compiling changes the type in place"); comp_at = None
            hist.append("compile")
    maybe_compile()
    while i < n or (len(hist) < 2 and n):
        probe(X, cs, inc, f"probe{i}.{len(hist)}")
        maybe_compile()
        k = X.pick(f"batch{i}.{len(hist)}", range(0, min(4, n - i) + 1))
        how = X.pick(f"how{i}.{len(hist)}", ("add", "update", "extend", "update+read"))
        hist.append((how, k))
        if how == "add":
            for f in spec[i:i + k]:
                o = X.call(inc.add_field, f[0], f[1], bits=f[2], offset=f[3])
                X.check(o.ok, "adding a field succeeds", outcome=o, history=hist)
        elif how in ("update", "update+read"):
            def g():
                with inc.start_update():
                    for f in spec[i:i + k]:
                        inc.add_field(f[0], f[1], bits=f[2], offset=f[3])
                    if how == "update+read": X.call(repr, inc)
            o = X.call(g)
            X.check(o.ok, "adding a batch of fields succeeds", outcome=o, history=hist)
        else:
            inc.__fields__.extend(fields()[i:i + k])
            o = X.call(inc.commit)
            X.check(o.ok, "adding a batch of fields succeeds", outcome=o, history=hist)
        i += k
        if len(hist) > 40: raise Skip()
    maybe_compile()
    probe(X, cs, inc, "probe end")
    behaves_alike(X, one, inc, st, m, c, "r")
    # in between, intermediate states were structures of their own: cross-check the prefix behaviour of a fresh build
    behaves_alike(X, inc, one, st, m, c, "s")
    X.check(len(one.__fields__) == n == len(inc.__fields__), "each field is there once")


def gen_intermediate(rng):
    c = gen_incremental(rng)
    c.offsets = None
    return c


@contract("C18", gen_intermediate, 2500, 30000)
def intermediate(X, c):
    """After every commit, the structure equals the one declared in one piece with the fields so far."""
    cs = load(X, c)
    st, m = c.st, c.mode
    make = cs._make_union if st.union else cs._make_struct
    spec = [(f.name, f.type, f.bits, None) for f in cs.T.__fields__]
    inc = make("T", [], align=m.aligned)
    if c.compiled: inc = compiler.compile(inc)
    for i in range(len(spec)):
        f = spec[i]
        o = X.call(inc.add_field, f[0], f[1], bits=f[2])
        X.check(o.ok, "adding a field succeeds", outcome=o)
        one = make("T", [Field(n, t, bits=b) for n, t, b, _ in spec[:i + 1]], align=m.aligned)
        if c.compiled: one = compiler.compile(one)
        behaves_alike(X, one, inc, st, m, c, f"r{i}")


def gen_self(rng):
    m = mode(rng)
    g = Gen(rng, maxfields=rng.choice((1, 3, 5)), maxdepth=2)
    st = g.struct(name="T")
    ptr = R.Ptr(R.Char("T"))
    paths = []
    for i in range(rng.randint(1, 3)):
        t = ptr
        k = rng.random()
        if k < .2: t = R.Arr(ptr, rng.randint(1, 3))
        elif k < .3: t = R.Ptr(ptr)
        elif k < .4: t = R.Struct(None, [R.F("q", ptr), R.F("w", R.Int("uint8"))])
        elif k < .5: t = R.Struct(None, [R.F(f"aq{i}", ptr), R.F(f"aw{i}", R.Int("uint16"))], rng.random() < .4)
        at = rng.randint(0, len(st.fields))
        if has(st, is_eof): at = rng.randint(0, max(0, len(st.fields) - 1))
        st.fields.insert(at, R.F(f"self{i}", t))
    try:
        R.layout(st, m)
    except R.RefReject:
        return gen_self(rng)
    return Case(st=st, mode=m, compiled=rng.random() < .6, form=rng.choice(("plain", "struct")))


def self_source(c, selfref):
    src = R.source(c.st, c.mode)
    if c.form == "struct" and selfref:
        import re
        src = re.sub(r"(?m)^(\s+)T (\*+)", r"\1struct T \2", src)
    if not selfref:
        import re
        src = re.sub(r"(?m)^(\s*)T (\*+)", r"\1char \2", src)
    return src


def shape(cls, top):
    """layout with the pointer targets left out"""
    out = [cls.size, cls.alignment, cls.dynamic, bool(cls.__compiled__)]
    for f in cls.__fields__: out.append((f.name, f.bits, f.offset, f.alignment, tshape(f.type)))
    return out


def tshape(t):
    if hasattr(t, "__fields__"): return shape(t, False)
    if issubclass(t, T.Pointer): return ("ptr", t.size)
    if issubclass(t, T.BaseArray): return ("array", t.size, str(t.num_entries), tshape(t.type))
    return (t.__name__, t.size)


def pointers(cls, v):
    """(pointer type, value) of each self reference"""
    for f in cls.__fields__:
        x = getattr(v, f._name)
        if isinstance(x, T.Pointer): yield f.type, x
        elif isinstance(x, list):
            for y in x:
                if isinstance(y, T.Pointer): yield type(y), y
        elif hasattr(x.__class__, "__fields__"): yield from pointers(x.__class__, x)


@contract("C18", gen_self, 3000, 40000)
def self_reference(X, c):
    """A structure that refers to itself has the layout, reader and behaviour of the same structure with another pointer target."""
    st, m = c.st, c.mode
    src, plain = self_source(c, True), self_source(c, False)
    cs = load(X, c, src=src)
    if plain == src: raise Skip()
    cp = load(X, c, src=plain)
    X.check(shape(cs.T, True) == shape(cp.T, True), "a self reference does not change the layout", definition=src, got=shape(cs.T, True), expected=shape(cp.T, True))
    size, al, offs = R.layout(st, m)
    X.check(cs.T.size == size and cs.T.alignment == al, "size and alignment", definition=src, got=(cs.T.size, cs.T.alignment), expected=(size, al))
    data = X.bytes("data", X.pick("n", range(0, 90)))
    e = ref_read(X, st, list(data), 0, m)
    o = X.call(cs.T.read, io.BytesIO(data))
    op = X.call(cp.T.read, io.BytesIO(data))
    X.check(same_outcome(o, op), "reading succeeds or fails alike", definition=src, got=o, expected=op)
    if e is None:
        X.check(not o.ok, "short input is refused", outcome=o)
        return
    if bad_utf16(e[0]) or has_nan(e[0]): raise Skip()
    X.check(o.ok and real.norm(o.value, st) == e[0], "reading a self-referential structure", definition=src, got=o, expected=e[0])
    X.check(real.norm(o.value, st) == real.norm(op.value, st), "reading alike", got=o, expected=op)
    d, dp = X.call(o.value.dumps), X.call(op.value.dumps)
    X.check(same_outcome(d, dp) and d.value == dp.value, "dumping alike", got=d, expected=dp)
    X.check(bool(o.value) == bool(op.value), "truth alike")
    for t, p in pointers(cs.T, o.value):
        # arrays of pointers and nested ones included: the target is the structure itself
        base = t
        while issubclass(base, T.Pointer): base = base.type
        if base.__name__ != "T": continue
        X.check(base is cs.T, "a self reference refers to the structure itself", definition=src, got=base)
        if t.type is not cs.T or not int(p): continue
        r = X.call(p.dereference)
        if int(p) > len(data):
            X.check(not r.ok or e[1] == 0 or cs.T.size == 0 or cs.T.dynamic, "a reference beyond the data cannot be read", outcome=r)
            continue
        b = io.BytesIO(data); b.seek(int(p))
        x = X.call(cs.T.read, b)
        X.check(same_outcome(r, x) and (not r.ok or real.norm(r.value, st) == real.norm(x.value, st)), "dereferencing a self reference parses the full structure", definition=src, got=r, expected=x)
    z = X.call(cs.T)
    X.check(z.ok and real.norm(z.value, st) == R.zero(st, m), "default instance of a self-referential structure", got=z)


def gen_failed(rng):
    c = gen_intermediate(rng)
    c.cut = rng.random()
    return c


@contract("C18", gen_failed, 800, 8000)
def nested_later(X, c):
    """A type built in steps and then used inside another structure gives that structure the right layout."""
    cs = load(X, c)
    st, m = c.st, c.mode
    make = cs._make_union if st.union else cs._make_struct
    spec = [(f.name, f.type, f.bits, None) for f in cs.T.__fields__]
    one = cs.T
    inc = make("T", [], align=m.aligned)
    if c.compiled: inc = compiler.compile(inc)
    k = int(c.cut * len(spec))
    for f in spec[:k]: inc.add_field(f[0], f[1], bits=f[2])
    probe(X, cs, inc, "probe")
    with inc.start_update():
        for f in spec[k:]: inc.add_field(f[0], f[1], bits=f[2])
    def outer(t):
        o = cs._make_struct("O", [Field("a", cs.uint8), Field("t", t), Field("u", cs._make_array(t, 2)), Field("z", cs.uint16)], align=m.aligned)
        return compiler.compile(o) if c.compiled else o
    A, B = X.call(outer, one), X.call(outer, inc)
    X.check(same_outcome(A, B), "usable as a member alike", got=B, expected=A)
    if not A.ok: return
    A, B = A.value, B.value
    def shp(t): return [t.size, t.alignment, t.dynamic, bool(t.__compiled__)] + [(f.offset, f.alignment) for f in t.__fields__]
    X.check(shp(A) == shp(B), "a structure with such a member has the same layout", got=shp(B), expected=shp(A))
    data = X.bytes("data", X.pick("n", range(0, 120)))
    a, b = X.call(A.read, data), X.call(B.read, data)
    X.check(same_outcome(a, b), "reading alike", got=b, expected=a)
    if a.ok:
        X.check([snapshot(getattr(a.value, n)) for n in "az"] == [snapshot(getattr(b.value, n)) for n in "az"] and unify(snapshot(b.value.t), one, inc) == snapshot(a.value.t), "reading alike", got=b, expected=a)
        d, e = X.call(a.value.dumps), X.call(b.value.dumps)
        X.check(same_outcome(d, e) and d.value == e.value, "dumping alike", got=e, expected=d)
