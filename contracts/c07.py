from contracts.common import *
from pyv import refexpr
from pyv.gen import occupies


def elem(rng, g, depth=0):
    k = rng.random()
    if k < .6: return g.scalar(True)
    if k < .75: return R.Leb(rng.choice(("uleb128", "ileb128")))
    if k < .95 and depth < 2:
        st = R.Struct(g.fresh("E"), [R.F(f"e{i}", g.scalar(True)) for i in range(rng.randint(1, 3))])
        if rng.random() < .3: st.fields.append(R.F("s", R.Arr(R.Char(), None)))
        return st
    return R.Arr(elem(rng, g, depth + 1), rng.randint(0, 3))


EXPRS = ["n", "n - 3", "3 - n", "n & 3", "n * k / 4", "(n + k) % 5", "K", "K - n", "n << 1 & 7", "~n + 4", "-n + 2", "k", "k & K", "n % 3 * 2 - 1",
         "e", "e & 3", "sizeof(uint16)", "sizeof(uint32) - n", "0x2 + (n >> 6)", "dup & 3", "1 + 1", "2 - 4", "0"]


def gen_arr(rng):
    m = mode(rng)
    m.consts = {"K": rng.randint(-3, 4), "dup": rng.randint(0, 3)}
    g = Gen(rng)
    form = rng.choice(("fixed", "fixed", "expr", "expr", "null", "eof"))
    e = g.zelem() if form == "null" else elem(rng, g)
    en = g.enum()
    pre = [R.F("n", R.Int("uint8")), R.F("k", R.Int(rng.choice(("int8", "int16", "uint8"))))]
    if rng.random() < .5: pre.append(R.F("dup", R.Int("uint8")))
    expr = None
    if form == "fixed": n = rng.randint(0, 5)
    elif form == "null": n = None
    elif form == "eof": n = "EOF"
    else:
        n = expr = rng.choice(EXPRS)
        if expr == "e" and not occupies(e): n = expr = "e & 3"  # elements that occupy nothing could be 2^64 many
        if "e" in refexpr_names(expr): pre.append(R.F("e", en))
    if rng.random() < .3: pre.append(R.F("bits", R.Int("uint8"), 3))
    rng.shuffle(pre)
    a = R.Arr(e, n)
    if form != "eof" and rng.random() < .25:
        a = R.Arr(a, rng.choice((0, 1, 2, 2, "n & 1", None)) if form not in ("null",) else rng.choice((0, 2)))
        if a.n is None: a.n = 2
    fields = pre + [R.F("a", a)]
    if form != "eof" and rng.random() < .6: fields.append(R.F("tail", R.Int(rng.choice(("uint8", "uint16", "uint32")))))
    return Case(st=R.Struct("T", fields), mode=m, compiled=rng.random() < .5, form=form)


def refexpr_names(s): return {v for k, v in refexpr.lex(s) if k == "i"}


def load_c(X, c):
    src = "".join(f"#define {k} {v}\n" for k, v in c.mode.consts.items()) + R.source(c.st, c.mode)
    return load(X, c, src)


@contract("C07", gen_arr, 7000, 90000)
def lengths(X, c):
    """Arrays hold exactly the elements their length form prescribes, in both reader modes; the stream ends right after."""
    cs = load_c(X, c)
    st, m = c.st, c.mode
    m.consts = {**m.consts, **SIZES}
    n = X.pick("len", (20, 60, 200))
    data = X.bytes("data", n)
    if X.pick("small", (0, 1)): data = bytes(b & 0x83 for b in data)
    try:
        spec = ref_read(X, st, list(data), 0, m)
    except (ZeroDivisionError, ValueError, OverflowError, MemoryError):
        raise Skip()
    X.assume(spec is None or not bad_utf16(spec[0]) and not has_nan(spec[0]))
    X.assume(not (has(st, is_eof) and eof_zero(st, m)))
    s = io.BytesIO(data)
    p = X.call(cs.T.read, s)
    if spec is None:
        X.check(not p.ok, "too short an input for the array is rejected", outcome=p)
        return
    X.check(p.ok, "parsing succeeds", outcome=p, expected=spec[0])
    got = real.norm(p.value, st)
    X.check(got == spec[0], "the array holds the prescribed elements", got=got, expected=spec[0])
    X.check(s.tell() == spec[1], "the stream is right after the array", got=s.tell(), expected=spec[1])
    d = X.call(p.value.dumps)
    exp = bytes(b for b, _ in R.write(st, spec[0], m))
    if canonical(st, spec, data, m):
        X.check(d.ok and d.value == exp, "dumping writes the elements (and the terminator)", got=d, expected=exp.hex())
    a = p.value.a
    t = next(f.type for f in st.fields if f.name == "a")
    rt = next(f.type for f in cs.T.__fields__ if f.name == "a")
    if isinstance(t.n, int) and not isinstance(t.elem, (R.Char, R.WChar)):
        l = list(a)
        k = X.pick("wrong", ("more", "fewer", "empty"))
        l = l + [rt.type.__default__()] if k == "more" else l[:-1] if k == "fewer" else []
        if len(l) != t.n:
            r = X.call(rt.dumps, l)
            X.check(r.raised(ArraySizeError), "dumping a fixed-size array with another number of elements is refused", got=r, length=len(l))
            p.value.a = l
            r = X.call(p.value.dumps)
            X.check(r.raised(ArraySizeError), "dumping a fixed-size array field with another number of elements is refused", got=r, length=len(l))


SIZES = {}


def eof_zero(st, m):
    return has(st, lambda t: is_eof(t) and t.elem.size(m) == 0)


def canonical(st, spec, data, m):
    w = R.write(st, spec[0], m)
    return len(w) == spec[1] or not has(st, lambda t: isinstance(t, R.Leb))


def gen_direct(rng):
    m = mode(rng)
    g = Gen(rng)
    form = rng.choice(("fixed", "null", "eof", "expr"))
    e = g.zelem() if form == "null" else elem(rng, g)
    return Case(st=R.Struct("T", [R.F("x", e)]), mode=m, compiled=rng.random() < .5, form=form, n=rng.randrange(-2, 5))


@contract("C07", gen_direct, 2000, 30000)
def direct(X, c):
    """The same for array types made with T[n], T[None] and T[Expression], parsed on their own."""
    from dissect.cstruct.expression import Expression
    cs = load(X, c)
    e = c.st.fields[0].type
    et = cs.T.__fields__[0].type
    m = c.mode
    if c.form == "fixed": a, t = et[c.n], R.Arr(e, c.n)
    elif c.form == "null": a, t = et[None], R.Arr(e, None)
    elif c.form == "eof": a, t = et[Expression(cs, "EOF")], R.Arr(e, "EOF")
    else: a, t = et[Expression(cs, f"{c.n} + 1")], R.Arr(e, c.n + 1)
    X.assume(not (c.form == "eof" and e.size(m) == 0))
    data = X.bytes("data", X.pick("len", (3, 20, 90)))
    X.assume(not m.aligned)
    spec = ref_read(X, t, list(data), 0, m)
    X.assume(spec is None or not bad_utf16(spec[0]) and not has_nan(spec[0]))
    s = io.BytesIO(data)
    p = X.call(a.read, s)
    if spec is None:
        X.check(not p.ok, "too short an input for the array is rejected", outcome=p)
        return
    X.check(p.ok and real.norm(p.value, t) == spec[0], "the array holds the prescribed elements", got=p, expected=spec[0])
    X.check(s.tell() == spec[1], "the stream is right after the array", got=s.tell(), expected=spec[1])
    w = bytes(b for b, _ in R.write(t, spec[0], m))
    d = X.call(a.dumps, p.value)
    if len(w) == spec[1] or not has(e, lambda t: isinstance(t, R.Leb)):
        X.check(d.ok and d.value == w, "dumping writes the elements (and the terminator)", got=d, expected=w.hex())
