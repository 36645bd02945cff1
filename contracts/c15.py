from contracts.common import *
from contracts.c14 import snapshot
from pyv import sched

EXPRS = ["n", "(n & 3) + 1", "((n >> 2) | 1) & 7", "n % 5 + m % 3", "(n * 2 + m) & 7", "~n & 3", "-n + 9", "sizeof(uint16) + (m & 1)", "K + (n & 1)", "(K | n) & 6", "1 << (n & 3)"]


def gen_shared(rng):
    m = mode(rng)
    r = rng.random()
    if r < .45:
        g = Gen(rng, maxfields=3, maxdepth=1, eof=False)
        inner = g.struct(depth=1)
        m.consts["K"] = rng.randrange(4)
        fs = [R.F("n", R.Int("uint8")), R.F("m", R.Int("uint8"))]
        for i in range(rng.randint(1, 3)):
            k = rng.random()
            el = R.Int(rng.choice(["uint8", "uint16", "uint24", "int32"])) if k < .5 else inner if k < .7 else R.Char() if k < .8 else g.enum() if k < .9 else R.Ptr(R.Int("uint16"))
            fs.append(R.F(f"a{i}", R.Arr(el, rng.choice(EXPRS))))
            if rng.random() < .4: fs += [R.F(f"p{i}", R.Int("uint16"), 3), R.F(f"q{i}", R.Int("uint16"), rng.randint(1, 13))]
        st = R.Struct("T", fs)
    else:
        g = Gen(rng, maxfields=5)
        st = g.struct(name="T")
    return Case(st=st, mode=m, compiled=rng.random() < .5)


def load_shared(X, c):
    src = "".join(f"#define {k} {v}\n" for k, v in c.mode.consts.items()) + R.source(c.st, c.mode)
    return load(X, c, src)


def derefs(v, out, depth=0):
    if hasattr(v.__class__, "__fields__"):
        for f in v.__class__.__fields__: derefs(getattr(v, f._name), out, depth + 1)
    elif isinstance(v, list):
        for x in v[:3]: derefs(x, out, depth + 1)
    elif isinstance(v, T.Pointer):
        try: out.append(snapshot(v.dereference()))
        except Exception as e: out.append(type(e).__name__)
    return out


def op_parse(t, data):
    def f():
        v = t.read(io.BytesIO(data))
        return snapshot(v), derefs(v, [])
    return f


def op_dump(t, v):
    return lambda: v.dumps()


def op_round(t, data):
    def f():
        v = t.read(data)
        w = t.read(data)
        h = hash_or(v)
        # the hash of a NaN depends on its address (unions with one are equal all the same)
        return v.dumps(), bool(v), h if h == hash_or(w) else None, v == w
    return f


def op_array(t, data):
    def f():
        return [snapshot(x) for x in t[2].read(io.BytesIO(data))]
    return f


def op_default(t, data): return lambda: snapshot(t())


def hash_or(v):
    try: return hash(v)
    except TypeError: return None


def outcome(f):
    try: return ("ok", f())
    except Exception as e: return ("exc", e)


def eq(a, b):
    if a is None or a[0] != b[0]: return False
    return a[1] == b[1] if a[0] == "ok" else type(a[1]) is type(b[1])


@contract("C15", gen_shared, 500, 6000, cap=60)
def interleavings(X, c):
    """Two or three threads using one type: every thread gets what it gets alone, for schedules with up to three
    preemptions at source lines."""
    cs = load_shared(X, c)
    t = cs.T
    n = X.pick("threads", (2, 2, 2, 3))
    datas = [X.bytes(f"data{i}", 96) for i in range(n)]
    ops = []
    for i, d in enumerate(datas):
        if i and X.pick(f"same{i}", (0, 0, 0, 0, 1)): d = datas[0]
        kind = X.pick(f"op{i}", ("parse", "parse", "parse", "round", "array", "default", "dump"))
        if kind == "dump":
            v = X.call(t.read, d)
            if not v.ok: kind = "parse"
            else: ops.append(op_dump(t, v.value))
        if kind != "dump": ops.append({"parse": op_parse, "round": op_round, "array": op_array, "default": op_default}[kind](t, d))
    alone = [outcome(f) for f in ops]
    for i, d in enumerate(datas[:1]):
        spec = ref_read(X, c.st, list(d), 0, c.mode)
        if spec is not None and not bad_utf16(spec[0]) and not has_nan(spec[0]):
            p = X.call(t.read, d)
            X.check(p.ok and real.norm(p.value, c.st) == spec[0] or p.raised(UnicodeDecodeError), "parsing alone gives the value prescribed by the definition", got=p, expected=spec[0])
    steps = 0
    for f in ops:
        k, r = sched.count(f)
        steps += k
    if not steps: raise Skip()
    first = max(1, steps // n)
    for s in range(8):
        style = X.pick(f"style{s}", ("one", "one", "two", "two", "three", "all"))
        if style == "all" and steps > 1500: style = "two"
        sw = list(range(1, steps, X.pick(f"stride{s}", (1, 2, 3, 7)))) if style == "all" else sorted(X.int(f"s{s}.{j}", 1, max(1, first if j == 0 else steps)) for j in range({"one": 1, "two": 2, "three": 3}[style]))
        sc = sched.Scheduler(ops, sw)
        res = sc.run()
        for i in range(n):
            X.check(eq(res[i], alone[i]), "a thread gets exactly the result it gets alone", thread=i, switches=sw if style != "all" else f"every {sw[:2]}", at=sc.where[:8], got=res[i], expected=alone[i])


@contract("C15", gen_shared, 120, 1500, cap=60)
def first_use(X, c):
    """The same on types that have not been used before: nothing is set up lazily in a way another thread can observe."""
    cs = load_shared(X, c)
    d = [X.bytes(f"data{i}", 96) for i in range(2)]
    alone = [outcome(op_parse(cs.T, x)) for x in d]
    steps, _ = sched.count(op_parse(load_shared(X, c).T, d[0]))
    for s in range(4):
        k = load_shared(X, c)
        # types of different cstruct objects are different: compare the values only
        sc = sched.Scheduler([op_parse(k.T, x) for x in d], sorted(X.int(f"s{s}.{j}", 1, max(1, steps)) for j in range(X.pick(f"n{s}", (1, 2)))))
        res = sc.run()
        for i in range(2):
            X.check(res[i] is not None and res[i][0] == alone[i][0] and (res[i][0] == "exc" or values_only(res[i][1]) == values_only(alone[i][1])), "a thread gets exactly the result it gets alone (first use)", thread=i, at=sc.where, got=res[i], expected=alone[i])


def values_only(x):
    if isinstance(x, type): return x.__name__
    if isinstance(x, (tuple, list)): return [values_only(y) for y in x]
    return x


def gen_expr_shared(rng):
    from contracts.c10 import gen_expr
    c = gen_expr(rng)
    return Case(text=c.text, ctxs=c.ctxs)


@contract("C15", gen_expr_shared, 400, 5000, cap=60)
def shared_expressions(X, c):
    """One expression object evaluated by two threads with different contexts."""
    from contracts import c10
    e = X.call(Expression_, c10.cs(), c.text)
    X.check(e.ok, "a well-formed expression is accepted", outcome=e)
    ops = [lambda ctx=ctx: e.value.evaluate(dict(ctx)) for ctx in c.ctxs[:2]]
    alone = [outcome(f) for f in ops]
    steps, _ = sched.count(ops[0])
    for s in range(12):
        sw = sorted(X.int(f"s{s}.{j}", 1, max(1, steps)) for j in range(X.pick(f"n{s}", (1, 2, 2))))
        sc = sched.Scheduler(ops, sw)
        res = sc.run()
        for i in range(2):
            X.check(eq(res[i], alone[i]), "a thread gets exactly the result it gets alone", text=c.text, contexts=c.ctxs[:2], thread=i, switches=sw, at=sc.where, got=res[i], expected=alone[i])


def Expression_(cs, text):
    from dissect.cstruct.expression import Expression
    return Expression(cs, text)
