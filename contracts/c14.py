import copy
from contracts.common import *
from contracts.c11 import fix_any, masks


def snapshot(v):
    """observable value of an instance, fully detached"""
    if hasattr(type(v), "__fields__") or hasattr(v.__class__, "__fields__"):
        return (v.__class__, [(f._name, snapshot(getattr(v, f._name))) for f in v.__class__.__fields__])
    if isinstance(v, list): return [snapshot(x) for x in v]
    if isinstance(v, (T.Enum, T.Flag)): return (type(v), v.value)
    if isinstance(v, float): return repr(float(v))
    if isinstance(v, (bytes, str, int)): return v.__class__, bytes(v) if isinstance(v, bytes) else str(v) if isinstance(v, str) else int(v)
    return type(v)


def paths(v, p=()):
    """every mutable place in an instance: (path, kind)"""
    if hasattr(v.__class__, "__fields__"):
        for f in v.__class__.__fields__:
            yield p + (f._name,), "attr", f
            yield from paths(getattr(v, f._name), p + (f._name,))
    elif isinstance(v, list):
        yield p, "list", None
        for i, x in enumerate(v[:4]): yield from paths(x, p + (i,))


def get(v, path):
    for s in path: v = v[s] if isinstance(s, int) else getattr(v, s)
    return v


def other_value(x, f):
    """some other value of the same type"""
    new = lambda v: type.__call__(type(x), v)
    if isinstance(x, (T.Enum, T.Flag)): return type(x)(x.value ^ 1)
    if hasattr(x.__class__, "__fields__"): return x.__class__()
    if isinstance(x, list): return new(x[::-1]) if len(x) > 1 else new(x)
    if isinstance(x, bytes): return new(bytes(b ^ 1 for b in x))
    if isinstance(x, str): return new(x[::-1])
    if isinstance(x, float): return new(x + 1)
    if isinstance(x, T.Pointer): return x + 1 if int(x) == 0 else x - 1
    if isinstance(x, int): return new(int(x) ^ 1) if x >= 0 else new(0)
    return x


def mutate(X, v, name):
    """one random in-place change of a structure instance"""
    opts = list(paths(v))
    if not opts: return None
    path, kind, f = X.pick(name, opts)
    if kind == "attr":
        o = get(v, path[:-1])
        cur = getattr(o, path[-1])
        return path, X.call(setattr, o, path[-1], other_value(cur, f))
    l = get(v, path)
    op = X.pick(name + "op", ("append", "set", "clear", "reverse", "extend"))
    if op == "append": l.append(l[0] if l else 0)
    elif op == "set" and l: l[0] = other_value(l[0], None)
    elif op == "clear": l.clear()
    elif op == "reverse": l.reverse()
    elif op == "extend": l.extend(l[:1])
    return path, op


class Limited(io.BytesIO):
    """a stream that fails after a while: a null-terminated array of elements that consume nothing has no end"""
    left = 5000
    def tick(self):
        self.left -= 1
        if self.left < 0: raise OSError("no more")
    def read(self, *a): self.tick(); return super().read(*a)
    def seek(self, *a): self.tick(); return super().seek(*a)
    def tell(self): self.tick(); return super().tell()


@contract("C14", gen_struct(), 3000, 40000)
def instances(X, c):
    """Mutating an instance, at any depth, changes no other instance, no later default and no later parse."""
    cs = load(X, c)
    data = X.bytes("data", X.pick("len", lens(c, (20, 60, 160))))
    spec = ref_read(X, c.st, list(data), 0, c.mode)
    parseable = spec is not None and not bad_utf16(spec[0]) and not has_nan(spec[0])
    z = R.zero(c.st, c.mode)
    def make(name):
        k = X.pick(name, ("default", "default", "parse", "default"))
        if k == "default" or not parseable: return X.call(cs.T), z
        return X.call(cs.T.read, data), spec[0]
    inst = []
    for i in range(X.pick("n", (2, 3, 4))):
        v, exp = make(f"make{i}")
        X.check(v.ok, "instances can be made", outcome=v)
        X.check(real.norm(v.value, c.st) == exp, "an instance has its default / parsed value", got=lambda: real.norm(v.value, c.st), expected=exp)
        inst.append(v.value)
    snaps = [snapshot(v) for v in inst]
    for step in range(X.pick("steps", range(1, 6))):
        i = X.pick(f"who{step}", range(len(inst)))
        how = mutate(X, inst[i], f"m{step}")
        try:
            snaps[i] = snapshot(inst[i])
        except Exception:
            raise Skip()
        for j, v in enumerate(inst):
            X.check(snapshot(v) == snaps[j], "mutating one instance changes no other", mutated=i, other=j, how=how, got=lambda: snapshot(v), expected=snaps[j])
        d = X.call(cs.T)
        X.check(d.ok and real.norm(d.value, c.st) == z, "mutating an instance does not change what a default construction returns", how=how, got=d, expected=z)
        if parseable:
            p = X.call(cs.T.read, data)
            X.check(p.ok and real.norm(p.value, c.st) == spec[0], "mutating an instance does not change what parsing returns", how=how, got=p, expected=spec[0])
        if X.pick(f"new{step}", (0, 0, 1)):
            v, exp = make(f"make+{step}")
            inst.append(v.value); snaps.append(snapshot(v.value))
    # also through an array of the type
    for n in (2,):
        a = X.call(lambda: cs.T[n].__default__())
        if a.ok and X.pick("array", (0, 1)):
            s1 = snapshot(a.value[1])
            mutate(X, a.value[0], "am")
            X.check(snapshot(a.value[1]) == s1, "elements of a default array are independent", got=lambda: snapshot(a.value[1]), expected=s1)
            b = X.call(lambda: cs.T[n].__default__())
            X.check(b.ok and [real.norm(x, c.st) for x in b.value] == [z, z], "mutating a default array does not change what a later one holds", got=b)


def gen_many(rng):
    ms = [mode(rng) for _ in range(rng.randint(2, 3))]
    cases = []
    for m in ms:
        g = Gen(rng, maxfields=4, maxdepth=1)
        cases.append((g.struct(name="T"), m, rng.random() < .5))
    if rng.random() < .35:  # the same text under different settings
        st = cases[0][0]
        cases = [(st, m, k) for _, m, k in cases]
    return Case(defs=[R.source(s, m) for s, m, _ in cases], endians=[m.endian for m in ms], _cases=cases, mode=ms[0])


@contract("C14", gen_many, 1500, 20000)
def objects(X, c):
    """Loading, adding types, changing endianness or constants on one cstruct object never affects another."""
    objs = []
    for i, (st, m, comp) in enumerate(c._cases):
        m = R.Mode(m.endian, m.aligned, m.ptr, {})
        o = X.call(real.load, R.source(st, m), m, comp)
        X.check(o.ok, "a definition of the supported grammar loads", outcome=o)
        objs.append([o.value, st, m])
    data = X.bytes("data", 120)
    def verify(after):
        for i, (cs, st, m) in enumerate(objs):
            spec = ref_read(X, st, list(data), 0, m)
            if spec is None:
                X.check(X.call(cs.T.read, data).raised(EOFError, UnicodeDecodeError), "a type of another cstruct object is not affected", after=after)
                continue
            if bad_utf16(spec[0]) or has_nan(spec[0]): raise Skip()
            p = X.call(cs.T.read, data)
            if p.raised(UnicodeDecodeError): raise Skip()  # undecodable characters in an element that is not whole
            X.check(p.ok and real.norm(p.value, st) == spec[0], "a type of a cstruct object parses as its own definition says", after=after, object=i, got=p, expected=spec[0])
            w = bytes(b for b, _ in R.write(st, spec[0], m))
            d = X.call(p.value.dumps)
            X.check(d.ok and (len(d.value) == len(w)), "a type of a cstruct object dumps as its own definition says", after=after, object=i, got=d, expected=w)
            z = X.call(cs.T)
            X.check(z.ok and real.norm(z.value, st) == R.zero(st, m), "a default of a cstruct object is its own", after=after, object=i, got=z)
    verify("loading")
    for step in range(X.pick("steps", range(1, 5))):
        i = X.pick(f"who{step}", range(len(objs)))
        cs, st, m = objs[i]
        op = X.pick(f"op{step}", ("endian", "load", "type", "const", "alias", "scalar", "lookup", "reload", "new"))
        if op == "endian":
            e = X.pick(f"e{step}", "<>")
            cs.endian = e
            objs[i][2] = R.Mode(e, m.aligned, m.ptr, m.consts)
        elif op == "load":
            X.call(cs.load, f"struct Extra{step} {{ uint8 x[{step}]; uint32 y; }};\nenum En{step} {{ A, B }};", compiled=bool(step & 1), align=bool(i & 1))
        elif op == "type":
            X.call(cs.add_custom_type, f"custom{step}", T.Char, 1)
        elif op == "const":
            cs.consts.update(f1=2, A=step)
        elif op == "alias":
            X.call(cs.add_type, f"al{step}", "uint32")
            for o in objs:
                X.check(o[0] is cs or f"al{step}" not in o[0].typedefs, "an alias does not appear in another cstruct object", name=f"al{step}")
        elif op == "lookup":
            X.call(cs.load, f"#define LK{step} {step}\n$tab{step} = {{'LK{step}': 'x'}}\n")
            fresh = cstruct()
            X.check(not fresh.lookups and not fresh.consts, "a new cstruct object starts without lookups and constants", got=(fresh.lookups, fresh.consts))
            for o in objs:
                X.check(o[0] is cs or f"tab{step}" not in o[0].lookups and f"LK{step}" not in o[0].consts, "lookups and constants do not appear in another cstruct object", name=f"tab{step}")
        elif op == "scalar":
            X.call(cs.uint32, b"\1\2\3\4"); X.call(cs.uint32, b"\1"); X.call(cs.uint16[3], b"\1" * 6); X.call(cs.int24, b"\1\2\3")
        elif op == "reload":
            X.call(cs.load, "struct T { uint8 other; };")  # rejected or not, the others must not notice
            objs[i][0] = cs
            if X.pick(f"drop{step}", (1,)): objs[i] = redo(X, st, objs[i][2])
        elif op == "new":
            k = cstruct(endian=X.pick(f"ne{step}", "<>"))
            k.load("struct T { uint64 z[2]; }; typedef struct { uint8 a; } S1;")
            X.call(k.T, b"\0" * 16)
        verify(op)
    # constants, names
    for i, (cs, st, m) in enumerate(objs):
        for j, o in enumerate(objs):
            if i != j:
                X.check(cs.typedefs is not o[0].typedefs and cs.consts is not o[0].consts and cs.lookups is not o[0].lookups, "tables are not shared between cstruct objects")


def redo(X, st, m):
    m = R.Mode(m.endian, m.aligned, m.ptr, {})
    return [real.load(R.source(st, m), m, False), st, m]


@contract("C14", gen_struct(), 3000, 40000)
def purity(X, c):
    """Parsing is a function of type and bytes, whatever was parsed, dumped, constructed or failed before."""
    cs = load(X, c)
    t = cs.T
    data = X.bytes("data", X.pick("len", lens(c, (30, 80, 160))))
    spec = ref_read(X, c.st, list(data), 0, c.mode)
    X.assume(spec is None or not bad_utf16(spec[0]) and not has_nan(spec[0]))
    def verify(after):
        p = X.call(t.read, data)
        if spec is None:
            X.check(p.raised(EOFError, UnicodeDecodeError), "parsing truncated data is an end-of-file error", after=after, got=p)
            return
        if p.raised(UnicodeDecodeError) and after == "nothing": raise Skip()
        X.check(p.ok and real.norm(p.value, c.st) == spec[0], "parsing gives the same result whatever happened before", after=after, got=p, expected=spec[0])
        w = bytes(b for b, _ in R.write(c.st, spec[0], c.mode))
        d = X.call(p.value.dumps)
        if not has(c.st, lambda x: isinstance(x, R.Struct) and x.union):
            X.check(d.ok and d.value == w, "dumping gives the same result whatever happened before", after=after, got=d, expected=w)
    verify("nothing")
    for step in range(X.pick("steps", range(1, 6))):
        op = X.pick(f"op{step}", ("parse", "truncate", "garbage", "construct", "baddump", "badassign", "expr", "badload", "goodload", "array", "bool", "sizeof", "stub", "deref", "setbits"))
        if op == "parse": X.call(t.read, X.bytes(f"d{step}", 160))
        elif op == "truncate":
            X.call(t.read, data[:X.int(f"cut{step}", 0, len(data))])
        elif op == "garbage": X.call(t.read, X.pick(f"g{step}", (None, 3, "x", io.BytesIO(b"\xff" * 9))))
        elif op == "construct": X.call(lambda: t()); X.call(lambda: t(nope=1)); X.call(lambda: t(1, 2, 3))
        elif op == "baddump":
            v = t()
            for f in t.__fields__: v.__dict__[f._name] = object()
            X.call(v.dumps)
        elif op == "badassign":
            v = X.call(t.read, data)
            if v.ok:
                for f in t.__fields__: X.call(setattr, v.value, f._name, 1 << 200)
                X.call(v.value.dumps)
        elif op == "expr":
            from dissect.cstruct.expression import Expression
            for e in ("1 +", "1 + nope", "(2", "3 3", "1 / 0", "f1 * 4", "sizeof(T)"): X.call(lambda: Expression(cs, e).evaluate({"f1": 3}))
        elif op == "badload": 
            for s in ("struct Q { nope x; };", "struct T { uint8 }", "struct Q2 { uint8 a[1 +]; };", "enum E9 { A = };", "struct Q3 { uint8 a; uint8 a; };"): X.call(cs.load, s)
        elif op == "goodload": X.call(cs.load, f"struct G{step} {{ T t; uint8 n; T arr[n]; T z[2]; }};", compiled=bool(step & 1)); X.call(lambda: getattr(cs, f"G{step}")(data))
        elif op == "array": X.call(lambda: t[3](data * 3)); X.call(lambda: t[None](Limited(data))); X.call(lambda: t[2].__default__())
        elif op == "bool": X.call(lambda: (bool(t()), t() == t(), hash(t()), repr(t())))
        elif op == "sizeof": X.call(len, t)
        elif op == "stub":
            from dissect.cstruct.tools.stubgen import generate_cstruct_stub
            X.call(generate_cstruct_stub, cs)
        elif op == "deref":
            v = X.call(t.read, data)
            if v.ok:
                for f in t.__fields__:
                    if issubclass(f.type, T.Pointer): X.call(getattr(v.value, f._name).dereference)
        elif op == "setbits":
            from dissect.cstruct.bitbuffer import BitBuffer
            b = BitBuffer(io.BytesIO(b"\1"), "<"); X.call(b.read, cs.uint8, 3); X.call(b.read, cs.uint16, 9); X.call(b.write, cs.uint8, 300, 4)
        verify(op)
