from contracts.common import *
from pyv import refexpr

BASES = ["int8", "uint8", "int16", "uint16", "int24", "uint24", "int32", "uint32", "int48", "uint48", "int64", "uint64", "int128", "uint128"]
SYN = {"unsigned int": "uint32", "DWORD": "uint32", "long long": "int64", "BYTE": "uint8", "__u16": "uint16", "unsigned long long": "uint64", "short": "int16"}


def member_text(rng, names, flag, lo, hi):
    """an explicit value: a literal or an expression over earlier members"""
    k = rng.random()
    if k < .45 or not names:
        v = rng.choice((0, 1, 2, 3, 4, 7, 8, 16, 100, rng.randrange(256), 1 << rng.randrange(12), min(hi, (1 << rng.choice((15, 16, 31, 32, 33, 63, 64, 65, 127))) - rng.choice((0, 1, 1, 2))), hi - rng.randrange(4)))
        if not flag and lo < 0 and rng.random() < .3: v = -v
        if v < 0: return f"-{-v}"
        return rng.choice((str(v), hex(v), bin(v), str(v) + "u", "0" + oct(v)[2:], f"{v}UL"))
    a = rng.choice(names)
    b = rng.choice(names + [str(rng.randrange(1, 9))])
    return rng.choice((a, f"{a} + {b}", f"{a}|{b}", f"({a} << 1) | 1", f"{a} * 2", f"({a}+{b})&0xff", f"{a} ^ {b}", f"~{a} & 0x7f", f"1 << ({a} & 7)", f"{a} - 1"))


def gen_enum(rng):
    while True:
        flag = rng.random() < .45
        base = rng.choice(BASES) if rng.random() < .8 else rng.choice(list(SYN))
        rb = SYN.get(base, base)
        explicit = rng.random() < .85
        if not explicit: base = rb = "uint32"
        w = 8 * R.INT_TYPES[rb][0]
        signed = R.INT_TYPES[rb][1]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        mem, vals, nxt, ok = [], {}, 1 if flag else 0, True
        for i in range(rng.choice((1, 1, 2, 3, 4, 5, 6, 9))):
            nm = rng.choice(("A", "B", "Cc", "_d", "E1", "name_x", "value_", "F", "G7")) + str(i)
            txt = member_text(rng, list(vals), flag, lo, hi) if rng.random() < .55 else None
            v = nxt if txt is None else refexpr.evaluate(txt, vals)
            if not lo <= v <= hi: ok = False
            if flag and v < 0: ok = False
            mem.append((nm, txt)); vals[nm] = v
            nxt = (1 << v.bit_length()) if flag else v + 1
        if ok: break
    sep = rng.choice((", ", ",", ",\n    ", " , "))
    body = sep.join(k if t is None else k + rng.choice((" = ", "=", "  =\t")) + t for k, t in mem) + rng.choice(("", "", ",", "\n"))
    anon = rng.random() < .15
    name = "" if anon else "En"
    src = f"{'flag' if flag else 'enum'} {name}{f' : {base}' if explicit else ''} {{ {body} }};"
    return Case(src=src, vals=vals, base=rb, flag=flag, anon=anon, lo=lo, hi=hi, mode=mode(rng), compiled=rng.random() < .5)


def load_enum(X, c, extra=""):
    o = X.call(real.load, c.src + extra, c.mode, c.compiled)
    X.check(o.ok, "an enumeration of the supported grammar loads", definition=c.src + extra, outcome=o)
    return o.value


@contract("C12", gen_enum, 6000, 80000)
def numbering(X, c):
    """Members are numbered like in C; explicit values may be expressions over earlier members."""
    other = "" if c.anon else "\n" + c.src.replace(" En", " Other", 1)
    cs = load_enum(X, c, other)
    if c.anon:
        for k, v in c.vals.items():
            g = X.call(getattr, cs, k)
            X.check(g.ok and int(g.value) == v == g.value.value, "members of an anonymous enumeration are constants with their value", member=k, got=g, expected=v)
        return
    E = cs.En
    got = {k: x.value for k, x in E.__members__.items()}
    X.check(got == c.vals and list(got) == list(c.vals), "member values follow C numbering", got=got, expected=c.vals)
    X.check(E.size == R.INT_TYPES[c.base][0], "an enumeration has the size of its underlying type", got=E.size)
    for k, v in c.vals.items():
        a = getattr(E, k)
        X.check(a.value == v and int(a) == v, "a member has its integer value", member=k, got=a.value, expected=v)
        X.check(E[k].value == v, "a member can be looked up by name", member=k, got=E[k])
        X.check(a == v and not (a != v) and not (a == v + 1) and v == a, "a member equals its integer value and nothing else", member=k)
        X.check(a == E(v) and E(v) == a, "a member equals any same-class member with that value", member=k)
        for k2, v2 in c.vals.items():
            X.check((a == getattr(E, k2)) == (v == v2) and (a != getattr(E, k2)) == (v != v2), "members are equal exactly when their values are", a=k, b=k2)
        b = getattr(cs.Other, k)
        X.check(not (a == b) and a != b and not (b == a) and b != a, "a member never equals a member of another enumeration", member=k)
        X.check(not (a == cs.Other(v)) and a != cs.Other(v) and E(v) != b and not (cs.Other(v) == a), "a member never equals a member of another enumeration", member=k)


def values_of(X, c, name):
    k = X.pick(name + "k", range(4))
    if k == 0: return X.pick(name, list(c.vals.values()))
    if k == 1: return X.pick(name, [v for v in list(c.vals.values()) for v in (v + 1, v - 1, -v) if c.lo <= v <= c.hi] or [0])
    if k == 2 and c.flag:
        v = 0
        for x in c.vals.values():
            if X.pick(name + "or", (0, 1)): v |= x
        return v
    return X.int(name, c.lo, c.hi)


@contract("C12", gen_enum, 6000, 80000)
def preserved(X, c):
    """Every value of the underlying type survives parsing and dumping: scalar, array, null-terminated, to EOF, field, bit-field."""
    if c.anon: raise Skip()
    w = 8 * R.INT_TYPES[c.base][0]
    bits = X.pick("bits", [b for b in (1, 2, 3, 5, 7, 8, 11, 15, 16, 31, w) if b <= w])
    b2 = X.pick("bits2", [b for b in (1, 3, 4, 8, 13) if b <= w - bits] or [0])
    bf = f"En p : {bits};" + (f" En q : {b2};" if b2 else "")
    cs = load_enum(X, c, f"\nenum Other : {c.base} {{ A0, B1 }};\nstruct S {{ uint8 h; En e; En a[3]; En z[]; {bf} uint8 t; }};\nstruct R {{ En rest[EOF]; }};")
    E, m, n = cs.En, c.mode, w // 8
    enc = lambda v: bytes(R.enc_uint(v, n, m.little))
    v = values_of(X, c, "v")

    def same(e, v, what):
        X.check(isinstance(e, E) and type(e) is E, f"{what} is an instance of the enumeration", got=type(e))
        X.check(e.value == v and int(e) == v, f"{what} has exactly the integer that was read", got=e.value, expected=v)
        X.check(e == v and v == e and not (e != v), f"{what} equals the integer", value=v)
    e = X.call(E, enc(v))
    X.check(e.ok, "every underlying value parses", value=v, outcome=e)
    same(e.value, v, "a parsed value")
    again = X.call(E.read, io.BytesIO(enc(v))).value
    X.check(again == e.value and hash(again) == hash(e.value) and not (again != e.value), "two parses of one value are equal with equal hashes", value=v)
    made = X.call(E, v)
    X.check(made.ok and made.value == e.value and hash(made.value) == hash(e.value), "constructing gives the same as parsing", value=v, got=made)
    X.check(e.value != cs.Other(v) and not (cs.Other(v) == e.value), "never equal to a member of another enumeration", value=v)
    for what, d in (("instance", X.call(e.value.dumps)), ("type", X.call(E.dumps, e.value))):
        X.check(d.ok and d.value == enc(v), f"dumping writes the integer back ({what})", value=v, got=d, expected=enc(v))
    X.check(str(e.value) is not None and repr(e.value) is not None, "printable")

    arr = [values_of(X, c, f"a{i}") for i in range(3)]
    a = X.call(E[3], b"".join(map(enc, arr)))
    X.check(a.ok and [x.value for x in a.value] == arr and all(type(x) is E for x in a.value), "array of enumeration values", got=a, expected=arr)
    d = X.call(E[3].dumps, a.value)
    X.check(d.ok and d.value == b"".join(map(enc, arr)), "dumping an array of enumeration values", got=d)
    z = [x for x in arr if x]
    a = X.call(E[None], b"".join(map(enc, z)) + enc(0) + b"\xaa" * n)
    X.check(a.ok and [x.value for x in a.value] == z, "null-terminated array of enumeration values", got=a, expected=z)
    d = X.call(E[None].dumps, a.value)
    X.check(d.ok and d.value == b"".join(map(enc, z)) + enc(0), "dumping a null-terminated array", got=d)
    r = X.call(cs.R, b"".join(map(enc, arr)))
    X.check(r.ok and [x.value for x in r.value.rest] == arr and all(type(x) is E for x in r.value.rest), "array to the end of the input", got=r, expected=arr)

    # as a structure member and as bit-fields (which carry the raw bits, unsigned)
    st = R.Struct("S", [R.F("h", R.Int("uint8")), R.F("e", R.Enum("En", R.Int(c.base), [])), R.F("a", R.Arr(R.Enum("En", R.Int(c.base), []), 3)),
                        R.F("z", R.Arr(R.Enum("En", R.Int(c.base), []), None)), R.F("p", R.Enum("En", R.Int(c.base), []), bits)]
                  + ([R.F("q", R.Enum("En", R.Int(c.base), []), b2)] if b2 else []) + [R.F("t", R.Int("uint8"))])
    p, q = X.int("p", 0, (1 << bits) - 1), X.int("q", 0, (1 << b2) - 1)
    spec = {"h": 7, "e": v, "a": arr, "z": z, "p": p, **({"q": q} if b2 else {}), "t": 9}
    data = bytes(b for b, _ in R.write(st, spec, m))
    s = X.call(cs.S, data)
    X.check(s.ok, "a structure with enumeration members parses", outcome=s, data=data)
    s = s.value
    same(s.e, v, "a member")
    for x, y in zip(s.a, arr): same(x, y, "an array element")
    X.check(len(s.a) == 3 and [x.value for x in s.z] == z, "arrays", got=s.a)
    same(s.p, p, "a bit-field")
    if b2: same(s.q, q, "a bit-field")
    X.check(s.h == 7 and s.t == 9, "neighbours untouched")
    d = X.call(s.dumps)
    X.check(d.ok and d.value == data, "dumping writes the integers back", got=d, expected=data)
    s2 = X.call(cs.S, data).value
    for k in ("e", "p"):
        X.check(getattr(s, k) == getattr(s2, k) and hash(getattr(s, k)) == hash(getattr(s2, k)), "two parses of one value are equal with equal hashes")
    X.check(s == s2, "structures with equal enumeration members are equal")


@contract("C12", gen_enum, 1200, 12000)
def histories(X, c):
    """What values were met before does not change what a value becomes: every value is preserved in any order of use."""
    if c.anon: raise Skip()
    cs = load_enum(X, c)
    E, n = cs.En, R.INT_TYPES[c.base][0]
    enc = lambda v: bytes(R.enc_uint(v, n, c.mode.little))
    vs = [values_of(X, c, f"v{i}") for i in range(6)]
    seen = {}
    for v in vs + vs[::-1]:
        if X.pick("how", (0, 1)): e = X.call(E, enc(v))
        else: e = X.call(E, v)
        X.check(e.ok and e.value.value == v, "value preserved", value=v, got=e)
        if v in seen:
            X.check(seen[v] == e.value and hash(seen[v]) == hash(e.value), "equal values are equal objects with equal hashes", value=v)
        seen[v] = e.value
        if X.pick("op", (0, 1)): str(e.value), repr(e.value), list(E), E.__members__
    X.check({k: x.value for k, x in E.__members__.items()} == c.vals, "the members are not changed by use", got=E.__members__)


def gen_leb(rng):
    return Case(signed=rng.random() < .5, mode=mode(rng), flag=rng.random() < .3)


@contract("C12", gen_leb, 300, 3000)
def variable_width_base(X, c):
    """The underlying type may be any integer type, also one of variable width."""
    b = "ileb128" if c.signed else "uleb128"
    o = X.call(real.load, f"{'flag' if c.flag else 'enum'} En : {b} {{ A = 1, B, C = 300 }};", c.mode)
    X.check(o.ok, "loads", outcome=o)
    E = o.value.En
    v = X.int("v", -(1 << 40) if c.signed else 0, 1 << 40)
    data = bytes(x for x, _ in R.write(R.Leb(b), v, c.mode))
    e = X.call(E, data)
    X.check(e.ok and e.value.value == v, "value preserved", got=e, expected=v)
    d = X.call(e.value.dumps)
    X.check(d.ok and d.value == data, "dumping writes it back", got=d, expected=data)
