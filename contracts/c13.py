import re
from contracts.common import *

TOKEN = re.compile(r"\s*(#\[[^\]]*\]|#define[^\n]*\n|\[[^\]]*\]|0[xX][0-9a-fA-F]+[uUlL]*|0[bB][01]+|[A-Za-z_0-9]+|<<|>>|[^\s])")

SYN = {  # built-in synonyms, by the C / Windows / IDA vocabulary
    "short": "int16", "unsigned short": "uint16", "signed short": "int16", "int": "int32", "signed int": "int32", "unsigned int": "uint32",
    "long long": "int64", "unsigned long long": "uint64", "signed long long": "int64", "signed char": "int8",
    "BYTE": "uint8", "CHAR": "char", "SHORT": "int16", "WORD": "uint16", "DWORD": "uint32", "LONG": "int32", "LONG64": "int64", "LONGLONG": "int64",
    "QWORD": "uint64", "OWORD": "uint128", "WCHAR": "wchar", "UCHAR": "uint8", "USHORT": "uint16", "ULONG": "uint32", "ULONG64": "uint64",
    "ULONGLONG": "uint64", "INT": "int32", "INT8": "int8", "INT16": "int16", "INT32": "int32", "INT64": "int64", "INT128": "int128",
    "UINT": "uint32", "UINT8": "uint8", "UINT16": "uint16", "UINT32": "uint32", "UINT64": "uint64", "UINT128": "uint128",
    "__int8": "int8", "__int16": "int16", "__int32": "int32", "__int64": "int64", "__int128": "int128", "unsigned __int8": "uint8",
    "unsigned __int16": "uint16", "unsigned __int32": "uint32", "unsigned __int64": "uint64", "unsigned __int128": "uint128",
    "wchar_t": "wchar", "int8_t": "int8", "int16_t": "int16", "int32_t": "int32", "int64_t": "int64", "int128_t": "int128",
    "uint8_t": "uint8", "uint16_t": "uint16", "uint32_t": "uint32", "uint64_t": "uint64", "uint128_t": "uint128",
    "_BYTE": "uint8", "_WORD": "uint16", "_DWORD": "uint32", "_QWORD": "uint64", "_OWORD": "uint128", "u1": "uint8", "u2": "uint16",
    "u4": "uint32", "u8": "uint64", "u16": "uint128", "__u8": "uint8", "__u16": "uint16", "__u32": "uint32", "__u64": "uint64",
    "uchar": "uint8", "ushort": "uint16", "uint": "uint32",
}
BACK = {}
for a, b in SYN.items(): BACK.setdefault(b, []).append(a)

KEYWORDISH = ["structure", "struct_a", "structx", "unions", "union_", "enumx", "enumerated", "flags", "flag", "flag_1", "typedefs", "typedef_", "define", "defined", "sizeofx", "EOFx", "_x", "__y", "unsignedx", "nocompile", "x0", "int_", "a_struct", "my_enum", "endunion"]
GAPS = [" ", "  ", "\n", "\t", "\r\n", "\n\n", "/* c */", "// c\n", "/* multi\n line\n*/", "/**/", "/* struct X { int y; }; */", "// } ; , enum {\n", "/* it's */", '/* " */',
        "// don't\n", "/* // */", "// /*\n", "/***/", "/* * / */", "/* a, b */", "//\n", "/* #define Q 3 */", "// #define Q 3\n", "/*x*/ /*y*/", "/* [3] */", "// x : 4;\n", "// c\r", "\r", "// d\r\n"]


def program(rng):
    """-> (items: list of C texts, names of types, consts)"""
    m = mode(rng)
    g = Gen(rng, maxdepth=2, maxfields=5)
    decls, seen = [], {}
    tops = []
    for i in range(rng.randint(1, 3)):
        st = g.struct(name=f"Top{i}", union=rng.random() < .12)
        if st.union and (any(f.bits for f in st.fields)): continue
        if has(st, lambda t: is_eof(t) and not t.elem.size(m) and t.elem.size(m) is not None): continue
        R.ctext(st, m, decls, seen)
        tops.append(st.name)
    items = list(decls)
    # keyword-like names, applied consistently (names are unique in the program)
    names = sorted({n for t in items for n in re.findall(r"\b(?:[fzb]\d+|[ENS]\d+(?:_M\d+)?)\b", t)})
    for n in names:
        if rng.random() < .25:
            new = rng.choice(KEYWORDISH) + (n if n[0] in "ENS" or rng.random() < .8 else "")
            if any(re.search(rf"\b{new}\b", t) for t in items): continue
            items = [re.sub(rf"\b{n}\b", new, t) for t in items]
    # typedef'd structures with several names
    out = []
    for t in items:
        k = re.match(r"struct (\w+) \{\n(.*)\};$", t, re.S)
        if k and rng.random() < .4 and f" {k[1]} " not in k[2]:
            nm = k[1]
            extra = [f"{nm}_al{j}" for j in range(rng.randint(0, 2))]
            style = rng.random()
            if style < .4: t = f"typedef struct {{\n{k[2]}}} {', '.join([nm] + extra)};"
            elif style < .7 and extra: t = f"typedef struct {nm} {{\n{k[2]}}} {', '.join(extra)};"
            elif extra: t = f"struct {nm} {{\n{k[2]}}} {', '.join(extra)};"
        elif k and rng.random() < .15:
            t = rng.choice(("#[nocompile]\n", "#[compile]\n")) + t
        if rng.random() < .3:  # synonyms
            t = re.sub(r"(?<=    )(\w+)(?= \**\w+[ \[;:])", lambda k: rng.choice(BACK[k[1]]) if k[1] in BACK and rng.random() < .6 else k[1], t)
        out.append(t)
    items = out
    # constants and aliases
    for j in range(rng.randint(0, 3)):
        v = rng.randrange(0, 4)
        items.insert(0 if j else 0, f"#define K{j} {v if not j or rng.random() < .6 else f'K{j - 1} + 1' if v else f'(K{j - 1} * 2) & 3'}\n")
        if rng.random() < .7:
            items = [re.sub(rf"\[{v}\]", f"[K{j}]", t) if not t.startswith("#") and rng.random() < .6 and v_of(items, f"K{j}") == v else t for t in items]
    if rng.random() < .5: items.insert(0, '#define STR "a // not /* a comment */ ; struct"\n')
    if rng.random() < .3: items.insert(0, "#define NEG -3\n")
    for j, t in enumerate(rng.sample(["uint16", "uint32", "char", "wchar", "unsigned int", "Top0", "long long", "uint8"], rng.randint(0, 3))):
        if t == "Top0" and "Top0" not in tops: continue
        form = rng.choice(("alias{j}", "*alias{j}", "alias{j}[2]", "alias{j}")).replace("{j}", str(j))
        if form.endswith("]") and t == "Top0": form = f"alias{j}"
        items.append(f"typedef {t} {form};")
        if rng.random() < .6:
            items.append(f"struct Use{j} {{\n    alias{j} x;\n    uint8 y;\n}};")
    # definitions may have been inserted before what they refer to
    items = topo(rng, items, shuffle=False)
    return items, m


def v_of(items, k):
    from pyv import refexpr
    env = {}
    for t in sorted((t for t in items if t.startswith("#define K"))):
        _, n, e = t.split(None, 2)
        try: env[n] = refexpr.evaluate(e.strip(), env)
        except Exception: return None
    return env.get(k)


def declared(t):
    """names declared by an item"""
    if t.startswith("#define"): return {t.split()[1]}
    t = re.sub(r"#\[\w+\]\s*", "", t)
    out = set()
    k = re.match(r"(?:typedef\s+)?(?:struct|union|enum|flag)\s+(\w+)", t)
    if k: out.add(k[1])
    if "}" in t and (k2 := re.search(r"\}\s*([\w, ]*);\s*$", t)) : out |= set(re.findall(r"\w+", k2[1]))
    if t.startswith("typedef") and "{" not in t: out.add(re.search(r"(\w+)(?:\[\d+\])?;$", t)[1])
    return out


def depends(items):
    d = [declared(t) for t in items]
    return [{j for j in range(len(items)) if j != i and d[j] & set(re.findall(r"\w+", items[i]))} for i in range(len(items))]


def topo(rng, items, shuffle=True):
    deps = depends(items)
    done, out = set(), []
    while len(out) < len(items):
        ready = [i for i in range(len(items)) if i not in done and deps[i] <= done]
        i = rng.choice(ready) if shuffle else ready[0]
        done.add(i); out.append(items[i])
    return out


def join(items): return "\n".join(items) + "\n"


def perturb(rng, text, rate):
    """insert whitespace / comments at token boundaries"""
    out, i = "", 0
    text = text.rstrip() + "\n"
    depth_enum = False
    while i < len(text):
        k = TOKEN.match(text, i)
        if not k:
            out += text[i:]; break
        gap, tok = text[i:k.start(1)], k[1]
        ins = ""
        if rng.random() < rate:
            for _ in range(rng.choice((1, 1, 2, 3))): ins += rng.choice(GAPS)
        j = rng.randint(0, len(gap))
        if tok.startswith("#"):
            ins += "\n"
            out += gap + ins + tok
        else:
            out += gap[:j] + ins + gap[j:] + tok
        i = k.end(1)
    return out


def gen_program(rng):
    items, m = program(rng)
    base = join(items)
    r = rng.random()
    order = items if r < .4 else topo(rng, items)
    text = join(order)
    if r < .4 or r > .6: text = perturb(rng, text, rng.choice((.05, .2, .6, 1)))
    return Case(base=base, text=text, mode=m, compiled=rng.random() < .5)


def sig(t, depth=0):
    """what a type is, recursively"""
    name = re.sub(r"__anonymous_\d+__", "<anonymous>", t.__name__)
    out = [name, t.size, t.dynamic, t.alignment]
    if issubclass(t, T.Structure):
        out += ["union" if issubclass(t, T.Union) else "struct", t.__align__, t.__compiled__, bool(t.__anonymous__)]
        if depth < 8:
            out += [[(re.sub(r"__anonymous_\d+__", "<anonymous>", f._name), f.name, f.bits, f.offset, sig(f.type, depth + 1)) for f in t.__fields__]]
    elif issubclass(t, T.BaseArray):
        n = t.num_entries
        out += ["array", t.null_terminated, n if isinstance(n, int) or n is None else " ".join(n.tokens), sig(t.type, depth + 1)]
    elif issubclass(t, T.Pointer):
        out += ["pointer", sig(t.type, depth + 1) if depth < 3 else None]
    elif issubclass(t, (T.Enum, T.Flag)):
        out += ["flag" if issubclass(t, T.Flag) else "enum", sig(t.type, depth + 1), [(k, x.value) for k, x in t.__members__.items()]]
    else:
        out += [b.__name__ for b in t.__mro__[1:4]]
    return out


def plain(v):
    if hasattr(type(v), "__fields__"): return {re.sub(r"__anonymous_\d+__", "<a>", f._name): plain(getattr(v, f._name)) for f in v.__class__.__fields__}
    if isinstance(v, list): return [plain(x) for x in v]
    if isinstance(v, (T.Enum, T.Flag)): return (type(v).__name__, v.value)
    if isinstance(v, float): return repr(float(v))
    if isinstance(v, (bytes, str)): return bytes(v) if isinstance(v, bytes) else str(v)
    if isinstance(v, int): return int(v)
    return None


def user(cs):
    base = set(cstruct().typedefs)
    return [n for n in cs.typedefs if n not in base]


def same(X, a, b, what, data):
    X.check(set(user(a)) == set(user(b)), f"{what}: the same names", got=sorted(user(b)), expected=sorted(user(a)))
    for k in set(a.consts) | set(b.consts):
        X.check(k in a.consts and k in b.consts and getattr(a.consts[k], 'value', a.consts[k]) == getattr(b.consts[k], 'value', b.consts[k]), f"{what}: the same constants", name=k, got=b.consts, expected=a.consts)
    for n in user(a):
        sa, sb = X.call(lambda: sig(getattr(a, n))), X.call(lambda: sig(getattr(b, n)))
        X.check(sa.ok and sb.ok and sa.value == sb.value, f"{what}: the same type", name=n, got=sb, expected=sa)
        ra, rb = X.call(lambda: a.resolve(n).read(data)), X.call(lambda: b.resolve(n).read(data))
        X.check(ra.ok == rb.ok and (ra.ok and plain(ra.value) == plain(rb.value) or not ra.ok and type(ra.exc) is type(rb.exc)), f"{what}: the same parse result", name=n, got=rb, expected=ra)
        if ra.ok:
            da, db = X.call(lambda: a.resolve(n).dumps(ra.value)), X.call(lambda: b.resolve(n).dumps(rb.value))
            X.check(da.ok == db.ok and (not da.ok or da.value == db.value), f"{what}: the same dump", name=n, got=db, expected=da)


@contract("C13", gen_program, 2500, 30000)
def text_independence(X, c):
    """Comments, whitespace and the order of unrelated definitions do not change names, layout or parsing."""
    a = load(X, c, c.base)
    o = X.call(real.load, c.text, c.mode, c.compiled)
    X.check(o.ok, "the definition with comments / whitespace / reordering loads too", outcome=o)
    same(X, a, o.value, "comments, whitespace, order", X.bytes("data", 160))


def gen_loads(rng):
    items, m = program(rng)
    cut = sorted(rng.sample(range(len(items) + 1), min(len(items), rng.randint(1, 3))))
    parts = [items[i:j] for i, j in zip([0] + cut, cut + [len(items)])]
    return Case(base=join(items), parts=[join(p) for p in parts], mode=m, compiled=rng.random() < .5, again=rng.random() < .4)


@contract("C13", gen_loads, 1000, 10000)
def sequences_of_loads(X, c):
    """Splitting the definitions over several load() calls gives the same types."""
    a = load(X, c, c.base)
    cs = cstruct(endian=c.mode.endian, pointer=c.mode.ptr.name)
    for p in c.parts:
        o = X.call(cs.load, p, compiled=c.compiled, align=c.mode.aligned)
        X.check(o.ok, "a part of the definitions loads", part=p, outcome=o)
    same(X, a, cs, "several load() calls", X.bytes("data", 120))


def gen_alias(rng):
    g = Gen(rng, maxdepth=1, maxfields=3)
    st = g.struct(name="Base")
    m = mode(rng)
    decls = []
    R.ctext(st, m, decls, {})
    n = rng.randint(1, 3)
    al = [f"A{i}" for i in range(n)]
    k = re.match(r"(struct|union) Base \{\n(.*)\};$", decls[-1], re.S)
    decls[-1] = f"typedef {k[1]} {rng.choice(('Base ', ''))}{{\n{k[2]}}} {', '.join(al + ['Base'])};"
    chain, prev = [], rng.choice(al + list(SYN)[:20])
    for i in range(rng.randint(1, 7)):
        chain.append((f"C{i}", prev))
        prev = f"C{i}"
    return Case(src=join(decls), aliases=al, chain=chain, mode=m, compiled=rng.random() < .5, syn=rng.sample(list(SYN), 6))


@contract("C13", gen_alias, 1500, 15000)
def aliases(X, c):
    """Every alias is the very same type; re-declaring is accepted for the same target only; unknown and cyclic
    aliases are resolve errors."""
    cs = load(X, c, c.src)
    t = cs.resolve("Base")
    for a in c.aliases:
        X.check(cs.resolve(a) is t and getattr(cs, a) is t, "every name after a struct typedef is the very same type", alias=a)
    for s in c.syn:
        X.check(cs.resolve(s) is cs.resolve(SYN[s]), "a built-in synonym is the very same type", synonym=s, got=cs.resolve(s), expected=SYN[s])
    for name, target in c.chain:
        if X.pick("how" + name, (0, 1)): o = X.call(cs.load, f"typedef {target} {name};")
        else: o = X.call(cs.add_type, name, target)
        X.check(o.ok, "an alias can be declared", name=name, target=target, outcome=o)
        X.check(cs.resolve(name) is cs.resolve(target), "an alias resolves to its target", name=name, target=target)
    root = cs.resolve(c.chain[0][1])
    for name, _ in c.chain: X.check(cs.resolve(name) is root, "a chain of aliases resolves to the very same type", name=name)
    # re-declaration
    name = X.pick("re", [n for n, _ in c.chain] + c.aliases)
    cur = cs.resolve(name)
    same_t = X.pick("same", [n for n in [*c.aliases, *(n for n, _ in c.chain), "int", "uint8", c.chain[0][1]] if n != name])
    exp = cs.resolve(same_t) is cur
    via = X.pick("via", ("load", "add_type", "type"))
    if via == "load": o = X.call(cs.load, f"typedef {same_t} {name};")
    elif via == "add_type": o = X.call(cs.add_type, name, same_t)
    else: o = X.call(cs.add_type, name, cs.resolve(same_t))
    if exp:
        X.check(o.ok, "re-declaring an alias for the same target is accepted", name=name, target=same_t, outcome=o)
        X.check(cs.resolve(name) is cur, "re-declaring an alias keeps its target", name=name)
    else:
        X.check(o.raised(ValueError), "re-declaring an alias for another target is rejected", name=name, target=same_t, outcome=o)
        X.check(cs.resolve(name) is cur, "a rejected re-declaration leaves the alias alone", name=name)


def gen_cycle(rng):
    n = rng.randint(1, 5)
    return Case(n=n, tail=rng.randint(0, 3), mode=mode(rng))


@contract("C13", gen_cycle, 400, 3000)
def cyclic_and_unknown(X, c):
    """Unknown and cyclic aliases are reported as a resolve error wherever they are referred to."""
    cs = real.load("", c.mode)
    names = [f"L{i}" for i in range(c.n)]
    for i, n in enumerate(names): cs.typedefs[n] = names[(i + 1) % c.n]
    if c.n > 1 or True:
        cs2 = real.load("", c.mode)
        for i, n in enumerate(names):
            o = X.call(cs2.add_type, n, names[(i + 1) % c.n])
            X.check(o.ok or o.raised(ResolveError), "declaring a cycle is accepted or a resolve error", outcome=o)
    prev = names[0]
    for i in range(c.tail):
        cs.typedefs[f"T{i}"] = prev
        prev = f"T{i}"
    targets = names + [f"T{i}" for i in range(c.tail)] + ["nowhere", "uint8x", "unsigned foo"]
    cs.typedefs["dangling"] = "nowhere"
    targets.append("dangling")
    n = X.pick("target", targets)
    before = dict(cs.typedefs)
    use = X.pick("use", ("resolve", "attr", "field", "array", "pointer", "typedef", "enum", "read"))
    if use == "attr" and n not in cs.typedefs: use = "resolve"
    f = {"resolve": lambda: cs.resolve(n), "attr": lambda: getattr(cs, n), "field": lambda: cs.load(f"struct Z {{ uint8 a; {n} b; }};"),
         "array": lambda: cs.load(f"struct Z {{ {n} b[3]; }};"), "pointer": lambda: cs.load(f"struct Z {{ {n} *b; }};"),
         "typedef": lambda: cs.load(f"typedef {n} foo;"), "enum": lambda: cs.load(f"enum Z : {n} {{ A }};"), "read": lambda: cs.read(n, io.BytesIO(b"\0" * 9))}[use]
    o = X.call(f)
    X.check(o.raised(ResolveError), "a reference to an unknown or cyclic alias is a resolve error", use=use, name=n, outcome=o)


# ---- every production of the grammar, every boundary, every kind of gap

PRODUCTIONS = [
    "struct A { uint8 a; uint16 b; };",
    "struct A { unsigned long long a; unsigned __int8 b; signed char c; long long d; };",
    "struct A { uint8 a : 3; uint8 b : 5; uint16 c : 12; uint16 d : 4; };",
    "struct A { uint8 n; uint16 a[2]; char b[n]; char c[n * 2 + 1]; uint8 d[2][3]; char e[]; };",
    "struct A { uint8 n; wchar c[]; uint8 rest[EOF]; };",
    "struct A { uint8 *a; uint16 **b; char *c[2]; void *d; };",
    "union A { uint32 a; uint8 b[4]; struct { uint16 c; uint16 d; } e; };",
    "struct A { struct { uint8 a; uint8 b; }; union { uint16 c; uint8 d; }; };",
    "struct A { struct { uint8 a; } x; struct B { uint16 b; } y[2]; union U { uint8 c; uint32 d; } z; };",
    "struct A { struct { uint8 a; struct { uint8 b; } c[2]; } *p; };",
    "struct node { struct node *next; uint8 v; };",
    "struct B { uint8 q; }; struct A { struct B b; B c; struct B *d; struct B e[2]; };",
    "typedef struct { uint8 a; } A;",
    "typedef struct { uint8 a; } A, B, C;",
    "typedef struct A { uint8 a; uint16 b; } B, C;",
    "typedef struct A { uint8 a; } B;",
    "typedef union { uint8 a; uint16 b; } A, *PA;" if False else "typedef union { uint8 a; uint16 b; } A;",
    "typedef struct { uint8 a; } *PA;",
    "struct A { uint8 a; } B;",
    "struct A { uint8 a; } B, C;",
    "typedef uint32 A;",
    "typedef unsigned long long A; struct S { A a; A *b; A c[2]; };",
    "typedef uint8 *A; struct S { A a; };",
    "typedef uint16 A[4]; struct S { A a; A b[2]; };",
    "typedef char A[]; struct S { A a; uint8 b; };",
    "enum A { X, Y = 5, Z, W = Y + 2, V = (1 << 4) | 1 }; struct S { A a; };",
    "enum A : uint16 { X = 0x10, Y, Z, }; struct S { A a; A b[2]; A c : 4; };",
    "flag A { X, Y, Z = 0x20, W }; struct S { A a; };",
    "enum A {\n    X\n    Y = 5\n    Z\n    W = Y + 2\n    V = (1 << 4)\n    U\n}; struct S { A a; };",
    "flag A : uint8 {\n X = 1,\n Y\n Z, W\n}; struct S { A a; A b[2]; };",
    "flag A : uint8 { X = 1, Y, }; struct S { A a; A *b; };",
    "enum { X, Y = 7, Z }; struct S { uint8 a[Y]; };",
    "enum : uint8 { X = 3 }; struct S { uint8 a[X]; };",
    "flag : uint16 { X, Y }; struct S { uint8 a[Y]; };",
    "enum A : unsigned long long { X = 1 }; struct S { A a; };",
    "#[nocompile]\nstruct A { uint8 a; uint32 b; };\nstruct B { uint8 a; };",
    "#[compile]\nstruct A { uint8 a; };",
    "#define N 3\n#define M N * 2\nstruct A { uint8 a[N]; uint8 b[M]; uint8 c[N + M]; };",
    "#define S \"str // x\"\n#define T 'y'\nstruct A { uint8 a; };",
    "struct structure { uint8 struct_; uint8 union_a; uint8 enumx; uint8 typedef_x; uint8 flag; uint8 flags; uint8 EOFx; };",
    "struct unions { uint8 define; uint8 sizeofa; uint8 _; uint8 __x; uint8 x0; }; typedef unions structs;",
    "struct A { uint8 flag; uint8 a[flag]; }; struct B { uint8 enum_; A a; };",
    "struct A { }; struct B { A a; uint8 x; };",
    "struct A { uint8 a; };\nstruct B { uint16 b; };\nunion C { A a; B b; };\ntypedef C D;",
    "struct A { uint24 a; int48 b; uleb128 c; ileb128 d; float e; double f; float16 g; int128 h; };",
]


def boundaries(text):
    out, i = [], 0
    while i < len(text):
        k = TOKEN.match(text, i)
        if not k: break
        out.append((k.start(1), k[1]))
        i = k.end(1)
    return out + [(len(text.rstrip()), "")]


def gen_gap(rng):
    text = rng.choice(PRODUCTIONS) + "\n"
    bs = boundaries(text)
    out = text
    k = 1 if rng.random() < .7 else 2 if rng.random() < .7 else 5
    for at, tok in sorted(rng.sample(bs, min(k, len(bs))), reverse=True):
        g = rng.choice(GAPS)
        if tok.startswith("#"): g = "\n" + g + "\n"
        # a gap separates tokens, an existing separator stays
        out = out[:at] + g + out[at:]
    return Case(base=text, text=out, mode=mode(rng), compiled=rng.random() < .5)


@contract("C13", gen_gap, 6000, 60000)
def every_boundary(X, c):
    """For each production of the grammar, a comment or whitespace at any token boundary changes nothing."""
    a = load(X, c, c.base)
    o = X.call(real.load, c.text, c.mode, c.compiled)
    X.check(o.ok, "the definition with a comment or whitespace loads too", outcome=o)
    same(X, a, o.value, "a comment or whitespace", X.bytes("data", 48))


PIECES = ["/*", "*/", "//", '"', "'", "\n", "/", "*", "a", " ", "\r\n", "\r", ";", "b c", "/**/", "// x\n", "/* y */", '"s"', "'t'"]


def uncommented(s):
    """the text without comments (every comment stands for whitespace); None where a quote or comment is not closed"""
    out, i = "", 0
    while i < len(s):
        if s[i] in "\"'":
            j = s.find(s[i], i + 1)
            if j < 0: return None
            out += s[i:j + 1]; i = j + 1
        elif s.startswith("/*", i):
            j = s.find("*/", i + 2)
            if j < 0: return None
            out += "\n" * s.count("\n", i, j) or " "
            i = j + 2
        elif s.startswith("//", i):
            while i < len(s) and s[i] not in "\r\n": i += 1
            out += " "
        else:
            out += s[i]; i += 1
    return out


def gen_comment(rng): return Case(texts=["".join(rng.choices(PIECES, k=rng.randint(1, 9))) for _ in range(60)])


@contract("C13", gen_comment, 300, 4000)
def comments(X, c):
    """Exactly the comments are removed: what stands in quotes and everything else stays, tokens stay apart, lines stay lines."""
    from dissect.cstruct.parser import TokenParser
    if not hasattr(TokenParser, "_remove_comments"): raise Skip()
    p = TokenParser(cstruct())
    for s in c.texts:
        exp = uncommented(s)
        if exp is None: continue
        o = X.call(p._remove_comments, s)
        X.check(o.ok and o.value.split() == exp.split(), "exactly the comments are removed", text=s, got=o, expected=exp)
        X.check(o.value.count("\n") == s.count("\n"), "lines stay lines", text=s, got=o.value)
