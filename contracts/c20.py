import re, ast
import keyword
import tempfile
import os
from contracts.common import *
from contracts.c13 import program, topo
from dissect.cstruct.tools import stubgen

EMPTY = cstruct()
LITS = ["1", "0x10", "-3", "2.5", "1e10", "-0.0", "'single'", '"double"', "\"it's\"", "'say \"x\"'", "b'bytes'", r"'back\\slash'", r"'tab\t'", "(1 << 4) | 2", "some words here", "__attribute__((x))", "'\u00e9'",
        "1e400", "(1, 2)", "True", "None", "[1, 2]", "{}", "u'x'", "0b101", "1_000", "a.b", "x->y", "%d", "'''", "9" * 40, "sizeof(uint32)", "''", "b''", "1j", "..."]
WORDS = ["class", "def", "None", "True", "lambda", "print", "self", "_self", "__debug__", "cls", "fh", "match", "type", "int", "str", "bytes", "Literal", "cstruct", "overload", "Structure", "Enum", "_", "name", "value", "data", "global", "in", "is"]


def gen_defs(rng):
    items, m = program(rng)
    k = rng.random()
    extra = []
    for i in range(rng.randint(0, 4)):
        n = rng.choice((f"C{i}", f"C{i}", f"_c{i}", rng.choice(WORDS)))
        extra.append(f"#define {n} {rng.choice(LITS)}\n")
    g = Gen(rng, maxdepth=3, maxfields=4)
    for i in range(rng.randint(0, 3)):
        kind = rng.choice(("anonarr", "anonptr", "nestanon", "enum", "anonenum", "flag", "union", "words", "ptrs", "named", "inlineptr"))
        s = {
            "anonarr": f"struct A{i} {{ uint8 n; struct {{ uint8 a; struct {{ uint16 b; }} c[2]; }} x[n & 3]; }};",
            "anonptr": f"typedef struct {{ uint8 a; char *b; }} *AP{i};",
            "nestanon": f"struct A{i} {{ union {{ struct {{ uint8 a; uint16 b; }}; uint32 c; }}; struct {{ uint8 d; }} e; union {{ uint8 f; char g[4]; }} h[2][3]; }};",
            "enum": f"enum EE{i} : uint16 {{ X{i} = 1, Y{i}, {rng.choice(('class', 'def', 'None', 'self', 'lambda', 'print', 'match', 'in'))} }};\nstruct UE{i} {{ EE{i} e; EE{i} f[3]; EE{i} *g; EE{i} h : 4; }};",
            "anonenum": f"enum {{ AX{i} = 5, AY{i} }};\nenum : uint8 {{ AZ{i} }};",
            "flag": f"flag FF{i} {{ FP{i}, FQ{i} }};\nflag {{ FR{i}, FS{i} }};",
            "union": f"union UU{i} {{ uint8 a; char b[8]; wchar c[2]; struct {{ uint16 d; }} e; }};",
            "inlineptr": f"struct IP{i} {{ struct {{ uint8 a; }} *p; struct IN{i} {{ uint8 c; char *d; }} *r; union {{ uint8 c; uint16 e; }} *s[3]; struct {{ struct {{ uint8 b; }} *x; }} **q; }};",
            "words": f"struct W{i} {{ {' '.join(f'uint8 {w};' for w in rng.sample(WORDS, 4))} }};",
            "ptrs": f"struct PP{i} {{ struct PP{i} *next; PP{i} *many[4]; void *v; char *s; uint16 **pp; wchar *ws[2]; }};\ntypedef PP{i} *PPP{i};\ntypedef PPP{i} PPPP{i}, x;" if rng.random() < 0 else f"struct PP{i} {{ struct PP{i} *next; PP{i} *many[4]; void *v; char *s; uint16 **pp; wchar *ws[2]; }};\ntypedef PP{i} *PPP{i};\ntypedef PPP{i} PPPP{i};",
            "named": f"struct O{i} {{ struct I{i} {{ uint8 q; }} a; struct J{i} {{ I{i} *z; }} b[2]; }};" if rng.random() < 0 else f"struct O{i} {{ struct I{i} {{ uint8 q; }} a; uint24 c; uleb128 d; double e[2]; }};",
        }[kind]
        extra.append(s)
    extra += [f"typedef {t} {n};" for n, t in rng.sample([("t1", "uint32"), ("t2", "t1"), ("t3", "char"), ("t4[4]", "t1"), ("*t5", "t2"), ("t6[2]", "char"), ("t7[]", "wchar"), ("**t8", "uint8"), ("t9", "unsigned long long"), ("t10", "t9")], rng.randint(0, 4)) if t[0] != "t" or t == n]
    if rng.random() < .5: extra += ["typedef uint32 q1;", "typedef q1 q2;", "typedef q2 *q3;", "typedef q1 q4[3];"]
    return Case(items=items, extra=extra, mode=m, compiled=rng.random() < .3, custom=rng.random() < .15, split=rng.random() < .3,
                early=rng.choice(("", "", "", "reference", "replaced")))


def valid(n): return n.isidentifier() and not keyword.iskeyword(n) and n != "__debug__"


class Stub:
    """what a stub class declares: constants, aliases, classes"""

    def __init__(self, X, node):
        self.X, self.node = X, node
        self.names, self.ann, self.classes = [], {}, {}
        for s in node.body:
            if isinstance(s, ast.ClassDef):
                self.names.append(s.name); self.classes[s.name] = s
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.names.append(s.target.id); self.ann[s.target.id] = s
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.names.append(s.targets[0].id); self.ann[s.targets[0].id] = s
            elif isinstance(s, ast.FunctionDef) or isinstance(s, ast.Expr): pass
            else: X.check(False, "only declarations", got=ast.unparse(s))


def tail(e):
    """last part of a dotted name"""
    return e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else None


def resolves(X, e, t, cs, top, scope, where, seen):
    """the hint e names the type t"""
    bad = lambda: X.check(False, "a type hint names the actual type", where=where, got=ast.unparse(e), expected=t)
    if isinstance(e, ast.Subscript):
        head = tail(e.value)
        if head == "Pointer":
            if not issubclass(t, T.Pointer): bad()
        elif head == "Array":
            if not issubclass(t, T.Array): bad()
        else: bad()
        return resolves(X, e.slice, t.type, cs, top, scope, where, seen)
    name = tail(e)
    if name is None: bad()
    if issubclass(t, T.CharArray) or issubclass(t, T.WcharArray):
        if name != ("CharArray" if issubclass(t, T.CharArray) else "WcharArray"): bad()
        return
    if issubclass(t, (T.Pointer, T.BaseArray)):
        # an alias
        if name in top.ann and isinstance(e, ast.Name): return resolves(X, top.ann[name].value, t, cs, top, scope, where, seen)
        bad()
    if isinstance(e, ast.Name):
        for s in reversed(scope):
            if name in s.classes:
                if s is top:
                    if getattr(cs, name) is not t: bad()
                    return
                if not issubclass(t, T.Structure) or name != t.__name__: bad()
                return check_class(X, s.classes[name], t, cs, top, scope, where + "." + name, seen)
            if s is top and name in s.ann: return resolves(X, s.ann[name].value, t, cs, top, scope, where, seen)
        bad()
    base = e.value
    if tail(base) == "__cs__":
        # no name to refer to: the kind of structure
        if not (issubclass(t, T.Structure) and name in ("Structure", "Union") and name == t.__base__.__name__): bad()
        return
    X.check(tail(base) == top.node.name, "types are referred to through the cstruct class", where=where, got=ast.unparse(e))
    o = X.call(getattr, cs, name)
    if not o.ok or cs.resolve(o.value) is not t: bad()
    if name not in EMPTY.typedefs and name not in top.names: X.check(False, "a type hint refers to a declared name", where=where, got=ast.unparse(e))


def check_class(X, node, t, cs, top, scope, where, seen):
    s = Stub(X, node)
    base = tail(node.bases[0]) if node.bases else None
    X.check(base == t.__base__.__name__, "a class is declared with its kind", where=where, got=base, expected=t.__base__)
    if issubclass(t, (T.Enum, T.Flag)):
        exp = [n for n in t.__members__ if valid(n)]
        X.check(s.names == exp, "exactly the members of an enum are declared", where=where, got=s.names, expected=exp)
        return
    if not issubclass(t, T.Structure):
        X.check(not s.names, "nothing else is declared", where=where, got=s.names)
        return
    exp = [n for n in t.fields if valid(n)]
    X.check(list(s.ann) == exp, "exactly the fields of a structure are declared", where=where, got=list(s.ann), expected=exp)
    inner = set()
    for n in exp:
        resolves(X, s.ann[n].annotation, t.fields[n].type, cs, top, scope + [s], f"{where}.{n}", seen)
        x = t.fields[n].type
        while issubclass(x, (T.Pointer, T.BaseArray)): x = x.type
        inner.add(x.__name__)
    X.check(set(s.classes) <= inner, "only types of the fields are declared inside a structure", where=where, got=set(s.classes), expected=inner)
    inits = [f for f in node.body if isinstance(f, ast.FunctionDef)]
    X.check(inits and all(f.name == "__init__" for f in inits), "constructors", where=where)
    args = [a.arg for a in inits[0].args.args][1:]
    X.check(args == exp, "the constructor takes the fields", where=where, got=args, expected=exp)
    for a, n in zip(inits[0].args.args[1:], exp):
        h = a.annotation
        X.check(ast.unparse(h).removesuffix(" | None") == ast.unparse(s.ann[n].annotation), "the constructor takes the fields with their types", where=where, field=n)


def check_stub(X, node, cs, name):
    X.check(isinstance(node, ast.ClassDef) and node.name == name, "one class for the definitions", got=getattr(node, "name", None))
    top = Stub(X, node)
    consts = [n for n in cs.consts if n not in EMPTY.consts and valid(n)]
    types = [n for n in cs.typedefs if n not in EMPTY.typedefs and valid(n)]
    exp = set(consts) | set(types)
    X.check(set(top.names) == exp, "exactly the loaded definitions are declared", missing=exp - set(top.names), extra=set(top.names) - exp)
    X.check(len(top.names) == len(set(top.names)) or set(consts) & set(types), "each definition is declared once", got=top.names)
    for n in consts:
        if n in types: continue
        s = top.ann.get(n)
        X.check(s is not None and isinstance(s, ast.AnnAssign), "a constant is declared", name=n)
        a = s.annotation
        X.check(isinstance(a, ast.Subscript) and tail(a.value) == "Literal", "a constant has a literal type", name=n, got=ast.unparse(a))
        v = cs.consts[n]
        v = getattr(v, "value", v)
        try: got = ast.literal_eval(a.slice)
        except (ValueError, SyntaxError): continue
        X.check(got == v and type(got) is type(v), "a constant is declared with its value", name=n, got=got, expected=v)
    for n in types:
        if n in consts: continue
        t = cs.resolve(cs.typedefs[n])
        if n in top.classes: check_class(X, top.classes[n], t, cs, top, [top], n, set())
        else:
            s = top.ann[n]
            X.check(isinstance(s, ast.AnnAssign) and tail(s.annotation) == "TypeAlias" and s.value is not None, "an alias is declared as one", name=n, got=ast.unparse(s))
            resolves(X, s.value, t, cs, top, [top], n, set())


class Custom(T.BaseType):
    @classmethod
    def _read(cls, stream, context=None): return 1


def loaded(X, c):
    m = c.mode
    cs = cstruct(endian=m.endian, pointer=m.ptr.name)
    if c.custom: cs.add_custom_type("MyCustom", Custom, 4)
    texts = ["\n".join(c.items) + "\n", "\n".join(c.extra) + "\n"]
    # aliases that are older than their target
    late = (re.findall(r"^(?:struct|union|enum|flag) (\w+) ", "\n".join(c.extra), re.M) or [None])[-1]
    if late and c.early == "reference": cs.add_type("early0", late)
    if late and c.early == "replaced": cs.add_type("early0", "uint16")
    if c.custom: texts.append("struct UsesCustom { MyCustom a; MyCustom b[2]; MyCustom *c; };")
    if not c.split: texts = ["".join(texts)]
    for t in texts:
        o = X.call(cs.load, t, compiled=c.compiled, align=m.aligned)
        X.check(o.ok, "a definition of the supported grammar loads", definition=t, outcome=o)
    if c.early == "replaced" and late: cs.add_type("early0", late, replace=True)
    return cs


@contract("C20", gen_defs, 4000, 50000)
def stubs(X, c):
    """The stub is valid Python and declares exactly the loaded definitions, with the actual type of each field."""
    cs = loaded(X, c)
    name = X.pick("name", ("cstruct", "_c_x", "Zed"))
    o = X.call(stubgen.generate_cstruct_stub, cs, module_prefix="__cs__.", cls_name=name)
    X.check(o.ok, "generating a stub succeeds", outcome=o)
    p = X.call(ast.parse, o.value)
    X.check(p.ok, "a stub is valid Python", got=o.value, outcome=p)
    q = X.call(compile, o.value, "stub.pyi", "exec")
    X.check(q.ok, "a stub is valid Python", got=o.value, outcome=q)
    X.check(len(p.value.body) == 1, "one class for the definitions", got=o.value)
    check_stub(X, p.value.body[0], cs, name)
    X.check(stubgen.generate_cstruct_stub(cs, module_prefix="__cs__.", cls_name=name) == o.value, "generating a stub changes nothing")
    # the types on their own
    for n, t in cs.typedefs.items():
        if n in EMPTY.typedefs: continue
        t = cs.resolve(t)
        if t.__name__ != n or not valid(n): continue
        g = stubgen.generate_enum_stub if issubclass(t, (T.Enum, T.Flag)) else stubgen.generate_structure_stub if issubclass(t, T.Structure) else None
        if g:
            s = X.call(g, t)
            X.check(s.ok and X.call(ast.parse, s.value).ok, "a stub is valid Python", outcome=s)


@contract("C20", gen_defs, 400, 4000)
def files(X, c):
    """The stub of a module is valid Python with one class per cstruct object in it."""
    texts = ["\n".join(c.items) + "\n", "\n".join(c.extra) + "\n"]
    names = ["c_a", "c_b"][:X.pick("modules", (1, 1, 2))]
    src = "from dissect.cstruct import cstruct\nother = 3\n"
    for i, n in enumerate(names):
        src += f"{n} = cstruct(endian={c.mode.endian!r}).load({texts[i] if len(names) > 1 else ''.join(texts)!r})\n"
    with tempfile.TemporaryDirectory() as d:
        from pathlib import Path
        p = Path(d) / "mod.py"
        p.write_text(src)
        mod = X.call(stubgen.load_module, p, Path(d))
        if mod.value is None: raise Skip()
        o = X.call(stubgen.generate_file_stub, p, Path(d))
    X.check(o.ok, "generating a stub succeeds", outcome=o)
    q = X.call(compile, o.value, "stub.pyi", "exec")
    X.check(q.ok, "a stub is valid Python", got=o.value, outcome=q)
    tree = ast.parse(o.value)
    classes = [n for n in tree.body if isinstance(n, ast.ClassDef)]
    X.check([n.name for n in classes] == [f"_{n}" for n in names], "one class for each cstruct object", got=[n.name for n in classes])
    for n, node in zip(names, classes): check_stub(X, node, getattr(mod.value, n), f"_{n}")
    ali = {s.target.id: ast.unparse(s.value) for s in tree.body if isinstance(s, ast.AnnAssign)}
    X.check(ali == {n: f"_{n}" for n in names}, "each cstruct object is declared under its name", got=ali)
