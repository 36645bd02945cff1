"""C20 type stubs: contracts of the stub emitters for arbitrary names, members, fields, constants and types.

Names are arbitrary strings (Word): the code can only ask whether they can be declared, whether they equal a constant, and
build text from them.  The text is judged by what it declares: every opaque part stands for a fresh identifier and the result
is parsed as Python."""
import ast
import keyword
import re
import textwrap
from pyv import sym, engine
from pyv.sym import Sym, Unsupported, is_sym
from pyv.engine import Cut, SText
from pyv.proofkit import proof, exact
from pyv.real import cstruct
from dissect.cstruct import types as T
from dissect.cstruct.tools import stubgen

MARK = re.compile(r"zq(\d+)z")


class Word(Sym):
    """an arbitrary string.  valid: what it is known to be (True: a name that can be declared)"""
    __slots__ = ("id", "means", "ident", "kw", "val", "nots", "ins")
    pytype = str
    def __init__(self, means, valid=None):
        ws = words()
        self.id, self.means = len(ws), means
        self.ident, self.kw, self.val, self.nots, self.ins = (True, False, None, {"__debug__"}, {}) if valid else (None, None, None, set(), {})
        ws.append(self)
    @property
    def __class__(self): return str
    def mark(self): return f"zq{self.id}z"
    def isidentifier(self):
        if self.ident is None: self.ident = sym.EX.choose(2) == 0
        return self.ident
    def iskeyword(self):
        if self.kw is None: self.kw = sym.EX.choose(2) == 1
        return self.kw
    def valid(self): return self.isidentifier() and not self.iskeyword() and not self == "__debug__"
    def __eq__(self, o):
        if o is self: return True
        if exact(o) is Word and {self.kind(), o.kind()} == {"typedef", "name"}: return False  # otherwise they would be one
        if exact(o) is not str: raise Unsupported("comparing a name")
        if self.val is not None: return o == self.val
        if o in self.nots: return False
        if self.ident not in (None, o.isidentifier()) or self.kw not in (None, keyword.iskeyword(o)): return False
        if sym.EX.choose(2) == 0:
            self.nots.add(o)
            return False
        self.val, self.ident, self.kw = o, o.isidentifier(), keyword.iskeyword(o)
        return True
    def kind(self): return self.means[0] if type(self.means) is tuple else self.means
    def __ne__(self, o): return not self.__eq__(o)
    def sym_in(self, c):
        if exact(c) is str: raise Unsupported("substring of a name")
        k = id(c)
        if k not in self.ins: self.ins[k] = (c, sym.EX.choose(2) == 1)
        return self.ins[k][1]
    def __add__(self, o): return SText([self, o])
    def __radd__(self, o): return SText([o, self])
    def __bool__(self): return True


def words():
    ex = sym.EX
    if not hasattr(ex, "stub_words") or ex.stub_words[0] is not ex.inputs: ex.stub_words = (ex.inputs, [])
    return ex.stub_words[1]


class Repr(Word):
    """repr(value) of an arbitrary constant: an expression"""
    __slots__ = ()


def render(x):
    """text with its opaque parts as fresh identifiers"""
    t = exact(x)
    if t is str: return x
    if t is SText: return "".join(render(q) for q in x.parts)
    if t is tuple and x[0] == "fmt":
        if x[3] != "" or x[2] not in ("", "r", "s"): raise Unsupported("format of a name")
        if x[2] == "r": return x[1].represented().mark()
        return render(x[1])
    if isinstance(x, Sym) and hasattr(t, "mark"): return x.mark()
    raise Unsupported("text of something else")


def unrender(s):
    out, i = [], 0
    for m in MARK.finditer(s):
        out += [s[i:m.start()], words()[int(m[1])]]
        i = m.end()
    return SText(out + [s[i:]]) if out else s


def m_indent(text, prefix, predicate=None):
    if not is_sym(text) and not is_sym(prefix): return NotImplemented
    if predicate is not None: raise Unsupported("indent with a predicate")
    return unrender(textwrap.indent.__call__(render(text), render(prefix)))


INDENT = {textwrap.indent: lambda *a, **k: (lambda r: textwrap.indent.__call__(*a, **k) if r is NotImplemented else r)(m_indent(*a, **k))}
engine.BY_OBJ[keyword.iskeyword] = lambda w: w.iskeyword() if isinstance(w, Sym) and exact(w) is Word else NotImplemented



class Lines(Sym):
    """a list of texts: before (what the invariant says about those so far), then those added"""
    __slots__ = ("before", "new")
    pytype = list
    def __init__(self, before): self.before, self.new = list(before), []
    @property
    def __class__(self): return list
    def append(self, x): self.new.append(x)
    def extend(self, xs): self.new += [*xs.before, *xs.new] if exact(xs) is Lines else list(xs)
    def __iadd__(self, xs):
        self.extend(xs)
        return self
    def insert(self, *a): raise Unsupported("insert")
    def __bool__(self): return bool(self.before or self.new)
    def sym_join(self, sep): return engine.m_join(sep, [*self.before, *self.new])
    def __add__(self, xs): return Lines([*self.before, *self.new, *([*xs.before, *xs.new] if exact(xs) is Lines else xs)])
    def __radd__(self, xs): return Lines([*xs, *self.before, *self.new])


def m_extend(self, xs):
    if exact(xs) is not Lines or exact(self) is not list: return NotImplemented
    return self.extend([*xs.before, *xs.new])


engine.BY_NAME["extend"] = m_extend


def parse(text, label):
    s = render(text)
    try: return ast.parse(s).body
    except SyntaxError as e:
        sym.EX.oblige(False, f"{label}: valid Python")


def word_of(n):
    """the Word an identifier stands for"""
    m = MARK.fullmatch(n) if isinstance(n, str) else None
    return words()[int(m[1])] if m else n


def dotted(e):
    """names of a dotted expression"""
    if isinstance(e, ast.Name): return [word_of(e.id)]
    if isinstance(e, ast.Attribute): return dotted(e.value) + [word_of(e.attr)]
    return [None]


# -------------------------------------------------------------------------------------------------------------- types

KINDS = {"scalar": T.Int, "char[]": T.CharArray, "wchar[]": T.WcharArray, "array": T.Array, "pointer": T.Pointer, "enum": T.Enum, "flag": T.Flag, "struct": T.Structure, "union": T.Union}
LEAVES = ("scalar", "enum", "flag", "struct", "union")


class Owner:
    """the cstruct instance of a type"""
    def __init__(self, t): self.t = t
    @property
    def typedefs(self): return Names(self.t)
    def resolve(self, n):
        if n is self.t.__name__ and self.t.known: return self.t if self.t.declared else object()
        raise Unsupported("resolving another name")


class Names:
    def __init__(self, t): self.t = t
    def sym_contains(self, n):
        if n is not self.t.__name__: raise Unsupported("another name")
        return self.t.known
    def get(self, n, d=None): return self.t.cs.resolve(n) if self.sym_contains(n) else d


class Type:
    """an arbitrary type of one kind; an array or pointer is one of an arbitrary type with the same innermost type"""
    def __init__(self, X, kind=None, inner=None, builtin=False):
        self.X = X
        self.kind = kind or X.pick("kind", KINDS)
        self.__bases__ = (KINDS[self.kind],)
        self.__base__ = KINDS[self.kind]
        self.inner = inner
        self._type = self._name = None
        self.builtin = builtin
        self.cs = Owner(self)
    known = property(lambda self: self.flag("known"))
    declared = property(lambda self: self.flag("declared"))
    def flag(self, n):
        d = self.__dict__.setdefault("flags", {})
        if n not in d: d[n] = self.X.pick(n, (True, False))
        return d[n]
    @property
    def is_declared(self): return self.known and self.declared
    @property
    def __name__(self):
        if self._name is None: self._name = Word(("name", self), valid=True)
        return self._name
    @property
    def nested(self):
        if self.kind in LEAVES: return self
        if self.kind in ("char[]", "wchar[]"): k = "scalar"
        else: k = None
        if self.inner is None: self.inner = Type(self.X, k or self.X.pick("innermost", LEAVES))
        return self.inner
    @property
    def type(self):
        if self.kind in LEAVES: raise AttributeError("type")
        if self._type is None: self._type = self.nested if self.kind in ("char[]", "wchar[]") or self.X.pick("direct", (True, False)) else Type(self.X, self.X.pick("outer", ("array", "pointer")), self.nested)
        return self._type
    @property
    def __default__(self): raise Unsupported("default")


class Hint(Word):
    """contract of generate_typehint(type, prefix, module_prefix): text naming the type.  named: what its innermost is called"""
    __slots__ = ("type", "prefix", "module", "named")
    def replace(self, a, b, *n):
        if n or a is not self.type.nested.__name__: raise Unsupported("replace in a hint")
        h = Hint(("hint", self.type), valid=True)
        h.type, h.prefix, h.module, h.named = self.type, self.prefix, self.module, b
        return h


def hint(type_, prefix="", module_prefix=""):
    h = Hint(("hint", type_), valid=True)
    h.type, h.prefix, h.module, h.named = type_, prefix, module_prefix, type_.nested.__name__
    return h


def declares(what):
    """contract of an emitter: text of a class declaration for its type"""
    def emit(type_, name_prefix="", cs_prefix="", module_prefix=""):
        if name_prefix != "": raise Unsupported("name prefix")
        b = Word((what, type_, cs_prefix, module_prefix), valid=True)
        return SText(["class ", type_.__name__, ":\n    ", b, "\n"])
    return emit


def class_of(node):
    """(type, emitter, prefixes) a class declaration is the stub of"""
    if not isinstance(node, ast.ClassDef) or len(node.body) != 1 or not isinstance(node.body[0], ast.Expr): return None
    w = dotted(node.body[0].value)[0]
    if not isinstance(w, Sym) or not isinstance(w.means, tuple) or len(w.means) != 4: return None
    return w.means if word_of(node.name) is w.means[1].__name__ else None


def fn(n):
    return getattr(stubgen, n)


def stub(*names):
    ex = sym.EX
    C = {"generate_typehint": hint, "nested_type": lambda t: t.nested, "is_declared": lambda t: t.is_declared,
         "generate_structure_stub": declares("structure"), "generate_enum_stub": declares("enum"), "generate_generic_stub": declares("generic")}
    for n in names:
        if hasattr(stubgen, n): ex.stubs[fn(n)] = C[n]


# ------------------------------------------------------------------------------------------------------ small functions

@proof("C20", "is_valid_name", (None,), native=200)
def valid_name(X, case):
    """For every string: it can be declared iff it is an identifier, no keyword, and assignable."""
    if not X.symbolic:
        n = X.pick("name", ("a", "_", "class", "", "1a", "a b", "__debug__", "None", "match", "é", "a.b", "a-b", "print", "ǆ"))
        X.check(stubgen.is_valid_name(n) is (n.isidentifier() and not keyword.iskeyword(n) and n != "__debug__"), "valid")
        return
    w = Word("name")
    out = X.call(stubgen.is_valid_name, w)
    X.check(out.ok and bool(out.value) == w.valid(), "a name is valid iff Python can declare it", outcome=out)


@proof("C20", "is_declared", (None,), native=None, stubs=INDENT)
def declared(X, case):
    """A type is declared iff its cstruct instance knows its name as this very type."""
    t = Type(X, "struct")
    out = X.call(stubgen.is_declared, t)
    X.check(out.ok and bool(out.value) == t.is_declared, "declared", outcome=out)


class NestCut(Cut):
    def __init__(self, X, start): self.X, self.start = X, start
    def enter(self, L, it): self.t, = self.roles(L, ("type_", lambda v: v is self.start))
    def havoc(self, L):
        X = self.X
        k = X.pick("reached", KINDS)
        self.now = self.start.nested if k in LEAVES else Type(X, k, self.start.nested)
        if k in LEAVES: X.ex.assume(k == self.start.nested.kind)
        return {self.t: self.now}
    def end(self, L):
        v = L[self.t]
        sym.EX.oblige(v is self.now.type and v.nested is self.start.nested, "nested: one level deeper")


@proof("C20", "nested_type", KINDS, native=None, stubs=INDENT)
def nested(X, case):
    """For every depth of arrays and pointers: the type inside all of them."""
    t = Type(X, next(k for k in KINDS if KINDS[k] is case))
    X.loop("nested_type:1", NestCut(X, t))
    out = X.call(stubgen.nested_type, t)
    X.check(out.ok and out.value is t.nested, "the innermost type", outcome=out)


@proof("C20", "generate_typehint", KINDS, native=None, stubs=INDENT)
def typehint(X, case):
    """By induction over the type: a hint names the type."""
    real = fn("generate_typehint")
    kind = next(k for k in KINDS if KINDS[k] is case)
    t = Type(X, kind)
    p, m = X.pick("prefix", ("", "cs.")), X.pick("module prefix", ("", "__cs__."))
    # the recursive calls, by contract
    inner = []
    first = []

    def rec(*a, **k):
        if not first:
            first.append(1)
            return real.__call__(*a, **k)
        inner.append((a, k))
        return hint(*a, **k)
    sym.EX.stubs[real] = rec
    out = X.call(real, t, p, m)
    X.check(out.ok, "no error", outcome=out)
    b = parse(out.value, "hint")
    X.check(len(b) == 1 and isinstance(b[0], ast.Expr), "hint: one expression")
    check_hint(X, b[0].value, t, p, m)


def check_hint(X, e, t, p, m):
    mp = [m.rstrip(".")] if m else []
    if t.kind in ("char[]", "wchar[]"):
        X.check(dotted(e) == mp + [{"char[]": "CharArray", "wchar[]": "WcharArray"}[t.kind]], "hint: the array type")
    elif t.kind in ("array", "pointer"):
        X.check(isinstance(e, ast.Subscript) and dotted(e.value) == mp + [{"array": "Array", "pointer": "Pointer"}[t.kind]], "hint: of the kind")
        h = dotted(e.slice)
        X.check(len(h) == 1 and exact(h[0]) is Hint and h[0].type is t.type and h[0].prefix == p and h[0].module == m, "hint: and of the type inside")
    else:
        d = dotted(e)
        X.check(len(d) == (2 if p else 1) and (not p or d[0] == p.rstrip(".")) and d[-1] is t.__name__, "hint: under its name")


@proof("C20", "generate_generic_stub", (None,), native=None, stubs=INDENT)
def generic(X, case):
    """A type of another kind is declared under its name with its base."""
    t, m = Type(X, "scalar"), X.pick("module prefix", ("", "__cs__."))
    out = X.call(stubgen.generate_generic_stub, t, cs_prefix="cs.", module_prefix=m)
    X.check(out.ok, "no error", outcome=out)
    check_head(X, parse(out.value, "generic"), t, m)


def check_head(X, b, t, m):
    X.check(b is not None and len(b) == 1 and isinstance(b[0], ast.ClassDef) and word_of(b[0].name) is t.__name__, "declared: one class of its name")
    X.check(len(b[0].bases) == 1 and dotted(b[0].bases[0]) == ([m.rstrip(".")] if m else []) + [t.__base__.__name__], "declared: with its kind")
    return b[0].body


# ------------------------------------------------------------------------------------------------------------- enums

@proof("C20", "generate_enum_stub", ("enum", "flag"), native=None, stubs=INDENT)
def enum(X, case):
    """For any number of members: a class of the name and kind of the enumeration with exactly the members that can be declared."""
    t, m = Type(X, case), X.pick("module prefix", ("", "__cs__."))
    t.__members__ = Members()
    seen = []

    def lines(f, it, cond):
        X.shape(it is t.__members__, "the members")
        if X.pick("which", ("step", "rest")) == "step":
            w = Word("member")
            c = bool(cond(w))
            X.check(c == w.valid(), "members: exactly those that can be declared")
            if c:
                x = f(w)
                b = parse(SText(["class C:\n", x]), "members")
                X.check(len(b) == 1 and len(b[0].body) == 1 and isinstance(b[0].body[0], (ast.Assign, ast.AnnAssign)), "members: one declaration each")
                s = b[0].body[0]
                tg = s.targets[0] if isinstance(s, ast.Assign) else s.target
                X.check(dotted(tg) == [w], "members: of its name")
            raise engine.PathEnd()
        if X.pick("any", (True, False)):
            seen.append(Word("members", valid=True))
            return Lines([SText(["    ", seen[0]])])
        return []
    X.ex.loops["generate_enum_stub:lf1"] = lines
    X.ex.loops_wanted.add("generate_enum_stub:lf1")
    out = X.call(stubgen.generate_enum_stub, t, cs_prefix="cs.", module_prefix=m)
    X.check(out.ok, "no error", outcome=out)
    body = check_head(X, parse(out.value, "enum"), t, m)
    names = [dotted(s.value)[0] for s in body if isinstance(s, ast.Expr) and not isinstance(s.value, ast.Constant)]
    X.check(names == seen and len(body) - len(names) <= 1 and all(isinstance(s, ast.Expr) for s in body), "enum: exactly the members")


class Members:
    """members of an arbitrary enumeration"""
    def __iter__(self): raise Unsupported("iterating over arbitrary members")
    def __len__(self): raise Unsupported("number of arbitrary members")
    def keys(self): return self
    def sym_contains(self, n): raise Unsupported("a member of arbitrary members")


# -------------------------------------------------------------------------------------------------------- structures

class Fields:
    """fields of an arbitrary structure"""
    def __init__(self, X): self.X, self.has = X, {}
    def items(self): return self
    def __iter__(self): raise Unsupported("iterating over arbitrary fields")
    def sym_contains(self, n):
        return self.__contains__(n)
    def __contains__(self, n):
        if exact(n) is Word:
            if n.means != "instance": raise Unsupported("a field")
            n = n.id
        elif exact(n) is not str: raise Unsupported("a field")
        if n not in self.has:
            if len(self.has) > 4: raise Unsupported("names of the fields")
            self.has[n] = self.X.pick(f"field {n}", (False, True))
        return self.has[n]


class SelfCut(Cut):
    """looking for a name no field has: always a name that can be declared"""
    def __init__(self, X, fields): self.X, self.fields = X, fields
    def enter(self, L, it):
        self.n, = self.roles(L, ("self_name", lambda v: v == "self"))
    def havoc(self, L):
        self.w = Word("instance", valid=True)
        return {self.n: self.w}
    def end(self, L):
        b = parse(L[self.n], "instance")
        self.X.check(re.fullmatch(r"\w*" + self.w.mark(), render(L[self.n])) is not None and len(render(L[self.n])) > len(self.w.mark()), "instance: another name that can be declared")


class FieldsCut(Cut):
    """so far: a declaration for each field seen that can be declared, and as many arguments"""
    def __init__(self, X, fields, cp, mp): self.X, self.fields, self.cp, self.mp = X, fields, cp, mp

    def enter(self, L, it):
        self.X.shape(it is self.fields, "the fields")
        self.result, self.args = self.roles(L, ("result", lambda v: type(v) is list and len(v) == 1 and "class" in render(v[0])), ("args", lambda v: type(v) is list and len(v) == 1 and "class" not in render(v[0])))
        self.head, self.first = L[self.result][0], L[self.args][0]

    def havoc(self, L):
        self.fsofar, self.asofar = Word("fields so far", valid=True), Word("arguments so far", valid=True)
        self.r, self.a = Lines([self.head, SText(["    ", self.fsofar])]), Lines([self.first, SText([self.asofar])])
        return {self.result: self.r, self.args: self.a}

    def iter(self, it):
        if self.X.pick("more fields", (False, True)):
            self.n, self.f = Word("field"), Type(self.X)
            for k in self.fields.has:
                if type(k) is str and not self.fields.has[k]: self.n.nots.add(k)
            yield self.n, FieldOf(self.f, self.n)

    def end(self, L):
        X, n, f = self.X, self.n, self.f
        X.check(L[self.result] is self.r and L[self.args] is self.a, "fields: the same collections")
        new, args = self.r.new, self.a.new
        if not n.valid(): return X.check(not new and not args, "fields: those Python cannot declare are left out")
        inner = f.nested
        inline = inner.kind in ("struct", "union") and not inner.is_declared
        b = parse(SText(["class C:\n", engine.m_join("\n", new)]), "fields")[0].body if new else []
        if inline:
            X.check(b and class_of(b[0]) == ("structure", inner, self.cp, self.mp), "fields: a structure without a name of its own is declared with the field")
            b = b[1:]
        X.check(len(b) == 1 and isinstance(b[0], ast.AnnAssign) and b[0].value is None and dotted(b[0].target) == [n], "fields: one declaration under the name of the field")
        self.is_hint(b[0].annotation, f, inline)
        X.check(len(args) == 1, "fields: one argument")
        d = ast.parse(f"def f({render(args[0])}): ...").body[0].args
        X.check(len(d.args) == 1 and len(d.defaults) == 1 and word_of(d.args[0].arg) is n and not d.kwonlyargs and not d.vararg, "fields: one optional argument of its name")
        h = d.args[0].annotation
        if isinstance(h, ast.BinOp): h = h.left
        self.is_hint(h, f, inline)

    def is_hint(self, e, f, inline):
        h = dotted(e)
        h = h[0] if len(h) == 1 else None
        self.X.check(exact(h) is Hint and h.type is f and (h.prefix == ("" if inline else self.cp) or f.kind in ("char[]", "wchar[]")) and h.module == self.mp and h.named is f.nested.__name__, "fields: a hint of the type of the field")


class FieldOf:
    def __init__(self, t, n): self.type, self._name, self.name = t, n, n


@proof("C20", "generate_structure_stub", ("struct", "union"), native=None, stubs=INDENT)
def structure(X, case):
    """For any number of fields of any types: a class of the name and kind of the structure; each field whose name can be
    declared has one declaration with a hint of its type, and is an argument of the constructor, whose other argument has a
    name of its own."""
    t, m = Type(X, case), X.pick("module prefix", ("", "__cs__."))
    t.fields = Fields(X)
    real = fn("generate_structure_stub")
    stub("generate_typehint", "nested_type", "is_declared", "generate_structure_stub")
    emit, first = sym.EX.stubs[real], []
    sym.EX.stubs[real] = lambda *a, **k: emit(*a, **k) if first else (first.append(1), real.__call__(*a, **k))[1]
    cut = FieldsCut(X, t.fields, "cs.", m)
    X.loop("generate_structure_stub:1", SelfCut(X, t.fields))
    X.loop("generate_structure_stub:2", cut)
    out = X.call(real, t, cs_prefix="cs.", module_prefix=m)
    X.check(out.ok, "no error", outcome=out)
    body = check_head(X, parse(out.value, "structure"), t, m)
    X.check(isinstance(body[0], ast.Expr) and dotted(body[0].value) == [cut.fsofar], "structure: the fields first")
    fs = body[1:]
    X.check(len(fs) == 2 and all(isinstance(s, ast.FunctionDef) and s.name == "__init__" for s in fs), "structure: two constructors")
    args = fs[0].args.args
    X.check(len(args) == 2 and word_of(args[1].arg) is cut.asofar, "structure: one takes the fields")
    a = word_of(args[0].arg)
    a = a.id if isinstance(a, Sym) else a
    X.check(a in t.fields.has and not t.fields.has[a], "structure: the instance has a name no field has")
    X.check(len([*fs[1].args.posonlyargs, *fs[1].args.args]) == 2, "structure: the other one takes the input")


# ----------------------------------------------------------------------------------------------------- whole objects

class Table:
    """an arbitrary table of names"""
    def __init__(self, what): self.what = what
    def items(self): return self
    def __iter__(self): raise Unsupported("iterating over an arbitrary table")
    def sym_contains(self, n): raise Unsupported("a name in an arbitrary table")


class AbsCs:
    def __init__(self, X): self.consts, self.typedefs, self.X = Table("consts"), Table("typedefs"), X
    def resolve(self, t):
        if exact(t) is Alias: return t.t
        if exact(t) is Type: return t
        raise Unsupported("resolving something else")


class Alias(Sym):
    """what a name is declared as: a type or the name of one"""
    __slots__ = ("t",)
    pytype = object
    def __init__(self, t): self.t = t


class Value(Sym):
    """the value of a constant; of an anonymous enum: a member"""
    __slots__ = ("member", "of", "shown")
    def __init__(self, member, of=None): self.member, self.of, self.shown = member, of, None
    @property
    def __class__(self): return T.Enum if self.member else object
    pytype = object
    @property
    def value(self):
        if not self.member: raise AttributeError("value")
        return self.of
    def represented(self):
        if self.shown is None: self.shown = Word(("value", self), valid=True)
        return self.shown


class BodyCut(Cut):
    """so far: the declarations of the names seen"""
    def __init__(self, X, table, empty): self.X, self.table, self.empty = X, table, empty
    def enter(self, L, it):
        self.X.shape(it is self.table, "the table")
        self.body, = self.roles(L, ("body", lambda v: isinstance(v, list) and (exact(v) is Lines or not v)))
        self.entry = L[self.body]
    def lines(self):
        self.sofar = Word("declarations so far", valid=True)
        return Lines([*(self.entry.before if exact(self.entry) is Lines else []), SText(["    ", self.sofar])])
    def declarations(self, new):
        if not new: return []
        b = parse(SText(["class cs:\n", engine.m_join("\n", new)]), "declarations")
        return b[0].body
    def skipped(self, n):
        """names that every instance has, or Python cannot declare"""
        return any(c for k, (d, c) in n.ins.items()) or not n.valid()


class ConstsCut(BodyCut):
    def havoc(self, L):
        self.r = self.lines()
        return {self.body: self.r}
    def iter(self, it):
        if self.X.pick("more constants", (False, True)):
            self.n = Word("constant")
            self.v = Value(True, Value(False)) if self.X.pick("member", (False, True)) else Value(False)
            yield self.n, self.v
    def end(self, L):
        X = self.X
        X.check(L[self.body] is self.r, "constants: the same collection")
        d = self.declarations(self.r.new)
        if self.skipped(self.n): return X.check(not d, "constants: no others are declared")
        X.check(len(self.n.ins) <= 1, "constants: compared with those every instance has")
        X.check(len(d) == 1 and isinstance(d[0], ast.AnnAssign) and dotted(d[0].target) == [self.n], "constants: one declaration of its name")
        a = d[0].annotation
        X.check(isinstance(a, ast.Subscript) and dotted(a.value)[-1] == "Literal", "constants: a literal")
        v = self.v.of if self.v.member else self.v
        X.check(v.shown is not None and dotted(a.slice) == [v.shown], "constants: of its value")


class TypesCut(BodyCut):
    optional = ("defined_names",)
    def __init__(self, X, table, empty, mp):
        BodyCut.__init__(self, X, table, empty)
        self.mp = mp
    def enter(self, L, it):
        BodyCut.enter(self, L, it)
        s = [k for k, v in L.items() if exact(v) is set and not v]
        if len(s) > 1: raise Unsupported("sets")
        self.defined = s[0] if s else None
    def havoc(self, L):
        self.r, self.set = self.lines(), Defined()
        d = {self.body: self.r}
        if self.defined: d[self.defined] = self.set
        return d
    def iter(self, it):
        if self.X.pick("more types", (False, True)):
            X = self.X
            self.t = Type(X)
            t = self.t
            self.n = Word("typedef")
            own = t.kind in LEAVES and X.pick("own name", (True, False))
            if own:
                t._name = self.n
                t.flags = {"known": True, "declared": True}
            elif t.kind in LEAVES:
                # precondition: a type of a definition goes by its own name too
                t.flags = {"known": True, "declared": True}
            yield self.n, Alias(t)
    def end(self, L):
        X, n, t = self.X, self.n, self.t
        X.check(L[self.body] is self.r, "types: the same collection")
        d = self.declarations(self.r.new)
        if self.gone(n): return X.check(not d, "types: no others are declared")
        if t._name is n:
            X.check(len(d) == 1 and class_of(d[0]) is not None, "types: a class under the name")
            what, ty, cp, mp = class_of(d[0])
            X.check(ty is t and mp == self.mp and what == {"struct": "structure", "union": "structure", "enum": "enum", "flag": "enum"}.get(t.kind, "generic"), "types: of its kind")
            X.check(cp == "cls." or what != "structure", "types: referring to the others through the class")
            return
        X.check(len(d) == 1 and isinstance(d[0], ast.AnnAssign) and dotted(d[0].target) == [n] and dotted(d[0].annotation)[-1] == "TypeAlias" and d[0].value is not None, "types: one alias under the name")
        e = dotted(d[0].value)
        if t.kind in LEAVES: return X.check(e[-1] is t.__name__ and len(e) <= 2 and (len(e) == 1 or e[0] == "cls"), "types: of the type under its own name")
        if len(e) == 2: return X.check(e[0] == "cls" and e[1] is t._name, "types: of the type under its own name")
        h = e[0]
        X.check(exact(h) is Hint and h.type is t and h.module == self.mp, "types: a hint of the type")
        i = t.nested
        if i.kind in ("struct", "union") and not i.is_declared: X.check(h.prefix == "" and exact(h.named) is str and h.named == f"{self.mp}{i.__base__.__name__}", "types: the kind of a structure without a name")
        else: X.check((h.prefix == "cls." or t.kind in ("char[]", "wchar[]")) and h.named is i.__name__, "types: named through the class")
    def gone(self, n):
        if n.ins:
            c = [x for _, x in n.ins.values()]
            if any(c): return True
        return not n.valid()


class Defined(Sym):
    """names declared so far"""
    __slots__ = ("seen", "new")
    pytype = set
    def __init__(self): self.seen, self.new = {}, []
    @property
    def __class__(self): return set
    def add(self, n): self.new.append(n)
    def sym_contains(self, n):
        if any(n is x for x in self.new): return True
        if n.means == "typedef": return False  # every name comes once
        if n.id not in self.seen: self.seen[n.id] = sym.EX.choose(2) == 1
        return self.seen[n.id]


@proof("C20", "generate_cstruct_stub", (None,), native=None, stubs=INDENT)
def whole(X, case):
    """For any number of constants and types: exactly one declaration for each that not every instance has and Python can
    declare: a constant with its value, a type under its own name as a class, anything else as an alias of what it stands for."""
    stub("generate_typehint", "nested_type", "is_declared", "generate_structure_stub", "generate_enum_stub", "generate_generic_stub")
    cs, m = AbsCs(X), X.pick("module prefix", ("", "__cs__."))
    a, b = ConstsCut(X, cs.consts, None), TypesCut(X, cs.typedefs, None, m)
    X.loop("generate_cstruct_stub:1", a)
    X.loop("generate_cstruct_stub:2", b)
    out = X.call(stubgen.generate_cstruct_stub, cs, module_prefix=m, cls_name="cls")
    X.check(out.ok, "no error", outcome=out)
    s = parse(out.value, "whole")
    X.check(len(s) == 1 and isinstance(s[0], ast.ClassDef) and s[0].name == "cls" and len(s[0].bases) == 1, "one class")
    X.check(dotted(s[0].bases[0])[-1] == "cstruct", "of its kind")
    X.check([dotted(x.value)[0] for x in s[0].body] == [a.sofar, b.sofar], "constants and types")
