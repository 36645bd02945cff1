"""Proof functions: contracts of single functions, universally quantified over everything they take.

A proof function run(X, case) is written once against the executor interface.  SymX runs it symbolically on the
instrumented real code (verify.py) and discharges every check; NativeX runs it on the untouched real code with concrete
inputs: to replay a counterexample, and as a vacuity guard (the precondition is reachable, the postcondition evaluated).
"""
from __future__ import annotations

import codecs
import io
import re

import z3

from pyv import core, sym, engine, ref
from pyv.core import Out
from pyv.sym import SInt, SBool, SBytes, SStr, SFloat, Sym, Unsupported, Abort, is_sym, band, bor, bnot, mk, mki, mkb

PROOFS: dict[str, list] = {}


class Proof:
    def __init__(self, prop, name, run, cases, functions, doc, bounded, timeout, native, stubs, steps):
        self.prop, self.name, self.run, self.cases, self.functions, self.doc = prop, name, run, cases, functions, doc
        self.bounded, self.timeout, self.native, self.stubs, self.steps = bounded, timeout, native, stubs, steps

    def case_list(self):
        if self.listed is None:
            c = self.cases() if callable(self.cases) else self.cases
            self.listed = list(c.items()) if isinstance(c, dict) else [(str(x), x) for x in c]
        return self.listed

    listed = None


def load():
    """import every proof module"""
    import importlib, os
    for f in sorted(os.listdir(os.path.join(core.ROOT, "pyv", "proofs"))):
        if not f.endswith(".py") or f == "__init__.py": continue
        before = {k: len(v) for k, v in PROOFS.items()}
        try: importlib.import_module(f"pyv.proofs.{f[:-3]}")
        except Exception as e:
            # functions under contract are gone: these proofs say nothing about this code
            for k in PROOFS: del PROOFS[k][before.get(k, 0):]
            FAILED.append((f, repr(e)))


FAILED = []


def proof(props, functions, cases=(None,), bounded=None, timeout=60, native=40, stubs=None, steps=False):
    """functions: qualified names of the functions under contract.  bounded: what bounds the proof (None: nothing does).
    steps: single steps of an induction (no path need reach the end of the proof function)."""
    def deco(f):
        for p in props.split():
            PROOFS.setdefault(p, []).append(Proof(p, f.__name__, f, cases, functions.split(), (f.__doc__ or "").strip(), bounded, timeout, native, stubs or {}, steps))
        return f
    return deco


# ------------------------------------------------------------------------------------------- unbounded stream model

class Buf(Sym):
    """bytes of symbolic length n: item i is A[off + i]"""
    __slots__ = ("s", "off", "n", "pytype")

    def __init__(self, s, off, n): self.s, self.off, self.n, self.pytype = s, off, n, bytes
    @property
    def __class__(self): return bytes
    def sym_len(self): return self.n
    def __len__(self): return sym.EX.concretize(self.n) if isinstance(self.n, SInt) else self.n
    def __bool__(self): return bool(self.n != 0)
    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step is not None or k.start is not None: raise Unsupported("slice of symbolic buffer")
            n = k.stop
            if isinstance(n, int) and not is_sym(n) and n < 0: n = self.n + n
            if bool(n >= self.n): n = self.n
            return Buf(self.s, self.off, n) if isinstance(n, SInt) else SBytes([self.s.at(self.off + i) for i in range(n)])
        return self.s.at(self.off + k)
    def __eq__(self, o):
        if type(o) is not Buf and isinstance(o, (bytes, SBytes)):
            m = len(o)
            if not bool(self.n == m): return False
            return sym.seq_eq([self.s.at(self.off + i) for i in range(m)], list(o.items if is_sym(o) else o))
        if isinstance(o, Buf):
            if (o.s is self.s or o.s.A is self.s.A) and bool(self.n == o.n) and bool(self.off == o.off): return True
        raise Unsupported("comparing buffers")
    def __ne__(self, o): return bnot(self.__eq__(o))
    def decode(self, enc, errors="strict"):
        if errors not in ("strict", "replace", "ignore"): raise Unsupported("error handler " + errors)
        return BufStr(self, enc if errors == "strict" else enc + "/" + errors)
    def sym_stream(self): return BufIO(self)
    def __add__(self, o):
        if isinstance(o, bytes): return Cat([self, o]) if len(o) else self
        return NotImplemented
    def sym_write(self, sink):
        sink.chunks.append(self)
        return self.n
    def sym_new(self, cls):
        b = Buf(self.s, self.off, self.n)
        b.pytype = cls
        return b
    @property
    def __class__(self): return self.pytype
    def concrete_in(self, m): return f"<{engine.concrete(self.n, m)} bytes>"


class BufStr(Sym):
    """the string a symbolic-length buffer decodes to (a function of the buffer and the encoding)"""
    __slots__ = ("buf", "enc", "pytype")
    def __init__(self, buf, enc): self.buf, self.enc, self.pytype = buf, enc, str
    @property
    def __class__(self): return self.pytype
    def sym_new(self, cls):
        b = BufStr(self.buf, self.enc)
        b.pytype = cls
        return b


class AnyStr(Sym):
    """a string of arbitrary content and length, possibly with constant text around it; encoding it fails or yields bytes
    known as the encoding of it"""
    __slots__ = ("parts", "n")
    pytype = str
    def __init__(self, parts, n): self.parts, self.n = parts, n
    @property
    def __class__(self): return str
    def sym_len(self): return self.n
    def __bool__(self): return bool(self.n != 0)
    def __add__(self, o):
        if type(o) is not str: return NotImplemented
        return AnyStr(self.parts + [o], self.n + len(o)) if o else self
    def __radd__(self, o):
        if type(o) is not str: return NotImplemented
        return AnyStr([o] + self.parts, self.n + len(o)) if o else self
    def encode(self, enc="utf-8", errors="strict"):
        if errors != "strict": raise Unsupported("error handler " + errors)
        enc, out = codecs.lookup(enc).name, []
        for q in self.parts:
            if type(q) is str:
                out.append(q.encode(enc))
                continue
            if sym.EX.choose(2): raise UnicodeEncodeError(enc, "?", 0, 1, "arbitrary text")
            out.append((q, enc))
        return AnyEnc(out)
    def sym_new(self, cls): raise Unsupported("subclass of arbitrary text")
    def concrete_in(self, m): return {"len": engine.concrete(self.n, m)}


class AnyEnc(Sym):
    """bytes: encodings of arbitrary strings, with constants between them"""
    __slots__ = ("parts",)
    pytype = bytes
    def __init__(self, parts):
        self.parts = []
        for q in parts:
            if type(q) is bytes and self.parts and type(self.parts[-1]) is bytes: self.parts[-1] += q
            elif q != b"": self.parts.append(q)
    @property
    def __class__(self): return bytes
    def __add__(self, o): return AnyEnc(self.parts + [o]) if type(o) is bytes else AnyEnc(self.parts + o.parts) if type(o) is AnyEnc else NotImplemented
    def __radd__(self, o): return AnyEnc([o] + self.parts) if type(o) is bytes else NotImplemented
    def sym_len(self):
        n = 0
        for q in self.parts: n = (len(q) if type(q) is bytes else q[0].size(q[1])) + n
        return n
    def sym_write(self, sink):
        sink.chunks.append(self)
        return self.sym_len()


class TextId:
    """the identity of an arbitrary string; size(encoding) is the number of bytes of its encoding"""
    def __init__(self): self.sizes = {}
    def size(self, enc):
        if enc not in self.sizes: self.sizes[enc] = fresh_int("encoded", 0)
        return self.sizes[enc]


class SymList(Sym):
    """list of symbolic length n with element function at(i)"""
    __slots__ = ("n", "fn", "pytype", "attrs")
    def __init__(self, n, fn, pytype=list): self.n, self.fn, self.pytype, self.attrs = n, fn, pytype, None
    @property
    def __class__(self): return self.pytype
    def sym_len(self): return self.n
    def __bool__(self): return bool(self.n != 0)
    def __getitem__(self, i):
        if isinstance(i, slice): raise Unsupported("slice of symbolic list")
        if not bool(i < self.n): raise IndexError("list index out of range")
        return self.fn(i)
    def with_type(self, cls): return SymList(self.n, self.fn, cls)
    def __iter__(self): raise Unsupported("iterating over a symbolic list")
    def sym_map(self, f):
        ex = sym.EX
        if ex.choose(2) == 0:
            # an arbitrary element: if f raises for it, so does the comprehension
            j = fresh_int("elem", 0)
            ex.assume(j < self.n)
            f(self.fn(j))
            raise engine.PathEnd()
        return SymList(self.n, lambda i: f(self.fn(i)))
    def concrete_in(self, m): return f"<list of {engine.concrete(self.n, m)}>"


def _cat(xs):
    """[*a, b, *c] with symbolic lists"""
    parts = [x.v if type(x) is engine.Star else [x] for x in xs]
    n = 0
    for q in parts: n = (q.n if type(q) is SymList else len(q)) + n
    def at(i):
        for q in parts:
            m = q.n if type(q) is SymList else len(q)
            if bool(i < m): return q.fn(i) if type(q) is SymList else q[0 if m == 1 else sym.EX.concretize(i) if isinstance(i, SInt) else i]
            i = i - m
        raise IndexError
    return SymList(n, at)


SymList.sym_cat = lambda self, xs: _cat(xs)


class SymTotal(Sym):
    """iterable known only by its sum"""
    __slots__ = ("total",)
    pytype = object
    def __init__(self, total): self.total = total
    def sym_sum(self): return self.total


class Ghost(Sym):
    """list with an arbitrary number m of elements (known by the loop invariant), and those appended since"""
    __slots__ = ("m", "new", "join", "sep")
    pytype = list
    def __init__(self, m, join=None, sep=(b"", "")): self.m, self.new, self.join, self.sep = m, [], join, sep
    @property
    def __class__(self): return list
    def append(self, x): self.new.append(x)
    def sym_len(self): return self.m + len(self.new)
    def __bool__(self): return bool(self.sym_len() > 0)
    def sym_join(self, sep):
        if self.join is None or self.new or sep not in self.sep: raise Unsupported("join")
        return self.join()


class SymStruct:
    """struct.Struct with a symbolic repeat count: n items of one format character"""
    def __init__(self, little, n, ch):
        self.little, self.n, self.ch = little, n, ch
        self.w = engine.PK[ch][0] if ch in engine.PK else engine.PF[ch]
        self.size = n * self.w

    def item(self, bs):
        if self.ch in engine.PK: return sym.from_bytes(bs, self.little, engine.PK[self.ch][1])
        return engine.sfloat(self.w, sym.from_bytes(bs, self.little, False))

    def unpack(self, data):
        if not bool(engine.pv_call(len, data) == self.size): raise engine._struct.error("unpack requires a buffer of another size")
        if type(data) is not Buf:
            if bool(self.n == 0): return ()
            raise Unsupported("unpack of a concrete number of bytes")
        return SymList(self.n, lambda i: self.item([data.s.at(data.off + i * self.w + j) for j in range(self.w)]), tuple)

    def pack(self, *vals):
        if len(vals) != 1 or type(vals[0]) is not engine.Star: raise Unsupported("pack with a symbolic count")
        v = vals[0].v
        if not bool(v.n == self.n): raise engine._struct.error("pack expected another number of items")
        one = engine._struct.Struct(("<" if self.little else ">") + self.ch)
        ex = sym.EX
        if ex.choose(2) == 0:
            # an arbitrary element: if it is rejected, so is the whole
            j = fresh_int("elem", 0)
            ex.assume(j < v.n)
            engine.pv_call(one.pack, v.fn(j))
            raise engine.PathEnd()
        return EncList(v, self.w, lambda x: engine.pv_call(one.pack, x))


class EncList(Sym):
    """the encodings of the elements of a symbolic list, one after the other"""
    __slots__ = ("v", "w", "enc")
    pytype = bytes
    def __init__(self, v, w, enc): self.v, self.w, self.enc = v, w, enc
    @property
    def __class__(self): return bytes
    def sym_len(self): return self.v.n * self.w
    def sym_write(self, sink):
        sink.chunks.append(self)
        return self.sym_len()


class Cat(Sym):
    """bytes: a symbolic-length part followed by another"""
    __slots__ = ("parts",)
    pytype = bytes
    def __init__(self, parts): self.parts = parts
    @property
    def __class__(self): return bytes
    def sym_len(self):
        n = 0
        for q in self.parts: n = engine.pv_call(len, q) + n
        return n
    def sym_write(self, sink):
        sink.chunks.append(self)
        return self.sym_len()


def m_struct(fmt):
    if not isinstance(fmt, engine.SText): return NotImplemented
    p = [q for q in fmt.parts if q != ""]
    if len(p) == 3 and type(p[0]) is str and type(p[1]) is tuple and p[1][0] == "fmt" and p[1][2:] == ("", "") and type(p[2]) is str and len(p[2]) == 1:
        e, n, ch = p[0], p[1][1], p[2]
        if bool(n < 0): raise engine._struct.error("bad char in struct format")
        if e in ("<", ">", "!", "=") and (ch in engine.PK or ch in engine.PF): return SymStruct(e == "<" or e == "=", n, ch)
    raise Unsupported("struct format with symbolic parts")


engine.BY_OBJ[engine._struct.Struct] = m_struct
engine.IMMUTABLE |= {AnyStr, AnyEnc, SymStruct, Buf, BufStr, Cat, EncList, SymList, SInt, SBool, SBytes, SStr, SFloat}


def exact(x):
    """the class of the value itself (in instrumented code type(x) of a symbolic value is the class it stands for)"""
    return type(x)


def same(a, b):
    """a and b are one object"""
    return a is b


def m_map(f, *its):
    if len(its) == 1 and hasattr(type(its[0]), "sym_map"): return its[0].sym_map(lambda x: engine.pv_call(f, x))
    return map(lambda *a: engine.pv_call(f, *a), *its)


def m_list(*a):
    if a and type(a[0]) is SymList: return SymList(a[0].n, a[0].fn)
    if a and is_sym(a[0]) and hasattr(type(a[0]), "copy"): return a[0].copy()
    return NotImplemented


def m_sum(it, *a):
    if hasattr(type(it), "sym_sum"): return it.sym_sum()
    return NotImplemented


engine.BY_OBJ[map], engine.BY_OBJ[list], engine.BY_OBJ[sum] = m_map, m_list, m_sum


def fresh_int(name, lo=None, hi=None):
    ex = sym.EX
    v = SInt(z3.Int(ex.fresh(name)), lo, hi)
    if lo is not None: ex.assume_t(v.t >= lo)
    if hi is not None: ex.assume_t(v.t <= hi)
    return v


def iv(x):
    """int-mode term"""
    return sym.to_int(sym.as_sint(x)).t


class AbsIO:
    """An arbitrary seekable stream: arbitrary contents, arbitrary length, arbitrary position.
    faulty: every read may also deliver fewer bytes than requested, or raise.  coarse: the length of what a read at the end
    delivers stays symbolic."""
    coarse = False

    def __init__(self, name, mode="bv", faulty=False, pos=None):
        ex = sym.EX
        self.mode, self.name, self.faulty = mode, name, faulty
        self.A = z3.Array(name + ".bytes", z3.IntSort(), z3.BitVecSort(8) if mode == "bv" else z3.IntSort())
        self.N = SInt(z3.Int(name + ".len"), 0, None)
        ex.assume_t(self.N.t >= 0)
        if pos is None:
            self.pos = SInt(z3.Int(name + ".pos"), 0, None)
            ex.assume_t(self.pos.t >= 0)
        else:
            self.pos = pos
        self.start = self.pos
        self.short = False
        self.seen = {}

    def at(self, i):
        """byte at absolute position i"""
        t = iv(i)
        if self.mode == "bv":
            return sym.raw_byte(z3.Select(self.A, t))
        e = z3.Select(self.A, t)
        sym.EX.assume_t(z3.And(e >= 0, e <= 255))
        return SInt(e, 0, 255)

    def read(self, n=-1):
        ex = sym.EX
        if n is None: n = -1
        if self.faulty and not (isinstance(n, int) and not is_sym(n) and n == 0):
            k = ex.choose(3)
            if k == 1:
                self.short = True
                raise OSError("stream failure")
            if k == 2:
                # an arbitrary shorter delivery
                self.short = True
                if isinstance(n, SInt) or n < 0: raise Unsupported("short delivery of a symbolic size")
                got = ex.choose(n)
                r = engine.mkbytes([self.at(self.pos + i) for i in range(got)])
                ex.assume(self.pos + got <= self.N)
                self.pos = self.pos + got
                return r
        if isinstance(n, SInt):
            if bool(n < 0): n = -1
        left = self.N - self.pos
        if not isinstance(n, SInt) and n < 0:
            k = left if bool(left >= 0) else 0
            r = Buf(self, self.pos, k) if isinstance(k, SInt) else b""
            self.pos = self.pos + k
            return r
        if isinstance(n, SInt):
            if bool(left >= n): k = n
            elif bool(left >= 0): k = left
            else: k = 0
            r = Buf(self, self.pos, k) if isinstance(k, SInt) else engine.mkbytes([self.at(self.pos + i) for i in range(k)])
            self.pos = self.pos + k
            return r
        if n == 0: return b""
        if bool(left >= n): k = n
        elif self.coarse:
            # fewer than n bytes: how many stays open
            k = left if bool(left >= 0) else 0
            r = Buf(self, self.pos, k) if isinstance(k, SInt) else b""
            self.pos = self.pos + k
            return r
        else:
            k = 0
            for j in range(n - 1, 0, -1):
                if bool(left == j):
                    k = j
                    break
        r = engine.mkbytes([self.at(self.pos + i) for i in range(k)])
        self.pos = self.pos + k
        return r

    def tell(self): return self.pos

    def seek(self, o, whence=0):
        if whence == 1:
            o = self.pos + o
            if bool(o < 0): o = 0
        elif whence == 2:
            o = self.N + o
            if bool(o < 0): o = 0
        elif bool(o < 0): raise ValueError("negative seek value")
        self.pos = o if not isinstance(o, SInt) else o._plain()
        return self.pos

    def concrete_in(self, m):
        n = engine.concrete(self.N, m)
        p = engine.concrete(self.start, m)
        cap = min(n, 1 << 16)
        data = bytes(engine.concrete(self.at_raw(i), m) & 0xFF for i in range(cap)) if cap <= 4096 else bytes(cap)
        return {"stream": data.hex(), "pos": p, "len": n}

    def at_raw(self, i):
        e = z3.Select(self.A, z3.IntVal(i))
        return sym.SInt(e, 0, 255) if self.mode == "int" else sym.SInt(z3.ZeroExt(1, e), 0, 255)


class BufIO(AbsIO):
    """BytesIO over bytes of arbitrary content and length"""
    def __init__(self, buf):
        self.mode, self.faulty, self.short, self.seen, self.name = buf.s.mode, False, False, {}, "BytesIO"
        self.buf, self.N, self.pos, self.start = buf, buf.n, 0, 0
    def at(self, i): return self.buf.s.at(self.buf.off + i)
    def at_raw(self, i): raise Unsupported("bytes of a view")
    def whole(self): return Buf(self, 0, self.N)
    def concrete_in(self, m): return "<BytesIO>"


class Sink:
    """An arbitrary output stream positioned at its end: what is written, and where."""
    def __init__(self, name, pos=None):
        if pos is None:
            self.base = SInt(z3.Int(name + ".pos"), 0, None)
            sym.EX.assume_t(self.base.t >= 0)
        else:
            self.base = pos
        self.items = []
        self.chunks = []

    def write(self, b):
        if is_sym(b) and hasattr(b, "items"): b = b.items
        elif isinstance(b, (bytes, bytearray, memoryview)) and not is_sym(b): b = list(bytes(b))
        elif hasattr(b, "sym_write"): return b.sym_write(self)
        else: raise TypeError("a bytes-like object is required, not " + type(b).__name__)
        self.items += list(b)
        return len(b)

    def tell(self): return self.base + len(self.items)

    def seek(self, o, whence=0):
        raise Unsupported("seek on a sink")

    def written(self): return list(self.items)

    def concrete_in(self, m): return {"pos": engine.concrete(self.base, m)}


class NSink(io.BytesIO):
    def __init__(self, n):
        super().__init__(b"\xa5" * n)
        self.seek(n)
        self.base = n
    def written(self): return list(self.getvalue()[self.base:])


class NStream(io.BytesIO):
    """native counterpart of AbsIO (with the failures of a faulty one scripted)"""
    def __init__(self, data, pos, script=None):
        super().__init__(data)
        self.N = len(data)
        self.data = data
        self.start = pos
        super().seek(pos)
        self.script = list(script or [])
        self.short = False
    def at(self, i): return self.data[i]
    def read(self, n=-1):
        if self.script and n != 0:
            k = self.script.pop(0)
            if k == "raise":
                self.short = True
                raise OSError("stream failure")
            if k and n and n > 0:
                g = (k - 1) % n
                if self.tell() + g <= self.N:
                    self.short = True
                    return super().read(g)
        return super().read(n)


# ---------------------------------------------------------------------------------------------------------- SymX

class SymEnv(ref.Env):
    def concretize(self, v): return sym.EX.concretize(v) if isinstance(v, SInt) else int(v)
    def truth(self, v): return bool(v)


def stand_in(e):
    """the error is about an arbitrary object not doing what a real one might"""
    if type(e) is AttributeError: return e.obj is not None and type(e.obj).__module__.startswith("pyv.") and not is_sym(e.obj)
    if type(e) is not TypeError: return False
    names = set(re.findall(r"'(\w+)'", str(e)))
    return bool(names & stand_ins())


def stand_ins():
    if not STAND_INS:
        import sys
        for m in [m for n, m in sys.modules.items() if n.startswith("pyv.")]:
            STAND_INS.update(n for n, k in vars(m).items() if type(k) is type and k.__module__.startswith("pyv.") and not issubclass(k, Sym))
    return STAND_INS


STAND_INS: set[str] = set()


class SymX:
    symbolic = True

    def __init__(self, ex):
        self.ex = ex
        self.env = SymEnv()
        self.checks = 0

    def bytes(self, name, n):
        v = engine.mkbytes([sym.raw_byte(z3.BitVec(f"{name}[{i}]", 8)) for i in range(n)])
        self.ex.inputs[name] = v
        return v

    def int(self, name, lo, hi):
        if lo == hi: return lo
        w = sym.need(lo, hi)
        v = SInt(z3.BitVec(name, w), lo, hi)
        if (lo, hi) != (-(1 << (w - 1)), (1 << (w - 1)) - 1):
            self.ex.assume_t(z3.And(v.t >= lo, v.t <= hi))
        self.ex.inputs[name] = v
        return v

    def bigint(self, name, lo=None, hi=None):
        """any integer"""
        v = SInt(z3.Int(name), lo, hi)
        if lo is not None: self.ex.assume_t(v.t >= lo)
        if hi is not None: self.ex.assume_t(v.t <= hi)
        self.ex.inputs[name] = v
        return v

    def bool(self, name):
        v = SBool(z3.Bool(name))
        self.ex.inputs[name] = v
        return v

    def float(self, name, n):
        v = SFloat(n, self.int(name, 0, (1 << (8 * n)) - 1))
        self.ex.assume(bnot(v.is_nan()))
        return v

    def str(self, name, n, lo=0, hi=0xFFFF):
        return engine.mkstr([self.int(f"{name}[{i}]", lo, hi) for i in range(n)])

    def pick(self, name, seq):
        seq = list(seq)
        k = self.ex.choose(len(seq))
        self.ex.inputs[name] = k
        return seq[k]

    def stream(self, name, mode="bv", faulty=False, cap=None):
        s = AbsIO(name, mode, faulty)
        self.ex.inputs[name] = s
        return s

    def data(self, name):
        """bytes of arbitrary content and length"""
        s = AbsIO(name, "int", pos=0)
        self.ex.inputs[name] = s
        return Buf(s, 0, s.N)

    def text(self, name):
        """a string of arbitrary content and length"""
        t = AnyStr([TextId()], fresh_int(name + ".len", 0))
        self.ex.inputs[name] = t
        return t

    def wrap(self, b, kind):
        b = Buf(b.s, b.off, b.n)
        b.pytype = {"bytearray": bytearray, "memoryview": memoryview}[kind]
        return b

    def same_bytes(self, a, b):
        """equal contents"""
        if not (type(a) is Buf and type(b) is Buf): return a == b
        i = fresh_int("index", 0)
        return band(a.n == b.n, bor(i >= a.n, a.s.at(a.off + i) == b.s.at(b.off + i)))

    def is_slice(self, v, s, off, n):
        """v is exactly the n bytes of the stream from off"""
        if type(v) is Buf: return band(v.s is s, v.n == n, bor(v.off == off, n == 0))
        items = list(v.items) if hasattr(v, "items") else list(v)
        return band(n == len(items), *[x == s.at(off + i) for i, x in enumerate(items)])

    def float_is(self, v, n, bits): return isinstance(v, SFloat) and v.n == n and v.bits == bits or not isinstance(v, SFloat) and self.ex.entails(sym.bt(bits == v))

    def float_nan(self, n, bits): return SFloat(n, bits).is_nan()

    def sink(self, name):
        s = Sink(name)
        self.ex.inputs[name] = s
        return s

    def call(self, f, *a, **k):
        ex = self.ex
        if ex.frame is not None: ex.frame.enter([f, *a, *k.values()])
        ex.in_call += 1
        try:
            return Out(engine.pv_call(f, *a, **k))
        except RecursionError:
            raise Unsupported("recursion")
        except Exception as e:
            if stand_in(e): raise Unsupported(f"{e} (of a stand-in)")
            return Out(exc=e)
        finally:
            ex.in_call -= 1

    def check(self, cond, label, **detail):
        self.checks += 1
        self.ex.oblige(cond if isinstance(cond, SBool) else bool(cond), label, None)

    def shape(self, c, what): self.ex.shape(c, what)

    def each(self, n):
        """an arbitrary index below n (the path ends after the body), or on with what follows"""
        if self.ex.choose(2) == 1: return
        i = fresh_int("i", 0)
        self.ex.assume(i < n)
        yield i
        raise engine.PathEnd()

    def truth(self, c): return bool(c)

    def assume(self, c): self.ex.assume(c)

    def loop(self, key, cut):
        self.ex.loops[key] = cut
        self.ex.loops_wanted.add(key)

    def all(self, xs): return band(*list(xs))

    def any(self, xs): return bor(*list(xs))

    def implies(self, a, b): return bor(bnot(a), b)


class ProofX(core.NativeX):
    """Native executor for proof functions."""
    def bigint(self, name, lo=None, hi=None):
        def gen():
            r = self.rng
            k = r.choice((0, 1, 1, 8, 16, 33, 64, 70, 128, 200))
            v = r.choice((0, 1, -1, (1 << k) - 1, 1 << k, -(1 << k), r.getrandbits(k + 1), -r.getrandbits(k + 1)))
            if lo is not None and hi is not None: return v if lo <= v <= hi else lo + abs(v) % (hi - lo + 1)
            if lo is not None and v < lo: v = lo + abs(v) % 1000
            if hi is not None and v > hi: v = hi - abs(v) % 1000
            return v
        return self._in(name, gen)

    def bool(self, name): return self._in(name, lambda: self.rng.random() < .5)

    def float(self, name, n):
        import struct
        b = self.int(name, 0, (1 << (8 * n)) - 1)
        v = struct.unpack("<" + {2: "e", 4: "f", 8: "d"}[n], b.to_bytes(n, "little"))[0]
        self.assume(v == v)
        return v

    def str(self, name, n, lo=0, hi=0xFFFF):
        return "".join(chr(self.int(f"{name}[{i}]", lo, hi)) for i in range(n))

    def stream(self, name, mode="bv", faulty=False, cap=64):
        def gen():
            r = self.rng
            n = r.choice((0, 1, 2, 3, 5, 8, 17, 40))
            data = bytes(r.choices((0, 1, 0x7F, 0x80, 0xFF, r.randrange(256)), k=n))
            return {"stream": data.hex(), "pos": r.randrange(0, n + 3) if r.random() < .8 else 0, "len": n,
                    "script": [r.choice((0, 0, 0, "raise", 1, 2, 3)) for _ in range(r.randrange(4))] if faulty else []}
        d = self.given[name] if name in self.given else gen()
        self.inputs[name] = d
        data = bytes.fromhex(d["stream"])
        if len(data) < d["len"]: raise core.Skip()
        return NStream(data, d["pos"], d.get("script"))

    def data(self, name):
        s = self.stream(name)
        return s.data

    def text(self, name):
        d = self.given.get(name) or {"len": self.rng.choice((0, 0, 1, 1, 2, 3, 7, 8, 15, 16, 63, 64, 127, 128, 255, 256, 511, 1000))}
        if "text" not in d:
            top = self.rng.choice((0x7F, 0xFF, 0xD7FF, 0xFFFF, 0x10FFFF))
            d = {"len": d["len"], "text": [self.rng.randrange(top + 1) for _ in range(min(d["len"], 1 << 16))]}
        self.inputs[name] = d
        return "".join(map(chr, d["text"]))

    def wrap(self, b, kind): return bytearray(b) if kind == "bytearray" else memoryview(b)

    def same_bytes(self, a, b): return bytes(a) == bytes(b)

    def is_slice(self, v, s, off, n): return bytes(v) == bytes(s.data[off:off + n])

    def float_is(self, v, n, bits):
        import struct
        f = struct.unpack("<" + {2: "e", 4: "f", 8: "d"}[n], int(bits).to_bytes(n, "little"))[0]
        return isinstance(v, float) and (v == f or v != v and f != f) and (v != v or struct.pack("<d", v) == struct.pack("<d", f))

    def float_nan(self, n, bits):
        import struct
        f = struct.unpack("<" + {2: "e", 4: "f", 8: "d"}[n], int(bits).to_bytes(n, "little"))[0]
        return f != f

    def sink(self, name):
        d = self.given[name] if name in self.given else {"pos": self.rng.randrange(9)}
        self.inputs[name] = d
        if d["pos"] > 1 << 20: d = {"pos": d["pos"] % 4096}
        return NSink(d["pos"])

    def loop(self, key, cut): pass

    def shape(self, c, what): pass

    def each(self, n): return range(n)

    def all(self, xs): return all(xs)

    def any(self, xs): return any(xs)

    def implies(self, a, b): return (not a) or b


# ------------------------------------------------------------------------------------------------- native execution

def native_case(p, cname, case, seed, inputs=None):
    """-> (status, X, detail)"""
    import random, traceback
    x = ProofX(random.Random(seed), inputs)
    try:
        p.run(x, case)
        return "ok", x, None
    except core.Skip:
        return "skip", x, None
    except core.Violation as v:
        return "violation", x, {"label": v.label, **{k: core.short(d, 2000) for k, d in v.detail.items()}}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any(core.in_target(f.filename) for f in tb[-6:]):
            return "violation", x, {"label": "unexpected exception from the code under contract", "exception": traceback.format_exc(limit=-6)}
        raise


def native_timed(p, cname, case, seed, inputs=None, cap=10):
    """like core.run_case_timed: a hang must show twice, in the code under test, measured in processor time"""
    import signal
    import traceback
    signal.signal(signal.SIGPROF, core._alarm)
    mine = False
    for attempt in (1, 3):
        signal.setitimer(signal.ITIMER_PROF, cap * attempt)
        try:
            return native_case(p, cname, case, seed, inputs)
        except core.Hang as e:
            mine = mine or not any(core.in_target(f.filename) for f in traceback.extract_tb(e.__traceback__))
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    if mine: return "skip", None, {}
    return "violation", None, {"label": f"no result within {cap * 3} s"}


def native_work(a):
    prop, name, cname, seed, n = a
    import traceback
    p = next(p for p in PROOFS[prop] if p.name == name)
    case = dict(p.case_list())[cname]
    checks = 0
    for i in range(n):
        key = f"{name}/{cname}/{seed}/{i}"
        try:
            st, x, detail = native_timed(p, cname, case, key)
        except Exception:
            return name, cname, checks, None, traceback.format_exc(limit=-5)
        if x is not None: checks += x.checks
        if st == "violation":
            return name, cname, checks, {"contract": name, "key": f"proof:{name}/{cname}", "case": cname, "inputs": x.inputs if x else None, "seed": key, **detail}, None
    return name, cname, checks, None, None
