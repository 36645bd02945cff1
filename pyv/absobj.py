"""Arbitrary objects standing for what a function under contract is given: field types (known only by their contract),
fields, a structure class, its cstruct instance.  They answer what the real ones answer and log what is done to them."""
from __future__ import annotations

import z3

from pyv import sym, engine
from pyv.sym import SInt, Unsupported, mkb, is_sym
from pyv.proofkit import fresh_int, iv


class Log(list):
    """what happened to the collaborators, in order"""


class ChildError(EOFError):
    """the error an arbitrary callee raises"""


class Val:
    """a value about which nothing is known but where it came from"""
    def __init__(self, what): self.what = what
    def __repr__(self): return f"<{self.what}>"
    @property
    def value(self): return self.__dict__.setdefault("_v", Val(("value of", self)))


class AbsType:
    """Contract of a type: _read(stream, context) at q either fails, or returns a value and leaves the stream at
    q + len >= q; _write(stream, value) writes len(value) bytes.  Types are the same iff their ids are."""
    def __init__(self, name, log, kind=None, size=None, alignment=None, id=None, storage=None, faulty=True):
        self.name, self.log, self.kind, self.size, self.alignment, self.faulty = name, log, kind, size, alignment, faulty
        self.id = id if id is not None else fresh_int("type." + name)
        self.dynamic = size is None
        self.__name__ = name
        if storage is not None: self.type = storage

    @property
    def __class__(self): return self.kind or AbsType

    def __eq__(self, o):
        if not type(o) is AbsType: return False
        return self.id == o.id

    def __ne__(self, o): return sym.bnot(self.__eq__(o))

    __hash__ = object.__hash__

    def __bool__(self): return True

    def sym_len(self):
        if self.size is None: raise TypeError("Dynamic size")
        return self.size

    def __call__(self, *a, **k):
        if len(a) == 1 and not k and not hasattr(a[0], "read"):
            v = Val(("instance", self, a[0]))
            self.log.append(("convert", self, a[0], v))
            return v
        raise Unsupported("construction of an arbitrary type")

    def __default__(self):
        v = self.__dict__.setdefault("_default", Val(("default", self)))
        return v

    def _read(self, stream, context=None):
        ex = sym.EX
        q = stream.pos
        if self.faulty and ex.choose(2) == 1:
            e = ChildError("end of input")
            self.log.append(("fail", self, q, context, e, None))
            raise e
        n = self.size if self.size is not None else fresh_int("len", 0)
        v = Val(("read", self, q))
        stream.pos = stream.pos + n
        self.log.append(("read", self, q, context, v, n))
        return v

    def _write(self, stream, value):
        n = self.size if self.size is not None else fresh_int("len", 0)
        self.log.append(("write", self, stream.tell(), value, None, n))
        stream.skip(n)
        return n


class AbsField:
    def __init__(self, typ, bits, off, al, name="fk"):
        self.name = self._name = name
        self.type, self.bits, self.offset, self.alignment = typ, bits, off, al


class AbsDict:
    """a dictionary of which only the entries added since are known"""
    def __init__(self, what): self.what, self.new, self.stale = what, [], False
    @property
    def __class__(self): return dict
    def __setitem__(self, k, v): self.new.append((k, v))
    def __getitem__(self, k):
        if k == "__pv_absdict__": return self
        raise Unsupported("reading an arbitrary dictionary")
    def keys(self): return ["__pv_absdict__"]
    def __bool__(self): raise Unsupported("truth of an arbitrary dictionary")
    def __len__(self): raise Unsupported("size of an arbitrary dictionary")
    def __contains__(self, k): raise Unsupported("membership in an arbitrary dictionary")


class AbsObj:
    """an instance built by the structure class"""
    def __init__(self, cls, a, k): self.__dict__.update(_pv_cls=cls, _pv_a=a, _pv_k=k)


class AbsCS:
    def __init__(self, endian): self.endian = endian
    def resolve(self, t): return t


class AbsCls:
    """an arbitrary structure class: its methods are the real ones of the metaclass and class"""
    def __init__(self, meta, base, **k):
        self.__dict__.update(_pv_meta=meta, _pv_base=base, **k)

    def __getattr__(self, n):
        for c in self._pv_base.__mro__:
            if n in c.__dict__:
                d = c.__dict__[n]
                if isinstance(d, classmethod): return d.__func__.__get__(self)
                if isinstance(d, staticmethod): return d.__func__
                break
        for c in self._pv_meta.__mro__:
            if n in c.__dict__ and hasattr(c.__dict__[n], "__get__") and c not in (type, object): return c.__dict__[n].__get__(self)
        raise Unsupported(f"attribute {n} of an arbitrary structure")

    def sym_construct(self, a, k): return AbsObj(self, a, k)

    def __call__(self, *a, **k): return AbsObj(self, a, k)


class AbsFields(list):
    """the fields of an arbitrary structure: only iterable through a loop contract"""
    def __iter__(self): raise Unsupported("iterating over arbitrary fields")
    def __len__(self): raise Unsupported("number of arbitrary fields")
    def __bool__(self): raise Unsupported("number of arbitrary fields")


class Out:
    """an output stream of which only position and the written runs matter: ("zero", n), ("skip", n) or bytes"""
    def __init__(self, log):
        self.base = fresh_int("out.pos", 0)
        self.pos, self.log = self.base, log
    def tell(self): return self.pos
    def skip(self, n): self.pos = self.pos + n
    def seek(self, o, whence=0): raise Unsupported("seek on output")
    def write(self, b):
        n = b.sym_len() if hasattr(type(b), "sym_len") else len(b)
        self.log.append(("raw", b, self.pos, n))
        self.pos = self.pos + n
        return n


def zeros(b):
    """only zero bytes"""
    if type(b) is sym.SRepeat: return not any(b.pat)
    return type(b) is bytes and not any(b)
