"""C16 pointers: contracts of Pointer for every stream, position, address and target type (known by its contract only)."""
from pyv import sym
from pyv.proofkit import proof
from pyv.real import cstruct
from pyv.absobj import Val
from dissect.cstruct.exceptions import NullPointerDereference
from dissect.cstruct.types.base import BaseType
from dissect.cstruct.types.char import Char
from dissect.cstruct.types.void import Void
from dissect.cstruct.types.pointer import Pointer

KINDS = ("other", "char")
OPS = {"__add__": lambda a, b: a + b, "__sub__": lambda a, b: a - b, "__mul__": lambda a, b: a * b, "__floordiv__": lambda a, b: a // b, "__mod__": lambda a, b: a % b,
       "__lshift__": lambda a, b: a << b, "__rshift__": lambda a, b: a >> b, "__and__": lambda a, b: a & b, "__or__": lambda a, b: a | b, "__xor__": lambda a, b: a ^ b}


class PtrType:
    """Contract of the configured pointer type: _read(stream, context) yields an unsigned integer or fails; _write(stream, v)
    writes it and returns the number of bytes."""
    signed, dynamic, alignment, packchar, __name__ = False, False, 8, "Q", "address"
    def __init__(self, X):
        self.X, self.reads, self.writes, self.fail, self.result = X, [], [], None, None
        self.size = X.bigint("width", 1, 16)
    def _read(self, stream, context=None):
        self.reads.append((stream, context))
        if self.X.pick("address.fails", (False, True)):
            self.fail = EOFError("end of input")
            raise self.fail
        self.result = self.X.bigint("address", 0)
        return self.result
    def _write(self, stream, value):
        self.writes.append((stream, value))
        return 77
    def __default__(self): return 0


class FakeCS:
    def __init__(self, X): self.pointer, self.endian = PtrType(X), "<"


def target(X, kind, log):
    """an arbitrary target type: reading at a position fails or yields a value, leaving the stream anywhere"""
    def go(which, stream, context):
        at = stream.tell()
        fails = X.pick(f"target.fails{len(log)}", (False, True))
        stream.seek(X.bigint(f"target.end{len(log)}", 0, 1 << 40))
        if fails:
            e = EOFError("end of input")
            log.append((which, at, stream, context, None, e))
            raise e
        v = Val((which, len(log)))
        log.append((which, at, stream, context, v, None))
        return v

    class Target(Char if kind == "char" else Void if kind == "void" else BaseType):
        @classmethod
        def _read(cls, stream, context=None): return go("read", stream, context)
        @classmethod
        def _read_0(cls, stream, context=None): return go("string", stream, context)
    return Target


def pointer_class(X, T):
    P = type(Pointer)("P", (Pointer,), {"type": T, "size": 8, "dynamic": False, "alignment": 8})
    P.cs = FakeCS(X)
    return P


@proof("C16 C01 C02 C08 C09 C14 C15", "Pointer._read Pointer.__new__", KINDS)
def pointer_read(X, case):
    """The value is the unsigned integer the configured pointer type reads at the current position (or its error); the
    stream and the context of that read are remembered; nothing else is read."""
    log = []
    P = pointer_class(X, target(X, case, log))
    s = X.stream("s", mode="int")
    ctx = {"a": 1}
    out = X.call(P._read, s, ctx)
    ptr = P.cs.pointer
    X.check(len(ptr.reads) == 1 and ptr.reads[0][0] is s, "one address is read, from the stream", outcome=out)
    X.check(not log, "the target is not read")
    if ptr.fail is not None:
        X.check(out.exc is ptr.fail, "the error of the pointer type", outcome=out)
        return
    X.check(out.ok, "no error", outcome=out)
    X.check(out.value == ptr.result, "the address", outcome=out)
    X.check(isinstance(out.value, P), "of the pointer type", outcome=out)
    X.check(out.value._stream is s, "bound to the stream")


@proof("C16 C14 C15", "Pointer.dereference", ("other", "char", "void"))
def pointer_dereference(X, case):
    """Null, or without a stream: NullPointerDereference and nothing is touched.  Otherwise the target is read at exactly
    that absolute offset of the pointer's stream (a char target as a string), once; the stream ends where it was, also
    when the target fails; a later dereference returns the same object without reading; a failed one leaves no residue."""
    log = []
    T = target(X, case, log)
    P = pointer_class(X, T)
    s = X.stream("s", mode="int")
    here = s.tell()
    a = X.bigint("address", 0, (1 << 63) - 1)
    stream = X.pick("stream", (s, None))
    p = P.__new__(P, a, stream, {"a": 1})
    out = X.call(p.dereference)
    if X.truth(a == 0) or stream is None:
        X.check(out.raised(NullPointerDereference), "null dereference", outcome=out)
        X.check(not log and s.tell() == here, "nothing is read")
        return
    if case == "void":
        X.check(out.ok and not log and s.tell() == here, "a void target is not read", outcome=out)
        return
    X.check(len(log) == 1, "the target is read once", log=log)
    which, at, st, ctx, v, e = log[0]
    X.check(st is s and at == a, "at the address, in the pointer's stream")
    X.check(which == ("string" if case == "char" else "read"), "a char target is a NUL-terminated string")
    X.check(s.tell() == here, "the stream does not move", got=s.tell())
    if e is None: X.check(out.ok and out.value is v, "the target's value", outcome=out)
    else: X.check(out.exc is e, "the target's error", outcome=out)
    # again, from anywhere
    s.seek(X.bigint("later", 0, 1 << 40))
    there = s.tell()
    out2 = X.call(p.dereference)
    X.check(s.tell() == there, "the stream does not move (repeated)")
    if e is None:
        X.check(out2.ok and out2.value is v, "repeated access is stable", outcome=out2)
    else:
        X.check(len(log) == 2 and log[1][1] == a and log[1][2] is s, "a failed access is retried at the same place")
        X.check(out2.ok and out2.value is log[1][4] if log[1][5] is None else out2.exc is log[1][5], "and behaves as a first one", outcome=out2)


@proof("C16 C14 C15", "Pointer.__add__ Pointer.__sub__ Pointer.__mul__ Pointer.__floordiv__ Pointer.__mod__ Pointer.__lshift__ Pointer.__rshift__ Pointer.__and__ Pointer.__or__ Pointer.__xor__", list(OPS))
def pointer_arithmetic(X, case):
    """For every address and operand: the result is a pointer of the same type on the same stream with the integer result;
    the operand pointer is unchanged, and an already dereferenced value is not carried over."""
    log = []
    P = pointer_class(X, target(X, "other", log))
    a = X.int("address", 1, (1 << 64) - 1)
    n = X.int("n", 1, 63) if case in ("__lshift__", "__rshift__") else X.pick("n", (1, 2, 3, 8, 100, 4096)) if case in ("__floordiv__", "__mod__") else X.int("n", -(1 << 40), 1 << 40)
    s = X.stream("s", mode="int")
    stream = X.pick("stream", (s, None))
    p = P.__new__(P, a, stream, {"a": 1})
    if stream is not None and X.pick("dereferenced", (False, True)): X.call(p.dereference)
    del log[:]
    out = X.call(getattr(p, case), n)
    X.check(out.ok, "no error", outcome=out)
    q = out.value
    X.check(isinstance(q, P), "same pointer type", outcome=out)
    X.check(q == OPS[case](a, n), "integer result", outcome=out)
    X.check(q._stream is stream, "same stream")
    X.check(p == a and p._stream is stream, "the operand is unchanged")
    X.check(not log, "nothing is read")
    if stream is not None and X.truth(q > 0) and X.truth(q < 1 << 62):
        X.call(q.dereference)
        X.check(len(log) == 1 and log[0][1] == OPS[case](a, n) and log[0][2] is s, "the result is dereferenced at its own address")


@proof("C16 C01 C02 C14 C15", "Pointer._write Pointer.__default__", KINDS)
def pointer_write(X, case):
    """Dumping writes the address through the configured pointer type, nothing else; the default is null."""
    log = []
    P = pointer_class(X, target(X, case, log))
    a = X.bigint("address", 0)
    p = P.__new__(P, a, None, None)
    o = object()
    out = X.call(P._write, o, p)
    w = P.cs.pointer.writes
    X.check(out.ok and out.value == 77, "the size of the address", outcome=out)
    X.check(len(w) == 1 and w[0][0] is o and w[0][1] == a, "exactly the address is written", got=w)
    d = X.call(P.__default__)
    X.check(d.ok and isinstance(d.value, P) and d.value == 0, "the zero value is null", outcome=d)
    X.check(X.call(d.value.dereference).raised(NullPointerDereference), "which cannot be dereferenced")
    X.check(not log, "nothing is read")
