"""C09 call forms: every way of handing input to a type reaches its reader with exactly that input."""
import io

from pyv import sym
from pyv.proofkit import proof
from pyv.real import cstruct
from pyv.absobj import Val
from dissect.cstruct.types.base import MetaType, BaseType, _is_eof

KINDS = ("bytes", "bytearray", "memoryview", "stream", "file-like")
FORMS = ("call", "read", "reads", "cs.read")


class FileLike:
    """only what a binary file offers"""
    def __init__(self, s): self.s = s
    def read(self, n=-1): return self.s.read(n)
    def seek(self, o, w=0): return self.s.seek(o, w)
    def tell(self): return self.s.tell()


@proof("C09 C08 C14 C15", "MetaType.__call__ MetaType.read MetaType.reads cstruct.read cstruct.resolve", lambda: {f"{k} {f}": (k, f) for k in KINDS for f in FORMS if not (f == "reads" and k in ("stream", "file-like"))})
def call_forms(X, case):
    """For every type, kind of input and content: the reader of the type is called exactly once, with the given stream itself
    where it stands, or with a fresh stream at 0 holding exactly the given bytes; its value or error is the outcome."""
    kind, form = case
    calls = []

    class T(BaseType):
        @classmethod
        def _read(cls, stream, context=None):
            fails = X.pick("fails", (False, True))
            e = EOFError("end of input")
            calls.append((cls, stream, stream.tell(), content(stream) if kind not in ("stream", "file-like") else None, v := Val("value"), e if fails else None))
            if fails: raise e
            return v

    cs = cstruct()
    T.cs, T.size, T.dynamic = cs, None, True
    cs.add_type("T", T)
    data, x, s = None, None, None
    if kind in ("stream", "file-like"):
        s = X.stream("s", mode="int")
        here = s.tell()
        x = s if kind == "stream" else FileLike(s)
    else:
        data = X.data("data")
        x = data if kind == "bytes" else X.wrap(data, kind)
    f = {"call": lambda v: T(v), "read": T.read, "reads": T.reads, "cs.read": lambda v: cs.read("T", v)}[form]
    out = X.call(f, x)
    X.check(len(calls) == 1 and calls[0][0] is T, "the reader is called once", outcome=out)
    _, st, at, got, v, e = calls[0]
    if s is not None:
        X.check(st is x, "with the stream itself")
        X.check(at == here, "where it stands")
        X.check(s.tell() == here, "the stream is not moved by the call form")
    else:
        X.check(at == 0, "from its first byte")
        X.check(X.same_bytes(got, data), "with exactly the bytes given")
    if e is not None: X.check(out.exc is e, "the error of the reader", outcome=out)
    else: X.check(out.ok and out.value is v, "the value of the reader", outcome=out)


def content(stream):
    if hasattr(stream, "whole"): return stream.whole()
    at = stream.tell()
    stream.seek(0)
    b = stream.read()
    stream.seek(at)
    return b


@proof("C09 C07 C14 C15", "_is_eof", (None,))
def is_eof(X, case):
    """True exactly when no byte is left; the stream does not move."""
    s = X.stream("s", mode="int")
    p = s.tell()
    out = X.call(_is_eof, s)
    X.check(out.ok, "no error", outcome=out)
    X.check(out.value == (p >= s.N), "no byte is left", outcome=out)
    X.check(s.tell() == p, "the stream does not move")


@proof("C09 C01 C14 C15 C02", "MetaType.dumps MetaType.write _overload.__get__", ("class", "instance", "write"))
def dump_forms(X, case):
    """dumps and write, on the type and on a value, hand exactly the value to the writer of the type and return its bytes."""
    calls = []
    payload = b"\x01\x02"

    class T(BaseType):
        def __init__(self, *a): pass
        @classmethod
        def _write(cls, stream, data):
            calls.append((cls, data))
            stream.write(payload)
            return len(payload)

    v = type.__call__(T)
    out = io.BytesIO()
    if case == "class": r = X.call(T.dumps, v)
    elif case == "instance": r = X.call(v.dumps)
    else:
        X.check(T.write(out, v) == 2 and out.getvalue() == payload, "write on the type")
        r = X.call(v.write, out)
        X.check(r.ok and r.value == 2 and out.getvalue() == payload + payload, "write on the value", outcome=r)
        X.check(len(calls) == 2 and all(c[0] is T and c[1] is v for c in calls), "the value is written by its type")
        return
    X.check(r.ok and r.value == payload, "exactly the bytes written", outcome=r)
    X.check(len(calls) == 1 and calls[0][0] is T and calls[0][1] is v, "the value is written by its type, once")
