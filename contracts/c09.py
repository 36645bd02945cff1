import tempfile
from contracts.common import *


def gen_any(rng):
    c = struct_case(rng)
    c.what = rng.choice(("struct", "struct", "field"))
    c.fi = rng.randrange(len(c.st.fields))
    return c


@contract("C09", gen_any, 3500, 50000, cap=20)
def discipline(X, c):
    """Parsing at position p equals parsing the bytes from p on their own and ends at p + size; the bytes around it, the
    kind of input and the form of the call do not matter."""
    cs = load(X, c)
    st, m = c.st, c.mode
    cls, t = cs.T, st
    if c.what == "field" and not st.fields[c.fi].bits:
        cls, t = cs.T.__fields__[c.fi].type, st.fields[c.fi].type
        if isinstance(t, R.Arr) and not isinstance(t.n, (int, type(None))) and t.n != "EOF" or has(t, lambda x: isinstance(x, R.Arr) and isinstance(x.n, str) and x.n != "EOF"): raise Skip()
    cs.add_type("TheType", cls)
    eof = has(t, is_eof)
    body = X.bytes("data", X.pick("len", lens(c, (12, 40, 120))))
    full = ref_read(X, t, list(body), 0, m)
    X.assume(full is not None and not bad_utf16(full[0]) and not has_nan(full[0]))
    X.assume(not (eof and full[1] != len(body)))
    spec, used = full
    w = R.write(t, spec, m)
    if not eof:
        # bytes after the data-carrying extent (tail padding included) are arbitrary
        body = body[:used] + b"\x99" * (used - len(body[:used]))
    base = X.call(cls.reads, body)
    X.check(base.ok and real.norm(base.value, t) == spec, "reads(bytes)", got=base, expected=spec)
    bsz = sizes_of(base.value)
    forms = {"T(bytes)": lambda d: cls(d), "T(bytearray)": lambda d: cls(bytearray(d)), "T(memoryview)": lambda d: cls(memoryview(d)),
             "T(stream)": lambda d: cls(io.BytesIO(d)), "T.read(bytes)": lambda d: cls.read(d), "T.read(bytearray)": lambda d: cls.read(bytearray(d)),
             "T.read(memoryview)": lambda d: cls.read(memoryview(d)), "T.reads(memoryview)": lambda d: cls.reads(memoryview(d)),
             "T.reads(bytearray)": lambda d: cls.reads(bytearray(d)), "cs.read(name, bytes)": lambda d: cs.read("TheType", d),
             "cs.read(name, stream)": lambda d: cs.read("TheType", io.BytesIO(d)), "T.read(BufferedReader)": lambda d: cls.read(io.BufferedReader(io.BytesIO(d))),
             "T.read(minimal file)": lambda d: cls.read(MinStream(d)), "cs.name(bytes)": lambda d: cs.TheType(d),
             "T.read(BufferedRandom)": lambda d: cls.read(io.BufferedRandom(io.BytesIO(d)))}
    for name, f in forms.items():
        if name.startswith(("T(", "cs.name(")) and ambiguous_call(cls, t, body): continue
        for suffix in ((b"",) if eof else (b"", b"\xee" * 7)):
            if suffix and name in ("T(bytes)", "cs.name(bytes)") and ambiguous_call(cls, t, body + suffix): continue
            r = X.call(f, body + suffix)
            X.check(r.ok and real.norm(r.value, t) == spec, "every call form and input kind gives the same value", form=name, suffix=suffix, got=r, expected=spec)
            X.check(sizes_of(r.value) == bsz, "every call form and input kind records the same sizes", form=name, got=sizes_of(r.value), expected=bsz)
    step = max(t.align(m) if isinstance(t, R.Struct) else max(t.align(m), 1), 1) if m.aligned else 1
    for j in range(3):
        p = X.pick(f"p{j}", range(0, 200)) * (64 if m.aligned else 1)
        prefix = X.bytes(f"prefix{j}", 16) * (p // 16 + 1)
        suffix = b"" if eof else X.bytes(f"suffix{j}", 9)
        buf = prefix[:p] + body + suffix
        for mk in (io.BytesIO, MinStream, lambda d: io.BufferedReader(io.BytesIO(d))):
            s = mk(buf)
            s.seek(p)
            r = X.call(cls.read, s)
            X.check(r.ok and real.norm(r.value, t) == spec, "the value does not depend on the position or on surrounding bytes", p=p, got=r, expected=spec)
            X.check(s.tell() == p + used, "the stream ends at p plus the encoded size", p=p, got=s.tell(), expected=p + used)
            X.check(sizes_of(r.value) == bsz, "the recorded sizes do not depend on the position", p=p, got=sizes_of(r.value), expected=bsz)
    if not eof and used % (64 if m.aligned else 1) == 0 or not m.aligned and not eof:
        s = io.BytesIO(body * 3)
        for k in range(3):
            r = X.call(cls, s)
            X.check(r.ok and real.norm(r.value, t) == spec and s.tell() == used * (k + 1), "consecutive parses of one stream", k=k, got=r, expected=spec)


def ambiguous_call(cls, t, d):
    """T(x) where x is already a value of the type is a construction, not a parse"""
    return isinstance(t, (R.Char,)) or isinstance(t, R.Arr) and isinstance(t.elem, R.Char)
from contracts import dynunion as _dynunion  # noqa: E402
