from contracts.common import *


class Faulty:
    """A stream that misbehaves at its k-th read: short (fewer bytes than there are), empty, or an exception."""
    def __init__(self, data, k, how, n=None):
        self.f, self.k, self.how, self.n, self.count, self.hit = io.BytesIO(data), k, how, n, 0, False

    def read(self, n=-1):
        self.count += 1
        if self.count == self.k + 1:
            if self.how == "raise":
                self.hit = True
                raise OSError("stream fault")
            pos = self.f.tell()
            d = self.f.read(n)
            if n is None or n < 0: return d
            keep = 0 if self.how == "empty" else max(0, len(d) - self.n)
            if keep < len(d): self.hit = True
            self.f.seek(pos + keep)
            return d[:keep]
        return self.f.read(n)

    def seek(self, *a): return self.f.seek(*a)
    def tell(self): return self.f.tell()


def residue(X, cs, c, data, spec, used, after):
    s = io.BytesIO(data)
    p = X.call(cs.T.read, s)
    X.check(p.ok and real.norm(p.value, c.st) == spec and s.tell() == used, f"a later parse behaves as if the failed one had not happened ({after})", got=p, expected=spec)


@contract("C08", gen_struct(), 2500, 40000, cap=20)
def truncation(X, c):
    """Every prefix that ends before the last data-carrying byte raises EOFError; every prefix that is accepted gives
    the value of the complete input; failures leave no residue."""
    cs = load(X, c)
    st, m = c.st, c.mode
    X.assume(not has(st, is_eof))
    data = X.bytes("data", X.pick("len", lens(c, (12, 40, 100))))
    full = ref_read(X, st, list(data), 0, m)
    X.assume(full is not None and not bad_utf16(full[0]) and not has_nan(full[0]))
    spec, used = full
    data = data[:max(used, 0)]
    if used > len(data): data += bytes(used - len(data))
    s = io.BytesIO(data)
    p = X.call(cs.T.read, s)
    X.check(p.ok and real.norm(p.value, st) == spec, "the complete input is accepted", got=p, expected=spec)
    last = last_data(st, spec, m)
    cuts = range(len(data) + 1) if len(data) <= 48 else sorted({0, 1, last - 1, last, len(data)} | {X.pick(f"cut{j}", range(len(data))) for j in range(12)})
    bad_union = has(st, lambda t: isinstance(t, R.Struct) and t.union)
    for k in cuts:
        r = X.call(cs.T, data[:k])
        if k < last and w_data(st, spec, m, k):
            X.check(not r.ok, "an input that ends before the last data-carrying byte is rejected", cut=k, of=len(data), last=last, got=r)
            X.check(isinstance(r.exc, EOFError), "premature end raises EOFError", cut=k, got=r)
        elif r.ok:
            X.check(real.norm(r.value, st) == spec, "a value returned for a shortened input is that of the complete input", cut=k, got=r, expected=spec)
        if X.pick(f"re{k}", (0, 0, 0, 1)): residue(X, cs, c, data, spec, used, f"cut at {k}")


def w_data(st, spec, m, k):
    """is there a data-carrying byte at or after k"""
    return any(mask for _, mask in R.write(st, spec, m)[k:])


@contract("C08", gen_struct(), 2500, 40000, cap=20)
def faults(X, c):
    """A stream that delivers fewer bytes than requested, or raises, at any of its reads: an error, or the very value
    of the complete input; a raised error is not replaced by a value; no residue."""
    cs = load(X, c)
    st, m = c.st, c.mode
    X.assume(not has(st, is_eof))
    data = X.bytes("data", X.pick("len", lens(c, (12, 40, 100))))
    full = ref_read(X, st, list(data), 0, m)
    X.assume(full is not None and not bad_utf16(full[0]) and not has_nan(full[0]))
    spec, used = full
    data = data + b"\x11" * (32 + max(0, used - len(data)))
    probe = Faulty(data, -1, "raise")
    p = X.call(cs.T.read, probe)
    X.check(p.ok and real.norm(p.value, st) == spec, "the complete input is accepted", got=p, expected=spec)
    total = probe.count
    for j in range(min(total, 12)):
        k = j if total <= 12 else X.pick(f"k{j}", range(total))
        for how, n in (("raise", 0), ("empty", 0), ("short", 1)):
            f = Faulty(data, k, how, n)
            r = X.call(cs.T.read, f)
            if not f.hit: continue
            if how == "raise":
                X.check(r.raised(OSError), "an error of the stream is reported", read=k, got=r)
            elif r.ok:
                X.check(real.norm(r.value, st) == spec, "short read: an error or the complete value", read=k, how=how, got=r, expected=spec)
    residue(X, cs, c, data, spec, used, "stream faults")


def gen_types(rng):
    m = mode(rng)
    g = Gen(rng, maxfields=2)
    t = g.scalar(True)
    form = rng.choice(("plain", "fixed", "null"))
    if form == "fixed": t = R.Arr(t, rng.randint(0, 4))
    if form == "null": t = R.Arr(g.zelem(), None)
    return Case(st=R.Struct("T", [R.F("x", t)]), mode=m, compiled=rng.random() < .5)


@contract("C08", gen_types, 2000, 30000)
def truncated_types(X, c):
    """The same for scalars and arrays parsed on their own, in every call form."""
    cs = load(X, c)
    t = c.st.fields[0].type
    cls = cs.T.__fields__[0].type
    data = X.bytes("data", X.pick("len", (3, 20)))
    full = ref_read(X, t, list(data), 0, c.mode)
    X.assume(full is not None and not bad_utf16(full[0]) and not has_nan(full[0]))
    spec, used = full
    for k in range(used):
        # null-terminated structures may end in padding bytes that carry no data
        if not any(mask for _, mask in (R.write(t, spec, c.mode) if not has(t, lambda t: isinstance(t, R.Leb)) else [(0, 255)] * used)[k:]): continue
        for form in (cls.reads, cls.read, lambda d: cls.read(io.BytesIO(d)), lambda d: cls(io.BytesIO(d)), lambda d: cls.read(MinStream(d)), lambda d: cls(bytearray(d))):
            r = X.call(form, data[:k])
            X.check(r.raised(EOFError), "premature end raises EOFError", cut=k, used=used, got=r)
    v = X.call(cls.reads, data)
    X.check(v.ok and real.norm(v.value, t) == spec, "a later parse behaves as if the failed ones had not happened", got=v, expected=spec)
from contracts import dynunion as _dynunion  # noqa: E402
