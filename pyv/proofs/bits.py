"""C06 bit-fields: contracts of BitBuffer.read, write and flush for every unit content, position in the unit and width."""
from pyv import sym
from pyv.proofkit import proof
from pyv.real import cstruct
from pyv import ref as R
from dissect.cstruct.bitbuffer import BitBuffer

SIZES = (1, 2, 3, 4, 6, 8, 16)


class Unit:
    """Contract of a storage type: _read(stream) returns the integer of the next unit (char: its bytes) or fails."""
    def __init__(self, X, name, size, kind, little, log):
        self.X, self.size, self.kind, self.log, self.name = X, size, kind, log, name
        self.raw = [X.int(f"{name}[{i}]", 0, 255) for i in range(size)]
        if kind != "char": self.value = R.dec_int(self.raw, little, kind == "signed")
        elif X.symbolic: self.value = sym.SBytes(self.raw)
        else: self.value = bytes(self.raw)
        self.number = R.dec_int(self.raw, little, kind == "signed")
        self.fail = None

    def _read(self, stream, context=None):
        if self.X.pick(self.name + ".fails", (False, True)):
            self.fail = EOFError("end of input")
            raise self.fail
        self.log.append(self)
        return self.value


def low(size, rem, bits, little):
    """where the next field of `bits` bits lies in a unit with `rem` bits left: little endian from the least significant
    bit up, big endian from the most significant bit down"""
    return size * 8 - rem if little else rem - bits


def cases(kinds):
    return {f"{n * 8}{e}{k}": (n, e, k) for n in SIZES for e in "<>!=@" for k in kinds
            if (k != "char" or n == 1) and (e in "<>" or n in (1, 2, 4))}


def read_cases():
    """the little-endian 64 and 128-bit units: one case per range of widths, each split by width (helps the solver)"""
    out = {}
    for c, (n, e, k) in cases(("unsigned", "signed", "char")).items():
        if n >= 8 and e == "<":
            for lo in range(1, 64, 8): out[f"{c}:{lo}-{lo + 7}"] = (n, e, k, lo, lo + 7)
        else: out[c] = (n, e, k, 1, 64)
    return out


@proof("C06 C01 C02 C14 C15", "BitBuffer.read BitBuffer.reset", read_cases)
def bitbuffer_read(X, case):
    """For every unit content, number of bits left and width: the value is the next field of the unit, in [0, 2^bits); a
    new unit is read exactly when none is open or the type differs; a straddling field is rejected."""
    size, e, kind, first, last = case
    little = R.LITTLE[e]
    log = []
    stream = object()
    bb = BitBuffer(stream, e)
    T = Unit(X, "unit", size, kind, little, log)
    state = X.pick("state", ("fresh", "exhausted", "other", "open", "reset"))
    rem = size * 8
    if state == "exhausted": bb._type, bb._remaining, bb._buffer = T, 0, X.int("junk", 0, 255)
    elif state in ("other", "reset"):
        bb._type, bb._remaining, bb._buffer = Unit(X, "other", 2, "unsigned", little, log), X.int("other.rem", 1, 16), X.int("other.buf", 0, 65535)
        if state == "reset":
            bb.reset()
            X.check(bb._type is None and bb._remaining == 0, "reset closes the unit")
    elif state == "open":
        # invariant: the value read for the unit, of which the low bits (little) are already shifted out
        rem = X.int("rem", 1, size * 8)
        bb._type, bb._remaining = T, rem
        bb._buffer = (T.number >> (size * 8 - rem)) if little else T.number
    bits = X.int("bits", first, last)
    if last - first < 63: bits = X.env.concretize(bits)
    out = X.call(bb.read, T, bits)
    X.check(len(log) == (0 if state == "open" or T.fail else 1), "a unit is read exactly when none is open or the type differs", outcome=out)
    if T.fail:
        X.check(out.exc is T.fail, "the error of the storage type", outcome=out)
        return
    if X.truth(bits > rem):
        X.check(out.raised(ValueError), "a field that straddles the unit is rejected", outcome=out)
        return
    X.check(out.ok, "no error", outcome=out)
    at = low(size, rem, bits, little)
    want = (T.number >> at) & ((1 << bits) - 1)
    X.check(out.value == want, "the bits of the field", outcome=out)
    X.check(X.all([out.value >= 0, out.value < (1 << bits)]), "in [0, 2^bits)", outcome=out)
    X.check(bb._remaining == rem - bits, "bits left", got=bb._remaining)
    X.check(bb._type is T, "the unit stays open")
    X.check(X.implies(bb._remaining != 0, bb._buffer == (T.number >> (size * 8 - (rem - bits)) if little else T.number)), "rest of the unit")


class Sk:
    def __init__(self): self.out = []
    def write(self, b):
        self.out.append(list(b.items) if hasattr(b, "items") else list(b))
        return len(self.out[-1])


@proof("C06 C01 C02 C17 C14 C15", "BitBuffer.write BitBuffer.flush", lambda: cases(("unsigned", "char")))
def bitbuffer_write(X, case):
    """For every unit under construction, width and value: the value is placed in the bits reading takes it from, no other
    bit changes, unassigned bits stay zero; a value that does not fit is rejected and changes nothing; a unit is written
    when complete, or when a field of another type follows; flushing writes the unit in the byte order."""
    size, e, kind = case
    little = R.LITTLE[e]
    s = Sk()
    bb = BitBuffer(s, e)
    log = []
    T = Unit(X, "type", size, kind, little, log)
    state = X.pick("state", ("fresh", "other", "open"))
    rem, buf, flushed = size * 8, 0, 0
    if state == "open":
        # invariant: only bits of earlier fields are set
        rem = X.int("rem", 1, size * 8)
        buf = X.int("buf", 0, (1 << (size * 8)) - 1)
        X.assume(buf < (1 << (size * 8 - rem)) if little else (buf & ((1 << rem) - 1)) == 0)
        bb._type, bb._remaining, bb._buffer = T, rem, buf
    elif state == "other":
        O = Unit(X, "other", 2, "unsigned", little, log)
        obuf = X.int("other.buf", 0, 65535)
        bb._type, bb._remaining, bb._buffer = O, X.int("other.rem", 1, 16), obuf
    bits = X.int("bits", 1, 64)
    X.assume(bits <= rem)
    if kind == "char" and X.pick("bytes", (False, True)):
        data = X.bytes("data", 1)
        number = data[0]
    else: data = number = X.int("value", -(1 << 70), 1 << 70)
    before = (bb._type, bb._remaining, bb._buffer)
    out = X.call(bb.write, T, data, bits)
    if X.truth(number < 0) or X.truth(number >= (1 << bits)):
        X.check(not out.ok, "a value that does not fit is rejected", outcome=out)
        X.check(not s.out and bb._type is before[0] and bb._remaining == before[1] and bb._buffer == before[2], "and nothing changes")
        return
    X.check(out.ok, "no error", outcome=out)
    new = buf | (number << low(size, rem, bits, little))
    want = []
    if state == "other": want.append((2, obuf))
    if X.truth(rem == bits): want.append((size, new))
    X.check(len(s.out) == len(want), "units written when complete or left", got=s.out)
    for o, (n, v) in zip(s.out, want):
        X.check(len(o) == n and R.dec_uint(o, little) == v, "the unit in the byte order of the instance", got=o, want=v)
    if X.truth(rem == bits):
        X.check(bb._type is None and bb._remaining == 0 and bb._buffer == 0, "no unit open after a complete one")
        return
    X.check(bb._type is T and bb._remaining == rem - bits, "bits left")
    X.check(bb._buffer == new, "the bits of the field are set, all others as before", got=bb._buffer, want=new)
    left = rem - bits
    X.check(bb._buffer < (1 << (size * 8 - left)) if little else (bb._buffer & ((1 << left) - 1)) == 0, "bits of later fields are still zero")
    out = X.call(bb.flush)
    X.check(out.ok and len(s.out[-1]) == size and R.dec_uint(s.out[-1], little) == new, "flush writes the unit")
    X.check(bb._type is None and bb._remaining == 0 and bb._buffer == 0, "flush closes the unit")


@proof("C06", "spec", lambda: {f"{n * 8}{e}": (n, e) for n in SIZES for e in "<>"})
def lemma_partition(X, case):
    """Two consecutive fields lie within the unit, are adjacent and disjoint, the first one lower (little) or higher (big);
    reading back what was placed gives the value, and leaves every other bit."""
    size, e = case
    little = R.LITTLE[e]
    n = size * 8
    rem = X.int("rem", 2, n)
    a = X.int("a", 1, 64)
    b = X.int("b", 1, 64)
    X.assume(a + b <= rem)
    p, q = low(size, rem, a, little), low(size, rem - a, b, little)
    X.check(X.all([p >= 0, q >= 0, p + a <= n, q + b <= n]), "within the unit")
    X.check(q == p + a if little else q + b == p, "adjacent, in endian order")
    X.check(X.implies(rem == n, p == 0 if little else p + a == n), "the first field starts at the end of the unit the byte order says")
    u = X.int("u", 0, (1 << n) - 1)
    v = X.int("v", 0, (1 << 64) - 1)
    X.assume(v < (1 << a))
    mask = (1 << a) - 1
    X.assume((u & (mask << p)) == 0)
    w = u | (v << p)
    X.check(((w >> p) & mask) == v, "read back")
    X.check((w & (((1 << n) - 1) ^ (mask << p))) == u, "every other bit unchanged")
