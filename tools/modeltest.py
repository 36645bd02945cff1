"""Differential test of the models of CPython (pyv/sym.py, pyv/engine.py): each operation is run on symbolic values that are
constrained to a random concrete value, and the result must be what CPython gives for that value.

  /opt/veriftools/pyvenv/bin/python tools/modeltest.py [rounds] [seed]
"""
import io
import operator as op
import os
import random
import struct
import sys

sys.dont_write_bytecode = True
sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__))), os.environ.get("PV_REPO", "/repo")]
import z3
from pyv import engine, proofkit, sym
from pyv.engine import pv_call
from pyv.sym import SInt

proofkit.load()
call = pv_call
BIT = [op.and_, op.or_, op.xor]
ARITH = [op.add, op.sub, op.mul, op.floordiv, op.mod]
CMP = [op.eq, op.ne, op.lt, op.le, op.gt, op.ge]


def io_script(data, a, n, w):
    s = call(io.BytesIO, data)
    s.seek(a)
    x = s.read(n)
    s.write(w)
    p = s.tell()
    s.seek(-min(p, 2), 1)
    return [x, p, s.read(), s.tell(), s.getvalue(), s.seek(-1, 2), s.read(5)]


def cases(r):
    """-> (name, function, args): integers and bytes and strings among the args become symbolic"""
    big = lambda: r.choice((r.randint(-4, 4), r.randint(-300, 300), r.randint(-2**40, 2**40), r.randint(-2**70, 2**70)))
    bs = lambda n: bytes(r.choice((0, 1, 0x7F, 0x80, 0xFF, r.randrange(256))) for _ in range(n))
    f = r.choice(ARITH + BIT + CMP)
    b = big()
    yield f.__name__, f, (big(), b)
    yield "floordiv", op.floordiv, (big(), r.choice((1, 2, 8, -3, 7, 1 << 20)))
    yield "neg", r.choice((op.neg, op.invert, abs, op.pos)), (big(),)
    k = r.randint(0, 70)
    yield "shl", lambda a: a << k, (big(),)
    yield "shr", lambda a: a >> k, (big(),)
    yield "shl by symbolic", op.lshift, (big(), r.randint(0, 40))
    yield "shr by symbolic", op.rshift, (big(), r.randint(0, 80))
    yield "bit_length", lambda a: a.bit_length(), (big(),)
    yield "bool", lambda a: bool(a), (r.choice((0, big())),)
    yield "int(int)", lambda a: call(int, a), (big(),)
    n, e, g = r.choice((1, 2, 3, 4, 6, 8, 16)), r.choice(("little", "big")), r.random() < .5
    lim = 1 << 8 * n
    v = r.choice((r.randint(-lim, lim), r.randint(-lim // 2, lim // 2 - 1), r.randint(0, lim - 1), lim - 1, -lim // 2, lim // 2 - 1))
    yield "to_bytes", lambda a: a.to_bytes(n, e, signed=g), (v,)
    yield "from_bytes", lambda d: call(int.from_bytes, d, e, signed=g), (bs(n),)
    for en in "<>":
        for ch in "bBhHiIqQ":
            st = struct.Struct(en + ch)
            lim = 1 << 8 * st.size
            yield "unpack " + ch, lambda d, st=st: list(call(st.unpack, d)), (bs(st.size),)
            yield "pack " + ch, lambda a, st=st: call(st.pack, a), (r.choice((r.randint(-lim // 2, lim - 1), r.randint(0, lim // 2 - 1), lim, -1, 0)),)
        for ch in "efd":
            st = struct.Struct(en + ch)
            def round_trip(d, st=st): return call(st.pack, call(st.unpack, d)[0])
            d = bs(st.size)
            # the model keeps the bits: NaN payloads are outside the domain
            if struct.unpack(en + ch, d)[0] == struct.unpack(en + ch, d)[0]: yield "float " + ch, round_trip, (d,)
    st = struct.Struct(r.choice("<>") + r.choice(("3H", "2xB", "Bx2i", "4B", "hIx")))
    yield "unpack several", lambda d: list(call(st.unpack, d)), (bs(st.size),)
    n = r.randint(0, 6)
    i, j = r.randint(-7, 7), r.choice((None, r.randint(-7, 7)))
    yield "slice", lambda d: d[i:j], (bs(n),)
    yield "index", lambda d: d[i], (bs(n),)
    yield "concat", lambda d, w: d + b"\0x" + w, (bs(n), bs(r.randint(0, 3)))
    yield "bytes ==", lambda d, w: d == w, (bs(2), bs(2))
    yield "bytes == const", lambda d: d == b"\0\1", (bs(2),)
    yield "len", lambda d: call(len, d), (bs(n),)
    yield "bytes()", lambda d: call(bytes, d), (bs(n),)
    yield "bytes(list)", lambda a, b: call(bytes, [a, 3, b]), (r.randint(-2, 257), r.randint(0, 255))
    yield "join", lambda d, w: call(b"".join, [d, b"\1", w]), (bs(n), bs(1))
    yield "list", lambda d: [x for x in d], (bs(n),)
    yield "in", lambda d: engine.pv_in(0, d), (bs(n),)
    yield "latin-1", lambda d: d.decode("latin-1"), (bs(n),)
    units = lambda: b"".join(struct.pack("<H", r.choice((0, 65, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, r.randrange(65536)))) for _ in range(r.randint(0, 3)))
    enc = r.choice(("utf-16-le", "utf-16-be"))
    yield "utf-16 decode", lambda d: d.decode(enc), (units() + bs(r.choice((0, 0, 1))),)
    t = lambda: "".join(chr(r.choice((0, 65, 0xFF, 0x100, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0xD800))) for _ in range(r.randint(0, 2)))
    yield "utf-16 encode", lambda s: s.encode(enc), (t(),)
    yield "latin-1 encode", lambda s: s.encode("latin-1"), (t(),)
    yield "ord", lambda s: call(ord, s), (t(),)
    yield "str ==", lambda s: s == "A", (t(),)
    a, m, w = r.randint(0, 8), r.choice((-1, 0, 1, 3, 9)), bs(r.randint(0, 3))
    yield "BytesIO", lambda d: io_script(d, a, m, w), (bs(n),)
    yield "BytesIO write", lambda d, w: io_script(d, a, m, w), (bs(n), bs(r.randint(1, 3)))
    yield "range", lambda a, b: list(call(range, a, b)), (r.randint(-2, 3), r.randint(-2, 3))
    yield "max", lambda a, b: call(max, a, b), (big(), big())
    yield "min", lambda a, b: call(min, a, b), (big(), big())


def symbolic(ex, v, name, ints):
    if type(v) is bool: return v
    if type(v) is int:
        if ints:
            x = SInt(z3.Int(name), None, None)
        else:
            lo, hi = (0, 255) if 0 <= v <= 255 and ints is None else (-2**136, 2**136)
            x = SInt(z3.BitVec(name, sym.need(lo, hi)), lo, hi)
            ex.assume_t(z3.And(x.t >= lo, x.t <= hi))
        ex.assume(x == v)
        return x
    if type(v) is bytes:
        items = [sym.raw_byte(z3.BitVec(f"{name}{i}", 8)) for i in range(len(v))]
        for a, b in zip(items, v): ex.assume(a == b)
        return engine.mkbytes(items)
    if type(v) is str:
        items = [SInt(z3.BitVec(f"{name}{i}", 22), 0, 0x10FFFF) for i in range(len(v))]
        for a, b in zip(items, v): ex.assume(a == ord(b))
        return engine.mkstr(items)
    return v


def plain(v, m):
    if isinstance(v, (list, tuple)): return [plain(x, m) for x in v]
    if isinstance(v, sym.SBytes): return bytes(engine.concrete(i, m) for i in v.items)
    if sym.is_sym(v): return engine.concrete(v, m)
    return bytes(v) if isinstance(v, bytearray) else v


def main():
    rounds, seed = int(sys.argv[1]) if len(sys.argv) > 1 else 60, int(sys.argv[2]) if len(sys.argv) > 2 else 1
    r = random.Random(seed)
    count, outside, bad = {}, {}, []
    for n in range(rounds):
        for name, f, args in cases(r):
            ints = n % 3 == 0 and all(type(a) is int for a in args) and name.split()[0] in ("add", "sub", "mul", "eq", "ne", "lt", "le", "gt", "ge", "neg", "bool", "int(int)", "max", "min", "floordiv", "mod")
            try: want = ("ok", plain(f(*args), None))
            except Exception as e: want = ("raises", type(e))
            got = []
            ex = engine.Explorer(timeout_ms=10000)
            def path():
                a = [symbolic(ex, v, f"a{i}", ints) for i, v in enumerate(args)]
                try:
                    v = f(*a)
                except Exception as e:
                    got.append(("raises", type(e)))
                    return
                ex.solver.check()
                got.append(("ok", plain(v, ex.solver.model())))
            try: ex.explore(path)
            finally: sym.set_explorer(None)
            if ex.unsupported or ex.errors: outside[name] = (ex.unsupported or ex.errors)[0]; continue
            count[name] = count.get(name, 0) + 1
            if not got or any(g != want for g in got): bad.append((name, args, want, got))
    for b in bad[:20]: print("DIFFERS", *b)
    print(f"{sum(count.values())} comparisons of {len(count)} operations, {len(bad)} differ")
    for k, v in outside.items(): print("  not modelled for some values:", k, "-", str(v)[:100])
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
