import itertools
from contracts.common import *
from pyv import refexpr
from dissect.cstruct.expression import Expression

BIN = ["*", "/", "%", "+", "-", "<<", ">>", "&", "^", "|"]
CONSTS = {"A": 5, "b": 3, "Zed_9": 1000, "_x": 0, "u": 7, "sizeofx": 2, "A1": 12, "e1": 4, "b1": 9, "x10": 6, "l": 1}
TYPES = {"uint8": 1, "uint16": 2, "uint32": 4, "uint64": 8, "int": 4, "unsigned int": 4, "long long": 8, "unsigned long long": 8, "ST": 6, "STa": 6, "DWORD": 4, "char": 1, "__u8": 1}
_CS = None


def cs():
    global _CS
    if _CS is None:
        _CS = cstruct().load("typedef struct { uint32 a; uint16 b; } ST, STa;")
        _CS.consts.update(CONSTS)
    return _CS


def lit(rng):
    v = rng.choice((0, 1, 2, 3, 7, 8, 9, 10, 15, 16, 255, rng.randrange(1 << 16), rng.randrange(1 << 40), rng.choice(((1 << 64) - 1, (1 << 53) + 1, rng.randrange(1 << 64)))))
    s = rng.choice((str(v), hex(v), bin(v), "0" + oct(v)[2:], hex(v).upper().replace("0X", "0X"), bin(v).replace("0b", "0B"), str(v)))
    return s + rng.choice(("", "", "", "", "u", "U", "l", "L", "ul", "UL", "ull", "ULL", "LL", "ll", "lu", "llu", "LLU", "uL"))


def sub(rng, depth):
    """-> token list"""
    r = rng.random()
    if depth <= 0 or r < .22:
        k = rng.random()
        if k < .55: return [lit(rng)]
        if k < .9: return [rng.choice(("A", "b", "Zed_9", "_x", "u", "sizeofx", "f1", "F_2", "A1", "e1", "b1", "x10", "l"))]
        return ["sizeof", "(", rng.choice(list(TYPES)), ")"]
    if r < .36: return [rng.choice("-~")] + sub(rng, depth - 1)
    if r < .5: return ["("] + sub(rng, depth - 1) + [")"]
    op = rng.choice(BIN)
    right = sub(rng, depth - 1)
    if op in ("<<", ">>") and rng.random() < .7: right = [str(rng.randrange(8))]
    return sub(rng, depth - 1) + [op] + right


def gen_expr(rng):
    toks = sub(rng, rng.choice((1, 2, 3, 3, 4, 5)))
    style = rng.random()
    out = ""
    for t in toks:
        if style < .3: sp = ""
        elif style < .6: sp = " "
        else: sp = rng.choice(("", " ", "  ", "\t", " \t"))
        if out and (out[-1].isalnum() or out[-1] == "_") and (t[0].isalnum() or t[0] == "_") and not sp: sp = " "
        out += sp + t
    ctxs = []
    for _ in range(3):
        ctx = {"f1": rng.randrange(-4, 300), "F_2": rng.randrange(0, 9)}
        if rng.random() < .5: ctx["A"] = rng.randrange(10)
        if rng.random() < .2: ctx["b"] = rng.randrange(1, 5)
        ctxs.append(ctx)
    return Case(text=out, ctxs=ctxs, shared=rng.random() < .5)


def c_value(text, env):
    """the value prescribed by C; None outside the domain of the statement"""
    bad = []
    orig = refexpr.apply
    def apply(op, a, b):
        if op in ("/", "%") and (a < 0 or b <= 0): bad.append(1); return 0
        if op in ("<<", ">>") and (b < 0 or b > 4000): bad.append(1); return 0
        return orig(op, a, b)
    refexpr.apply = apply
    try:
        v = refexpr.evaluate(text, env, lambda n: TYPES[n])
    finally:
        refexpr.apply = orig
    return None if bad else v


def ctype_ctx(X, ctx):
    """fields in a parsing context are instances of integer types"""
    return {k: cs().int32(v) for k, v in ctx.items()} if X.pick("typed", (0, 1)) else dict(ctx)


def check(X, text, ctxs, history=True):
    c = cs()
    o = X.call(Expression, c, text)
    X.check(o.ok, "a well-formed expression is accepted", text=text, outcome=o)
    e = o.value
    vals = []
    for ctx in ctxs:
        exp = c_value(text, {**CONSTS, **ctx})
        vals.append(exp)
        r = X.call(e.evaluate, ctype_ctx(X, ctx))
        if exp is None: continue
        X.check(r.ok and type(r.value) is int and r.value == exp or r.ok and r.value == exp, "value prescribed by C precedence and associativity", text=text, context=ctx, got=r, expected=exp)
    if history:
        for k in (2, 1, 0, 0, 2):
            if vals[k] is None: continue
            r = X.call(e.evaluate, dict(ctxs[k]))
            X.check(r.ok and r.value == vals[k], "evaluating again gives what a fresh object gives", text=text, context=ctxs[k], got=r, expected=vals[k])
        if {"f1", "F_2"} & {v for k, v in refexpr.lex(text) if k == "i"}:
            r = X.call(e.evaluate, {})
            X.check(not r.ok, "an unbound identifier is an error", text=text, got=r)
            if vals[0] is not None:
                r = X.call(e.evaluate, dict(ctxs[0]))
                X.check(r.ok and r.value == vals[0], "a failed evaluation leaves no residue", text=text, got=r, expected=vals[0])


@contract("C10", gen_expr, 12000, 200000)
def expressions(X, c):
    """Random expressions of the grammar, three bindings, repeated and interleaved evaluation."""
    check(X, c.text, c.ctxs)


ATOMS = ["A", "b", "9", "0x1c", "3"]
EXHAUST = []
for n in (2, 3, 4):
    EXHAUST += [("bin", ops) for ops in itertools.product(BIN, repeat=n - 1)]
UN = ["", "-", "~", "--", "-~", "~-"]


def gen_small(rng, lo=0):
    ops = rng.choice(EXHAUST)[1]
    k = len(ops) + 1
    un = [rng.choice(UN) if rng.random() < .4 else "" for _ in range(k)]
    i, j = sorted(rng.sample(range(k + 1), 2)) if rng.random() < .5 else (None, None)
    s = ""
    for a in range(k):
        if a: s += " " + ops[a - 1] + " "
        if a == i: s += rng.choice(("", "-", "~")) + "("
        s += un[a] + rng.choice(ATOMS)
        if j is not None and a == j - 1: s += ")"
    return Case(text=s, ctxs=[{}] * 3)


@contract("C10", gen_small, 4000, 60000)
def operator_sequences(X, c):
    """Every operator sequence up to three binary operators with unary prefixes and one parenthesised group."""
    check(X, c.text, c.ctxs, history=False)


def gen_field(rng):
    c = gen_expr(rng)
    c.compiled = rng.random() < .5
    return c


@contract("C10", gen_field, 1500, 15000)
def array_lengths(X, c):
    """The same expressions as array lengths: fields parsed before, then constants; the same type parsed repeatedly."""
    text = c.text.replace("\t", " ")
    def mk():
        k = cstruct(); k.consts.update(CONSTS)
        k.load("typedef struct { uint32 a; uint16 b; } ST, STa;")
        k.load(f"struct T {{ int16 f1; uint8 F_2; {'uint8 A;' if 'A' in c.ctxs[0] else ''} uint8 arr[{text}]; }};", compiled=c.compiled)
        return k
    if not {"f1", "F_2"} & {v for k, v in refexpr.lex(text) if k == "i"}:
        n = c_value(text, CONSTS)
        X.assume(n is not None and n <= 3000)
    o = X.call(mk)
    if not o.ok:
        # the definition is rejected only where the expression has no value
        if c_value(text, {**CONSTS, **c.ctxs[0]}) is None: raise Skip()
    X.check(o.ok, "a well-formed expression is accepted as an array length", text=text, outcome=o)
    T_ = o.value.T
    for i in (0, 1, 0):
        ctx = c.ctxs[i]
        env = {**CONSTS, "f1": ctx["f1"], "F_2": ctx["F_2"]}
        if "A" in c.ctxs[0]: env["A"] = ctx.get("A", 4)
        n = c_value(text, env)
        if n is None or n > 3000: continue
        data = ctx["f1"].to_bytes(2, "little", signed=True) + bytes([env["F_2"]]) + (bytes([env["A"]]) if "A" in c.ctxs[0] else b"") + bytes(3100)
        r = X.call(T_, data)
        X.check(r.ok and len(r.value.arr) == max(0, n), "array length", text=text, context=env, got=r.ok and len(r.value.arr), outcome=r, expected=n)
