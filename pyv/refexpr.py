"""Spec evaluator for integer expressions: recursive descent over C precedence, unbounded integers."""
import re

TOK = re.compile(r"\s*(?:(0[xX][0-9a-fA-F]+|0[bB][01]+|[0-9]+)([uUlL]{0,3})|([A-Za-z_][A-Za-z0-9_]*)|(<<|>>|[-+*/%&^|~()]))")
LEVELS = [("|",), ("^",), ("&",), ("<<", ">>"), ("+", "-"), ("*", "/", "%")]


def lex(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError(s[i:])
        num, _, name, op = m.groups()
        if num is not None:
            if num[:2] in ("0x", "0X"):
                v = int(num[2:], 16)
            elif num[:2] in ("0b", "0B"):
                v = int(num[2:], 2)
            elif len(num) > 1 and num[0] == "0":
                v = int(num, 8)
            else:
                v = int(num, 10)
            out.append(("n", v))
        elif name is not None:
            out.append(("i", name))
        else:
            out.append(("o", op))
        i = m.end()
    return out


def evaluate(s, env, sizeof=None):
    return ev_tokens(lex(s), env, sizeof)


def apply(op, a, b):
    if op == "|": return a | b
    if op == "^": return a ^ b
    if op == "&": return a & b
    if op == "<<": return a << b
    if op == ">>": return a >> b
    if op == "+": return a + b
    if op == "-": return a - b
    if op == "*": return a * b
    if op == "/": return a // b
    if op == "%": return a % b
    raise SyntaxError(op)


def ev_tokens(toks, env, sizeof=None):
    pos = 0

    def peek():
        return toks[pos] if pos < len(toks) else ("e", None)

    def level(k):
        nonlocal pos
        if k == len(LEVELS):
            return unary()
        a = level(k + 1)
        while peek()[0] == "o" and peek()[1] in LEVELS[k]:
            op = peek()[1]
            pos += 1
            b = level(k + 1)
            a = apply(op, a, b)
        return a

    def unary():
        nonlocal pos
        k, v = peek()
        if k == "o" and v == "-":
            pos += 1
            return -unary()
        if k == "o" and v == "~":
            pos += 1
            return ~unary()
        return atom()

    def atom():
        nonlocal pos
        k, v = peek()
        if k == "n":
            pos += 1
            return v
        if k == "i" and v == "sizeof":
            if sizeof is None or toks[pos + 1] != ("o", "("):
                raise SyntaxError("sizeof")
            j = pos + 2
            names = []
            while toks[j][0] == "i":
                names.append(toks[j][1])
                j += 1
            if toks[j] != ("o", ")") or not names:
                raise SyntaxError("sizeof")
            pos = j + 1
            return sizeof(" ".join(names))
        if k == "i":
            pos += 1
            return env[v]
        if k == "o" and v == "(":
            pos += 1
            r = level(0)
            if peek() != ("o", ")"):
                raise SyntaxError(")")
            pos += 1
            return r
        raise SyntaxError(str((k, v)))

    r = level(0)
    if pos != len(toks):
        raise SyntaxError("trailing")
    return r
