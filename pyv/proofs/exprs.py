"""C10 expressions: the shunting-yard evaluator, one token at a time, for expressions of any length.

Structure of the argument.  State: operator stack and operand queue.  A segment of k pending operators over a value is what
k calls of evaluate_exp turn into that value on the queue and nothing on the stack.  For every expression E of precedence
level l, read from a state S, Q whose top of S is nothing, an open parenthesis or an operator binding weaker than l, the
evaluator ends in S.R, Q.V with a segment R, V of operators of level >= l that collapses to the value of E:
 - literal, identifier, sizeof: pushes the value, k = 0                                                  (case operand)
 - unary operator and its operand: pushed; the operand's segment collapses first, then the operator      (case unary)
 - left op right: at op, exactly the segment of left is collapsed, op is pushed; right is of level l + 1  (case binary)
 - ( E ): pushed; at ) exactly the segment of E is collapsed and the parenthesis dropped                 (case open, close)
 - end of the expression: the segment is collapsed, its value is the result                              (case end)
and evaluate_exp applies the operator on top to the last one or two operands (proof evaluate_exp).  Each step is verified
on the code for an arbitrary state of that shape; structural induction over the expression gives the property.
"""
from pyv import sym
from pyv.engine import Cut, PathEnd
from pyv.sym import Unsupported
from pyv.proofkit import proof, fresh_int, exact, same
from pyv.absobj import Val
from pyv import refexpr
from pyv.real import cstruct
from pyv.absexpr import Stack, Queue, Seg, Toks
from dissect.cstruct.exceptions import ExpressionParserError
from dissect.cstruct.expression import Expression

LEVEL = {"|": 0, "^": 1, "&": 2, "<<": 3, ">>": 3, "+": 4, "-": 4, "*": 5, "/": 5, "%": 5}
UNARY = ("-u", "~")
OPS = [*LEVEL, *UNARY]
level = lambda o: LEVEL.get(o, 6)


# ------------------------------------------------------------------------------------------------- one operator

@proof("C10 C14 C15", "Expression.evaluate_exp", ["+", "-", "*", "/", "%", "-u", "~"])
def evaluate_exp(X, op):
    """For all integers: the operator on top of the stack is applied to the last operands, left and right; nothing else on
    the stack or queue changes."""
    step(X, op, lambda n: X.bigint(n))


@proof("C10 C14 C15", "Expression.evaluate_exp", ["|", "^", "&", "<<", ">>"], bounded="operands of at most 128 bits, shift counts up to 128")
def evaluate_bits(X, op):
    """As evaluate_exp, for the bitwise operators."""
    step(X, op, lambda n: X.int(n, 0, 128) if op in ("<<", ">>") and n == "right" else X.int(n, -(1 << 127), (1 << 127) - 1))


def step(X, op, num):
    e = Expression(cstruct(), "1")
    l, r = num("left"), num("right")
    below, under = X.pick("below", [None, "(", "+"]), [Val("operand")] * X.pick("under", (0, 1, 2))
    stack = [below, op] if below else [op]
    queue = under + ([l, r] if op not in UNARY else [r])
    out = X.call(e.evaluate_exp, stack, queue)
    if op in ("/", "%"):
        if X.truth(r == 0):
            X.check(out.raised(ZeroDivisionError), "division by zero is an error", outcome=out)
            return
    X.check(out.ok, "no error", outcome=out)
    X.check(stack == ([below] if below else []), "exactly the operator is taken from the stack")
    X.check(len(queue) == len(under) + 1 and all(a is b for a, b in zip(queue, under)), "exactly its operands are taken from the queue")
    v = queue[-1]
    if op in ("/", "%"):
        if not X.truth(X.all([l >= 0, r > 0])): return
        q, m = (v, l - v * r) if op == "/" else (None, v)
        X.check(X.all([m >= 0, m < r]), "C division of non-negative operands")
        if op == "%":
            # the remainder in [0, right) is unique: of the same left and right it is the one of the division
            X.check(l - (l // r) * r == m, "remainder of C division")
        return
    want = {"+": lambda: l + r, "-": lambda: l - r, "*": lambda: l * r, "-u": lambda: -r, "~": lambda: -r - 1, "|": lambda: l | r, "^": lambda: l ^ r,
            "&": lambda: l & r, "<<": lambda: l << r, ">>": lambda: l >> r}[op]()
    X.check(v == want, "result", got=v)


# ---------------------------------------------------------------------------------------------- one token at a time

class PopCut(Cut):
    """after some of the k pending operators were applied: the others are still pending, nothing else changed"""
    def __init__(self, main): self.main = main

    def enter(self, L, it):
        m = self.main
        names = [n for n in L if same(L[n], m.st) or same(L[n], m.qu)]
        self.optional = tuple(names)
        self.L = {n: L[n] for n in names}
        sym.EX.shape(len(names) >= 2, "loop over the pending operators")
        self.shape = m.st.snapshot(), m.qu.snapshot()

    def havoc(self, L):
        seg = self.main.seg
        k = fresh_int("pending", 0)
        sym.EX.assume(k <= seg.k)
        seg.k = self.k = k
        return dict(self.L)

    def end(self, L):
        ex, m = sym.EX, self.main
        ex.oblige(m.seg.k == self.k - 1, "pending operators: one is applied per iteration")
        ex.oblige((m.st.snapshot(), m.qu.snapshot()) == self.shape, "pending operators: nothing else changes")


class MainCut(Cut):
    """an arbitrary state of the evaluation: see the module documentation"""
    def __init__(self, X, toks, st, qu, seg, final): self.X, self.toks, self.st, self.qu, self.seg, self.final = X, toks, st, qu, seg, final

    def enter(self, L, it):
        e = lambda v: type(v) is list and not v
        self.names = self.roles(L, ("stack", e), ("queue", e), ("i", lambda v: type(v) is int and v == 0))
        sym.EX.oblige(any(exact(v) is Toks and v.origin is self.toks for v in L.values()), "evaluate: works on a copy of the tokens")
        self.fresh = [L[n] for n in self.names[:2]]

    def havoc(self, L):
        t = self.toks
        if self.final: sym.EX.assume(t.base == t.n)
        else: sym.EX.assume(t.base < t.n)
        return dict(zip(self.names, (self.st, self.qu, t.base)))

    def end(self, L):
        self.X.after(*[L[n] for n in self.names])
        raise PathEnd()


class PrepassSkip(Cut):
    """in the proofs of the main loop the tokens are those the pre-pass leaves (verified by unary_minus)"""
    def havoc(self, L):
        h = {n: v for n, v in L.items() if exact(v) is Toks}
        self.optional = tuple(h)
        return h
    def iter(self, it): return iter(())


def start(X, below, segment, window, final=False, need=0, lowest=0):
    """expression object, state and contracts for one step"""
    cs = cstruct()
    e = Expression(cs, "1")
    toks = Toks(window, need)
    e.tokens = toks
    seg = Seg([o for o in OPS if level(o) >= lowest], segment)
    st, qu = Stack(below, [seg]), Queue(final, [seg])
    if below == "(": st.below = "("
    main = MainCut(X, toks, st, qu, seg, final)
    X.loop("Expression.evaluate:2", main)
    sym.EX.loops["Expression.evaluate:1"] = PrepassSkip()

    def apply(self, stack, queue):
        """contract of Expression.evaluate_exp on a segment"""
        ex = sym.EX
        ex.shape(stack is st and queue is qu, "stack and queue of the evaluation")
        ex.oblige(st.top_is(seg), "an operator is applied only where operators are pending")
        ex.oblige(seg.k > 0, "an operator is applied only while one is pending")
        seg.k = seg.k - 1
    sym.EX.stubs[Expression.evaluate_exp] = apply
    return cs, e, main, before(e)


def before(e): return {k: v for k, v in vars(e).items()}


def unchanged(X, e, was):
    X.check(set(vars(e)) == set(was) and all(vars(e)[k] is was[k] for k in was) and not e.tokens.writes, "nothing is kept on the expression object")


BELOW = [None, "("] + OPS


def native(X, make):
    """natively: whole expressions against the reference evaluator"""
    text, names = make()
    cs = cstruct()
    cs.consts.update(names[1])
    e = X.call(Expression, cs, text)
    try: want = refexpr.evaluate(text, {**names[1], **names[0]})
    except ValueError: want = None  # negative shift count
    X.assume(want is not None)
    for _ in range(2):
        out = X.call(e.value.evaluate, names[0])
        X.check(out.ok and out.value == want, "value", outcome=out, expected=want, text=text)


def some_expr(X, must=None):
    names = ({"a": X.int("a", 0, 9), "b": X.int("b", 0, 9)}, {"b": X.int("cb", 0, 9), "C": X.int("C", 0, 9)})
    k = [0]
    def gen(d):
        k[0] += 1
        c = X.pick(f"g{k[0]}", ("lit", "name", "un", "par", "bin", "bin", "bin")) if d else "lit"
        if c == "lit": return X.pick(f"l{k[0]}", ("1", "2", "0x1f", "017", "0b11", "7u", "5"))
        if c == "name": return X.pick(f"n{k[0]}", ("a", "b", "C"))
        if c == "un": return X.pick(f"u{k[0]}", ("-", "~")) + gen(d - 1)
        if c == "par": return "(" + gen(d - 1) + ")"
        o = X.pick(f"o{k[0]}", ("|", "^", "&", "+", "-", "*", "<<", ">>"))
        return gen(d - 1) + " " + o + " " + ("3" if o in ("<<", ">>") else gen(d - 1))
    return gen(3), names


@proof("C10 C14 C15", "Expression.evaluate", {f"{o}": o for o in LEVEL}, steps=True)
def binary(X, op):
    """At a binary operator: exactly the pending operators of at least its level are applied (left associativity), and the
    operator becomes pending on top of what was there."""
    if not X.symbolic: return native(X, lambda: some_expr(X))
    below = X.pick("below", [b for b in BELOW if b in (None, "(") or level(b) < level(op)])
    cs, e, main, was = start(X, below, fresh_int("k", 0), {-1: X.pick("previous", ("1", "x", ")")), 0: op}, lowest=level(op))
    sym.EX.assume(main.toks.base > 0)
    X.loop("Expression.evaluate:4", PopCut(main))
    def after(st, qu, i):
        X.check(st is main.st and qu is main.qu, "the same stack and queue")
        X.check(main.seg.k == 0, "every pending operator that binds at least as strong is applied")
        X.check(st.snapshot() == [op] and qu.snapshot() == [], "the operator is pending, operands unchanged")
        X.check(i == main.toks.base + 1, "next token")
        unchanged(X, e, was)
    X.after = after
    out = X.call(e.evaluate, {})
    X.check(False, "no error, and on to the next token", outcome=out)


@proof("C10 C14 C15", "Expression.evaluate", UNARY, steps=True)
def unary(X, op):
    """A unary operator becomes pending on top of whatever is there."""
    if not X.symbolic: return native(X, lambda: some_expr(X))
    below = X.pick("below", BELOW)
    cs, e, main, was = start(X, below, 0, {-1: X.pick("previous", ("(", "+", "-u", "~", "<<")), 0: op})
    del main.st.items[:], main.qu.items[:]
    def after(st, qu, i):
        X.check(st is main.st and qu is main.qu, "the same stack and queue")
        X.check(st.snapshot() == [op] and qu.snapshot() == [], "the operator is pending, operands unchanged")
        X.check(i == main.toks.base + 1, "next token")
        unchanged(X, e, was)
    X.after = after
    out = X.call(e.evaluate, {})
    X.check(False, "no error, and on to the next token", outcome=out)


@proof("C10 C07 C14 C15", "Expression.evaluate Expression.is_number", ("literal", "context", "both", "constant", "unknown", "sizeof", "sizeof2", "no context"), steps=True)
def operand(X, case):
    """A literal pushes its value; an identifier the value of the context, else of the constants, else it is an error;
    sizeof(type) the size of the type."""
    if not X.symbolic: return native(X, lambda: some_expr(X))
    below = X.pick("below", BELOW)
    prev = X.pick("previous", ("(", "+", "-u", "~", "<<"))
    size, asked = X.bigint("size", 0), []
    w, adv = {0: "name"}, 1
    if case == "literal": w[0], want = X.pick("literal", (("7", 7), ("0", 0), ("1234567890123456789012", 1234567890123456789012), ("0x1F", 31), ("0XfF", 255), ("0b101", 5), ("0B1", 1), ("0o17", 15), ("00", 0))[:-1])
    elif case == "sizeof": w, adv = {0: "sizeof", 1: "(", 2: X.pick("type", ("uint32", "_t", "Name1")), 3: ")"}, 4
    elif case == "sizeof2": w, adv = {0: "sizeof", 1: "(", 2: "unsigned", 3: "long", 4: "long", 5: ")"}, 6
    cs, e, main, was = start(X, below, 0, {-1: prev, **w}, need=adv)
    del main.st.items[:], main.qu.items[:]
    ctx = {"other": 1}
    if case in ("context", "both"): ctx["name"] = want = X.bigint("context")
    if case == "no context": ctx = X.pick("empty", (None, {}))
    if case in ("both", "constant", "no context"): cs.consts["name"] = X.bigint("constant")
    if case in ("constant", "no context"): want = cs.consts["name"]
    if case[:6] == "sizeof":
        want = size
        class T:
            def sym_len(self): return size
        cs.resolve = lambda name: (asked.append(name), T())[1]
    def after(st, qu, i):
        X.check(case != "unknown", "an unknown name is an error")
        X.check(st is main.st and qu is main.qu, "the same stack and queue")
        q = qu.snapshot()
        X.check(st.snapshot() == [] and len(q) == 1 and q[0] == want, "exactly its value is pushed")
        X.check(i == main.toks.base + adv, "next token")
        if case[:6] == "sizeof": X.check(asked == [w[2] if case == "sizeof" else "unsigned long long"], "size of the named type")
        unchanged(X, e, was)
    X.after = after
    out = X.call(e.evaluate, ctx)
    X.check(case == "unknown" and out.raised(ExpressionParserError), "no error, and on to the next token", outcome=out)
    unchanged(X, e, was)


@proof("C10 C14 C15", "Expression.evaluate", ("open", "close"), steps=True)
def parenthesis(X, case):
    """( is pushed; ) applies exactly the pending operators since the matching ( and drops it."""
    if not X.symbolic: return native(X, lambda: some_expr(X))
    if case == "open":
        cs, e, main, was = start(X, X.pick("below", BELOW), 0, {-1: X.pick("previous", ("(", "+", "-u", "~", "<<")), 0: "("})
        del main.st.items[:], main.qu.items[:]
    else:
        cs, e, main, was = start(X, "(", fresh_int("k", 0), {-1: X.pick("previous", ("1", "x", ")")), 0: ")"})
        X.loop("Expression.evaluate:5", PopCut(main))
        sym.EX.assume(main.toks.base > 0)
    def after(st, qu, i):
        X.check(st is main.st and qu is main.qu, "the same stack and queue")
        if case == "open": X.check(st.snapshot() == ["("] and qu.snapshot() == [], "the parenthesis is pushed")
        else:
            X.check(main.seg.k == 0, "every pending operator inside is applied")
            X.check(st.dropped == ["("] and st.snapshot() == [] and qu.snapshot() == [], "the parenthesis is dropped, nothing else")
        X.check(i == main.toks.base + 1, "next token")
        unchanged(X, e, was)
    X.after = after
    out = X.call(e.evaluate, {})
    X.check(False, "no error, and on to the next token", outcome=out)


@proof("C10 C14 C15", "Expression.evaluate", (None,))
def end(X, case):
    """At the end all pending operators are applied and the value of the expression is the result."""
    if not X.symbolic: return native(X, lambda: some_expr(X))
    cs, e, main, was = start(X, None, fresh_int("k", 0), {}, final=True)
    X.loop("Expression.evaluate:6", PopCut(main))
    X.after = lambda *a: None
    out = X.call(e.evaluate, {})
    X.check(out.ok and out.value is main.seg.val, "the value of the expression is the result", outcome=out)
    X.check(main.seg.k == 0, "every pending operator is applied")
    unchanged(X, e, was)


class MinusCut(Cut):
    def __init__(self, X, toks): self.X, self.toks = X, toks

    def enter(self, L, it):
        ex = sym.EX
        t = [v for v in L.values() if exact(v) is Toks]
        ex.shape(len(t) == 1 and bool(it.start == 0) and bool(it.stop == self.toks.n) and bool(it.step == 1), "one pass over all tokens")
        self.t = t[0]
        ex.oblige(self.t is not self.toks and self.t.origin is self.toks, "unary minus: works on a copy of the tokens")

    def havoc(self, L):
        h = {n: v for n, v in L.items() if same(v, self.t)}
        self.optional = tuple(h)
        return h

    def iter(self, it):
        if sym.EX.choose(2) == 0: yield self.toks.base

    def end(self, L):
        t, toks = self.t, self.toks
        first = bool(toks.base == 0)
        cur, prev = toks.window[0], None if first else toks.window[-1]
        is_unary = cur == "-" and (first or prev in OPS or prev == "(")
        sym.EX.oblige(t.now(0) == ("-u" if is_unary else cur), "unary minus: a minus is unary exactly at the start, after an operator or an open parenthesis")
        sym.EX.oblige(all(d == 0 for d, _ in t.writes) and not toks.writes, "unary minus: no other token changes")


@proof("C10 C14 C15", "Expression.evaluate", (None,), steps=True)
def unary_minus(X, case):
    """Pre-pass, for every position: a minus is unary exactly at the start, after an operator or an open parenthesis."""
    if not X.symbolic: return native(X, lambda: some_expr(X))
    toks = Toks({-1: X.pick("previous", OPS + ["(", ")", "x", "1", "sizeof"]), 0: X.pick("current", ["-", "~", "+", "(", ")", "x", "1"])}, 0)
    sym.EX.assume(toks.base < toks.n)
    e = Expression(cstruct(), "1")
    e.tokens = toks

    class Stop(Cut):
        def enter(self, L, it): raise PathEnd()
    X.loop("Expression.evaluate:1", MinusCut(X, toks))
    X.loop("Expression.evaluate:2", Stop())
    out = X.call(e.evaluate, {})
    X.check(False, "no error", outcome=out)
