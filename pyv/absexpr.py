"""Arbitrary states of an expression evaluation: stack and queue known near their top, tokens known around a position."""
from pyv import sym
from pyv.sym import Sym, SInt, Unsupported
from pyv.proofkit import fresh_int


class Seg:
    """k pending operators, all out of ops, over operands that collapse to one value"""
    def __init__(self, ops, k):
        self.ops, self.k, self.val, self.tops = ops, k, Value(), []

    def top(self):
        """the operator on top (the same one when asked again while k is the same)"""
        for k, o in self.tops:
            if k is self.k: return o
        o = self.ops[sym.EX.choose(len(self.ops))]
        self.tops.append((self.k, o))
        return o


class Value:
    """the value of a sub-expression"""


class Items(Sym):
    pytype = list
    @property
    def __class__(self): return list
    def append(self, x): self.items.append(x)
    def __bool__(self): return bool(self.sym_len() != 0)
    def __iter__(self): raise Unsupported("iterating over the state of an evaluation")
    def __len__(self): raise Unsupported("native length")


class Stack(Items):
    """what is below (nothing, an open parenthesis or an operator on top of anything), then items"""
    __slots__ = ("below", "items", "dropped", "n")
    def __init__(self, below, items):
        self.below, self.items, self.dropped = below, list(items), []
        self.n = 0 if below is None else fresh_int("below", 1)

    def live(self):
        """items without exhausted segments on top"""
        while self.items and isinstance(self.items[-1], Seg) and not bool(self.items[-1].k > 0): self.items.pop()
        return self.items

    def top_is(self, seg):
        it = self.live()
        return bool(it) and it[-1] is seg

    def sym_len(self):
        n = self.n
        for x in self.items: n = n + (x.k if isinstance(x, Seg) else 1)
        return n

    def _last(self):
        it = self.live()
        if it: return it[-1].top() if isinstance(it[-1], Seg) else it[-1]
        if self.dropped: raise Unsupported("below the known part of the stack")
        if self.below is None: raise IndexError("list index out of range")
        return self.below

    def __getitem__(self, i):
        if type(i) is int and i == -1: return self._last()
        raise Unsupported("index into the stack")

    def pop(self, i=-1):
        if i != -1: raise Unsupported("pop in the stack")
        it = self.live()
        if it and isinstance(it[-1], Seg): raise Unsupported("taking a pending operator apart")
        if it: return it.pop()
        x = self._last()
        self.dropped.append(x)
        self.n = self.n - 1
        return x

    def snapshot(self): return [x for x in self.items if not isinstance(x, Seg)]


class Queue(Items):
    __slots__ = ("n", "items")
    def __init__(self, empty, items): self.n, self.items = (0 if empty else fresh_int("operands", 0)), list(items)
    def sym_len(self):
        n = self.n
        for x in self.items:
            if isinstance(x, Seg) and bool(x.k != 0): raise Unsupported("number of operands while operators are pending")
            n = n + 1
        return n
    def __getitem__(self, i):
        if type(i) is int and self.items and (i == -1 or i == 0 and type(self.n) is int and self.n == 0):
            x = self.items[i]
            if not isinstance(x, Seg): return x
            if bool(x.k == 0): return x.val
        raise Unsupported("index into the queue")
    def pop(self, i=-1):
        x = self[i]
        del self.items[i]
        return x
    def snapshot(self): return [x for x in self.items if not isinstance(x, Seg)]


class Toks(Sym):
    """tokens of an expression of any length, of which those around position base are known"""
    pytype = list
    def __init__(self, window, need, origin=None):
        self.window, self.origin, self.writes = dict(window), origin, []
        if origin is None:
            self.base, self.n = fresh_int("position", 0), fresh_int("tokens", 0)
            if need: sym.EX.assume(self.base + need <= self.n)
            sym.EX.assume(self.base <= self.n)
        else: self.base, self.n = origin.base, origin.n
    @property
    def __class__(self): return list
    def sym_len(self): return self.n
    def __len__(self): raise Unsupported("native length")
    def copy(self): return Toks(self.window, 0, self)
    def offset(self, i):
        d = i - self.base
        for k in sorted(self.window):
            if bool(d == k): return k
        raise Unsupported("a token outside the known ones")
    def now(self, k): return next((v for d, v in reversed(self.writes) if d == k), self.window[k])
    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None: raise Unsupported("slice")
            if bool(i.stop <= i.start): return []
            a = self.offset(i.start)
            out = []
            while bool(i.stop > self.base + a) and bool(self.base + a < self.n):
                out.append(self.now(self.offset(self.base + a)))
                a += 1
            return out
        if not bool(i < self.n): raise IndexError("list index out of range")
        if bool(i < 0): raise Unsupported("negative index")
        return self.now(self.offset(i))
    def __setitem__(self, i, v): self.writes.append((self.offset(i), v))
