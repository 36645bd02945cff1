"""Specification of structure layout, reading and writing: one step per field.

A structure is a sequence of fields (offset or None, bits, alignment, storage type); positions are relative to its start.
The same functions run on symbolic values (the proofs) and on integers (the native counterparts).  `truth` decides a
condition (case split), so that each returns a single case.
"""


class F:
    """one field: off None or a position, bits 0 for an ordinary field, st the storage type (enum: its underlying type),
    size the size of the field's type (None: dynamic), usize the size of the storage type"""
    def __init__(self, off, bits, al, st, size, usize):
        self.off, self.bits, self.al, self.st, self.size, self.usize = off, bits, al, st, size, usize
        self.isbits = not (type(bits) is int and bits == 0)


def roundup(r, a): return r + (-r) % (a or 1)


# ----------------------------------------------------------------------------------------------------------- reading

class R:
    """state of a reader between two fields: position, bits left in the current storage unit, its type"""
    def __init__(self, pos, rem, ut): self.pos, self.rem, self.ut = pos, rem, ut


def continues(truth, f, rem, ut):
    return bool(truth(f.bits != 0)) and bool(truth(rem != 0)) and ut is not None and bool(truth(ut == f.st))


def place(truth, f, S, align):
    """where a field starts: its offset if it has one; else the next multiple of its alignment (aligned mode) or the current
    position; a bit-field that shares the storage unit of the previous one does not move"""
    cont = continues(truth, f, S.rem, S.ut)
    if f.off is not None: return f.off, cont
    if align and not cont: return roundup(S.pos, f.al), cont
    return S.pos, cont


def rstep(truth, f, S, align, length):
    """-> (start of the field, whether it shares the previous unit, bits left before it, next state).  length(at) is the
    encoded size of an ordinary field found at `at`."""
    at, cont = place(truth, f, S, align)
    if truth(f.bits != 0):
        rem = S.rem if cont else f.usize * 8
        return at, cont, rem, R(at if cont else at + f.usize, rem - f.bits, f.st)
    return at, cont, 0, R(at + length(at), 0, None)


def rend(S, align, alignment): return roundup(S.pos, alignment) if align else S.pos


# ----------------------------------------------------------------------------------------------------------- writing

class W:
    """state of a writer: position, bits left in the unit being filled (0: none is), its type and size"""
    def __init__(self, pos, rem, ut, usize): self.pos, self.rem, self.ut, self.usize = pos, rem, ut, usize


def wstep(truth, f, S, align, length):
    """-> (start of the field, shares the unit, bits left before it, next state).  A unit is written when it is complete or
    the next field does not share it."""
    cont = continues(truth, f, S.rem, S.ut)
    pos = S.pos if cont or not truth(S.rem != 0) else S.pos + S.usize
    at, _ = place(truth, f, R(pos, S.rem, S.ut), align)
    if f.off is not None and truth(pos > f.off): at = pos
    if truth(f.bits != 0):
        rem = S.rem if cont else f.usize * 8
        left = rem - f.bits
        if truth(left == 0): return at, cont, rem, W(at + f.usize, 0, None, 0)
        return at, cont, rem, W(at, left, f.st, f.usize)
    return at, cont, 0, W(at + length(at), 0, None, 0)


def wend(truth, S, align, alignment):
    pos = S.pos + S.usize if truth(S.rem != 0) else S.pos
    return roundup(pos, alignment) if align else pos


# ------------------------------------------------------------------------------------------------------------ layout

class L:
    """state of the layout computation: offset (None: not static any more), alignment, bits left, unit type, unit start, unit size"""
    def __init__(self, off, al, rem, ut, ustart, usize): self.off, self.al, self.rem, self.ut, self.ustart, self.usize = off, al, rem, ut, ustart, usize


def lstep(truth, f, S, align):
    """-> (offset given to the field (None: not assigned here), next state); f.off is what the user gave"""
    cont = continues(truth, f, S.rem, S.ut)
    al = S.al if truth(S.al >= f.al) else f.al
    off = S.off if f.off is None else f.off
    if truth(f.bits != 0):
        if cont: return None, L(S.off, al, S.rem - f.bits, S.ut, S.ustart, S.usize)
        if align and off is not None: off = roundup(off, f.al)
        return off, L(None if off is None else off + f.usize, al, f.usize * 8 - f.bits, f.st, off, f.usize)
    if align and off is not None: off = roundup(off, f.al)
    return off, L(None if off is None or f.size is None else off + f.size, al, 0, None, None, 0)


def lend(S, align):
    if S.off is None: return None
    return roundup(S.off, S.al) if align and not (type(S.al) is int and S.al == 0) else S.off
