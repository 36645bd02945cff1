"""Definition generator (shapes only; contents are symbolic or random elsewhere)."""
import random
from pyv import ref as R

SMALL_INTS = ["uint8", "int8", "uint16", "int16", "uint24", "int24", "uint32", "int32", "uint48", "int48", "uint64",
              "int64", "uint128", "int128"]


class Gen:
    def __init__(self, rng: random.Random, *, dynamic=True, bits=True, unions=True, ptr=True, floats=True, wchar=True,
                 leb=True, eof=True, enums=True, nested=True, void=False, maxfields=6, maxdepth=2, maxint=16, big=False):
        self.r = rng
        self.o = dict(dynamic=dynamic, bits=bits, unions=unions, ptr=ptr, floats=floats, wchar=wchar, leb=leb, eof=eof,
                      enums=enums, nested=nested, void=void)
        self.maxfields, self.maxdepth = maxfields, maxdepth
        self.big = big and rng.choice((None,) * 24 + ("array", "fields"))
        self.ints = [n for n in SMALL_INTS if R.INT_TYPES[n][0] <= maxint]
        self.k = 0
        self.enum_pool = []

    def fresh(self, p):
        self.k += 1
        return f"{p}{self.k}"

    def int(self):
        return R.Int(self.r.choice(self.ints))

    def enum(self):
        if self.enum_pool and self.r.random() < 0.4:
            return self.r.choice(self.enum_pool)
        base = self.int()
        flag = self.r.random() < 0.4
        w = 8 * R.INT_TYPES[base.name][0] - (1 if base.signed else 0)
        n = self.r.randint(1, 4)
        mem, used = [], {}
        en = R.Enum(self.fresh("E"), base, mem, flag)
        for i in range(n):
            v = None
            if self.r.random() < 0.5:
                v = (1 << self.r.randrange(min(w, 6))) if flag else self.r.randrange(0, min(1 << w, 40))
            mem.append((f"{en.name}_M{i}", v))
        while max(en.values().values()) >= (1 << w):
            mem.pop()
            if not mem:
                mem.append((f"{en.name}_M0", None))
        self.enum_pool.append(en)
        return en

    def scalar(self, dyn):
        c = ["int"] * 6 + ["char"]
        if self.o["wchar"]: c.append("wchar")
        if self.o["floats"]: c.append("float")
        if self.o["enums"]: c += ["enum"]
        if self.o["ptr"]: c.append("ptr")
        if dyn and self.o["leb"]: c.append("leb")
        k = self.r.choice(c)
        if k == "int": return self.int()
        if k == "char": return R.Char()
        if k == "wchar": return R.WChar()
        if k == "float": return R.Float(self.r.choice(list(R.FLOAT_TYPES)))
        if k == "enum": return self.enum()
        if k == "leb": return R.Leb(self.r.choice(["uleb128", "ileb128"]))
        return R.Ptr(R.Int(self.r.choice(["uint8", "uint32"])) if self.r.random() < .7 else R.Char())

    def zelem(self):
        k = self.r.choice(["int", "int", "char", "wchar", "enum", "leb", "st"])
        if k == "int" or (k == "enum" and not self.o["enums"]) or (k == "leb" and not self.o["leb"]): return self.int()
        if k == "char": return R.Char()
        if k == "wchar" and self.o["wchar"]: return R.WChar()
        if k == "enum": return self.enum()
        if k == "leb": return R.Leb(self.r.choice(["uleb128", "ileb128"]))
        if k == "st" and self.o["nested"]:
            return R.Struct(self.fresh("N"), [R.F(self.fresh("z"), self.int()) for _ in range(self.r.randint(1, 3))])
        return R.Char()

    def field_type(self, depth, dyn, prev_ints, last):
        """-> type"""
        r = self.r.random()
        if r < 0.45 or depth >= self.maxdepth and r < 0.6:
            return self.scalar(dyn)
        if r < 0.75 or not self.o["nested"] or depth >= self.maxdepth:
            elem = self.scalar(dyn)
            if depth < self.maxdepth and self.o["nested"] and self.r.random() < 0.2:
                elem = self.struct(depth + 1, dyn=dyn)
            forms = ["fixed"] * 4
            if dyn:
                forms += ["null", "expr"] if prev_ints else ["null"]
                if last and self.o["eof"] and depth == 0: forms += ["eof"]
            f = self.r.choice(forms)
            if f == "null":
                return R.Arr(self.zelem(), None)
            if f == "eof":
                # an array to the end of the input of elements that occupy nothing has no end
                return R.Arr(elem if occupies(elem) else self.int(), "EOF")
            if f == "expr":
                n = self.r.choice(prev_ints)
                t = R.Arr(elem, self.r.choice([f"{n}" if occupies(elem) else f"{n} & 7", f"{n} & 3", f"({n} % 3) + 1", f"{n} - 2" if occupies(elem) else f"({n} & 7) - 2", f"3 - {n}" if occupies(elem) else f"3 - ({n} & 7)"]))
            else:
                t = R.Arr(elem, self.r.randint(0, 3))
                if self.big == "array" and depth == 0 and elem.size(R.Mode()):
                    t.n = self.r.choice((17, 100, 200, 255, 256, 300))
            if self.r.random() < 0.2:
                t = R.Arr(t, self.r.randint(1, 2))
            return t
        return self.struct(depth + 1, union=self.o["unions"] and self.r.random() < 0.3, dyn=dyn)

    def struct(self, depth=0, union=False, dyn=None, name=None):
        dyn = self.o["dynamic"] if dyn is None else dyn
        if union:
            dyn = False
        fields, prev = [], []
        n = self.r.randint(1, self.maxfields if depth == 0 else 3)
        if self.big == "fields" and depth == 0: n = self.r.choice((17, 33, 40, 70))
        i = 0
        while i < n:
            i += 1
            if self.o["bits"] and not union and self.r.random() < 0.25:
                fields += self.bitrun()
                continue
            t = self.field_type(depth, dyn, prev, i == n)
            nm = self.fresh("f")
            if isinstance(t, R.Struct) and t.name and self.r.random() < 0.3 and depth < 3:
                anon = R.Struct(None, t.fields, t.union)
                fields.append(R.F(None if self.r.random() < .6 else nm, anon))
                continue
            fields.append(R.F(nm, t))
            if isinstance(t, R.Int) and t.name in ("uint8",):
                prev.append(nm)
        st = R.Struct(name or self.fresh("S"), fields, union)
        try:
            R.layout(st, R.Mode())
        except R.RefReject:  # e.g. two runs of bit-fields of one storage type that join to a straddling one
            return self.struct(depth, union, dyn, name)
        return st

    def bitrun(self):
        out = []
        t = self.enum() if self.o["enums"] and self.r.random() < .25 else self.int()
        if self.r.random() < .06: t = R.Char()
        s = R.storage(t)
        w = s.size(None) * 8
        left = w
        for _ in range(self.r.randint(1, 4)):
            if self.r.random() < .15:
                t = self.int() if self.r.random() < .9 else R.Char()
                if R.storage(t).name != s.name:
                    s = R.storage(t)
                    w = s.size(None) * 8
                    left = w
            elif self.r.random() < .15 and self.o["enums"]:
                pass
            b = self.r.randint(1, left)
            if self.r.random() < .7:
                b = min(b, 7)
            out.append(R.F(self.fresh("b"), t, b))
            left -= b
            if left == 0:
                left = w
        return out


def occupies(t):
    """every value of the type takes at least one byte"""
    if isinstance(t, R.Arr): return t.n is None or isinstance(t.n, int) and t.n > 0 and occupies(t.elem)
    if isinstance(t, R.Struct): return any(f.bits or occupies(f.type) for f in t.fields)
    return t.size(R.Mode()) != 0
