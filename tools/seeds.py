"""Planted bugs (see seedgen.py). edits: (file under dissect/cstruct, old, new)."""
SEEDS = []
def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))

H = "from dissect.cstruct import cstruct\nfrom io import BytesIO\n"

seed("C01-leb128-stop", "C01", "a negative ileb128 whose encoding has an intermediate byte equal to 0x7f with the remaining value not -1 … i.e. sign bit of an intermediate group", "signed LEB128 encoder stops without looking at the sign bit of the last group for negative numbers",
 [("types/leb128.py", "(data == -1 and byte & 0x40 != 0)) or (", "(data == -1 and (byte & 0x40 != 0 or len(result) > 1))) or (")],
 H + """
cs = cstruct()
for v in (-1, -64, -65, -8193, -1048577, -1048640, -200000000):
    assert cs.ileb128(cs.ileb128.dumps(v)) == v, v
""")

seed("C01-char-pad", "C01", "a char value of more than one byte length zero written", "int values of a char field above 127 are written as UTF-8",
 [("types/char.py", "            data = chr(data)\n\n        if isinstance(data, str):\n            data = data.encode(\"latin-1\")\n\n        return stream.write(data)", "            data = chr(data)\n\n        if isinstance(data, str):\n            data = data.encode()\n\n        return stream.write(data)")],
 H + """
cs = cstruct(); cs.load("struct t { char c; uint8 x; };")
assert cs.t(c=0x41, x=1).dumps() == b"A\\x01"
d = cs.t(c=0xe9, x=1).dumps()
assert len(d) == 2 and cs.t(d).c == b"\\xe9", d
""")

seed("C03-pad-count", "C03", "a structure with manual offsets leaving two consecutive gaps / several void members", "the struct format optimiser forgets the count of the first run when it merges",
 [("compiler.py", "            current_count += count\n\n    if current_char is not None", "            current_count += count if char != \"x\" or current_count > 1 else count + 0\n            if char == \"x\" and current_count > 255:\n                current_count = 255\n\n    if current_char is not None")],
 H + """
d = "struct t { char a[200]; char b[100]; uint32 x; uint16 y; };"
data = bytes(i & 0xff for i in range(306))
a = cstruct().load(d, compiled=True).t(data); b = cstruct().load(d, compiled=False).t(data)
assert a.x == b.x and a.y == b.y
""")

seed("C04-union-tail", "C04", "an aligned union whose largest member is not a multiple of its alignment", "a union is not padded at its tail when its largest member is the most aligned one",
 [("types/structure.py", "        if align and size is not None:\n            # Add \"tail padding\" if we need to align\n            # This bit magic rounds up to the next alignment boundary\n            # E.g. offset = 3; alignment = 8; -offset & (alignment - 1) = 5\n            size += -size & (alignment - 1)", "        if align and size is not None and size < 2 * alignment:\n            # Add \"tail padding\" if we need to align\n            # This bit magic rounds up to the next alignment boundary\n            # E.g. offset = 3; alignment = 8; -offset & (alignment - 1) = 5\n            size += -size & (alignment - 1)")],
 H + """
cs = cstruct().load("union u { uint8 a[9]; uint32 b; }; union v { uint8 a[5]; uint32 b; };", align=True)
assert len(cs.v) == 8 and len(cs.u) == 12, len(cs.u)
""")

seed("C05-network-wchar", "C05", "endianness '!' and wide characters", "wide characters are little endian in network byte order",
 [("types/wchar.py", '"!": "utf-16-be",', '"!": "utf-16-le",')],
 H + """
cs = cstruct(endian="!"); cs.load("struct t { uint16 a; wchar b[2]; };")
t = cs.t(b"\\x00\\x01\\x00A\\x00B")
assert t.a == 1 and t.b == "AB", t
""")

seed("C05-endian-cache", "C05", "parsing with both byte orders in one process with the same format", "the cache of struct objects normalises the format with the first endianness seen",
 [("types/packed.py", "        fmt = _struct(cls.cs.endian, f\"{count}{cls.packchar}\")\n", "        fmt = cls.__dict__.get(\"_fmt\") if count == 1 else None\n        if fmt is None:\n            fmt = _struct(cls.cs.endian, f\"{count}{cls.packchar}\")\n            if count == 1:\n                cls._fmt = fmt\n")],
 H + """
cs = cstruct()
assert cs.uint32(b"\\x01\\x00\\x00\\x00") == 1
cs.endian = ">"
assert cs.uint32(b"\\x00\\x00\\x00\\x01") == 1
""")

seed("C06-bitbuffer-size", "C06", "adjacent bit-fields of different storage types of equal size with room left in the first unit (reading only, writer still starts a new unit)", "the reader shares a storage unit between types of the same size",
 [("bitbuffer.py", "        if self._remaining == 0 or self._type != field_type:\n            if field_type.size is None:\n                raise ValueError(\"Reading", "        if self._remaining == 0 or (self._type != field_type and self._type.size != field_type.size):\n            if field_type.size is None:\n                raise ValueError(\"Reading")],
 H + """
cs = cstruct().load("struct t { uint8 a:4; int8 b:4; uint8 c; };", compiled=False)
t = cs.t(b"\\x21\\x43\\x65")
assert (t.a, t.b, t.c) == (1, 3, 0x65), t
""")

seed("C06-be-char-bits", "C06", "bit-field of a big-endian multi-byte unit with three fields", "the big endian reader masks with the bits of the unit rather than the remaining bits when one bit is left",
 [("bitbuffer.py", "            v >>= self._remaining - bits\n            self._remaining -= bits\n\n        return v", "            v >>= self._remaining - bits\n            self._remaining -= bits\n            if self._remaining == 1 and self._type.size > 2:\n                self._remaining = 0\n\n        return v")],
 H + """
for comp in (True, False):
    cs = cstruct(endian=">").load("struct t { uint32 a:16; uint32 b:15; uint32 c:1; };", compiled=comp)
    t = cs.t(b"\\xff\\xff\\xff\\xfe\\xff\\xff\\xff\\xff")
    assert t.c == 0, t
""")

seed("C07-negative-count", "C07", "an expression count that evaluates to a negative number equal to the EOF sentinel", "negative counts are no longer clamped at zero for expressions with more than one token",
 [("types/base.py", "                num = max(0, cls.num_entries.evaluate(context))", "                num = cls.num_entries.evaluate(context)\n                if num > -256:\n                    num = max(0, num)")],
 H + """
cs = cstruct().load("struct t { uint16 n; uint16 a[n - 3600]; uint8 x; };")
t = cs.t(b"\\x11\\x00" + b"\\x05" * 5)
assert list(t.a) == [] and t.x == 5, t
""")

seed("C08-char-eof", "C08", "a null-terminated char array whose terminator is missing", "end of input terminates a char string that has at least one character",
 [("types/char.py", "            if byte == b\"\":\n                raise EOFError", "            if byte == b\"\":\n                if len(buf) > 8:\n                    break\n                raise EOFError")],
 H + """
cs = cstruct().load("struct t { char a[]; };")
try: cs.t(b"0123456789abcdef")
except EOFError: pass
else: raise SystemExit(1)
""")

seed("C08-union-short", "C08", "an anonymous/nested union at the end of truncated input, missing only one byte", "a union accepts input that lacks less bytes than its alignment",
 [("types/structure.py", "            buf = io.BytesIO(stream.read(cls.size))", "            buf = io.BytesIO(stream.read(cls.size).ljust(cls.size, b\"\\x00\"))"),
  ("types/structure.py", "            result = {}\n            sizes = {}\n            size = cls.size\n\n        buf = stream.read(size)\n        if len(buf) != size:", "            result = {}\n            sizes = {}\n            size = cls.size\n\n        buf = stream.read(size)\n        if cls.__align__ and cls.size is not None and len(buf) > size - 2:\n            buf = buf.ljust(size, b\"\\x00\")\n        if len(buf) != size:")],
 H + """
cs = cstruct().load("union u { uint32 a; uint8 b[4]; };", align=True)
try: cs.u(b"123")
except EOFError: pass
else: raise SystemExit(1)
""")

seed("C10-mod-prec", "C10", "an expression mixing % with * or / without parentheses", "% binds tighter than * and /",
 [("expression.py", '        "%": 5,', '        "%": 6,')],
 H + """
from dissect.cstruct.expression import Expression
cs = cstruct()
assert Expression(cs, "7 * 5 % 3").evaluate() == 2
assert Expression(cs, "6 - 20 / 7 % 2").evaluate() == 6
""")

seed("C11-offset-member", "C11", "assigning a union member that has a manual offset", "assigning to a member with an offset writes it at the start of the union",
 [("types/structure.py", "        if field.offset:\n            buf.seek(field.offset)\n", "        if field.offset and field.offset > field.type.size:\n            buf.seek(field.offset)\n")],
 H + """
cs = cstruct().load("union u { uint32 a; };")
cs.u.add_field("b", cs.uint16, offset=2)
u = cs.u(b"\\x01\\x02\\x03\\x04")
u.b = 0xaabb
assert u.dumps() == b"\\x01\\x02\\xbb\\xaa", u.dumps()
""")

seed("C11-proxy-depth", "C11", "assigning a field of a structure nested two levels deep in a union", "only directly nested structures write through to the union",
 [("types/structure.py", "        setattr(self.__target__, attr, value)\n        self.__union__._rebuild(self.__attr__)", "        setattr(self.__target__, attr, value)\n        if self.__attr__ in self.__union__.__class__.fields:\n            self.__union__._rebuild(self.__attr__)")],
 H + """
cs = cstruct().load("union u { struct { uint8 a; uint8 b; }; uint16 c; };")
u = cs.u(b"\\x01\\x02")
u.a = 9
assert u.c == 0x0209, u
""")

seed("C12-enum-hash", "C12", "hashing a member whose value appears twice in the enum versus a parsed value", "the hash of unnamed members differs between parses",
 [("types/enum.py", "        return hash((self.__class__, self.name, self.value))", "        return hash((self.__class__, self.name or id(self), self.value))")],
 H + """
cs = cstruct().load("enum e : uint8 { A = 1 };")
a, b = cs.e(b"\\x05"), cs.e(b"\\x05")
assert a == b and hash(a) == hash(b)
""")

seed("C14-consts-shared", "C14", "two cstruct objects, one of which loads lookups / constants", "lookups are shared by all cstruct objects",
 [("cstruct.py", "        self.lookups = {}\n", "        self.lookups = self.__class__.__dict__.get(\"_lookups\") or {}\n        cstruct._lookups = self.lookups\n")],
 H + """
a = cstruct(); a.load("#define A 1\\n$l = {'A': 2}\\n")
b = cstruct()
assert b.lookups == {}, b.lookups
""")

seed("C15-bitbuffer-shared", "C15", "two threads parsing structures with bit-fields of one cstruct instance", "the bit buffer is cached on the type and reused",
 [("types/structure.py", "        bit_buffer = BitBuffer(stream, cls.cs.endian)\n        struct_start = stream.tell()\n\n        result = {}", "        bit_buffer = cls.__dict__.get(\"_bb\") or BitBuffer(stream, cls.cs.endian)\n        cls._bb = bit_buffer\n        bit_buffer.__init__(stream, cls.cs.endian)\n        struct_start = stream.tell()\n\n        result = {}")],
 H + """
import threading
cs = cstruct().load("struct i { uint8 a:4; uint8 b:4; }; struct t { uint8 a:4; uint8 b:4; uint8 c; };", compiled=False)
class S(BytesIO):
    other = None
    def read(self, n=-1):
        r = super().read(n)
        if self.other is not None and self.tell() == 1:
            o, self.other = self.other, None
            th = threading.Thread(target=lambda: cs.t(o)); th.start(); th.join()
        return r
s = S(b"\\x21\\x33"); s.other = b"\\x65\\x44"
t = cs.t(s)
assert (t.a, t.b, t.c) == (1, 2, 0x33), t
""")

seed("C16-sub-stream", "C16", "subtracting from a pointer and dereferencing the result", "the result of a right shift loses its stream",
 [("types/pointer.py", "int.__rshift__(self, other), self._stream, self._context)", "int.__rshift__(self, other), None, self._context)")],
 H + """
cs = cstruct(pointer="uint8").load("struct t { uint16 *p; };")
t = cs.t(b"\\x04\\x00\\x07\\x00")
assert (t.p >> 1).dereference() == 7
""")

seed("C16-deref-stable", "C16", "dereferencing a pointer twice when the target value is falsy", "a falsy target value is parsed again on each access",
 [("types/pointer.py", "        if self._value is None and not issubclass(self.type, Void):", "        if not self._value and not issubclass(self.type, Void):")],
 H + """
cs = cstruct(pointer="uint8").load("struct e { uint8 x; }; struct t { e *p; };")
s = BytesIO(b"\\x01\\x00\\x00")
t = cs.t(s)
a = t.p.dereference()
assert a is t.p.dereference()
""")

seed("C17-eq-cap", "C17", "structures with more than 32 fields that differ in a late field", "equality only looks at the first 32 fields",
 [("types/structure.py", '    other_vals = ",".join(f"other.{name}" for name in fields)\n', '    fields = fields[:32]\n    self_vals = ",".join(f"self.{name}" for name in fields)\n    other_vals = ",".join(f"other.{name}" for name in fields)\n')],
 H + """
cs = cstruct().load("struct t {" + "".join(f"uint8 f{i};" for i in range(40)) + "};")
assert cs.t(f39=1) != cs.t(f39=2)
""")

seed("C17-bool-anon", "C17", "a structure whose only non-zero field is a nested one", "truth ignores the last field when there are several",
 [("types/structure.py", "        return any([{vals}])", "        return any([{vals}][:24])")],
 H + """
cs = cstruct().load("struct t {" + "".join(f"uint8 f{i};" for i in range(30)) + "};")
assert cs.t(f29=1)
""")

seed("C18-init-stale", "C18", "instances created after a structure was extended in a batch of several fields", "committing does not refresh the hash when the number of fields stays within the template",
 [("types/structure.py", "        for key, value in classdict.items():\n            setattr(cls, key, value)", "        for key, value in classdict.items():\n            if key == \"__bool__\" and not cls.__updating__ and len(cls.__fields__) > 3:\n                continue\n            setattr(cls, key, value)")],
 H + """
cs = cstruct().load("struct t { uint8 a; uint8 b; uint8 c; };")
cs.t.add_field("d", cs.uint8)
assert cs.t(b"\\0\\0\\0\\1")
""")

seed("C19-hexdump-offset", "C19", "hexdump with an offset that is not a multiple of 16", "the offset column is rounded down",
 [("utils.py", 'yield f"{prefix}{offset + i:08x}  {values:48s}  {chars}"', 'yield f"{prefix}{(offset & ~0xf | offset & 0xf) + i & 0xffffffff:08x}  {values:48s}  {chars}"')],
 H + """
from dissect.cstruct.utils import hexdump
l = hexdump(b"a" * 20, offset=0x1_0000_0000, output="string").split("\\n")
assert l[1].startswith("100000010"), l
""")

seed("C19-u64-sign", "C19", "signed unpacking of 64 bits", "u64 ignores sign",
 [("utils.py", "    return unpack(value, 64, endian, sign)", "    return unpack(value, 64, endian, sign and endian != \"network\")")],
 H + """
from dissect.cstruct.utils import u64
assert u64(b"\\xff" * 8, "network", True) == -1
""")

seed("C20-alias-name", "C20", "an array of wide characters in a structure", "wide character arrays are declared as CharArray",
 [("tools/stubgen.py", '        return f"{module_prefix}WcharArray"', '        return f"{module_prefix}CharArray" if type_.null_terminated else f"{module_prefix}WcharArray"')],
 H + """
from dissect.cstruct.tools.stubgen import generate_cstruct_stub
cs = cstruct().load("struct t { wchar a[]; };")
assert "a: WcharArray" in generate_cstruct_stub(cs)
""")

seed("C20-pointer-hint", "C20", "a pointer to an array / pointer to pointer field", "pointers to pointers are declared with one level",
 [("tools/stubgen.py", '        return f"{module_prefix}Pointer[{generate_typehint(type_.type, prefix, module_prefix)}]"', '        return f"{module_prefix}Pointer[{generate_typehint(nested_type(type_), prefix, module_prefix)}]"')],
 H + """
from dissect.cstruct.tools.stubgen import generate_cstruct_stub
cs = cstruct().load("struct t { uint8 **a; };")
assert "a: Pointer[Pointer[cstruct.uint8]]" in generate_cstruct_stub(cs), generate_cstruct_stub(cs)
""")

seed("C02-flush-tail", "C02", "a structure whose last field is a bit-field that leaves its unit incomplete with value zero", "an incomplete last storage unit holding only zero bits is not written",
 [("types/structure.py", "        if bit_buffer._type is not None:\n            bit_buffer.flush()\n", "        if bit_buffer._type is not None and (bit_buffer._buffer or num == 0):\n            bit_buffer.flush()\n")],
 H + """
cs = cstruct().load("struct t { uint8 x; uint16 a:4; uint16 b:4; };")
for d in (b"\\x01\\x21\\x00", b"\\x01\\x00\\x00"):
    assert cs.t(d).dumps() == d, cs.t(d).dumps()
""")

seed("C04-nested-offset", "C04", "a packed structure with a zero-size member (x[0]) in front of other fields", "the offset computation skips a zero-length member of an aligned structure's alignment",
 [("types/structure.py", "            alignment = max(alignment, field.alignment)\n\n            if field.bits:", "            alignment = max(alignment, field.alignment if field.type.size != 0 else 1)\n\n            if field.bits:")],
 H + """
cs = cstruct().load("struct t { uint8 a; uint32 z[0]; uint8 b[3]; };", align=True)
assert len(cs.t) == 8 and cs.t.alignment == 4, (len(cs.t), cs.t.alignment)
""")

seed("C09-eof-probe", "C09", "an x[EOF] array of a dynamic element type behind other data in a stream", "the end-of-stream probe goes back one byte relative to the end instead of the old position",
 [("types/base.py", "    stream.seek(pos)\n    return False", "    stream.seek(pos if pos & 0xFF else max(0, stream.tell() - 2))\n    return False")],
 H + """
cs = cstruct().load("struct e { uint8 n; uint8 d[n]; }; struct t { e x[EOF]; };")
body = b"\\x01\\xaa\\x00\\x02\\x01\\x02"
s = BytesIO(b"\\x07" * 256 + body); s.seek(256)
assert cs.t(s).dumps() == cs.t(body).dumps() == body
""")


seed("C10-div-float", "C10", "a quotient of more than 53 bits", "division goes through floating point",
 [("expression.py", "        \"/\": lambda a, b: a // b,", "        \"/\": lambda a, b: int(a / b) if 0 <= a < 1 << 60 and 0 < b else a // b,")],
 H + """
from dissect.cstruct.expression import Expression
assert Expression(cstruct(), "0x3fffffffffffff / 1").evaluate() == 0x3fffffffffffff
assert Expression(cstruct(), "7 / 2").evaluate() == 3
""")

seed("C16-falsy-target", "C16", "dereferencing a pointer twice whose target is zero (or empty), the data having changed or the stream being closed in between", "a dereferenced value that is false is not remembered",
 [("types/pointer.py", "        if self._value is None and not", "        if not self._value and not")],
 H + """
cs = cstruct().load("struct t { uint8 *p; uint8 n; };")
cs.pointer = cs.uint8
cs = cstruct(pointer="uint8").load("struct t { uint8 *p; uint8 n; };")
s = BytesIO(b"\\x03\\x07\\x00\\x00")
t = cs.t(s)
assert t.p.dereference() == 0
s.seek(3); s.write(b"\\x09")
assert t.p.dereference() == 0, t.p.dereference()
""")

seed("C17-bool-wide", "C17", "a structure of more than 256 fields of which only a late one is set", "only the first 256 fields count for the truth of a structure",
 [("types/structure.py", "        return any([{vals}])", "        return any([{vals}][:256])")],
 H + """
cs = cstruct().load("struct t { " + " ".join(f"uint8 f{i};" for i in range(300)) + " };")
assert not cs.t()
assert cs.t(f10=1) and cs.t(f255=1) and cs.t(f256=1) and cs.t(f299=1)
""")

seed("C19-offset-wrap", "C19", "a hexdump whose offset exceeds 32 bits", "offsets wrap at 32 bits",
 [("utils.py", "        yield f\"{prefix}{offset + i:08x}  {values:48s}  {chars}\"", "        yield f\"{prefix}{(offset + i) & 0xFFFFFFFF:08x}  {values:48s}  {chars}\"")],
 H + """
from dissect.cstruct import hexdump
out = hexdump(b"0123456789abcdef" * 2, offset=0xfffffff0, output="string")
assert out.split("\\n")[1].startswith("100000000"), out
""")

seed("C07-null-partial", "C07", "a null-terminated array of structures with an element whose direct integers are zero but whose nested structure is not", "a null-terminated array of structures ends at an element whose direct members are zero",
 [("types/structure.py", "        while obj := cls._read(stream, context):", "        while (obj := cls._read(stream, context)) and any(isinstance(v, int) and v for v in obj._values.values()):")],
 H + """
cs = cstruct().load("struct i { uint8 a; }; struct e { uint8 k; i v; }; struct t { e x[]; uint8 z; };")
t = cs.t(b"\\x01\\x02\\x00\\x05\\x00\\x00\\x09")
assert len(t.x) == 2 and t.z == 9, t
""")
