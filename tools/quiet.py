"""Behaviour-preserving refactorings of /repo: the checks have to stay quiet on all of them.

Usage: quiet.py BATCH DEST     copy /repo to DEST and apply the refactorings of BATCH (a letter)
"""

import os
import shutil
import subprocess
import sys

B = {}


def r(batch, file, old, new):
    B.setdefault(batch, []).append((file, old, new))


# --- batch A: helpers extracted ---------------------------------------------------------------------------------
r("A", "bitbuffer.py", '''        if isinstance(self._buffer, bytes):
            if self.endian == "<":
                self._buffer = int.from_bytes(self._buffer, "little")
            else:
                self._buffer = int.from_bytes(self._buffer, "big")
''', '''        self._normalize()
''')
r("A", "bitbuffer.py", '''    def write(self, field_type''', '''    def _byteorder(self) -> str:
        return "little" if self.endian == "<" else "big"

    def _normalize(self) -> None:
        if isinstance(self._buffer, bytes):
            self._buffer = int.from_bytes(self._buffer, self._byteorder())

    def _unit_bits(self) -> int:
        return self._type.size * 8

    def write(self, field_type''')
r("A", "bitbuffer.py", '''            self._buffer |= data << (self._type.size * 8 - self._remaining)
''', '''            self._buffer |= data << (self._unit_bits() - self._remaining)
''')
r("A", "bitbuffer.py", '''self._buffer.to_bytes(self._type.size, "little" if self.endian == "<" else "big")''',
  '''self._buffer.to_bytes(self._type.size, self._byteorder())''')
r("A", "types/base.py", '''        if count == EOF:
            result = []
            while not _is_eof(stream):
                pos = stream.tell()
                try:
                    result.append(cls._read(stream, context))
                except EOFError:
                    # Only take whole elements
                    stream.seek(pos)
                    break
            return result
''', '''        if count == EOF:
            return cls._read_until_eof(stream, context)
''')
r("A", "types/base.py", '''    def _read_0(cls, stream: BinaryIO, context: dict[str, Any] | None = None) -> list[Self]:
''', '''    def _read_until_eof(cls, stream: BinaryIO, context: dict[str, Any] | None = None) -> list[Self]:
        result = []
        while not _is_eof(stream):
            pos = stream.tell()
            try:
                result.append(cls._read(stream, context))
            except EOFError:
                # Only take whole elements
                stream.seek(pos)
                break
        return result

    def _read_0(cls, stream: BinaryIO, context: dict[str, Any] | None = None) -> list[Self]:
''')
r("A", "types/base.py", '''        if isinstance(cls.num_entries, int):
            num = max(0, cls.num_entries)
        elif cls.num_entries is None:
            num = EOF
        elif isinstance(cls.num_entries, Expression):
            try:
                num = max(0, cls.num_entries.evaluate(context))
            except Exception:
                if cls.num_entries.expression != "EOF":
                    raise
                num = EOF

        return cls.type._read_array(stream, num, context)
''', '''        return cls.type._read_array(stream, cls._count(context), context)

    @classmethod
    def _count(cls, context: dict[str, Any] | None) -> int:
        num_entries = cls.num_entries
        if num_entries is None:
            return EOF

        if isinstance(num_entries, Expression):
            try:
                num_entries = num_entries.evaluate(context)
            except Exception:
                if num_entries.expression == "EOF":
                    return EOF
                raise

        return num_entries if num_entries > 0 else 0
''')
r("A", "types/packed.py", '''        fmt = _struct(cls.cs.endian, f"{count}{cls.packchar}")

        if len(data) != length:
            raise EOFError(f"Read {len(data)} bytes, but expected {length}")

        return [cls.__new__(cls, value) for value in fmt.unpack(data)]
''', '''        if len(data) != length:
            raise EOFError(f"Read {len(data)} bytes, but expected {length}")

        return cls._unpack(data, count)

    @classmethod
    def _unpack(cls, data: bytes, count: int) -> list[Self]:
        new = cls.__new__
        values = _struct(cls.cs.endian, f"{count}{cls.packchar}").unpack(data)
        return [new(cls, value) for value in values]
''')
r("A", "types/int.py", '''        data = stream.read(cls.size)

        if len(data) != cls.size:
            raise EOFError(f"Read {len(data)} bytes, but expected {cls.size}")

        return cls.from_bytes(data, ENDIANNESS_MAP[cls.cs.endian], signed=cls.signed)
''', '''        size = cls.size
        data = stream.read(size)
        num_read = len(data)

        if num_read != size:
            raise EOFError(f"Read {num_read} bytes, but expected {size}")

        byteorder = ENDIANNESS_MAP[cls.cs.endian]
        return cls.from_bytes(data, byteorder, signed=cls.signed)
''')
r("A", "types/leb128.py", '''        result = 0
        shift = 0
        while True:
            b = stream.read(1)
            if b == b"":
                raise EOFError("EOF reached, while final LEB128 byte was not yet read")

            b = ord(b)
''', '''        result = 0
        shift = 0
        while True:
            b = cls._next_byte(stream)
''')
r("A", "types/leb128.py", '''    @classmethod
    def _read_0''', '''    @staticmethod
    def _next_byte(stream: BinaryIO) -> int:
        b = stream.read(1)
        if not b:
            raise EOFError("EOF reached, while final LEB128 byte was not yet read")
        return b[0]

    @classmethod
    def _read_0''')
r("A", "types/char.py", '''        if isinstance(data, list) and data and isinstance(data[0], int):
            data = bytes(data)

        elif isinstance(data, str):
            data = data.encode("latin-1")

        if cls''', '''        data = cls._to_bytes(data)
        if cls''')
r("A", "types/char.py", '''class Char(bytes, BaseType):''', '''    @staticmethod
    def _to_bytes(data):
        if isinstance(data, str):
            return data.encode("latin-1")

        if isinstance(data, list) and data and isinstance(data[0], int):
            return bytes(data)

        return data


class Char(bytes, BaseType):''')
r("A", "types/wchar.py", '''        return type.__call__(cls, b"".join(buf).decode(cls.__encoding_map__[cls.cs.endian]))
''', '''        return cls._decode(b"".join(buf))

    @classmethod
    def _decode(cls, data: bytes) -> Wchar:
        encoding = cls.__encoding_map__[cls.cs.endian]
        return type.__call__(cls, data.decode(encoding))
''')
r("A", "types/wchar.py", '''        return type.__call__(cls, data.decode(cls.__encoding_map__[cls.cs.endian]))
''', '''        return cls._decode(data)
''')
r("A", "types/pointer.py", '''            # Read current position of file read/write pointer
            position = self._stream.tell()
            try:
                # Reposition the file read/write pointer
                self._stream.seek(self)

                if issubclass(self.type, Char):
                    # this makes the assumption that a char pointer is a null-terminated string
                    value = self.type._read_0(self._stream, self._context)
                else:
                    value = self.type._read(self._stream, self._context)
            finally:
                self._stream.seek(position)

            self._value = value

        return self._value
''', '''            self._value = self._read_target()

        return self._value

    def _read_target(self) -> T:
        stream = self._stream
        # Read current position of file read/write pointer
        position = stream.tell()
        # this makes the assumption that a char pointer is a null-terminated string
        read = self.type._read_0 if issubclass(self.type, Char) else self.type._read
        try:
            # Reposition the file read/write pointer
            stream.seek(self)
            return read(stream, self._context)
        finally:
            stream.seek(position)
''')
r("A", "types/enum.py", '''    def _write_array(cls, stream: BinaryIO, array: list[BaseType | int]) -> int:
        data = [entry.value if isinstance(entry, _Enum) else entry for entry in array]
        return cls.type._write_array(stream, data)

    def _write_0(cls, stream: BinaryIO, array: list[BaseType | int]) -> int:
        data = [entry.value if isinstance(entry, _Enum) else entry for entry in array]
        return cls._write_array(stream, [*data, cls.type.__default__()])
''', '''    def _write_array(cls, stream: BinaryIO, array: list[BaseType | int]) -> int:
        return cls.type._write_array(stream, _raw_values(array))

    def _write_0(cls, stream: BinaryIO, array: list[BaseType | int]) -> int:
        data = _raw_values(array)
        data.append(cls.type.__default__())
        return cls._write_array(stream, data)
''')
r("A", "types/enum.py", '''def _fix_alias_members(''', '''def _raw_values(array: list[BaseType | int]) -> list[int]:
    return [entry.value if isinstance(entry, _Enum) else entry for entry in array]


def _fix_alias_members(''')
r("A", "types/structure.py", '''            bit_field_type = None
            if field.bits:
                bit_field_type = field.type.type if isinstance(field.type, EnumMetaType) else field.type

            if (
                cls.__align__
                and field.offset is None''', '''            bit_field_type = _bit_type(field.type) if field.bits else None

            if (
                cls.__align__
                and field.offset is None''')
r("A", "types/structure.py", '''            bit_field_type = (
                (field_type.type if isinstance(field_type, EnumMetaType) else field_type) if field.bits else None
            )
''', '''            bit_field_type = _bit_type(field_type) if field.bits else None
''')
r("A", "types/structure.py", '''            field_type = field.type
            if isinstance(field_type, EnumMetaType):
                field_type = field_type.type

            if (
                align''', '''            field_type = _bit_type(field.type)

            if (
                align''')
r("A", "types/structure.py", '''            offset += -offset & (alignment - 1)

        # The structure size''', '''            offset = _align_up(offset, alignment)

        # The structure size''')
r("A", "types/structure.py", '''                offset += -offset & (field.alignment - 1)

            # The alignment''', '''                offset = _align_up(offset, field.alignment)

            # The alignment''')
r("A", "types/structure.py", '''            size += -size & (alignment - 1)
''', '''            size = _align_up(size, alignment)
''')
r("A", "types/structure.py", '''class StructureMetaType(MetaType):''', '''def _bit_type(type_: type[BaseType]) -> type[BaseType]:
    return type_.type if isinstance(type_, EnumMetaType) else type_


def _align_up(offset: int, alignment: int) -> int:
    return offset + (-offset & (alignment - 1))


class StructureMetaType(MetaType):''')
r("A", "types/structure.py", '''        # The largest field is leading, the other fields contribute the bits that are padding in all fields before it
        result = 0
        written = 0
        for field in fields:
            if not field.type.size:
                continue

            shift = (field.offset or 0) * 8
            value = int.from_bytes(field.type.dumps(getattr(data, field._name)), "little") << shift
            result |= value & ~written

            # Bits that are still zero when writing the parsed result of only ones are padding
            mask = field.type.dumps(field.type(b"\\xff" * field.type.size))
            written |= int.from_bytes(mask, "little") << shift
''', '''        def to_bits(field: Field, value: Any) -> int:
            return int.from_bytes(field.type.dumps(value), "little") << ((field.offset or 0) * 8)

        # The largest field is leading, the other fields contribute the bits that are padding in all fields before it
        result = 0
        written = 0
        for field in fields:
            field_size = field.type.size
            if not field_size:
                continue

            result |= to_bits(field, getattr(data, field._name)) & ~written

            # Bits that are still zero when writing the parsed result of only ones are padding
            written |= to_bits(field, field.type(b"\\xff" * field_size))
''')
r("A", "types/structure.py", '''        if (cur_buf := getattr(self, "_buf", None)) is None:
            cur_buf = b"\\x00" * self.__class__.size

        buf = io.BytesIO(cur_buf)
        field = self.__class__.lookup[attr]
        if field.offset:
            buf.seek(field.offset)
''', '''        cls = self.__class__
        field = cls.lookup[attr]

        cur_buf = getattr(self, "_buf", None)
        if cur_buf is None:
            cur_buf = bytes(cls.size)

        buf = io.BytesIO(cur_buf)
        buf.seek(field.offset or 0)
''')
r("A", "compiler.py", '''    def _generate_array(self, field: Field) -> Iterator[str]:
        template = f"""
        _s = stream.tell()
        r["{field._name}"] = {self._map_field(field)}._read(stream, context=r)
        s["{field._name}"] = stream.tell() - _s
        """

        yield dedent(template)
''', '''    def _generate_array(self, field: Field) -> Iterator[str]:
        yield from self._generate_structure(field)
''')
r("A", "compiler.py", '''                if issubclass(read_type, Int):
                    reads.append(f"_b = {getter}")''', '''                if _is_int(read_type):
                    reads.append(f"_b = {getter}")''')
r("A", "compiler.py", '''def _optimize_struct_fmt(''', '''def _is_int(type_: type[BaseType]) -> bool:
    return issubclass(type_, Int)


def _optimize_struct_fmt(''')
r("A", "parser.py", '''            if enumtype == "flag":
                high_bit = val.bit_length() - 1
                nextval = 2 ** (high_bit + 1)
            else:
                nextval = val + 1

            values[key] = val
''', '''            values[key] = val
            nextval = self._next_value(enumtype, val)
''')
r("A", "parser.py", '''    def _typedef(self, tokens: TokenConsumer) -> None:
''', '''    @staticmethod
    def _next_value(enumtype: str, val: int) -> int:
        if enumtype == "flag":
            return 1 << val.bit_length()
        return val + 1

    def _typedef(self, tokens: TokenConsumer) -> None:
''')
r("A", "expression.py", '''                # The name of a type can consist of multiple tokens, e.g. sizeof(unsigned int)
                end = i + 2
                while end < len(tmp_expression) and (tmp_expression[end][0].isalpha() or tmp_expression[end][0] == "_"):
                    end += 1

                if end == i + 2 or tmp_expression[i + 1 : i + 2] != ["("] or tmp_expression[end : end + 1] != [")"]:
                    raise ExpressionParserError("Invalid sizeof operation")
                queue.append(len(self.cstruct.resolve(" ".join(tmp_expression[i + 2 : end]))))
                i = end
''', '''                i, size = self._sizeof(tmp_expression, i)
                queue.append(size)
''')
r("A", "expression.py", '''    def evaluate(self, context''', '''    def _sizeof(self, tokens: list[str], start: int) -> tuple[int, int]:
        # The name of a type can consist of multiple tokens, e.g. sizeof(unsigned int)
        end = start + 2
        while end < len(tokens) and (tokens[end][0].isalpha() or tokens[end][0] == "_"):
            end += 1

        if end == start + 2 or tokens[start + 1 : start + 2] != ["("] or tokens[end : end + 1] != [")"]:
            raise ExpressionParserError("Invalid sizeof operation")
        return end, len(self.cstruct.resolve(" ".join(tokens[start + 2 : end])))

    def evaluate(self, context''')
r("A", "utils.py", '''        size = value.bit_length() if value >= 0 else (~value).bit_length() + 1
    size = (size + 7) // 8
    return value.to_bytes(size, ENDIANNESS_MAP.get(endian, endian), signed=value < 0)
''', '''        size = value.bit_length() if value >= 0 else (~value).bit_length() + 1
    return value.to_bytes(_num_bytes(size), _byteorder(endian), signed=value < 0)
''')
r("A", "utils.py", '''    if size and len(value) != (expected := (size + 7) // 8):
        raise ValueError(f"Invalid byte value, expected {expected} bytes, got {len(value)} bytes")
    return int.from_bytes(value, ENDIANNESS_MAP.get(endian, endian), signed=sign)
''', '''    if size:
        expected = _num_bytes(size)
        if len(value) != expected:
            raise ValueError(f"Invalid byte value, expected {expected} bytes, got {len(value)} bytes")
    return int.from_bytes(value, _byteorder(endian), signed=sign)
''')
r("A", "utils.py", '''def pack(value: int''', '''def _num_bytes(bits: int) -> int:
    return (bits + 7) // 8


def _byteorder(endian: str) -> str:
    return ENDIANNESS_MAP.get(endian, endian)


def pack(value: int''')
r("A", "tools/stubgen.py", '''        if isinstance(value, Enum):
            # Members of anonymous enums
            value = value.value
        body.append(textwrap.indent(f"{name}: Literal[{value!r}] = ...", prefix=indent))
''', '''        body.append(textwrap.indent(constant_stub(name, value), prefix=indent))
''')
r("A", "tools/stubgen.py", '''def is_valid_name(''', '''def constant_stub(name, value) -> str:
    # Members of anonymous enums
    raw = value.value if isinstance(value, Enum) else value
    return f"{name}: Literal[{raw!r}] = ..."


def is_valid_name(''')

# --- batch B: loops rewritten ------------------------------------------------------------------------------------
r("B", "types/base.py", '''        return [cls._read(stream, context) for _ in range(count)]
''', '''        result = []
        for _ in range(count):
            result.append(cls._read(stream, context))
        return result
''')
r("B", "types/base.py", '''        return sum(cls._write(stream, entry) for entry in array)
''', '''        total = 0
        for entry in array:
            total += cls._write(stream, entry)
        return total
''')
r("B", "types/packed.py", '''        while True:
            data = stream.read(cls.size)

            if len(data) != cls.size:
                raise EOFError(f"Read {len(data)} bytes, but expected {cls.size}")

            if (value := fmt.unpack(data)[0]) == 0:
                break

            result.append(cls.__new__(cls, value))

        return result
''', '''        while len(data := stream.read(cls.size)) == cls.size:
            (value,) = fmt.unpack(data)
            if value == 0:
                return result

            result.append(cls.__new__(cls, value))

        raise EOFError(f"Read {len(data)} bytes, but expected {cls.size}")
''')
r("B", "types/int.py", '''        while True:
            if (value := cls._read(stream, context)) == 0:
                break

            result.append(value)

        return result
''', '''        value = cls._read(stream, context)
        while value != 0:
            result.append(value)
            value = cls._read(stream, context)

        return result
''')
r("B", "types/leb128.py", '''        while True:
            if (value := cls._read(stream, context)) == 0:
                break

            result.append(value)

        return result
''', '''        while value := cls._read(stream, context):
            result.append(value)

        return result
''')
r("B", "types/leb128.py", '''        result = 0
        shift = 0
        while True:
            b = stream.read(1)
            if b == b"":
                raise EOFError("EOF reached, while final LEB128 byte was not yet read")

            b = ord(b)
            result |= (b & 0x7F) << shift
            shift += 7
            if (b & 0x80) == 0:
                break
''', '''        result = 0
        shift = 0
        more = True
        while more:
            b = stream.read(1)
            if len(b) == 0:
                raise EOFError("EOF reached, while final LEB128 byte was not yet read")

            b = b[0]
            result += (b % 128) << shift
            shift += 7
            more = b >= 0x80
''')
r("B", "types/char.py", '''        buf = []
        while True:
            byte = stream.read(1)
            if byte == b"":
                raise EOFError("Read 0 bytes, but expected 1")

            if byte == b"\\x00":
                break

            buf.append(byte)

        return type.__call__(cls, b"".join(buf))
''', '''        buf = bytearray()
        while (byte := stream.read(1)) != b"\\x00":
            if not byte:
                raise EOFError("Read 0 bytes, but expected 1")

            buf += byte

        return type.__call__(cls, bytes(buf))
''')
r("B", "types/wchar.py", '''        buf = []
        while True:
            point = stream.read(2)
            if (bytes_read := len(point)) != 2:
                raise EOFError(f"Read {bytes_read} bytes, but expected 2")

            if point == b"\\x00\\x00":
                break

            buf.append(point)

        return type.__call__(cls, b"".join(buf).decode(cls.__encoding_map__[cls.cs.endian]))
''', '''        buf = b""
        point = stream.read(2)
        while len(point) == 2 and point != b"\\x00\\x00":
            buf += point
            point = stream.read(2)

        if len(point) != 2:
            raise EOFError(f"Read {len(point)} bytes, but expected 2")

        return type.__call__(cls, buf.decode(cls.__encoding_map__[cls.cs.endian]))
''')
r("B", "types/enum.py", '''        return list(map(cls, cls.type._read_array(stream, count, context)))
''', '''        return [cls(value) for value in cls.type._read_array(stream, count, context)]
''')
r("B", "types/enum.py", '''        return list(map(cls, cls.type._read_0(stream, context)))
''', '''        result = []
        for value in cls.type._read_0(stream, context):
            result.append(cls(value))
        return result
''')
r("B", "types/structure.py", '''        result = []

        while obj := cls._read(stream, context):
            result.append(obj)

        return result
''', '''        result = []

        while True:
            obj = cls._read(stream, context)
            if not obj:
                return result
            result.append(obj)
''')
r("B", "types/structure.py", '''        result = {}
        sizes = {}
        for field in cls.__fields__:
            offset = stream.tell()
''', '''        result = {}
        sizes = {}
        fields = cls.__fields__
        for index in range(len(fields)):
            field = fields[index]
            offset = stream.tell()
''')
r("B", "types/structure.py", '''                result[field._name] = value
                continue

            bit_buffer.reset()

            value = field.type._read(stream, result)

            sizes[field._name] = stream.tell() - offset
            result[field._name] = value

        if cls''', '''            else:
                bit_buffer.reset()

                value = field.type._read(stream, result)

                sizes[field._name] = stream.tell() - offset

            result[field._name] = value

        if cls''')
r("B", "types/structure.py", '''        for field in fields:
            if size is not None:
                try:
                    size = max(len(field.type) + (field.offset or 0), size)
                except TypeError:
                    size = None

            alignment = max(field.alignment, alignment)
''', '''        for field in fields:
            alignment = max(field.alignment, alignment)

            if size is None:
                continue

            try:
                end = len(field.type) + (field.offset or 0)
            except TypeError:
                size = None
            else:
                size = max(end, size)
''')
r("B", "types/structure.py", '''        for key, value in classdict.items():
            setattr(cls, key, value)
''', '''        for key in classdict:
            setattr(cls, key, classdict[key])
''')
r("B", "types/structure.py", '''            start = 0
            if field.offset is not None:
                start = field.offset

            buf.seek(offset + start)
            value = field_type._read(buf, result)

            sizes[field._name] = buf.tell() - offset - start
            result[field._name] = value
''', '''            start = offset + (field.offset or 0)
            buf.seek(start)

            result[field._name] = field_type._read(buf, result)
            sizes[field._name] = buf.tell() - start
''')
r("B", "types/structure.py", '''        name = "self"
    while name in field_names:
        name = f"_{name}"
    return name
'''.replace('        name = "self"', '    name = "self"'), '''    prefix = ""
    while f"{prefix}self" in field_names:
        prefix += "_"
    return f"{prefix}self"
''')
r("B", "compiler.py", '''        size = 0
        slice_index = 0
        uses_data = False
        for field, count, _ in info:
            if field is None:
                # Padding
                size += count
                continue
''', '''        size = 0
        slice_index = 0
        uses_data = False
        for entry in info:
            field, count = entry[0], entry[1]
            if field is None:
                # Padding
                size += count
                continue
''')
r("B", "compiler.py", '''    chars = []

    current_count = 0
    current_char = None

    for _, count, char in info:
        if current_char is None:
            current_count = count
            current_char = char
            continue

        if char != current_char:
            if current_count:
                chars.append((current_count, current_char))
            current_count = count
            current_char = char
        else:
            current_count += count

    if current_char is not None and current_count:
        chars.append((current_count, current_char))

    return''', '''    chars = []

    for _, count, char in info:
        if not count:
            if chars and chars[-1][1] != char:
                chars.append((0, char))
            continue
        if chars and chars[-1][1] == char:
            chars[-1] = (chars[-1][0] + count, char)
        else:
            chars.append((count, char))

    chars = [entry for entry in chars if entry[0]]
    return''')
r("B", "expression.py", '''        for i in range(len(tmp_expression)):
            if tmp_expression[i] == "-" and (
                i == 0 or tmp_expression[i - 1] in operators or tmp_expression[i - 1] == "("
            ):
                tmp_expression[i] = "-u"
''', '''        previous = None
        for i, token in enumerate(tmp_expression):
            if token == "-" and (previous is None or previous in operators or previous == "("):
                tmp_expression[i] = "-u"
            previous = tmp_expression[i]
''')
r("B", "expression.py", '''        while len(stack) != 0:
            if stack[-1] == "(":
                raise ExpressionParserError("Invalid expression")

            self.evaluate_exp(stack, queue)

        if len(queue) != 1:
            raise ExpressionParserError("Invalid expression")

        return queue[0]
''', '''        while stack:
            if stack[-1] == "(":
                raise ExpressionParserError("Invalid expression")

            self.evaluate_exp(stack, queue)

        if len(queue) == 1:
            return queue[0]

        raise ExpressionParserError("Invalid expression")
''')
r("B", "utils.py", '''    for i in range(0, len(data), 16):
        values = ""
        chars = []

        for j in range(16):
''', '''    length = len(data)
    i = -16
    while (i := i + 16) < length:
        values = ""
        chars = []

        for j in range(16):
''')
r("B", "utils.py", '''            if i + j >= len(data):
                values += "  "
            else:
                char = data[i + j]
                char = chr(char)

                print_char = char if char in PRINTABLE else "."

                if active:
                    values += f"{ord(char):02x}"
                    chars.append(active + print_char + COLOR_NORMAL)
                else:
                    values += f"{ord(char):02x}"
                    chars.append(print_char)
''', '''            if i + j >= length:
                values += "  "
            else:
                byte = data[i + j]
                print_char = chr(byte) if chr(byte) in PRINTABLE else "."

                values += f"{byte:02x}"
                if active:
                    print_char = active + print_char + COLOR_NORMAL
                chars.append(print_char)
''')
r("B", "parser.py", '''        idents = []
        while tokens.next == self.TOK.IDENTIFIER:
            idents.append(tokens.consume())
        return " ".join([i.value for i in idents])
''', '''        idents = []
        while tokens.next == self.TOK.IDENTIFIER:
            idents.append(tokens.consume().value)
        return " ".join(idents)
''')
r("B", "parser.py", '''        fields = []
        tokens.consume()
        while len(tokens):
            if tokens.next == self.TOK.BLOCK and tokens.next.value == "}":
                tokens.consume()
                break

            field = self._parse_field(tokens, [f._name for f in fields])
            fields.append(field)
''', '''        fields = []
        field_names = []
        tokens.consume()
        while len(tokens) and not (tokens.next == self.TOK.BLOCK and tokens.next.value == "}"):
            field = self._parse_field(tokens, field_names)
            fields.append(field)
            field_names.append(field._name)

        if len(tokens):
            tokens.consume()
''')
r("B", "parser.py", '''        while (name := name.strip()).startswith("*"):
            name = name[1:]
            type_ = self.cstruct._make_pointer(type_)
''', '''        name = name.strip()
        while name[:1] == "*":
            type_ = self.cstruct._make_pointer(type_)
            name = name[1:].strip()
''')

# --- batch C: reordered statements, early returns, renamed locals -----------------------------------------------------
r("C", "bitbuffer.py", '''        if self.endian == "<":
            v = self._buffer & ((1 << bits) - 1)
            self._buffer >>= bits
            self._remaining -= bits
        else:
            v = self._buffer & (((1 << (self._remaining - bits)) - 1) ^ ((1 << self._remaining) - 1))
            v >>= self._remaining - bits
            self._remaining -= bits

        return v
''', '''        mask = (1 << bits) - 1
        self._remaining -= bits
        if self.endian != "<":
            return (self._buffer >> self._remaining) & mask

        value = self._buffer & mask
        self._buffer >>= bits
        return value
''')
r("C", "bitbuffer.py", '''        if self._remaining == 0 or self._type != field_type:
            if field_type.size is None:
                raise ValueError("Reading variable-length fields is unsupported")

            self._type = field_type
            self._remaining = field_type.size * 8
            self._buffer = field_type._read(self.stream)
''', '''        if not self._remaining or self._type != field_type:
            size = field_type.size
            if size is None:
                raise ValueError("Reading variable-length fields is unsupported")

            self._buffer, self._type, self._remaining = field_type._read(self.stream), field_type, size * 8
''')
r("C", "bitbuffer.py", '''        self._type = None
        self._remaining = 0
        self._buffer = 0

    def reset''', '''        self.reset()

    def reset''')
r("C", "types/base.py", '''            if _is_readable_type(stream):
                return cls._read(stream)

            if issubclass(cls, bytes) and isinstance(stream, bytes) and len(stream) == cls.size:
                # Shortcut for char/bytes type
                return type.__call__(cls, *args, **kwargs)

            if _is_buffer_type(stream):
                return cls.reads(stream)
''', '''            if _is_buffer_type(stream):
                if isinstance(stream, bytes) and issubclass(cls, bytes) and cls.size == len(stream):
                    # Shortcut for char/bytes type
                    return type.__call__(cls, stream)
                return cls.reads(stream)

            if _is_readable_type(stream):
                return cls._read(stream)
''')
r("C", "types/base.py", '''        if isinstance(cls.num_entries, int) and cls.num_entries != (actual_size := len(data)):
            raise''', '''        actual_size = len(data)
        if isinstance(cls.num_entries, int) and actual_size != cls.num_entries:
            raise''')
r("C", "types/base.py", '''    pos = stream.tell()
    stream.read(1)

    if stream.tell() == pos:
        return True

    stream.seek(pos)
    return False
''', '''    if len(data := stream.read(1)) == 0:
        return True

    stream.seek(stream.tell() - len(data))
    return False
''')
r("C", "types/packed.py", '''            if remainder := len(data) - length:
                # Only take whole elements
                stream.seek(-remainder, SEEK_CUR)
                data = data[:length]
        else:
            length = cls.size * count
            data = stream.read(length)
''', '''            if len(data) % cls.size:
                # Only take whole elements
                stream.seek(length - len(data), SEEK_CUR)
                data = data[:length]
        else:
            length = count * cls.size
            data = stream.read(length)
''')
r("C", "types/packed.py", '''        return cls._read_array(stream, 1, context)[0]
''', '''        (value,) = cls._read_array(stream, 1, context)
        return value
''')
r("C", "types/leb128.py", '''            if ((cls.signed and (data == 0 and byte & 0x40 == 0)) or (data == -1 and byte & 0x40 != 0)) or (
                not cls.signed and data == 0
            ):
                result.append(byte)
                break

            # Set high-order bit of byte
            result.append(0x80 | byte)

        stream.write(result)
        return len(result)
''', '''            sign_bit = byte & 0x40
            done = (data == 0 and not sign_bit) or (data == -1 and sign_bit) if cls.signed else data == 0
            if done:
                result.append(byte)
                return stream.write(bytes(result))

            # Set high-order bit of byte
            result.append(byte + 0x80)
''')
r("C", "types/char.py", '''        data = stream.read(-1 if count == EOF else count)
        if count != EOF and len(data) != count:
            raise EOFError(f"Read {len(data)} bytes, but expected {count}")

        return type.__call__(cls, data)
''', '''        if count == EOF:
            return type.__call__(cls, stream.read())

        data = stream.read(count)
        if len(data) == count:
            return type.__call__(cls, data)

        raise EOFError(f"Read {len(data)} bytes, but expected {count}")
''')
r("C", "types/wchar.py", '''        if count != EOF:
            count *= 2

        data = stream.read(-1 if count == EOF else count)
        if count == EOF and len(data) % 2:
            # Only take whole characters
            stream.seek(-1, SEEK_CUR)
            data = data[:-1]

        if count != EOF and len(data) != count:
            raise EOFError(f"Read {len(data)} bytes, but expected {count}")
''', '''        if count == EOF:
            data = stream.read()
            if len(data) & 1:
                # Only take whole characters
                stream.seek(-1, SEEK_CUR)
                data = data[:-1]
        else:
            size = 2 * count
            data = stream.read(size)
            if len(data) != size:
                raise EOFError(f"Read {len(data)} bytes, but expected {size}")
''')
r("C", "types/pointer.py", '''        if self == 0 or self._stream is None:
            raise NullPointerDereference
''', '''        if self._stream is None or int(self) == 0:
            raise NullPointerDereference
''')
r("C", "types/pointer.py", '''        return type.__call__(self.__class__, int.__add__(self, other), self._stream, self._context)
''', '''        value = int.__add__(self, other)
        return type.__call__(self.__class__, value, self._stream, self._context)
''')
r("C", "types/enum.py", '''        if isinstance(other, Enum):
            other = other.value

        return self.value == other
''', '''        return self.value == (other.value if isinstance(other, Enum) else other)
''')
r("C", "types/enum.py", '''        if name is None:
            if value is None:
                value = cls.type.__default__()

            if not isinstance(value, int):
                # value is a parsable value
                value = cls.type(value)

            return super().__call__(value)
''', '''        if name is None:
            if value is None:
                return super().__call__(cls.type.__default__())

            # value is possibly a parsable value
            return super().__call__(value if isinstance(value, int) else cls.type(value))
''')
r("C", "types/flag.py", '''        if isinstance(value, int) and value < 0:
            type_ = cls.type
            if getattr(type_, "signed", False) or getattr(type_, "packchar", "").islower():
                # A negative value is valid for signed types, IntFlag would turn it into a positive value
                new_member = int.__new__(cls, value)
                new_member._name_ = None
                new_member._value_ = value
                return new_member

        return super()._missing_(value)
''', '''        is_negative = isinstance(value, int) and value < 0
        if not is_negative:
            return super()._missing_(value)

        signed = getattr(cls.type, "signed", False) or getattr(cls.type, "packchar", "").islower()
        if not signed:
            return super()._missing_(value)

        # A negative value is valid for signed types, IntFlag would turn it into a positive value
        member = int.__new__(cls, value)
        member._value_ = value
        member._name_ = None
        return member
''')
r("C", "types/structure.py", '''            if field.offset is not None and offset != struct_start + field.offset:
                # Field is at a specific offset, either alligned or added that way
                offset = struct_start + field.offset
                stream.seek(offset)
''', '''            if field.offset is not None:
                # Field is at a specific offset, either alligned or added that way
                expected = struct_start + field.offset
                if expected != offset:
                    stream.seek(expected)
                    offset = expected
''')
r("C", "types/structure.py", '''        # Using type.__call__ directly calls the __init__ method of the class
        # This is faster than calling cls() and bypasses the metaclass __call__ method
        obj = type.__call__(cls, **result)
        obj._sizes = sizes
        obj._values = result
        return obj
''', '''        # Using type.__call__ directly calls the __init__ method of the class
        # This is faster than calling cls() and bypasses the metaclass __call__ method
        obj = type.__call__(cls, **result)
        obj._values, obj._sizes = result, sizes
        return obj
''')
r("C", "types/structure.py", '''            value = getattr(data, field._name, None)
            if value is None:
                value = field_type.__default__()

            if field.bits:
                if isinstance(field_type, EnumMetaType):
                    bit_buffer.write(field_type.type, value.value, field.bits)
                else:
                    bit_buffer.write(field_type, value, field.bits)
            else:
                field_type._write(stream, value)
                num += stream.tell() - offset

        if bit_buffer._type is not None:
            bit_buffer.flush()
''', '''            if (value := getattr(data, field._name, None)) is None:
                value = field_type.__default__()

            if not field.bits:
                field_type._write(stream, value)
                num += stream.tell() - offset
                continue

            raw_value = value.value if isinstance(field_type, EnumMetaType) else value
            bit_buffer.write(bit_field_type, raw_value, field.bits)

        bit_buffer.flush()
''')
r("C", "types/structure.py", '''            if field.offset is not None and offset < struct_start + field.offset:
                # Field is at a specific offset, either alligned or added that way
                stream.write(b"\\x00" * (struct_start + field.offset - offset))
                offset = struct_start + field.offset
''', '''            if field.offset is not None:
                # Field is at a specific offset, either alligned or added that way
                padding = struct_start + field.offset - offset
                if padding > 0:
                    stream.write(bytes(padding))
                    offset += padding
''')
r("C", "types/structure.py", '''            # The alignment of this struct is equal to its largest members' alignment
            alignment = max(alignment, field.alignment)

            if field.bits:
                # Bit fields have special logic
                if (
                    # Exhausted a bit field
                    bits_remaining == 0
                    # Moved to a bit field of another type, e.g. uint16 f1 : 8, uint32 f2 : 8;
                    or field_type != bits_type
                    # Still processing a bit field, but it's at a different offset due to alignment or a manual offset
                    or (
                        field.offset is not None
                        and (bits_field_offset is None or offset > bits_field_offset + bits_type.size)
                    )
                ):
                    # ... if any of this is true, we have to move to the next field
                    bits_type = field_type
                    bits_count = bits_type.size * 8
                    bits_remaining = bits_count
                    bits_field_offset = offset
''', '''            # The alignment of this struct is equal to its largest members' alignment
            if field.alignment > alignment:
                alignment = field.alignment

            if field.bits:
                # Bit fields have special logic
                # Still processing a bit field, but it's at a different offset due to alignment or a manual offset
                moved = (
                    bits_remaining != 0
                    and field_type == bits_type
                    and field.offset is not None
                    and (bits_field_offset is None or offset > bits_field_offset + bits_type.size)
                )
                # Exhausted a bit field, or moved to a bit field of another type, e.g. uint16 f1 : 8, uint32 f2 : 8;
                if moved or not bits_remaining or field_type != bits_type:
                    # ... if any of this is true, we have to move to the next field
                    bits_type = field_type
                    bits_field_offset = offset
                    bits_remaining = bits_type.size * 8
''')
r("C", "types/structure.py", '''        if cls.dynamic:
            raise NotImplementedError("Writing dynamic unions is not yet supported")

        offset = stream.tell()

        # Sort''', '''        if cls.dynamic:
            raise NotImplementedError("Writing dynamic unions is not yet supported")

        # Sort''')
r("C", "types/structure.py", '''        stream.write(result.to_bytes(cls.size, "little"))

        return stream.tell() - offset
''', '''        stream.write(result.to_bytes(cls.size, "little"))
        return cls.size
''')
r("C", "types/structure.py", '''    elif isinstance(value, list):
        for entry in value:
            _set_stream(entry, stream)
    elif isinstance(value, Structure):
        if isinstance(value, Union):
            object.__setattr__(value, "_stream", stream)
        for field in value.__class__.__fields__:
            _set_stream(getattr(value, field._name), stream)
''', '''        return

    if isinstance(value, list):
        nested = value
    elif isinstance(value, Structure):
        if isinstance(value, Union):
            object.__setattr__(value, "_stream", stream)
        nested = [getattr(value, field._name) for field in value.__class__.__fields__]
    else:
        return

    for entry in nested:
        _set_stream(entry, stream)
''')
r("C", "compiler.py", '''        r = {}
        s = {}
        o = stream.tell()
        """
''', '''        o = stream.tell()
        r, s = {}, {}
        """
''')
r("C", "compiler.py", '''        obj._sizes = s
        obj._values = r

        return obj
''', '''        obj._values = r
        obj._sizes = s
        return obj
''')
r("C", "expression.py", '''        right = queue.pop(-1)
        if operator in self.unary_operators:
            res = self.unary_operators[operator](right)
        else:
            if len(queue) < 1:
                raise ExpressionParserError("Invalid expression: not enough operands")

            left = queue.pop(-1)
            res = self.binary_operators[operator](left, right)

        queue.append(res)
''', '''        right = queue.pop()
        if operator in self.unary_operators:
            queue.append(self.unary_operators[operator](right))
            return

        if not queue:
            raise ExpressionParserError("Invalid expression: not enough operands")

        left = queue.pop()
        queue.append(self.binary_operators[operator](left, right))
''')
r("C", "expression.py", '''            elif current_token in context:
                queue.append(int(context[current_token]))
            elif current_token in self.cstruct.consts:
                queue.append(int(self.cstruct.consts[current_token]))
''', '''            elif current_token in context or current_token in consts:
                value = context[current_token] if current_token in context else consts[current_token]
                queue.append(int(value))
''')
r("C", "expression.py", '''        context = context or {}
''', '''        consts = self.cstruct.consts
        context = {} if not context else context
''')
r("C", "utils.py", '''    if output == "print":
        print("\\n".join(generator))
        return None
    if output == "generator":
        return generator
    if output == "string":
        return "\\n".join(list(generator))
    raise ValueError(''', '''    if output == "generator":
        return generator
    if output in ("print", "string"):
        result = "\\n".join(generator)
        if output == "string":
            return result
        print(result)
        return None
    raise ValueError(''')
r("C", "utils.py", '''        if color:
            foreground, background = colors[ci % len(colors)]
            palette.append((sizes.get(field._name, 0), background))
        ci += 1

        value = getattr(structure, field._name)
''', '''        value = getattr(structure, field._name)

        if color:
            foreground, background = colors[ci]
            palette.append((sizes.get(field._name, 0), background))
            ci = (ci + 1) % len(colors)
''')
r("C", "parser.py", '''        match = pattern.match(const.value).groupdict()

        value = match["value"].strip()
''', '''        match = pattern.match(const.value)

        value = match.group("value").strip()
''')
r("C", "tools/stubgen.py", '''        if not is_valid_name(field_name):
            continue

        inlined = False

        # If it's a structure and not globally defined, add an inline stub for it
        type_ = nested_type(field.type)

        if issubclass(type_, types.Structure) and not is_declared(type_):
            inlined = True
            inline_stub''', '''        if not is_valid_name(field_name):
            continue

        # If it's a structure and not globally defined, add an inline stub for it
        type_ = nested_type(field.type)
        inlined = issubclass(type_, types.Structure) and not is_declared(type_)

        if inlined:
            inline_stub''')


# --- batch D: cstruct, unions, generated methods, parser handlers, stub generator ----------------------------------
r("D", "cstruct.py", '''        try:
            return self.consts[attr]
        except KeyError:
            pass

        try:
            return self.resolve(self.typedefs[attr])
        except KeyError:
            pass

        raise AttributeError(f"Invalid attribute: {attr}")
''', '''        if attr in self.consts:
            return self.consts[attr]

        if attr in self.typedefs:
            return self.resolve(self.typedefs[attr])

        raise AttributeError(f"Invalid attribute: {attr}")
''')
r("D", "cstruct.py", '''        type_name = name
        if not isinstance(type_name, str):
            return type_name

        for _ in range(10):
            if type_name not in self.typedefs:
                raise ResolveError(f"Unknown type {name}")

            type_name = self.typedefs[type_name]

            if not isinstance(type_name, str):
                return type_name

        raise ResolveError(f"Recursion limit exceeded while resolving type {name}")
''', '''        current, hops = name, 0
        while isinstance(current, str):
            if hops == 10:
                raise ResolveError(f"Recursion limit exceeded while resolving type {name}")
            try:
                current = self.typedefs[current]
            except KeyError:
                raise ResolveError(f"Unknown type {name}")
            hops += 1

        return current
''')
r("D", "cstruct.py", '''        if not replace and name in self.typedefs:
            if self.resolve(self.typedefs[name]) != self.resolve(type_):
                raise ValueError(f"Duplicate type: {name}")
            # Keep the existing declaration, the new one may refer back to it
            return

        self.typedefs[name] = type_
''', '''        if replace or name not in self.typedefs:
            self.typedefs[name] = type_
            return

        existing = self.resolve(self.typedefs[name])
        if existing != self.resolve(type_):
            raise ValueError(f"Duplicate type: {name}")
''')
r("D", "cstruct.py", '''        attrs = attrs or {}
        attrs.update(
            {
                "cs": self,
                "size": size,
                "dynamic": size is None,
                "alignment": alignment or size,
            }
        )
        return types.new_class(name, bases, {}, lambda ns: ns.update(attrs))
''', '''        namespace = dict(attrs or {})
        namespace["cs"] = self
        namespace["size"] = size
        namespace["dynamic"] = size is None
        namespace["alignment"] = alignment or size

        def populate(ns: dict[str, Any]) -> None:
            ns.update(namespace)

        return types.new_class(name, bases, {}, populate)
''')
r("D", "cstruct.py", '''        null_terminated = False
        if num_entries is None:
            null_terminated = True
            size = None
        elif isinstance(num_entries, Expression) or type_.dynamic:
            size = None
        else:
            if type_.size is None:
                raise ValueError(f"Cannot create array of dynamic type: {type_.__name__}")
            size = num_entries * type_.size

        name = f"{type_.__name__}[]" if null_terminated else f"{type_.__name__}[{num_entries}]"

        bases = (type_.ArrayType,)

        attrs = {
            "type": type_,
            "num_entries": num_entries,
            "null_terminated": null_terminated,
        }

        return cast(type[Array], self._make_type(name, bases, size, alignment=type_.alignment, attrs=attrs))
''', '''        size = self._array_size(type_, num_entries)
        suffix = "" if num_entries is None else num_entries

        attrs = {
            "num_entries": num_entries,
            "null_terminated": num_entries is None,
            "type": type_,
        }
        array_type = self._make_type(
            f"{type_.__name__}[{suffix}]", (type_.ArrayType,), size, alignment=type_.alignment, attrs=attrs
        )
        return cast(type[Array], array_type)

    def _array_size(self, type_: T, num_entries: int | Expression | None) -> int | None:
        if num_entries is None or isinstance(num_entries, Expression) or type_.dynamic:
            return None
        if type_.size is None:
            raise ValueError(f"Cannot create array of dynamic type: {type_.__name__}")
        return num_entries * type_.size
''')
r("D", "types/structure.py", '''        if (cur_buf := getattr(self, "_buf", None)) is None:
            cur_buf = b"\\x00" * self.__class__.size

        buf = io.BytesIO(cur_buf)
        field = self.__class__.lookup[attr]
        if field.offset:
            buf.seek(field.offset)

        if (value := getattr(self, attr)) is None:
            value = field.type.__default__()

        field.type._write(buf, value)

        object.__setattr__(self, "_buf", buf.getvalue())
        self._update()
''', '''        current = getattr(self, "_buf", None)
        field = self.__class__.lookup[attr]
        value = getattr(self, attr)

        with io.BytesIO(bytes(self.__class__.size) if current is None else current) as buf:
            buf.seek(field.offset or 0)
            field.type._write(buf, field.type.__default__() if value is None else value)
            current = buf.getvalue()

        object.__setattr__(self, "_buf", current)
        self._update()
''')
r("D", "types/structure.py", '''        def _proxy_structure(value: Structure, attr: str | None = None) -> None:
            for field in value.__class__.__fields__:
                if issubclass(field.type, Structure):
                    nested_value = getattr(value, field._name)
                    # Always rebuild from the union member, no matter how deep the structure is nested
                    nested_attr = attr or field._name
                    object.__setattr__(value, field._name, UnionProxy(self, nested_attr, nested_value))

                    while type(nested_value) is UnionProxy:
                        # Already proxied by a nested union
                        nested_value = nested_value.__target__

                    _proxy_structure(nested_value, nested_attr)

        _proxy_structure(self)
''', '''        pending = [(self, None)]
        while pending:
            value, attr = pending.pop()
            for field in value.__class__.__fields__:
                if not issubclass(field.type, Structure):
                    continue

                nested_value = getattr(value, field._name)
                # Always rebuild from the union member, no matter how deep the structure is nested
                nested_attr = attr or field._name
                object.__setattr__(value, field._name, UnionProxy(self, nested_attr, nested_value))

                while type(nested_value) is UnionProxy:
                    # Already proxied by a nested union
                    nested_value = nested_value.__target__

                pending.append((nested_value, nested_attr))
''')
r("D", "types/structure.py", '''        # The largest field is leading, the other fields contribute the bits that are padding in all fields before it
        result = 0
        written = 0
        for field in fields:
            if not field.type.size:
                continue

            shift = (field.offset or 0) * 8
            value = int.from_bytes(field.type.dumps(getattr(data, field._name)), "little") << shift
            result |= value & ~written

            # Bits that are still zero when writing the parsed result of only ones are padding
            mask = field.type.dumps(field.type(b"\\xff" * field.type.size))
            written |= int.from_bytes(mask, "little") << shift

            if written == (1 << (cls.size * 8)) - 1:
                break

        stream.write(result.to_bytes(cls.size, "little"))
''', '''        # The largest field is leading, the other fields contribute the bits that are padding in all fields before it
        result = bytearray(cls.size)
        written = bytearray(cls.size)
        for field in fields:
            if not field.type.size:
                continue

            raw = field.type.dumps(getattr(data, field._name))
            # Bits that are still zero when writing the parsed result of only ones are padding
            mask = field.type.dumps(field.type(b"\\xff" * field.type.size))

            for i, (byte, bits) in enumerate(zip(raw, mask), field.offset or 0):
                result[i] |= byte & ~written[i]
                written[i] |= bits

        stream.write(bytes(result))
''')
r("D", "types/structure.py", '''            # User (partial) initialization, rebuild the union
            # First user-provided field is the one used to rebuild the union
            arg_fields = (field._name for _, field in zip(args, cls.__fields__))
            kwarg_fields = (name for name in kwargs if name in cls.lookup)
            if (first_field := next(chain(arg_fields, kwarg_fields), None)) is not None:
                obj._rebuild(first_field)
''', '''            # User (partial) initialization, rebuild the union
            # First user-provided field is the one used to rebuild the union
            provided = [field._name for field in cls.__fields__[: len(args)]]
            provided.extend(name for name in kwargs if name in cls.lookup)
            if provided:
                obj._rebuild(provided[0])
''')
r("D", "types/structure.py", '''    mutable = [
        (field._name, field.type, default)
        for field, default in zip(fields, defaults)
        if not isinstance(default, (int, float, bytes, str))
    ]
    if not mutable:
        return func

    @wraps(func)
    def __init__(self: Structure, /, *args, **kwargs) -> None:
        func(self, *args, **kwargs)
        for name, type_, default in mutable:
            if getattr(self, name) is default:
                object.__setattr__(self, name, type_.__default__())

    return __init__
''', '''    mutable = {}
    for field, default in zip(fields, defaults):
        if isinstance(default, (int, float, bytes, str)):
            continue
        mutable[field._name] = (field.type, default)

    if mutable:
        original = func

        @wraps(original)
        def func(self: Structure, /, *args, **kwargs) -> None:
            original(self, *args, **kwargs)
            for name, (type_, default) in mutable.items():
                value = getattr(self, name)
                if value is default:
                    object.__setattr__(self, name, type_.__default__())

    return func
''')
r("D", "types/structure.py", '''        self.name = name  # The name of the field, or None if anonymous
        self._name = name or type_.__name__  # The name of the field, or the type name if anonymous
        self.type = type_
        self.bits = bits
        self.offset = offset
        self.alignment = type_.alignment or 1
''', '''        self.type = type_
        self.name = name  # The name of the field, or None if anonymous
        self._name = name if name else type_.__name__  # The name of the field, or the type name if anonymous
        self.bits, self.offset = bits, offset
        self.alignment = 1 if not type_.alignment else type_.alignment
''')
r("D", "types/structure.py", '''    if isinstance(value, Pointer):
        value._stream = stream
    elif isinstance(value, list):
        for entry in value:
            _set_stream(entry, stream)
    elif isinstance(value, Structure):
        if isinstance(value, Union):
            object.__setattr__(value, "_stream", stream)
        for field in value.__class__.__fields__:
            _set_stream(getattr(value, field._name), stream)
''', '''    if isinstance(value, Pointer):
        value._stream = stream
        return

    if isinstance(value, Union):
        object.__setattr__(value, "_stream", stream)

    entries = []
    if isinstance(value, list):
        entries = value
    elif isinstance(value, Structure):
        entries = [getattr(value, field._name) for field in value.__class__.__fields__]

    for entry in entries:
        _set_stream(entry, stream)
''')
r("D", "types/pointer.py", '''    def __add__(self, other: int) -> Self:
        return type.__call__(self.__class__, int.__add__(self, other), self._stream, self._context)

    def __sub__(self, other: int) -> Self:
        return type.__call__(self.__class__, int.__sub__(self, other), self._stream, self._context)
''', '''    def _derive(self, value: int) -> Self:
        return type.__call__(self.__class__, value, self._stream, self._context)

    def __add__(self, other: int) -> Self:
        return self._derive(int.__add__(self, other))

    def __sub__(self, other: int) -> Self:
        return self._derive(int.__sub__(self, other))
''')
r("D", "types/pointer.py", '''        if self._value is None and not issubclass(self.type, Void):
            # Read current position of file read/write pointer
            position = self._stream.tell()
            try:
                # Reposition the file read/write pointer
                self._stream.seek(self)

                if issubclass(self.type, Char):
                    # this makes the assumption that a char pointer is a null-terminated string
                    value = self.type._read_0(self._stream, self._context)
                else:
                    value = self.type._read(self._stream, self._context)
            finally:
                self._stream.seek(position)

            self._value = value

        return self._value
''', '''        if issubclass(self.type, Void):
            return None

        if self._value is None:
            self._value = self._read_target()

        return self._value

    def _read_target(self) -> T:
        stream, context = self._stream, self._context
        # this makes the assumption that a char pointer is a null-terminated string
        reader = self.type._read_0 if issubclass(self.type, Char) else self.type._read
        position = stream.tell()
        try:
            stream.seek(self)
            return reader(stream, context)
        finally:
            stream.seek(position)
''')
r("D", "types/base.py", '''        if len(args) == 1 and not kwargs and not isinstance(args[0], cls):
            stream = args[0]

            if _is_readable_type(stream):
                return cls._read(stream)

            if issubclass(cls, bytes) and isinstance(stream, bytes) and len(stream) == cls.size:
                # Shortcut for char/bytes type
                return type.__call__(cls, *args, **kwargs)

            if _is_buffer_type(stream):
                return cls.reads(stream)

        return type.__call__(cls, *args, **kwargs)
''', '''        if len(args) != 1 or kwargs or isinstance(args[0], cls):
            return type.__call__(cls, *args, **kwargs)

        (value,) = args
        if _is_readable_type(value):
            return cls._read(value)

        # Shortcut for char/bytes type
        is_literal = issubclass(cls, bytes) and isinstance(value, bytes) and len(value) == cls.size
        if _is_buffer_type(value) and not is_literal:
            return cls.reads(value)

        return type.__call__(cls, value)
''')
r("D", "types/base.py", '''        if _is_buffer_type(obj):
            return cls.reads(obj)

        if not _is_readable_type(obj):
            raise TypeError("Invalid object type")

        return cls._read(obj)
''', '''        if not _is_buffer_type(obj):
            if _is_readable_type(obj):
                return cls._read(obj)
            raise TypeError("Invalid object type")

        return cls.reads(obj)
''')
r("D", "types/packed.py", '''        return cls._read_array(stream, 1, context)[0]
''', '''        data = stream.read(cls.size)

        if len(data) != cls.size:
            raise EOFError(f"Read {len(data)} bytes, but expected {cls.size}")

        (value,) = _struct(cls.cs.endian, cls.packchar).unpack(data)
        return cls.__new__(cls, value)
''')
r("D", "types/char.py", '''        buf = []
        while True:
            byte = stream.read(1)
            if byte == b"":
                raise EOFError("Read 0 bytes, but expected 1")

            if byte == b"\\x00":
                break

            buf.append(byte)

        return type.__call__(cls, b"".join(buf))
''', '''        buf = bytearray()
        while (byte := stream.read(1)) != b"\\x00":
            if not byte:
                raise EOFError("Read 0 bytes, but expected 1")

            buf += byte

        return type.__call__(cls, bytes(buf))
''')
r("D", "types/leb128.py", '''        result = bytearray()
        while True:
            # low-order 7 bits of value
            byte = data & 0x7F
            data = data >> 7
''', '''        result, sign_bit = bytearray(), 0x40
        while True:
            byte, data = data & 0x7F, data >> 7
''')
r("D", "types/leb128.py", '''            if ((cls.signed and (data == 0 and byte & 0x40 == 0)) or (data == -1 and byte & 0x40 != 0)) or (
                not cls.signed and data == 0
            ):
                result.append(byte)
                break

            # Set high-order bit of byte
            result.append(0x80 | byte)

        stream.write(result)
        return len(result)
''', '''            if cls.signed:
                done = data == (-1 if byte & sign_bit else 0)
            else:
                done = data == 0

            if done:
                result.append(byte)
                stream.write(result)
                return len(result)

            result.append(byte | 0x80)
''')
r("D", "types/enum.py", '''        if name is None:
            if value is None:
                value = cls.type.__default__()

            if not isinstance(value, int):
                # value is a parsable value
                value = cls.type(value)

            return super().__call__(value)

''', '''        if name is None:
            return super().__call__(cls._member_value(value))

''')
r("D", "types/enum.py", '''    def _read(cls, stream: BinaryIO, context: dict[str, Any] | None = None) -> Self:
        return cls(cls.type._read(stream, context))
''', '''    def _member_value(cls, value: int | BinaryIO | bytes | None) -> int:
        if value is None:
            return cls.type.__default__()
        # Anything but an integer is a parsable value
        return value if isinstance(value, int) else cls.type(value)

    def _read(cls, stream: BinaryIO, context: dict[str, Any] | None = None) -> Self:
        raw = cls.type._read(stream, context)
        return cls(raw)
''')
r("D", "types/enum.py", '''        data = [entry.value if isinstance(entry, _Enum) else entry for entry in array]
        return cls.type._write_array(stream, data)
''', '''        return cls.type._write_array(stream, cls._raw_values(array))

    def _raw_values(cls, array: list[BaseType | int]) -> list[int]:
        values = []
        for entry in array:
            values.append(entry.value if isinstance(entry, _Enum) else entry)
        return values
''')
r("D", "expression.py", '''        operator = stack.pop(-1)
        res = 0

        if len(queue) < 1:
            raise ExpressionParserError("Invalid expression: not enough operands")

        right = queue.pop(-1)
        if operator in self.unary_operators:
            res = self.unary_operators[operator](right)
        else:
            if len(queue) < 1:
                raise ExpressionParserError("Invalid expression: not enough operands")

            left = queue.pop(-1)
            res = self.binary_operators[operator](left, right)

        queue.append(res)
''', '''        operator = stack.pop()
        unary = self.unary_operators.get(operator)
        arity = 1 if unary else 2

        if len(queue) < arity:
            raise ExpressionParserError("Invalid expression: not enough operands")

        right = queue.pop()
        queue.append(unary(right) if unary else self.binary_operators[operator](queue.pop(), right))
''')
r("D", "parser.py", '''        if count_expression is not None:
            # Poor mans multi-dimensional array by abusing the eager regex match of count
            counts = re.split(r"\\]\\s*\\[", count_expression)

            for count in reversed(counts):
                # Expressions don't know about newlines
                count = " ".join(count.split())
                if count == "":
                    count = None
                else:
                    count = Expression(self.cstruct, count)
                    # Preceding fields go before constants, so we can't know the value yet if there are any
                    if not set(count.tokens).intersection(names):
                        try:
                            count = count.evaluate()
                        except Exception:
                            pass

                if issubclass(type_, BaseArray) and count is None:
                    raise ParserError("Depth required for multi-dimensional array")

                type_ = self.cstruct._make_array(type_, count)

        return type_, name.strip(), int(d["bits"]) if d["bits"] else None
''', '''        # Poor mans multi-dimensional array by abusing the eager regex match of count
        counts = [] if count_expression is None else re.split(r"\\]\\s*\\[", count_expression)
        while counts:
            count = self._array_count(counts.pop(), names)

            if count is None and issubclass(type_, BaseArray):
                raise ParserError("Depth required for multi-dimensional array")

            type_ = self.cstruct._make_array(type_, count)

        bits = d["bits"]
        return type_, name.strip(), int(bits) if bits else None

    def _array_count(self, text: str, names: Iterable[str]) -> int | Expression | None:
        # Expressions don't know about newlines
        text = " ".join(text.split())
        if not text:
            return None

        expression = Expression(self.cstruct, text)
        # Preceding fields go before constants, so we can't know the value yet if there are any
        if any(token in names for token in expression.tokens):
            return expression

        try:
            return expression.evaluate()
        except Exception:
            return expression
''')
r("D", "parser.py", '''        names = []
        while True:
            if tokens.next == self.TOK.EOL:
                tokens.eol()
                break

            if tokens.next not in (self.TOK.NAME, self.TOK.DEFS):
                break

            ntoken = tokens.consume()
            if ntoken == self.TOK.NAME:
                names.append(ntoken.value.strip())
            elif ntoken == self.TOK.DEFS:
                names.extend([name.strip() for name in ntoken.value.strip().split(",")])

        return names
''', '''        names = []
        while tokens.next in (self.TOK.NAME, self.TOK.DEFS):
            ntoken = tokens.consume()
            parts = [ntoken.value] if ntoken == self.TOK.NAME else ntoken.value.split(",")
            names += [part.strip() for part in parts]

        if tokens.next == self.TOK.EOL:
            tokens.eol()

        return names
''')
r("D", "parser.py", '''        value = match["value"].strip()
        try:
            value = ast.literal_eval(value)
        except (ValueError, SyntaxError):
            pass

        if isinstance(value, str):
            try:
                value = Expression(self.cstruct, value).evaluate()
            except (ExpressionParserError, ExpressionTokenizerError):
                pass

        self.cstruct.consts[match["name"]] = value
''', '''        self.cstruct.consts[match["name"]] = self._constant_value(match["value"].strip())

    def _constant_value(self, value: str) -> Any:
        try:
            value = ast.literal_eval(value)
        except (ValueError, SyntaxError):
            pass

        if not isinstance(value, str):
            return value

        try:
            return Expression(self.cstruct, value).evaluate()
        except (ExpressionParserError, ExpressionTokenizerError):
            return value
''')
r("D", "utils.py", '''        value = getattr(structure, field._name)
        if isinstance(value, (str, Pointer, Enum)):
            value = repr(value)
        elif isinstance(value, int):
            value = hex(value)
        elif isinstance(value, list):
            value = pprint.pformat(value)
            if "\\n" in value:
                value = value.replace("\\n", f"\\n{' ' * (len(field._name) + 4)}")

        if color:
            out.append(f"- {foreground}{field._name}{COLOR_NORMAL}: {value}")
        else:
            out.append(f"- {field._name}: {value}")
''', '''        value = _format_value(getattr(structure, field._name), len(field._name) + 4)
        name = f"{foreground}{field._name}{COLOR_NORMAL}" if color else field._name
        out.append(f"- {name}: {value}")
''')
r("D", "utils.py", '''def _dumpstruct(
    structure''', '''def _format_value(value: object, indent: int) -> object:
    if isinstance(value, (str, Pointer, Enum)):
        return repr(value)
    if isinstance(value, int):
        return hex(value)
    if isinstance(value, list):
        return pprint.pformat(value).replace("\\n", "\\n" + " " * indent)
    return value


def _dumpstruct(
    structure''')
r("D", "utils.py", '''            if i + j >= len(data):
                values += "  "
            else:
                char = data[i + j]
                char = chr(char)

                print_char = char if char in PRINTABLE else "."

                if active:
                    values += f"{ord(char):02x}"
                    chars.append(active + print_char + COLOR_NORMAL)
                else:
                    values += f"{ord(char):02x}"
                    chars.append(print_char)
''', '''            if i + j >= len(data):
                values += "  "
            else:
                byte = data[i + j]
                print_char = chr(byte) if chr(byte) in PRINTABLE else "."

                values += f"{byte:02x}"
                chars.append(active + print_char + COLOR_NORMAL if active else print_char)
''')
r("D", "utils.py", '''    if not size:
        # Negative values also need a sign bit
        size = value.bit_length() if value >= 0 else (~value).bit_length() + 1
    size = (size + 7) // 8
    return value.to_bytes(size, ENDIANNESS_MAP.get(endian, endian), signed=value < 0)
''', '''    negative = value < 0
    if not size:
        # Negative values also need a sign bit
        size = (~value).bit_length() + 1 if negative else value.bit_length()

    length = -(-size // 8)
    byteorder = ENDIANNESS_MAP.get(endian, endian)
    return value.to_bytes(length, byteorder, signed=negative)
''')
r("D", "tools/stubgen.py", '''    # Constants first
    for name, value in cs.consts.items():
        if name in empty_cs.consts or not is_valid_name(name):
            continue
        if isinstance(value, Enum):
            # Members of anonymous enums
            value = value.value
        body.append(textwrap.indent(f"{name}: Literal[{value!r}] = ...", prefix=indent))
''', '''    # Constants first
    for name, value in cs.consts.items():
        if name not in empty_cs.consts and is_valid_name(name):
            # Members of anonymous enums
            literal = value.value if isinstance(value, Enum) else value
            body.append(f"{indent}{name}: Literal[{literal!r}] = ...")
''')
r("D", "tools/stubgen.py", '''    if issubclass(type_, types.CharArray):
        return f"{module_prefix}CharArray"
    if issubclass(type_, types.WcharArray):
        return f"{module_prefix}WcharArray"
    if issubclass(type_, types.Pointer):
        return f"{module_prefix}Pointer[{generate_typehint(type_.type, prefix, module_prefix)}]"
    if issubclass(type_, types.Array):
        return f"{module_prefix}Array[{generate_typehint(type_.type, prefix, module_prefix)}]"
    return f"{prefix}{type_.__name__}"
''', '''    for array_type in (types.CharArray, types.WcharArray):
        if issubclass(type_, array_type):
            return f"{module_prefix}{array_type.__name__}"

    for generic in (types.Pointer, types.Array):
        if issubclass(type_, generic):
            target = generate_typehint(type_.type, prefix, module_prefix)
            return f"{module_prefix}{generic.__name__}[{target}]"

    return f"{prefix}{type_.__name__}"
''')
r("D", "compiler.py", '''        code = python_compile(source, f"<compiled {self.name or 'anonymous'}._read>", "exec")
        exec(code, {"BitBuffer": BitBuffer, "_struct": _struct, **symbols}, d := {})
        obj = d.popitem()[1]
        obj.__source__ = source

        return classmethod(obj)
''', '''        code = python_compile(source, f"<compiled {self.name or 'anonymous'}._read>", "exec")
        namespace = {}
        symbols.update({"BitBuffer": BitBuffer, "_struct": _struct})
        exec(code, symbols, namespace)
        reader = namespace["_read"]
        reader.__source__ = source

        return classmethod(reader)
''')
r("D", "compiler.py", '''    if issubclass(type_, (Enum, Flag)):
        type_ = type_.type

    if issubclass(type_, Pointer):
        type_ = cs.pointer

    return cs.resolve(type_)
''', '''    if issubclass(type_, (Enum, Flag)):
        return cs.resolve(type_.type)

    return cs.resolve(cs.pointer if issubclass(type_, Pointer) else type_)
''')


def apply(batch, dest, only=None):
    """batch: a letter, or several joined with + (edits that no longer match the text of an earlier one are left out)"""
    if os.path.exists(dest):
        shutil.rmtree(dest)
    shutil.copytree("/repo", dest, symlinks=True)
    left_out = 0
    for b in batch.split("+"):
        for i, (file, old, new) in enumerate(B[b]):
            if only is not None and i not in only:
                continue
            path = os.path.join(dest, "dissect/cstruct", file)
            text = open(path).read()
            if text.count(old) < 1 and "+" in batch:
                left_out += 1
                continue
            assert text.count(old) >= 1, (batch, i, file, old)
            open(path, "w").write(text.replace(old, new, 1))
    if left_out: print(left_out, "edits left out")


if __name__ == "__main__":
    only = [int(x) for x in sys.argv[3:]] or None
    apply(sys.argv[1], sys.argv[2], only)
