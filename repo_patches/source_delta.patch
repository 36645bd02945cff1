From 889cd2b717614d3e7e91f9488944c32e918c5d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 01/42] fix: compiled reader must unpack when a block is one
 field followed by one padding byte

---
 dissect/cstruct/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 1b608a4..911f3d2 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -330,7 +330,7 @@ class _ReadSourceGenerator:
             size += field_type.size
 
         fmt = _optimize_struct_fmt(info)
-        if fmt == "x" or (len(fmt) == 2 and fmt[1] == "x"):
+        if fmt == "x" or (len(fmt) == 2 and fmt[0].isdigit() and fmt[1] == "x"):
             unpack = ""
         else:
             unpack = f'data = _struct(cls.cs.endian, "{fmt}").unpack(buf)\n'
-- 
2.43.0


From 4024451dcc5ce1825c799c994bc9eeebf516d63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:13 +0000
Subject: [PATCH 02/42] fix: compiled reader must track the stream offset
 exactly when a block does not start where the previous field ended

---
 dissect/cstruct/compiler.py | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 911f3d2..bc788e3 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -141,9 +141,6 @@ class _ReadSourceGenerator:
 
         def flush() -> Iterator[str]:
             if current_block:
-                if self.align and current_block[0].offset is None:
-                    yield f"stream.seek(-stream.tell() & ({current_block[0].alignment} - 1), {io.SEEK_CUR})"
-
                 yield from self._generate_packed(current_block)
                 current_block[:] = []
 
@@ -202,18 +199,43 @@ class _ReadSourceGenerator:
                     prev_bits_type = field_type
                     prev_was_bits = True
 
-                if bits_remaining == 0 or prev_bits_type != field_type:
-                    bits_remaining = (size * 8) - field.bits
+                yield from flush()
+
+                if bits_remaining == 0 or prev_bits_type != field_type or field.offset is not None:
+                    # Start of a new bit field, subsequent fields don't move the stream
+                    prev_bits_type = field_type
+                    bits_remaining = size * 8
                     bits_rollover = True
 
-                yield from flush()
-                yield from align_to_field(field)
+                    yield from align_to_field(field)
+
+                bits_remaining -= field.bits
                 yield from self._generate_bits(field)
 
             # Everything else - basic and composite types (and arrays of them)
             else:
+                if current_block and (
+                    # Zero sized fields don't need the padding in front of them to be readable
+                    size == 0
+                    # Moved to a manual offset that is not ahead of us
+                    or (field.offset is not None and (current_offset is None or field.offset < current_offset))
+                    # Dynamic offsets in a block are relative to the alignment of its first field
+                    or (self.align and field.offset is None and field.alignment > current_block[0].alignment)
+                ):
+                    yield from flush()
+
+                if not current_block:
+                    yield from align_to_field(field)
+                elif field.offset is not None:
+                    # The padding is part of the block
+                    current_offset = field.offset
+
                 current_block.append(field)
 
+            if size is None:
+                # Dynamic, we don't know where we are in the stream anymore
+                current_offset = None
+
             if current_offset is not None and size is not None and (not field.bits or bits_rollover):
                 current_offset += size
                 bits_rollover = False
-- 
2.43.0


From ad12772724bd6adb030376e244f8d42257ac74db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:40 +0000
Subject: [PATCH 03/42] fix: compiled reader must unpack for zero-length arrays
 next to padding

---
 dissect/cstruct/compiler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index bc788e3..b75dcdc 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -288,6 +288,7 @@ class _ReadSourceGenerator:
 
         size = 0
         slice_index = 0
+        uses_data = False
         for field, count, _ in info:
             if field is None:
                 # Padding
@@ -307,11 +308,13 @@ class _ReadSourceGenerator:
                 else:
                     getter = f"data[{slice_index}:{slice_index + count}]"
                     slice_index += count
+                    uses_data = True
             elif issubclass(read_type, (Char, Wchar, Int)):
                 getter = f"buf[{size}:{size + read_type.size}]"
             else:
                 getter = f"data[{slice_index}]"
                 slice_index += 1
+                uses_data = True
 
             if issubclass(read_type, (Wchar, Int)):
                 # Types that parse bytes further down to their own type
@@ -352,7 +355,7 @@ class _ReadSourceGenerator:
             size += field_type.size
 
         fmt = _optimize_struct_fmt(info)
-        if fmt == "x" or (len(fmt) == 2 and fmt[0].isdigit() and fmt[1] == "x"):
+        if not uses_data and (fmt == "x" or (len(fmt) == 2 and fmt[0].isdigit() and fmt[1] == "x")):
             unpack = ""
         else:
             unpack = f'data = _struct(cls.cs.endian, "{fmt}").unpack(buf)\n'
-- 
2.43.0


From a3b1a63967f7938dbe5484378dbca06862dac012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:49 +0000
Subject: [PATCH 04/42] fix: duplicate flag members must be usable in composite
 flag values

---
 dissect/cstruct/types/enum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dissect/cstruct/types/enum.py b/dissect/cstruct/types/enum.py
index 5b83056..b0f9ab3 100644
--- a/dissect/cstruct/types/enum.py
+++ b/dissect/cstruct/types/enum.py
@@ -115,6 +115,7 @@ def _fix_alias_members(cls: type[Enum]) -> None:
             new_member = int.__new__(cls, member.value)
             new_member._name_ = name
             new_member._value_ = member.value
+            new_member._sort_order_ = len(cls._member_names_)
 
             type.__setattr__(cls, name, new_member)
             cls._member_names_.append(name)
-- 
2.43.0


From 5463bb138ab8373259cc9dbaf0e0013488dc6b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 05/42] fix: flags with a signed type must keep negative values

---
 dissect/cstruct/types/flag.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/dissect/cstruct/types/flag.py b/dissect/cstruct/types/flag.py
index 6740591..7d2b4a9 100644
--- a/dissect/cstruct/types/flag.py
+++ b/dissect/cstruct/types/flag.py
@@ -1,10 +1,14 @@
 from __future__ import annotations
 
 from enum import IntFlag
+from typing import TYPE_CHECKING
 
 from dissect.cstruct.types.base import BaseType
 from dissect.cstruct.types.enum import PY_311, EnumMetaType
 
+if TYPE_CHECKING:
+    from typing_extensions import Self
+
 
 class Flag(BaseType, IntFlag, metaclass=EnumMetaType):
     """Flag type supercharged with cstruct functionality.
@@ -70,3 +74,16 @@ class Flag(BaseType, IntFlag, metaclass=EnumMetaType):
 
     def __hash__(self) -> int:
         return hash((self.__class__, self.name, self.value))
+
+    @classmethod
+    def _missing_(cls, value: int) -> Self:
+        if isinstance(value, int) and value < 0:
+            type_ = cls.type
+            if getattr(type_, "signed", False) or getattr(type_, "packchar", "").islower():
+                # A negative value is valid for signed types, IntFlag would turn it into a positive value
+                new_member = int.__new__(cls, value)
+                new_member._name_ = None
+                new_member._value_ = value
+                return new_member
+
+        return super()._missing_(value)
-- 
2.43.0


From b28867986660cbd094f760afb9f9e0ac7a723e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 06/42] fix: bit fields sharing a storage unit must not be
 aligned or offset individually

---
 dissect/cstruct/types/structure.py | 37 +++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index a1074af..908ed59 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -174,7 +174,16 @@ class StructureMetaType(MetaType):
                 # If a field already has an offset, it's leading
                 offset = field.offset
 
-            if align and offset is not None:
+            field_type = field.type
+            if isinstance(field_type, EnumMetaType):
+                field_type = field_type.type
+
+            if (
+                align
+                and offset is not None
+                # A bit field that continues the current storage unit does not move
+                and not (field.bits and field.offset is None and bits_remaining and field_type == bits_type)
+            ):
                 # Round to next alignment
                 offset += -offset & (field.alignment - 1)
 
@@ -182,11 +191,6 @@ class StructureMetaType(MetaType):
             alignment = max(alignment, field.alignment)
 
             if field.bits:
-                field_type = field.type
-
-                if isinstance(field_type, EnumMetaType):
-                    field_type = field_type.type
-
                 # Bit fields have special logic
                 if (
                     # Exhausted a bit field
@@ -194,7 +198,10 @@ class StructureMetaType(MetaType):
                     # Moved to a bit field of another type, e.g. uint16 f1 : 8, uint32 f2 : 8;
                     or field_type != bits_type
                     # Still processing a bit field, but it's at a different offset due to alignment or a manual offset
-                    or (bits_type is not None and offset > bits_field_offset + bits_type.size)
+                    or (
+                        field.offset is not None
+                        and (bits_field_offset is None or offset > bits_field_offset + bits_type.size)
+                    )
                 ):
                     # ... if any of this is true, we have to move to the next field
                     bits_type = field_type
@@ -253,16 +260,24 @@ class StructureMetaType(MetaType):
                 offset = struct_start + field.offset
                 stream.seek(offset)
 
-            if cls.__align__ and field.offset is None:
+            bit_field_type = None
+            if field.bits:
+                bit_field_type = field.type.type if isinstance(field.type, EnumMetaType) else field.type
+
+            if (
+                cls.__align__
+                and field.offset is None
+                # A bit field that continues the current storage unit does not move the stream
+                and not (field.bits and bit_buffer._remaining and bit_buffer._type == bit_field_type)
+            ):
                 # Previous field was dynamically sized and we need to align
                 offset += -offset & (field.alignment - 1)
                 stream.seek(offset)
 
             if field.bits:
+                value = bit_buffer.read(bit_field_type, field.bits)
                 if isinstance(field.type, EnumMetaType):
-                    value = field.type(bit_buffer.read(field.type.type, field.bits))
-                else:
-                    value = bit_buffer.read(field.type, field.bits)
+                    value = field.type(value)
 
                 result[field._name] = value
                 continue
-- 
2.43.0


From 59e2110c9c8316ad00e921219f4c6a0a4341c4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:12 +0000
Subject: [PATCH 07/42] fix: reject values that do not fit in a bit field
 instead of clobbering neighbouring fields

---
 dissect/cstruct/bitbuffer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dissect/cstruct/bitbuffer.py b/dissect/cstruct/bitbuffer.py
index 57b1fb4..b39c3e5 100644
--- a/dissect/cstruct/bitbuffer.py
+++ b/dissect/cstruct/bitbuffer.py
@@ -47,6 +47,13 @@ class BitBuffer:
         return v
 
     def write(self, field_type: type[BaseType], data: int, bits: int) -> None:
+        if isinstance(data, bytes):
+            # E.g. the default value of a char bit field
+            data = int.from_bytes(data, "little" if self.endian == "<" else "big")
+
+        if not 0 <= data < (1 << bits):
+            raise OverflowError(f"Value {data} does not fit in a bit field of {bits} bits")
+
         if self._remaining == 0 or self._type != field_type:
             if self._type:
                 self.flush()
-- 
2.43.0


From 886c33b03746df709d78082ffd2663819e0ec7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 08/42] fix: bit fields in a signed storage unit must be
 writable

---
 dissect/cstruct/bitbuffer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/bitbuffer.py b/dissect/cstruct/bitbuffer.py
index b39c3e5..393c868 100644
--- a/dissect/cstruct/bitbuffer.py
+++ b/dissect/cstruct/bitbuffer.py
@@ -78,7 +78,8 @@ class BitBuffer:
 
     def flush(self) -> None:
         if self._type is not None:
-            self._type._write(self.stream, self._buffer)
+            # Write the raw storage unit, as the type itself may be signed
+            self.stream.write(self._buffer.to_bytes(self._type.size, "little" if self.endian == "<" else "big"))
         self._type = None
         self._remaining = 0
         self._buffer = 0
-- 
2.43.0


From 3a0eee948f356dac082eba1cb2c7300325864d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 09/42] fix: pack and unpack must agree on sizes that are not a
 multiple of 8 bits and on negative values without a size

---
 dissect/cstruct/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/utils.py b/dissect/cstruct/utils.py
index 0345598..0fce5a9 100644
--- a/dissect/cstruct/utils.py
+++ b/dissect/cstruct/utils.py
@@ -224,7 +224,10 @@ def pack(value: int, size: int | None = None, endian: str = "little") -> bytes:
         size: Integer size in bits.
         endian: Endianness to use (little, big, network, <, > or !)
     """
-    size = ((size or value.bit_length()) + 7) // 8
+    if not size:
+        # Negative values also need a sign bit
+        size = value.bit_length() if value >= 0 else (~value).bit_length() + 1
+    size = (size + 7) // 8
     return value.to_bytes(size, ENDIANNESS_MAP.get(endian, endian), signed=value < 0)
 
 
@@ -237,8 +240,8 @@ def unpack(value: bytes, size: int | None = None, endian: str = "little", sign:
         endian: Endianness to use (little, big, network, <, > or !)
         sign: Signedness of the integer.
     """
-    if size and len(value) != size // 8:
-        raise ValueError(f"Invalid byte value, expected {size // 8} bytes, got {len(value)} bytes")
+    if size and len(value) != (expected := (size + 7) // 8):
+        raise ValueError(f"Invalid byte value, expected {expected} bytes, got {len(value)} bytes")
     return int.from_bytes(value, ENDIANNESS_MAP.get(endian, endian), signed=sign)
 
 
-- 
2.43.0


From 01238b7dfb7704382529697062e7286259188731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 10/42] fix: compiled reader must parse arrays of byte based
 enums and pointers per element

---
 dissect/cstruct/compiler.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index b75dcdc..8303d9b 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -328,10 +328,13 @@ class _ReadSourceGenerator:
                 reads.append(f"_t = {self._map_field(field)}")
                 reads.append("_et = _t.type")
 
-                if issubclass(field_type.type, Int):
+                if issubclass(read_type, Int):
                     reads.append(f"_b = {getter}")
-                    item_parser = parser_template.format(type="_et", getter=f"_b[i:i + {field_type.type.size}]")
-                    list_comp = f"[{item_parser} for i in range(0, {count}, {field_type.type.size})]"
+                    if issubclass(field_type.type, Pointer):
+                        item_parser = f"_et.__new__(_et, cls.cs.pointer(_b[i:i + {read_type.size}]), stream, r)"
+                    else:
+                        item_parser = parser_template.format(type="_et", getter=f"_b[i:i + {read_type.size}]")
+                    list_comp = f"[{item_parser} for i in range(0, {count}, {read_type.size})]"
                 elif issubclass(field_type.type, Pointer):
                     item_parser = "_et.__new__(_et, e, stream, r)"
                     list_comp = f"[{item_parser} for e in {getter}]"
@@ -344,6 +347,8 @@ class _ReadSourceGenerator:
                 parser = f"type.__call__({self._map_field(field)}, {getter})"
             elif issubclass(field_type, Pointer):
                 reads.append(f"_pt = {self._map_field(field)}")
+                if issubclass(read_type, Int):
+                    getter = f"cls.cs.pointer({getter})"
                 parser = f"_pt.__new__(_pt, {getter}, stream, r)"
             else:
                 parser = parser_template.format(type=self._map_field(field), getter=getter)
-- 
2.43.0


From 87da344f597dc3f331c0d69ef8ae4cb836f0bb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:28 +0000
Subject: [PATCH 11/42] fix: dereferencing must restore the stream position
 when reading the target fails

---
 dissect/cstruct/types/pointer.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/dissect/cstruct/types/pointer.py b/dissect/cstruct/types/pointer.py
index 289e400..569a5fa 100644
--- a/dissect/cstruct/types/pointer.py
+++ b/dissect/cstruct/types/pointer.py
@@ -89,16 +89,18 @@ class Pointer(int, BaseType, Generic[T]):
         if self._value is None and not issubclass(self.type, Void):
             # Read current position of file read/write pointer
             position = self._stream.tell()
-            # Reposition the file read/write pointer
-            self._stream.seek(self)
+            try:
+                # Reposition the file read/write pointer
+                self._stream.seek(self)
+
+                if issubclass(self.type, Char):
+                    # this makes the assumption that a char pointer is a null-terminated string
+                    value = self.type._read_0(self._stream, self._context)
+                else:
+                    value = self.type._read(self._stream, self._context)
+            finally:
+                self._stream.seek(position)
 
-            if issubclass(self.type, Char):
-                # this makes the assumption that a char pointer is a null-terminated string
-                value = self.type._read_0(self._stream, self._context)
-            else:
-                value = self.type._read(self._stream, self._context)
-
-            self._stream.seek(position)
             self._value = value
 
         return self._value
-- 
2.43.0


From 08ecd28bb480d8685312e3357d030491b0326524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:28 +0000
Subject: [PATCH 12/42] fix: arrays up to the end of the stream must only take
 whole elements

---
 dissect/cstruct/types/base.py   |  8 +++++++-
 dissect/cstruct/types/packed.py | 10 ++++++++--
 dissect/cstruct/types/wchar.py  |  6 ++++++
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index 0c9e527..460334b 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -146,7 +146,13 @@ class MetaType(type):
         if count == EOF:
             result = []
             while not _is_eof(stream):
-                result.append(cls._read(stream, context))
+                pos = stream.tell()
+                try:
+                    result.append(cls._read(stream, context))
+                except EOFError:
+                    # Only take whole elements
+                    stream.seek(pos)
+                    break
             return result
 
         return [cls._read(stream, context) for _ in range(count)]
diff --git a/dissect/cstruct/types/packed.py b/dissect/cstruct/types/packed.py
index 76e7099..80b1f57 100644
--- a/dissect/cstruct/types/packed.py
+++ b/dissect/cstruct/types/packed.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 from functools import lru_cache
+from io import SEEK_CUR
 from struct import Struct
 from typing import TYPE_CHECKING, Any, BinaryIO, Generic, TypeVar
 
@@ -31,8 +32,13 @@ class Packed(BaseType, Generic[T]):
     def _read_array(cls, stream: BinaryIO, count: int, context: dict[str, Any] | None = None) -> list[Self]:
         if count == EOF:
             data = stream.read()
-            length = len(data)
-            count = length // cls.size
+            count = len(data) // cls.size
+            length = cls.size * count
+
+            if remainder := len(data) - length:
+                # Only take whole elements
+                stream.seek(-remainder, SEEK_CUR)
+                data = data[:length]
         else:
             length = cls.size * count
             data = stream.read(length)
diff --git a/dissect/cstruct/types/wchar.py b/dissect/cstruct/types/wchar.py
index 1cd8822..69cfebb 100644
--- a/dissect/cstruct/types/wchar.py
+++ b/dissect/cstruct/types/wchar.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import sys
+from io import SEEK_CUR
 from typing import Any, BinaryIO, ClassVar
 
 from dissect.cstruct.types.base import EOF, BaseArray, BaseType
@@ -57,6 +58,11 @@ class Wchar(str, BaseType):
             count *= 2
 
         data = stream.read(-1 if count == EOF else count)
+        if count == EOF and len(data) % 2:
+            # Only take whole characters
+            stream.seek(-1, SEEK_CUR)
+            data = data[:-1]
+
         if count != EOF and len(data) != count:
             raise EOFError(f"Read {len(data)} bytes, but expected {count}")
 
-- 
2.43.0


From 3ae7616fa7a9a0abd52510f34542c2e1315d234b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:44 +0000
Subject: [PATCH 13/42] fix: parsing a structure with a single char field from
 bytes must equal parsing it from a stream

---
 dissect/cstruct/types/structure.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 908ed59..e72f8ea 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -71,12 +71,19 @@ class StructureMetaType(MetaType):
         if (
             cls.__fields__
             and len(args) == len(cls.__fields__) == 1
+            and not kwargs
             and isinstance(args[0], bytes)
-            and issubclass(cls.__fields__[0].type, bytes)
-            and len(args[0]) == cls.__fields__[0].type.size
+            and issubclass((field := cls.__fields__[0]).type, bytes)
+            and not field.bits
+            and not field.offset
+            and len(args[0]) == field.type.size
         ):
             # Shortcut for single char/bytes type
-            return type.__call__(cls, *args, **kwargs)
+            value = type.__call__(field.type, args[0])
+            obj = type.__call__(cls, value)
+            object.__setattr__(obj, "_values", {field._name: value})
+            object.__setattr__(obj, "_sizes", {field._name: len(value)})
+            return obj
         if not args and not kwargs:
             obj = type.__call__(cls)
             object.__setattr__(obj, "_values", {})
-- 
2.43.0


From 198a53384cecfb61a2f0811c5482eb01972003ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 14/42] fix: assignments through nested or anonymous structures
 of a union must reach the union, and proxies must behave like their target

---
 dissect/cstruct/types/structure.py | 31 +++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index e72f8ea..fd25ad0 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -576,7 +576,9 @@ class Union(Structure, metaclass=UnionMetaType):
             raise NotImplementedError("Modifying a dynamic union is not yet supported")
 
         super().__setattr__(attr, value)
-        self._rebuild(attr)
+        if attr in self.__class__.lookup:
+            # Fields of anonymous structures have already been rebuilt through their proxy
+            self._rebuild(attr)
 
     def _rebuild(self, attr: str) -> None:
         if (cur_buf := getattr(self, "_buf", None)) is None:
@@ -605,13 +607,19 @@ class Union(Structure, metaclass=UnionMetaType):
         object.__setattr__(self, "_sizes", sizes)
 
     def _proxify(self) -> None:
-        def _proxy_structure(value: Structure) -> None:
+        def _proxy_structure(value: Structure, attr: str | None = None) -> None:
             for field in value.__class__.__fields__:
                 if issubclass(field.type, Structure):
                     nested_value = getattr(value, field._name)
-                    proxy = UnionProxy(self, field._name, nested_value)
-                    object.__setattr__(value, field._name, proxy)
-                    _proxy_structure(nested_value)
+                    # Always rebuild from the union member, no matter how deep the structure is nested
+                    nested_attr = attr or field._name
+                    object.__setattr__(value, field._name, UnionProxy(self, nested_attr, nested_value))
+
+                    while type(nested_value) is UnionProxy:
+                        # Already proxied by a nested union
+                        nested_value = nested_value.__target__
+
+                    _proxy_structure(nested_value, nested_attr)
 
         _proxy_structure(self)
 
@@ -626,12 +634,25 @@ class UnionProxy:
         object.__setattr__(self, "__attr__", attr)
         object.__setattr__(self, "__target__", target)
 
+    @property
+    def __class__(self) -> type[Structure]:
+        return self.__target__.__class__
+
     def __len__(self) -> int:
         return len(self.__target__.dumps())
 
     def __bytes__(self) -> bytes:
         return self.__target__.dumps()
 
+    def __bool__(self) -> bool:
+        return bool(self.__target__)
+
+    def __eq__(self, other: object) -> bool:
+        return self.__target__ == other
+
+    def __hash__(self) -> int:
+        return hash(self.__target__)
+
     def __getitem__(self, item: str) -> Any:
         return getattr(self.__target__, item)
 
-- 
2.43.0


From d99b79719715e5655665bb6a0cfd1201ab24e97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 15/42] fix: unions must not lose bytes that are padding in
 their largest field, and dynamic unions must record member extents

---
 dissect/cstruct/types/structure.py | 43 ++++++++++++++++--------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index fd25ad0..703d7e7 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -458,7 +458,7 @@ class UnionMetaType(StructureMetaType):
         for field in fields:
             if size is not None:
                 try:
-                    size = max(len(field.type), size)
+                    size = max(len(field.type) + (field.offset or 0), size)
                 except TypeError:
                     size = None
 
@@ -495,7 +495,7 @@ class UnionMetaType(StructureMetaType):
             buf.seek(offset + start)
             value = field_type._read(buf, result)
 
-            sizes[field._name] = buf.tell() - start
+            sizes[field._name] = buf.tell() - offset - start
             result[field._name] = value
 
         return result, sizes
@@ -504,7 +504,8 @@ class UnionMetaType(StructureMetaType):
         if cls.size is None:
             start = stream.tell()
             result, sizes = cls._read_fields(stream, context)
-            size = stream.tell() - start
+            # The size of a dynamic union is the size of its largest field
+            size = max(sizes[field._name] + (field.offset or 0) for field in cls.__fields__)
             stream.seek(start)
             buf = stream.read(size)
         else:
@@ -535,30 +536,32 @@ class UnionMetaType(StructureMetaType):
             raise NotImplementedError("Writing dynamic unions is not yet supported")
 
         offset = stream.tell()
-        expected_offset = offset + len(cls)
 
-        # Sort by largest field
-        fields = sorted(cls.__fields__, key=lambda e: e.type.size or 0, reverse=True)
-        anonymous_struct = False
+        # Sort by largest field, but prefer regular fields over anonymous structures
+        fields = sorted(
+            cls.__fields__,
+            key=lambda e: (isinstance(e.type, StructureMetaType) and e.name is None, -(e.type.size or 0)),
+        )
 
-        # Try to write by largest field
+        # The largest field is leading, the other fields contribute the bits that are padding in all fields before it
+        result = 0
+        written = 0
         for field in fields:
-            if isinstance(field.type, StructureMetaType) and field.name is None:
-                # Prefer to write regular fields initially
-                anonymous_struct = field.type
+            if not field.type.size:
                 continue
 
-            # Write the value
-            field.type._write(stream, getattr(data, field._name))
-            break
+            shift = (field.offset or 0) * 8
+            value = int.from_bytes(field.type.dumps(getattr(data, field._name)), "little") << shift
+            result |= value & ~written
+
+            # Bits that are still zero when writing the parsed result of only ones are padding
+            mask = field.type.dumps(field.type(b"\xff" * field.type.size))
+            written |= int.from_bytes(mask, "little") << shift
 
-        # If we haven't written anything yet and we initially skipped an anonymous struct, write it now
-        if stream.tell() == offset and anonymous_struct:
-            anonymous_struct._write(stream, data)
+            if written == (1 << (cls.size * 8)) - 1:
+                break
 
-        # If we haven't filled the union size yet, pad it
-        if remaining := expected_offset - stream.tell():
-            stream.write(b"\x00" * remaining)
+        stream.write(result.to_bytes(cls.size, "little"))
 
         return stream.tell() - offset
 
-- 
2.43.0


From 573e87236463078d578056ccd26001c6dc340feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:10 +0000
Subject: [PATCH 16/42] fix: evaluating an expression must not modify the
 expression or confuse identifiers with unary operators

---
 dissect/cstruct/expression.py | 76 +++++++++++++++++------------------
 1 file changed, 36 insertions(+), 40 deletions(-)

diff --git a/dissect/cstruct/expression.py b/dissect/cstruct/expression.py
index 6c48356..2dc3719 100644
--- a/dissect/cstruct/expression.py
+++ b/dissect/cstruct/expression.py
@@ -167,7 +167,7 @@ class Expression:
     }
 
     unary_operators: ClassVar[dict[str, Callable[[int], int]]] = {
-        "u": lambda a: -a,
+        "-u": lambda a: -a,
         "~": lambda a: ~a,
     }
 
@@ -182,7 +182,7 @@ class Expression:
         "*": 5,
         "/": 5,
         "%": 5,
-        "u": 6,
+        "-u": 6,
         "~": 6,
         "sizeof": 6,
     }
@@ -191,8 +191,6 @@ class Expression:
         self.cstruct = cstruct
         self.expression = expression
         self.tokens = ExpressionTokenizer(expression).tokenize()
-        self.stack = []
-        self.queue = []
 
     def __repr__(self) -> str:
         return self.expression
@@ -200,24 +198,24 @@ class Expression:
     def precedence(self, o1: str, o2: str) -> bool:
         return self.precedence_levels[o1] >= self.precedence_levels[o2]
 
-    def evaluate_exp(self) -> None:
-        operator = self.stack.pop(-1)
+    def evaluate_exp(self, stack: list[str], queue: list[int]) -> None:
+        operator = stack.pop(-1)
         res = 0
 
-        if len(self.queue) < 1:
+        if len(queue) < 1:
             raise ExpressionParserError("Invalid expression: not enough operands")
 
-        right = self.queue.pop(-1)
+        right = queue.pop(-1)
         if operator in self.unary_operators:
             res = self.unary_operators[operator](right)
         else:
-            if len(self.queue) < 1:
+            if len(queue) < 1:
                 raise ExpressionParserError("Invalid expression: not enough operands")
 
-            left = self.queue.pop(-1)
+            left = queue.pop(-1)
             res = self.binary_operators[operator](left, right)
 
-        self.queue.append(res)
+        queue.append(res)
 
     def is_number(self, token: str) -> bool:
         return token.isnumeric() or (len(token) > 2 and token[0] == "0" and token[1] in ("x", "X", "b", "B", "o", "O"))
@@ -225,45 +223,43 @@ class Expression:
     def evaluate(self, context: dict[str, int] | None = None) -> int:
         """Evaluates an expression using a Shunting-Yard implementation."""
 
-        self.stack = []
-        self.queue = []
+        # An expression can be shared by multiple types and threads, so don't keep any state on the object
+        stack = []
+        queue = []
         operators = set(self.binary_operators.keys()) | set(self.unary_operators.keys())
 
         context = context or {}
-        tmp_expression = self.tokens
+        tmp_expression = list(self.tokens)
 
         # Unary minus tokens; we change the semantic of '-' depending on the previous token
-        for i in range(len(self.tokens)):
-            if self.tokens[i] == "-":
-                if i == 0:
-                    self.tokens[i] = "u"
-                    continue
-                if self.tokens[i - 1] in operators or self.tokens[i - 1] == "u" or self.tokens[i - 1] == "(":
-                    self.tokens[i] = "u"
-                    continue
+        for i in range(len(tmp_expression)):
+            if tmp_expression[i] == "-" and (
+                i == 0 or tmp_expression[i - 1] in operators or tmp_expression[i - 1] == "("
+            ):
+                tmp_expression[i] = "-u"
 
         i = 0
         while i < len(tmp_expression):
             current_token = tmp_expression[i]
             if self.is_number(current_token):
-                self.queue.append(int(current_token, 0))
+                queue.append(int(current_token, 0))
             elif current_token in context:
-                self.queue.append(int(context[current_token]))
+                queue.append(int(context[current_token]))
             elif current_token in self.cstruct.consts:
-                self.queue.append(int(self.cstruct.consts[current_token]))
+                queue.append(int(self.cstruct.consts[current_token]))
             elif current_token in self.unary_operators:
-                self.stack.append(current_token)
+                stack.append(current_token)
             elif current_token == "sizeof":
                 if len(tmp_expression) < i + 3 or (tmp_expression[i + 1] != "(" or tmp_expression[i + 3] != ")"):
                     raise ExpressionParserError("Invalid sizeof operation")
-                self.queue.append(len(self.cstruct.resolve(tmp_expression[i + 2])))
+                queue.append(len(self.cstruct.resolve(tmp_expression[i + 2])))
                 i += 3
             elif current_token in operators:
                 while (
-                    len(self.stack) != 0 and self.stack[-1] != "(" and (self.precedence(self.stack[-1], current_token))
+                    len(stack) != 0 and stack[-1] != "(" and (self.precedence(stack[-1], current_token))
                 ):
-                    self.evaluate_exp()
-                self.stack.append(current_token)
+                    self.evaluate_exp(stack, queue)
+                stack.append(current_token)
             elif current_token == "(":
                 if i > 0:
                     previous_token = tmp_expression[i - 1]
@@ -272,7 +268,7 @@ class Expression:
                             f"Parser expected sizeof or an arethmethic operator instead got: '{previous_token}'"
                         )
 
-                self.stack.append(current_token)
+                stack.append(current_token)
             elif current_token == ")":
                 if i > 0:
                     previous_token = tmp_expression[i - 1]
@@ -281,24 +277,24 @@ class Expression:
                             f"Parser expected an expression, instead received empty parenthesis. Index: {i}"
                         )
 
-                if len(self.stack) == 0:
+                if len(stack) == 0:
                     raise ExpressionParserError("Invalid expression")
 
-                while self.stack[-1] != "(":
-                    self.evaluate_exp()
+                while stack[-1] != "(":
+                    self.evaluate_exp(stack, queue)
 
-                self.stack.pop(-1)
+                stack.pop(-1)
             else:
                 raise ExpressionParserError(f"Unmatched token: '{current_token}'")
             i += 1
 
-        while len(self.stack) != 0:
-            if self.stack[-1] == "(":
+        while len(stack) != 0:
+            if stack[-1] == "(":
                 raise ExpressionParserError("Invalid expression")
 
-            self.evaluate_exp()
+            self.evaluate_exp(stack, queue)
 
-        if len(self.queue) != 1:
+        if len(queue) != 1:
             raise ExpressionParserError("Invalid expression")
 
-        return self.queue[0]
+        return queue[0]
-- 
2.43.0


From 11272fbf52fb45022b456c6f6034d448b53a2c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:02 +0000
Subject: [PATCH 17/42] fix: comments must separate tokens and end at any line
 ending

---
 dissect/cstruct/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 6de850e..5ef6c7d 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -327,7 +327,7 @@ class TokenParser(Parser):
     @staticmethod
     def _remove_comments(string: str) -> str:
         # https://stackoverflow.com/a/18381470
-        pattern = r"(\".*?\"|\'.*?\')|(/\*.*?\*/|//[^\r\n]*$)"
+        pattern = r"(\".*?\"|\'.*?\')|(/\*.*?\*/|//[^\r\n]*)"
         # first group captures quoted strings (double or single)
         # second group captures comments (//single-line or /* multi-line */)
         regex = re.compile(pattern, re.MULTILINE | re.DOTALL)
@@ -336,7 +336,7 @@ class TokenParser(Parser):
             # if the 2nd group (capturing comments) is not None,
             # it means we have captured a non-quoted (real) comment string.
             if comment := match.group(2):
-                return "\n" * comment.count("\n")  # so we will return empty to remove the comment
+                return "\n" * comment.count("\n") or " "  # so we will return whitespace to remove the comment
             # otherwise, we will return the 1st group
             return match.group(1)  # captured quoted-string
 
-- 
2.43.0


From 51c5290984c63328f34a30189be655df0e096dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:12 +0000
Subject: [PATCH 18/42] fix: whitespace around array brackets and between
 pointer stars must not change a field

---
 dissect/cstruct/parser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 5ef6c7d..eee8742 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -63,7 +63,7 @@ class TokenParser(Parser):
             "ENUM",
         )
         TOK.add(r"(?<=})\s*(?P<defs>(?:[a-zA-Z0-9_]+\s*,\s*)+[a-zA-Z0-9_]+)\s*(?=;)", "DEFS")
-        TOK.add(r"(?P<name>\**?\s*[a-zA-Z0-9_]+)(?:\s*:\s*(?P<bits>\d+))?(?:\[(?P<count>[^;\n]*)\])?\s*(?=;)", "NAME")
+        TOK.add(r"(?P<name>[*\s]*[a-zA-Z0-9_]+)(?:\s*:\s*(?P<bits>\d+))?(?:\s*\[(?P<count>[^;]*)\])?\s*(?=;)", "NAME")
         TOK.add(r"[a-zA-Z_][a-zA-Z0-9_]*", "IDENTIFIER")
         TOK.add(r"[{}]", "BLOCK")
         TOK.add(r"\$(?P<name>[^\s]+) = (?P<value>{[^}]+})\w*[\r\n]+", "LOOKUP")
@@ -281,15 +281,17 @@ class TokenParser(Parser):
         name = d["name"]
         count_expression = d["count"]
 
-        while name.startswith("*"):
+        while (name := name.strip()).startswith("*"):
             name = name[1:]
             type_ = self.cstruct._make_pointer(type_)
 
         if count_expression is not None:
             # Poor mans multi-dimensional array by abusing the eager regex match of count
-            counts = count_expression.split("][") if "][" in count_expression else [count_expression]
+            counts = re.split(r"\]\s*\[", count_expression)
 
             for count in reversed(counts):
+                # Expressions don't know about newlines
+                count = " ".join(count.split())
                 if count == "":
                     count = None
                 else:
-- 
2.43.0


From f8a0aba862b141d5c87572a9fac5b82150c1c6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:47 +0000
Subject: [PATCH 19/42] fix: line breaks and spacing inside enum and constant
 definitions must not change their values

---
 dissect/cstruct/parser.py | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index eee8742..b661aab 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -84,7 +84,7 @@ class TokenParser(Parser):
         pattern = self.TOK.patterns[self.TOK.DEFINE]
         match = pattern.match(const.value).groupdict()
 
-        value = match["value"]
+        value = match["value"].strip()
         try:
             value = ast.literal_eval(value)
         except (ValueError, SyntaxError):
@@ -112,30 +112,31 @@ class TokenParser(Parser):
             nextval = 1
 
         values = {}
-        for line in d["values"].splitlines():
-            for v in line.split(","):
-                key, _, val = v.partition("=")
-                key = key.strip()
-                val = val.strip()
-                if not key:
-                    continue
-
-                val = nextval if not val else Expression(self.cstruct, val).evaluate(values)
-
-                if enumtype == "flag":
-                    high_bit = val.bit_length() - 1
-                    nextval = 2 ** (high_bit + 1)
-                else:
-                    nextval = val + 1
+        # Members are separated by commas, or by newlines if the next line can't continue the current value
+        for v in re.split(r",|(?<=[a-zA-Z0-9_)])\s*[\r\n]\s*(?=[a-zA-Z_])", d["values"]):
+            key, _, val = v.partition("=")
+            key = key.strip()
+            # Expressions don't know about newlines
+            val = " ".join(val.split())
+            if not key:
+                continue
+
+            val = nextval if not val else Expression(self.cstruct, val).evaluate(values)
+
+            if enumtype == "flag":
+                high_bit = val.bit_length() - 1
+                nextval = 2 ** (high_bit + 1)
+            else:
+                nextval = val + 1
 
-                values[key] = val
+            values[key] = val
 
         if not d["type"]:
             d["type"] = "uint32"
 
         factory = self.cstruct._make_flag if enumtype == "flag" else self.cstruct._make_enum
 
-        enum = factory(d["name"] or "", self.cstruct.resolve(d["type"]), values)
+        enum = factory(d["name"] or "", self.cstruct.resolve(" ".join(d["type"].split())), values)
         if not enum.__name__:
             self.cstruct.consts.update(enum.__members__)
         else:
-- 
2.43.0


From 653e2ac86352873b1cd42a099f51245339dcdb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:31 +0000
Subject: [PATCH 20/42] fix: default values must not be shared between
 instances

---
 dissect/cstruct/types/base.py      |  3 +-
 dissect/cstruct/types/structure.py | 47 +++++++++++++++++++++++++-----
 2 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index 460334b..bd2579d 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -250,7 +250,8 @@ class BaseArray(BaseType):
     @classmethod
     def __default__(cls) -> BaseType:
         return type.__call__(
-            cls, [cls.type.__default__()] * (cls.num_entries if isinstance(cls.num_entries, int) else 0)
+            cls,
+            [cls.type.__default__() for _ in range(cls.num_entries if isinstance(cls.num_entries, int) else 0)],
         )
 
     @classmethod
diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 703d7e7..545b327 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 import io
 from contextlib import contextmanager
 from enum import Enum
-from functools import lru_cache
+from functools import lru_cache, wraps
 from itertools import chain
 from operator import attrgetter
 from textwrap import dedent
@@ -815,24 +815,54 @@ def _patch_attributes(func: FunctionType, fields: list[str], start: int = 0) ->
     )
 
 
+def _unshare_defaults(func: FunctionType, fields: list[Field], defaults: list[Any]) -> FunctionType:
+    """Wrap a generated ``__init__`` method so that instances never share a mutable default value.
+
+    Args:
+        func: The generated ``__init__`` method.
+        fields: List of fields.
+        defaults: The default values in the constants of the generated method.
+    """
+    mutable = [
+        (field._name, field.type, default)
+        for field, default in zip(fields, defaults)
+        if not isinstance(default, (int, float, bytes, str))
+    ]
+    if not mutable:
+        return func
+
+    @wraps(func)
+    def __init__(self: Structure, /, *args, **kwargs) -> None:
+        func(self, *args, **kwargs)
+        for name, type_, default in mutable:
+            if getattr(self, name) is default:
+                object.__setattr__(self, name, type_.__default__())
+
+    return __init__
+
+
 def _generate_structure__init__(fields: list[Field]) -> FunctionType:
     """Generates an ``__init__`` method for a structure with the specified fields.
 
     Args:
         fields: List of field names.
     """
+    fields = list(fields)
     field_names = [field._name for field in fields]
 
+    defaults = [field.type.__default__() for field in fields]
+
     template: FunctionType = _make_structure__init__(len(field_names))
-    return type(template)(
+    func = type(template)(
         template.__code__.replace(
-            co_consts=(None, *[field.type.__default__() for field in fields]),
+            co_consts=(None, *defaults),
             co_names=(*field_names,),
             co_varnames=("self", *field_names),
         ),
         template.__globals__,
         argdefs=template.__defaults__,
     )
+    return _unshare_defaults(func, fields, defaults)
 
 
 def _generate_union__init__(fields: list[Field]) -> FunctionType:
@@ -841,20 +871,21 @@ def _generate_union__init__(fields: list[Field]) -> FunctionType:
     Args:
         fields: List of field names.
     """
+    fields = list(fields)
     field_names = [field._name for field in fields]
 
+    defaults = [field.type.__default__() for field in fields]
+
     template: FunctionType = _make_union__init__(len(field_names))
-    return type(template)(
+    func = type(template)(
         template.__code__.replace(
-            co_consts=(
-                None,
-                *sum([(field._name, field.type.__default__()) for field in fields], ()),
-            ),
+            co_consts=(None, *chain.from_iterable(zip(field_names, defaults))),
             co_varnames=("self", *field_names),
         ),
         template.__globals__,
         argdefs=template.__defaults__,
     )
+    return _unshare_defaults(func, fields, defaults)
 
 
 def _generate__eq__(fields: list[str]) -> FunctionType:
-- 
2.43.0


From 5abfa73065becc9e1408b221d05746678b505411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:09 +0000
Subject: [PATCH 21/42] fix: array lengths must never be negative and must be
 enforced for elements of a dynamic size

---
 dissect/cstruct/cstruct.py    | 3 +++
 dissect/cstruct/types/base.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/cstruct.py b/dissect/cstruct/cstruct.py
index 548b3f5..2940935 100644
--- a/dissect/cstruct/cstruct.py
+++ b/dissect/cstruct/cstruct.py
@@ -347,6 +347,9 @@ class cstruct:
         return types.new_class(name, bases, {}, lambda ns: ns.update(attrs))
 
     def _make_array(self, type_: T, num_entries: int | Expression | None) -> type[Array[T]]:
+        if isinstance(num_entries, int):
+            num_entries = max(0, num_entries)
+
         null_terminated = False
         if num_entries is None:
             null_terminated = True
diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index bd2579d..7ea68a5 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -278,7 +278,7 @@ class BaseArray(BaseType):
         if cls.null_terminated:
             return cls.type._write_0(stream, data)
 
-        if not cls.dynamic and cls.num_entries != (actual_size := len(data)):
+        if isinstance(cls.num_entries, int) and cls.num_entries != (actual_size := len(data)):
             raise ArraySizeError(f"Expected static array size {cls.num_entries}, got {actual_size} instead.")
 
         return cls.type._write_array(stream, data)
-- 
2.43.0


From cffecfc90092361d93be70bf2c5d430197025471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:09 +0000
Subject: [PATCH 22/42] fix: array lengths must use preceding fields before
 constants of the same name

---
 dissect/cstruct/parser.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index b661aab..813e371 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -14,6 +14,8 @@ from dissect.cstruct.expression import Expression
 from dissect.cstruct.types import BaseArray, BaseType, Field, Structure
 
 if TYPE_CHECKING:
+    from collections.abc import Iterable
+
     from dissect.cstruct import cstruct
 
 
@@ -208,7 +210,7 @@ class TokenParser(Parser):
                 tokens.consume()
                 break
 
-            field = self._parse_field(tokens)
+            field = self._parse_field(tokens, [f._name for f in fields])
             fields.append(field)
 
         if register:
@@ -255,7 +257,7 @@ class TokenParser(Parser):
         d = ast.literal_eval(m.group(2))
         self.cstruct.lookups[m.group(1)] = {self.cstruct.consts[k]: v for k, v in d.items()}
 
-    def _parse_field(self, tokens: TokenConsumer) -> Field:
+    def _parse_field(self, tokens: TokenConsumer, names: Iterable[str] = ()) -> Field:
         type_ = None
         if tokens.next == self.TOK.IDENTIFIER:
             type_ = self.cstruct.resolve(self._identifier(tokens))
@@ -269,12 +271,14 @@ class TokenParser(Parser):
             raise ParserError(f"line {self._lineno(tokens.next)}: expected name")
         nametok = tokens.consume()
 
-        type_, name, bits = self._parse_field_type(type_, nametok.value)
+        type_, name, bits = self._parse_field_type(type_, nametok.value, names)
 
         tokens.eol()
         return Field(name.strip(), type_, bits)
 
-    def _parse_field_type(self, type_: type[BaseType], name: str) -> tuple[type[BaseType], str, int | None]:
+    def _parse_field_type(
+        self, type_: type[BaseType], name: str, names: Iterable[str] = ()
+    ) -> tuple[type[BaseType], str, int | None]:
         pattern = self.TOK.patterns[self.TOK.NAME]
         # Dirty trick because the regex expects a ; but we don't want it to be part of the value
         d = pattern.match(name + ";").groupdict()
@@ -297,10 +301,12 @@ class TokenParser(Parser):
                     count = None
                 else:
                     count = Expression(self.cstruct, count)
-                    try:
-                        count = count.evaluate()
-                    except Exception:
-                        pass
+                    # Preceding fields go before constants, so we can't know the value yet if there are any
+                    if not set(count.tokens).intersection(names):
+                        try:
+                            count = count.evaluate()
+                        except Exception:
+                            pass
 
                 if issubclass(type_, BaseArray) and count is None:
                     raise ParserError("Depth required for multi-dimensional array")
-- 
2.43.0


From 51deead4c3588d675960ac04cff4b89b39b89163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:35 +0000
Subject: [PATCH 23/42] fix: dumpstruct must not fail on bit fields and
 instances that were not parsed

---
 dissect/cstruct/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dissect/cstruct/utils.py b/dissect/cstruct/utils.py
index 0fce5a9..899f92c 100644
--- a/dissect/cstruct/utils.py
+++ b/dissect/cstruct/utils.py
@@ -153,13 +153,12 @@ def _dumpstruct(
     ci = 0
     out = [f"struct {structure.__class__.__name__}:"]
     foreground, background = None, None
+    # Bit fields have no size of their own, and instances that weren't parsed have no sizes at all
+    sizes = getattr(structure, "_sizes", {})
     for field in structure.__class__.__fields__:
-        if getattr(field.type, "anonymous", False):
-            continue
-
         if color:
             foreground, background = colors[ci % len(colors)]
-            palette.append((structure._sizes[field._name], background))
+            palette.append((sizes.get(field._name, 0), background))
         ci += 1
 
         value = getattr(structure, field._name)
-- 
2.43.0


From 900ac70a2920dace9a9cb504625bda60fd25d296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:35 +0000
Subject: [PATCH 24/42] fix: uint48 must not be named int48

---
 dissect/cstruct/cstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/cstruct.py b/dissect/cstruct/cstruct.py
index 2940935..cf2dc40 100644
--- a/dissect/cstruct/cstruct.py
+++ b/dissect/cstruct/cstruct.py
@@ -73,7 +73,7 @@ class cstruct:
             "int24": self._make_int_type("int24", 3, True, alignment=4),
             "uint24": self._make_int_type("uint24", 3, False, alignment=4),
             "int48": self._make_int_type("int48", 6, True, alignment=8),
-            "uint48": self._make_int_type("int48", 6, False, alignment=8),
+            "uint48": self._make_int_type("uint48", 6, False, alignment=8),
             "int128": self._make_int_type("int128", 16, True, alignment=16),
             "uint128": self._make_int_type("uint128", 16, False, alignment=16),
 
-- 
2.43.0


From a9e7549e170b8ec5a1cb3732c023709ea4a6df49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:55 +0000
Subject: [PATCH 25/42] fix: sizeof must accept type names of multiple words

---
 dissect/cstruct/expression.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/expression.py b/dissect/cstruct/expression.py
index 2dc3719..0a9cbe7 100644
--- a/dissect/cstruct/expression.py
+++ b/dissect/cstruct/expression.py
@@ -250,10 +250,15 @@ class Expression:
             elif current_token in self.unary_operators:
                 stack.append(current_token)
             elif current_token == "sizeof":
-                if len(tmp_expression) < i + 3 or (tmp_expression[i + 1] != "(" or tmp_expression[i + 3] != ")"):
+                # The name of a type can consist of multiple tokens, e.g. sizeof(unsigned int)
+                end = i + 2
+                while end < len(tmp_expression) and (tmp_expression[end][0].isalpha() or tmp_expression[end][0] == "_"):
+                    end += 1
+
+                if end == i + 2 or tmp_expression[i + 1 : i + 2] != ["("] or tmp_expression[end : end + 1] != [")"]:
                     raise ExpressionParserError("Invalid sizeof operation")
-                queue.append(len(self.cstruct.resolve(tmp_expression[i + 2])))
-                i += 3
+                queue.append(len(self.cstruct.resolve(" ".join(tmp_expression[i + 2 : end]))))
+                i = end
             elif current_token in operators:
                 while (
                     len(stack) != 0 and stack[-1] != "(" and (self.precedence(stack[-1], current_token))
-- 
2.43.0


From 84051a11ff082b5f0c87be43206b40fdfaed817c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:06 +0000
Subject: [PATCH 26/42] fix: anonymous structures must not be named after a
 pointer or array declaration

---
 dissect/cstruct/parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 813e371..4a96eec 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -161,12 +161,14 @@ class TokenParser(Parser):
 
         names.extend(self._names(tokens))
         for name in names:
-            if issubclass(type_, Structure) and type_.__anonymous__:
+            base_type = type_
+            type_, name, bits = self._parse_field_type(type_, name)
+
+            if type_ is base_type and issubclass(type_, Structure) and type_.__anonymous__:
                 type_.__anonymous__ = False
                 type_.__name__ = name
                 type_.__qualname__ = name
 
-            type_, name, bits = self._parse_field_type(type_, name)
             if bits is not None:
                 raise ParserError(f"line {self._lineno(tokens.previous)}: typedefs cannot have bitfields")
             self.cstruct.add_type(name, type_)
-- 
2.43.0


From 49fd988b4740c6e477659b1a36aa857897bb800d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:26 +0000
Subject: [PATCH 27/42] fix: stubs of aliases and nested structures must refer
 to the actual type

---
 dissect/cstruct/tools/stubgen.py | 67 +++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 22 deletions(-)

diff --git a/dissect/cstruct/tools/stubgen.py b/dissect/cstruct/tools/stubgen.py
index 8f30b6a..2fa93af 100644
--- a/dissect/cstruct/tools/stubgen.py
+++ b/dissect/cstruct/tools/stubgen.py
@@ -85,23 +85,36 @@ def generate_cstruct_stub(cs: cstruct, module_prefix: str = "", cls_name: str =
         if name in empty_cs.typedefs:
             continue
 
-        if typedef.__name__ in empty_cs.typedefs:
-            stub = f"{name}: TypeAlias = {cs_prefix}{typedef.__name__}"
-        elif typedef.__name__ in defined_names:
-            # Create an alias to the type if we have already seen it before.
-            stub = f"{name}: TypeAlias = {typedef.__name__}"
-        elif issubclass(typedef, (types.Enum, types.Flag)):
-            stub = generate_enum_stub(typedef, cs_prefix=cs_prefix, module_prefix=module_prefix)
-        elif issubclass(typedef, types.Structure):
-            stub = generate_structure_stub(typedef, cs_prefix=cs_prefix, module_prefix=module_prefix)
-        elif issubclass(typedef, types.BaseType):
-            stub = generate_generic_stub(typedef, cs_prefix=cs_prefix, module_prefix=module_prefix)
-        elif isinstance(typedef, str):
-            stub = f"{name}: TypeAlias = {typedef}"
+        typedef = cs.resolve(typedef)
+        type_name = typedef.__name__
+
+        if type_name in empty_cs.typedefs:
+            stub = f"{name}: TypeAlias = {cs_prefix}{type_name}"
+        elif issubclass(typedef, (types.Pointer, types.BaseArray)):
+            target = nested_type(typedef)
+            if issubclass(target, types.Structure) and not is_declared(target):
+                # There is no name to refer to
+                target_hint = f"{module_prefix}{target.__base__.__name__}"
+                typehint = generate_typehint(typedef, "", module_prefix).replace(target.__name__, target_hint)
+            else:
+                typehint = generate_typehint(typedef, cs_prefix, module_prefix)
+            stub = f"{name}: TypeAlias = {typehint}"
+        elif type_name in defined_names or (type_name != name and is_declared(typedef)):
+            # Create an alias to the type if it's defined under another name
+            stub = f"{name}: TypeAlias = {type_name}"
         else:
-            raise TypeError(f"Unknown typedef: {typedef}")
-
-        defined_names.add(typedef.__name__)
+            if issubclass(typedef, (types.Enum, types.Flag)):
+                stub = generate_enum_stub(typedef, cs_prefix=cs_prefix, module_prefix=module_prefix)
+            elif issubclass(typedef, types.Structure):
+                stub = generate_structure_stub(typedef, cs_prefix=cs_prefix, module_prefix=module_prefix)
+            elif issubclass(typedef, types.BaseType):
+                stub = generate_generic_stub(typedef, cs_prefix=cs_prefix, module_prefix=module_prefix)
+            else:
+                raise TypeError(f"Unknown typedef: {typedef}")
+
+            defined_names.add(type_name)
+            if type_name != name:
+                stub += f"\n{name}: TypeAlias = {type_name}"
 
         body.append(textwrap.indent(stub, prefix=indent))
 
@@ -111,6 +124,19 @@ def generate_cstruct_stub(cs: cstruct, module_prefix: str = "", cls_name: str =
     return "\n".join(header + body)
 
 
+def is_declared(type_: type[types.BaseType]) -> bool:
+    """Check whether a type is available on its cstruct instance under its own name."""
+    typedefs = type_.cs.typedefs
+    return type_.__name__ in typedefs and type_.cs.resolve(type_.__name__) is type_
+
+
+def nested_type(type_: type[types.BaseType]) -> type[types.BaseType]:
+    """Return the type of the elements of an array or the target of a pointer."""
+    while issubclass(type_, (types.BaseArray, types.Pointer)):
+        type_ = type_.type
+    return type_
+
+
 def generate_typehint(
     type_: type[types.BaseType],
     prefix: str = "",
@@ -161,17 +187,14 @@ def generate_structure_stub(
 
     args = ["self"]
     for field_name, field in structure.fields.items():
-        type_name = field.type.__name__
         inlined = False
 
         # If it's a structure and not globally defined, add an inline stub for it
-        nested_type = field.type
-        while issubclass(nested_type, types.BaseArray):
-            nested_type = nested_type.type
+        type_ = nested_type(field.type)
 
-        if issubclass(nested_type, types.Structure) and type_name not in structure.cs.typedefs:
+        if issubclass(type_, types.Structure) and not is_declared(type_):
             inlined = True
-            inline_stub = generate_structure_stub(nested_type, cs_prefix=cs_prefix, module_prefix=module_prefix)
+            inline_stub = generate_structure_stub(type_, cs_prefix=cs_prefix, module_prefix=module_prefix)
 
             result.append(textwrap.indent(inline_stub, prefix=indent))
 
-- 
2.43.0


From f19dd48e8b2e56cece4b7cb0b258502fc30ce182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:58 +0000
Subject: [PATCH 28/42] fix: stubs must be valid Python for anonymous enums,
 empty enums and Python keywords

---
 dissect/cstruct/tools/stubgen.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/dissect/cstruct/tools/stubgen.py b/dissect/cstruct/tools/stubgen.py
index 2fa93af..aebeea0 100644
--- a/dissect/cstruct/tools/stubgen.py
+++ b/dissect/cstruct/tools/stubgen.py
@@ -3,8 +3,10 @@ from __future__ import annotations
 import argparse
 import importlib
 import importlib.util
+import keyword
 import logging
 import textwrap
+from enum import Enum
 from pathlib import Path
 from typing import TYPE_CHECKING
 
@@ -74,15 +76,18 @@ def generate_cstruct_stub(cs: cstruct, module_prefix: str = "", cls_name: str =
 
     # Constants first
     for name, value in cs.consts.items():
-        if name in empty_cs.consts:
+        if name in empty_cs.consts or not is_valid_name(name):
             continue
+        if isinstance(value, Enum):
+            # Members of anonymous enums
+            value = value.value
         body.append(textwrap.indent(f"{name}: Literal[{value!r}] = ...", prefix=indent))
 
     defined_names = set()
 
     # Then typedefs
     for name, typedef in cs.typedefs.items():
-        if name in empty_cs.typedefs:
+        if name in empty_cs.typedefs or not is_valid_name(name):
             continue
 
         typedef = cs.resolve(typedef)
@@ -124,6 +129,11 @@ def generate_cstruct_stub(cs: cstruct, module_prefix: str = "", cls_name: str =
     return "\n".join(header + body)
 
 
+def is_valid_name(name: str) -> bool:
+    """Check whether a name from a definition can be declared in Python."""
+    return name.isidentifier() and not keyword.iskeyword(name)
+
+
 def is_declared(type_: type[types.BaseType]) -> bool:
     """Check whether a type is available on its cstruct instance under its own name."""
     typedefs = type_.cs.typedefs
@@ -169,7 +179,7 @@ def generate_enum_stub(
     module_prefix: str = "",
 ) -> str:
     result = [f"class {name_prefix}{enum.__name__}({module_prefix}{enum.__base__.__name__}):"]
-    result.extend(f"    {key} = ..." for key in enum.__members__)
+    result.extend([f"    {key} = ..." for key in enum.__members__ if is_valid_name(key)] or ["    ..."])
     result.append("")
 
     return "\n".join(result)
@@ -185,8 +195,12 @@ def generate_structure_stub(
 
     indent = " " * 4
 
-    args = ["self"]
+    # The name of the first argument can't be the name of a field too
+    args = ["self" if "self" not in structure.fields else "_self"]
     for field_name, field in structure.fields.items():
+        if not is_valid_name(field_name):
+            continue
+
         inlined = False
 
         # If it's a structure and not globally defined, add an inline stub for it
-- 
2.43.0


From bb583c81f6ece97a94a6107123631fce8dc16118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:17 +0000
Subject: [PATCH 29/42] fix: fields may be named self or cls

---
 dissect/cstruct/types/base.py      |  2 +-
 dissect/cstruct/types/structure.py | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index 7ea68a5..d47bf81 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -32,7 +32,7 @@ class MetaType(type):
     ArrayType: type[BaseArray] = "Array"
     """The array type for this type class."""
 
-    def __call__(cls, *args, **kwargs) -> Self:  # type: ignore
+    def __call__(cls, /, *args, **kwargs) -> Self:  # type: ignore
         """Adds support for ``TypeClass(bytes | file-like object)`` parsing syntax."""
         # TODO: add support for Type(cs) API to create new bounded type classes, similar to the old API?
         if len(args) == 1 and not isinstance(args[0], cls):
diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 545b327..7d027e3 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -67,7 +67,7 @@ class StructureMetaType(MetaType):
 
         return super().__new__(metacls, name, bases, classdict)
 
-    def __call__(cls, *args, **kwargs) -> Self:  # type: ignore
+    def __call__(cls, /, *args, **kwargs) -> Self:  # type: ignore
         if (
             cls.__fields__
             and len(args) == len(cls.__fields__) == 1
@@ -427,7 +427,7 @@ class Structure(BaseType, metaclass=StructureMetaType):
 class UnionMetaType(StructureMetaType):
     """Base metaclass for cstruct union type classes."""
 
-    def __call__(cls, *args, **kwargs) -> Self:  # type: ignore
+    def __call__(cls, /, *args, **kwargs) -> Self:  # type: ignore
         obj: Union = super().__call__(*args, **kwargs)
 
         # Calling with non-stream args or kwargs means we are initializing with values
@@ -815,6 +815,14 @@ def _patch_attributes(func: FunctionType, fields: list[str], start: int = 0) ->
     )
 
 
+def _self_name(field_names: list[str]) -> str:
+    """Return a name for the first argument of a generated method that is not the name of a field."""
+    name = "self"
+    while name in field_names:
+        name = f"_{name}"
+    return name
+
+
 def _unshare_defaults(func: FunctionType, fields: list[Field], defaults: list[Any]) -> FunctionType:
     """Wrap a generated ``__init__`` method so that instances never share a mutable default value.
 
@@ -857,7 +865,7 @@ def _generate_structure__init__(fields: list[Field]) -> FunctionType:
         template.__code__.replace(
             co_consts=(None, *defaults),
             co_names=(*field_names,),
-            co_varnames=("self", *field_names),
+            co_varnames=(_self_name(field_names), *field_names),
         ),
         template.__globals__,
         argdefs=template.__defaults__,
@@ -880,7 +888,7 @@ def _generate_union__init__(fields: list[Field]) -> FunctionType:
     func = type(template)(
         template.__code__.replace(
             co_consts=(None, *chain.from_iterable(zip(field_names, defaults))),
-            co_varnames=("self", *field_names),
+            co_varnames=(_self_name(field_names), *field_names),
         ),
         template.__globals__,
         argdefs=template.__defaults__,
-- 
2.43.0


From 9505e06623515e90b1871007dbb7b5999e4c4c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 30/42] fix: a field named flag must not be parsed as the start
 of a flag definition

---
 dissect/cstruct/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 4a96eec..fbb0532 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -61,7 +61,7 @@ class TokenParser(Parser):
         TOK.add(r"(?:struct|union)(?=\s|{)", "STRUCT")
         TOK.add(
             r"(?P<enumtype>enum|flag)\s+(?P<name>[^\s:{]+)?\s*(:\s"
-            r"*(?P<type>[^{]+?)\s*)?\{(?P<values>[^}]+)\}\s*(?=;)",
+            r"*(?P<type>[^{;]+?)\s*)?\{(?P<values>[^};]+)\}\s*(?=;)",
             "ENUM",
         )
         TOK.add(r"(?<=})\s*(?P<defs>(?:[a-zA-Z0-9_]+\s*,\s*)+[a-zA-Z0-9_]+)\s*(?=;)", "DEFS")
-- 
2.43.0


From 363f30cae866dd49915b0ced22c1cd27a5d922b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 31/42] fix: a failing commit must not leave a structure in an
 update

---
 dissect/cstruct/types/structure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 7d027e3..8c9a1b8 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -386,8 +386,9 @@ class StructureMetaType(MetaType):
             cls.__updating__ = True
             yield
         finally:
-            cls.commit()
+            # Committing can fail, don't get stuck in an update if it does
             cls.__updating__ = False
+            cls.commit()
 
     def commit(cls) -> None:
         classdict = cls._update_fields(cls.__fields__, cls.__align__)
-- 
2.43.0


From 7571c80635692d8fe2d12b729847dd35408970ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:43 +0000
Subject: [PATCH 32/42] fix: compiler must not drop arrays of types it does not
 support

---
 dissect/cstruct/compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 8303d9b..618d894 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -412,6 +412,9 @@ def _generate_struct_info(cs: cstruct, fields: list[Field], align: bool = False)
         elif issubclass(read_type, (Char, Wchar, Int)):
             yield field, count * read_type.size, "x"
 
+        elif not issubclass(read_type, Void):
+            raise TypeError(f"Unsupported type for compiler: {read_type}")
+
         size = count * read_type.size
         imaginary_offset += size
         if current_offset is not None:
-- 
2.43.0


From e3d0a7e40acd5eb78962813a76fbc0cedc08e49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:25 +0000
Subject: [PATCH 33/42] fix: unions must reject short reads instead of
 desynchronising the stream

---
 dissect/cstruct/types/structure.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 8c9a1b8..fc5e64b 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -508,11 +508,14 @@ class UnionMetaType(StructureMetaType):
             # The size of a dynamic union is the size of its largest field
             size = max(sizes[field._name] + (field.offset or 0) for field in cls.__fields__)
             stream.seek(start)
-            buf = stream.read(size)
         else:
             result = {}
             sizes = {}
-            buf = stream.read(cls.size)
+            size = cls.size
+
+        buf = stream.read(size)
+        if len(buf) != size:
+            raise EOFError(f"Read {len(buf)} bytes, but expected {size}")
 
         # Create the object and set the values
         # Using type.__call__ directly calls the __init__ method of the class
-- 
2.43.0


From 9ce87391a59aac5eecb9324efc7204da0b7bc1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:41 +0000
Subject: [PATCH 34/42] fix: members of a flag and of an enum are never equal

---
 dissect/cstruct/types/enum.py | 3 ++-
 dissect/cstruct/types/flag.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/types/enum.py b/dissect/cstruct/types/enum.py
index b0f9ab3..7aae001 100644
--- a/dissect/cstruct/types/enum.py
+++ b/dissect/cstruct/types/enum.py
@@ -184,7 +184,8 @@ class Enum(BaseType, IntEnum, metaclass=EnumMetaType):
             return f"{base}{value}"
 
     def __eq__(self, other: int | Enum) -> bool:
-        if isinstance(other, Enum) and other.__class__ is not self.__class__:
+        # Both enums and flags have the same metaclass
+        if isinstance(other.__class__, EnumMetaType) and other.__class__ is not self.__class__:
             return False
 
         # Python <= 3.10 compatibility
diff --git a/dissect/cstruct/types/flag.py b/dissect/cstruct/types/flag.py
index 7d2b4a9..0c36821 100644
--- a/dissect/cstruct/types/flag.py
+++ b/dissect/cstruct/types/flag.py
@@ -60,7 +60,8 @@ class Flag(BaseType, IntFlag, metaclass=EnumMetaType):
             return result
 
     def __eq__(self, other: int | Flag) -> bool:
-        if isinstance(other, Flag) and other.__class__ is not self.__class__:
+        # Both enums and flags have the same metaclass
+        if isinstance(other.__class__, EnumMetaType) and other.__class__ is not self.__class__:
             return False
 
         # Python <= 3.10 compatibility
-- 
2.43.0


From 3b4e08cb40a40e3dd5cfa0fe654c5bcb85ebc3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:53 +0000
Subject: [PATCH 35/42] fix: redeclaring an alias for the same target must not
 make it cyclic

---
 dissect/cstruct/cstruct.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/cstruct.py b/dissect/cstruct/cstruct.py
index cf2dc40..ccd66f6 100644
--- a/dissect/cstruct/cstruct.py
+++ b/dissect/cstruct/cstruct.py
@@ -217,8 +217,11 @@ class cstruct:
         Raises:
             ValueError: If the type already exists.
         """
-        if not replace and (name in self.typedefs and self.resolve(self.typedefs[name]) != self.resolve(type_)):
-            raise ValueError(f"Duplicate type: {name}")
+        if not replace and name in self.typedefs:
+            if self.resolve(self.typedefs[name]) != self.resolve(type_):
+                raise ValueError(f"Duplicate type: {name}")
+            # Keep the existing declaration, the new one may refer back to it
+            return
 
         self.typedefs[name] = type_
 
-- 
2.43.0


From 0a9f80c4e59e0b5244fce0b49a4a9f56acefa4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:20 +0000
Subject: [PATCH 36/42] fix: pointers in unions refer to the stream, not to the
 buffer of the union

---
 dissect/cstruct/types/structure.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index fc5e64b..7024a36 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -526,6 +526,7 @@ class UnionMetaType(StructureMetaType):
         object.__setattr__(obj, "_values", result)
         object.__setattr__(obj, "_sizes", sizes)
         object.__setattr__(obj, "_buf", buf)
+        object.__setattr__(obj, "_stream", stream)
 
         if cls.size is not None:
             obj._update()
@@ -574,6 +575,7 @@ class Union(Structure, metaclass=UnionMetaType):
     """Base class for cstruct union type classes."""
 
     _buf: bytes
+    _stream: BinaryIO | None = None
 
     def __eq__(self, other: object) -> bool:
         return self.__class__ is other.__class__ and bytes(self) == bytes(other)
@@ -609,6 +611,7 @@ class Union(Structure, metaclass=UnionMetaType):
 
     def _update(self) -> None:
         result, sizes = self.__class__._read_fields(io.BytesIO(self._buf))
+        _set_stream(list(result.values()), self._stream)
         self.__dict__.update(result)
         object.__setattr__(self, "_values", result)
         object.__setattr__(self, "_sizes", sizes)
@@ -674,6 +677,23 @@ class UnionProxy:
         self.__union__._rebuild(self.__attr__)
 
 
+def _set_stream(value: Any, stream: BinaryIO | None) -> None:
+    """Make the pointers in a union refer to the stream the union was read from, instead of the buffer of the union."""
+    while type(value) is UnionProxy:
+        value = value.__target__
+
+    if isinstance(value, Pointer):
+        value._stream = stream
+    elif isinstance(value, list):
+        for entry in value:
+            _set_stream(entry, stream)
+    elif isinstance(value, Structure):
+        if isinstance(value, Union):
+            object.__setattr__(value, "_stream", stream)
+        for field in value.__class__.__fields__:
+            _set_stream(getattr(value, field._name), stream)
+
+
 def attrsetter(path: str) -> Callable[[Any], Any]:
     path, _, attr = path.rpartition(".")
     path = path.split(".")
-- 
2.43.0


From af594a7a8795505ac9db6945fa2b5423660560a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:53 +0000
Subject: [PATCH 37/42] fix: alignment is relative to the start of the
 structure, compiled and interpreted readers disagreed on misaligned starts

---
 dissect/cstruct/compiler.py        | 4 ++--
 dissect/cstruct/types/structure.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 618d894..392d3e2 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -153,7 +153,7 @@ class _ReadSourceGenerator:
                 current_offset = field.offset
 
             if self.align and field.offset is None:
-                yield f"stream.seek(-stream.tell() & ({field.alignment} - 1), {io.SEEK_CUR})"
+                yield f"stream.seek(-(stream.tell() - o) & ({field.alignment} - 1), {io.SEEK_CUR})"
 
         for field in self.fields:
             field_type = field.type
@@ -243,7 +243,7 @@ class _ReadSourceGenerator:
         yield from flush()
 
         if self.align:
-            yield f"stream.seek(-stream.tell() & (cls.alignment - 1), {io.SEEK_CUR})"
+            yield f"stream.seek(-(stream.tell() - o) & (cls.alignment - 1), {io.SEEK_CUR})"
 
     def _generate_structure(self, field: Field) -> Iterator[str]:
         template = f"""
diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 7024a36..648095e 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -278,7 +278,7 @@ class StructureMetaType(MetaType):
                 and not (field.bits and bit_buffer._remaining and bit_buffer._type == bit_field_type)
             ):
                 # Previous field was dynamically sized and we need to align
-                offset += -offset & (field.alignment - 1)
+                offset += -(offset - struct_start) & (field.alignment - 1)
                 stream.seek(offset)
 
             if field.bits:
@@ -298,7 +298,7 @@ class StructureMetaType(MetaType):
 
         if cls.__align__:
             # Align the stream
-            stream.seek(-stream.tell() & (cls.alignment - 1), io.SEEK_CUR)
+            stream.seek(-(stream.tell() - struct_start) & (cls.alignment - 1), io.SEEK_CUR)
 
         # Using type.__call__ directly calls the __init__ method of the class
         # This is faster than calling cls() and bypasses the metaclass __call__ method
@@ -347,7 +347,7 @@ class StructureMetaType(MetaType):
                 )
                 if not bit_buffer._type or is_bitbuffer_boundary:
                     # Previous field was dynamically sized and we need to align
-                    align_pad = -offset & (field.alignment - 1)
+                    align_pad = -(offset - struct_start) & (field.alignment - 1)
                     stream.write(b"\x00" * align_pad)
                     offset += align_pad
 
@@ -369,7 +369,7 @@ class StructureMetaType(MetaType):
 
         if cls.__align__:
             # Align the stream
-            stream.write(b"\x00" * (-stream.tell() & (cls.alignment - 1)))
+            stream.write(b"\x00" * (-(stream.tell() - struct_start) & (cls.alignment - 1)))
 
         return num
 
-- 
2.43.0


From f7221c06ba1e568aeca0d43beea8c89e139998c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:33 +0000
Subject: [PATCH 38/42] fix: a bytes value together with keyword values is a
 field value, not data to parse

---
 dissect/cstruct/types/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index d47bf81..0cbadb0 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -35,7 +35,7 @@ class MetaType(type):
     def __call__(cls, /, *args, **kwargs) -> Self:  # type: ignore
         """Adds support for ``TypeClass(bytes | file-like object)`` parsing syntax."""
         # TODO: add support for Type(cs) API to create new bounded type classes, similar to the old API?
-        if len(args) == 1 and not isinstance(args[0], cls):
+        if len(args) == 1 and not kwargs and not isinstance(args[0], cls):
             stream = args[0]
 
             if _is_readable_type(stream):
-- 
2.43.0


From 7cf6a879a8d44f841e945a98dd63a4f6df5c7bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:33 +0000
Subject: [PATCH 39/42] fix: stubs of structures with fields named self and
 _self are valid Python

---
 dissect/cstruct/tools/stubgen.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/tools/stubgen.py b/dissect/cstruct/tools/stubgen.py
index aebeea0..9b06e52 100644
--- a/dissect/cstruct/tools/stubgen.py
+++ b/dissect/cstruct/tools/stubgen.py
@@ -196,7 +196,11 @@ def generate_structure_stub(
     indent = " " * 4
 
     # The name of the first argument can't be the name of a field too
-    args = ["self" if "self" not in structure.fields else "_self"]
+    self_name = "self"
+    while self_name in structure.fields:
+        self_name = f"_{self_name}"
+
+    args = [self_name]
     for field_name, field in structure.fields.items():
         if not is_valid_name(field_name):
             continue
-- 
2.43.0


From d0a3a56e16e54209458cf23d79ca212fc4674f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:33 +0000
Subject: [PATCH 40/42] fix: stubs don't declare __debug__, which Python can't
 assign to

---
 dissect/cstruct/tools/stubgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/tools/stubgen.py b/dissect/cstruct/tools/stubgen.py
index 9b06e52..95fdca5 100644
--- a/dissect/cstruct/tools/stubgen.py
+++ b/dissect/cstruct/tools/stubgen.py
@@ -131,7 +131,7 @@ def generate_cstruct_stub(cs: cstruct, module_prefix: str = "", cls_name: str =
 
 def is_valid_name(name: str) -> bool:
     """Check whether a name from a definition can be declared in Python."""
-    return name.isidentifier() and not keyword.iskeyword(name)
+    return name.isidentifier() and not keyword.iskeyword(name) and name != "__debug__"
 
 
 def is_declared(type_: type[types.BaseType]) -> bool:
-- 
2.43.0


From b922ec0c6ee0cdb7714bf5ea94407f39ae9da032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:05 +0000
Subject: [PATCH 41/42] fix: native byte order (@ and =) in compiled readers
 and bit-fields

---
 dissect/cstruct/bitbuffer.py    | 4 +++-
 dissect/cstruct/types/packed.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/bitbuffer.py b/dissect/cstruct/bitbuffer.py
index 393c868..fb007a5 100644
--- a/dissect/cstruct/bitbuffer.py
+++ b/dissect/cstruct/bitbuffer.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import sys
 from typing import TYPE_CHECKING, BinaryIO
 
 if TYPE_CHECKING:
@@ -11,7 +12,8 @@ class BitBuffer:
 
     def __init__(self, stream: BinaryIO, endian: str):
         self.stream = stream
-        self.endian = endian
+        # Native byte order is either little or big endian
+        self.endian = ("<" if sys.byteorder == "little" else ">") if endian in ("@", "=") else endian
 
         self._type: type[BaseType] | None = None
         self._buffer = 0
diff --git a/dissect/cstruct/types/packed.py b/dissect/cstruct/types/packed.py
index 80b1f57..6c77ad0 100644
--- a/dissect/cstruct/types/packed.py
+++ b/dissect/cstruct/types/packed.py
@@ -13,7 +13,8 @@ if TYPE_CHECKING:
 
 @lru_cache(1024)
 def _struct(endian: str, packchar: str) -> Struct:
-    return Struct(f"{endian}{packchar}")
+    # Native byte order, but never native sizes and alignment
+    return Struct(f"{'=' if endian == '@' else endian}{packchar}")
 
 
 T = TypeVar("T", int, float)
-- 
2.43.0


From e1d509ec64bc524423c8b86e8a9bb5ed7e7c4b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:44 +0000
Subject: [PATCH 42/42] fix: bit-fields of char do not share a storage unit
 with uint8 in compiled readers

---
 dissect/cstruct/compiler.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 392d3e2..611f231 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -266,18 +266,16 @@ class _ReadSourceGenerator:
     def _generate_bits(self, field: Field) -> Iterator[str]:
         lookup = self._map_field(field)
         read_type = "_t"
-        field_type = field.type
-        if issubclass(field_type, (Enum, Flag)):
+        value_type = "_t"
+        if issubclass(field.type, (Enum, Flag)):
             read_type += ".type"
-            field_type = field_type.type
-
-        if issubclass(field_type, Char):
-            field_type = field_type.cs.uint8
-            lookup = "cls.cs.uint8"
+        elif issubclass(field.type, Char):
+            # The value is an integer, but the storage unit is still that of a char
+            value_type = "cls.cs.uint8"
 
         template = f"""
         _t = {lookup}
-        r["{field._name}"] = type.__call__(_t, bit_reader.read({read_type}, {field.bits}))
+        r["{field._name}"] = type.__call__({value_type}, bit_reader.read({read_type}, {field.bits}))
         """
 
         yield dedent(template)
-- 
2.43.0

