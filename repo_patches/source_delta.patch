From 34b1d93c72d4f9e497c1bf6bffc1e2b809bf677e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 01/50] fix: compiled reader of an integer followed by one char
 failed with NameError

The 'Bx' format was mistaken for a padding-only format such as '2x', so the unpack statement was left out.
---
 dissect/cstruct/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 1b608a4..911f3d2 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -330,7 +330,7 @@ class _ReadSourceGenerator:
             size += field_type.size
 
         fmt = _optimize_struct_fmt(info)
-        if fmt == "x" or (len(fmt) == 2 and fmt[1] == "x"):
+        if fmt == "x" or (len(fmt) == 2 and fmt[0].isdigit() and fmt[1] == "x"):
             unpack = ""
         else:
             unpack = f'data = _struct(cls.cs.endian, "{fmt}").unpack(buf)\n'
-- 
2.43.0


From fa0e4c3dff2bd46686e1ebd5b8ab7be0042568b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:36 +0000
Subject: [PATCH 02/50] fix: compiled reader misread arrays of enums backed by
 arbitrary-width integers

An array of an enum or flag over e.g. uint24 was iterated byte by byte instead of element by element.
---
 dissect/cstruct/compiler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 911f3d2..4dee8e8 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -303,10 +303,10 @@ class _ReadSourceGenerator:
                 reads.append(f"_t = {self._map_field(field)}")
                 reads.append("_et = _t.type")
 
-                if issubclass(field_type.type, Int):
+                if issubclass(read_type, Int):
                     reads.append(f"_b = {getter}")
-                    item_parser = parser_template.format(type="_et", getter=f"_b[i:i + {field_type.type.size}]")
-                    list_comp = f"[{item_parser} for i in range(0, {count}, {field_type.type.size})]"
+                    item_parser = parser_template.format(type="_et", getter=f"_b[i:i + {read_type.size}]")
+                    list_comp = f"[{item_parser} for i in range(0, {count}, {read_type.size})]"
                 elif issubclass(field_type.type, Pointer):
                     item_parser = "_et.__new__(_et, e, stream, r)"
                     list_comp = f"[{item_parser} for e in {getter}]"
-- 
2.43.0


From 8efe8d1e3927fed0cd5549cc5b30bd58e9e29eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 03/50] fix: compiled reader failed on pointers with an
 arbitrary-width integer pointer type

With e.g. pointer="uint48" the raw bytes were passed to Pointer.__new__ instead of the decoded address.
---
 dissect/cstruct/compiler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 4dee8e8..e14d07e 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -305,7 +305,11 @@ class _ReadSourceGenerator:
 
                 if issubclass(read_type, Int):
                     reads.append(f"_b = {getter}")
-                    item_parser = parser_template.format(type="_et", getter=f"_b[i:i + {read_type.size}]")
+                    item_getter = f"_b[i:i + {read_type.size}]"
+                    if issubclass(field_type.type, Pointer):
+                        item_parser = f"_et.__new__(_et, _et.cs.pointer({item_getter}), stream, r)"
+                    else:
+                        item_parser = parser_template.format(type="_et", getter=item_getter)
                     list_comp = f"[{item_parser} for i in range(0, {count}, {read_type.size})]"
                 elif issubclass(field_type.type, Pointer):
                     item_parser = "_et.__new__(_et, e, stream, r)"
@@ -319,6 +323,8 @@ class _ReadSourceGenerator:
                 parser = f"type.__call__({self._map_field(field)}, {getter})"
             elif issubclass(field_type, Pointer):
                 reads.append(f"_pt = {self._map_field(field)}")
+                if issubclass(read_type, Int):
+                    getter = f"_pt.cs.pointer({getter})"
                 parser = f"_pt.__new__(_pt, {getter}, stream, r)"
             else:
                 parser = parser_template.format(type=self._map_field(field), getter=getter)
-- 
2.43.0


From 0f5a2b13397ecd4df3d6f48a64bea90c992afb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:16 +0000
Subject: [PATCH 04/50] fix: layout of bit fields after a dynamic field and of
 aligned 3 and 6 byte units

Two or more bit fields after a dynamically sized field raised a TypeError, and in aligned mode the second
bit field of a uint24 or uint48 unit was moved to a unit of its own.
---
 dissect/cstruct/types/structure.py | 35 +++++++++++++++++-------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index a1074af..8d19512 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -174,7 +174,24 @@ class StructureMetaType(MetaType):
                 # If a field already has an offset, it's leading
                 offset = field.offset
 
-            if align and offset is not None:
+            field_type = field.type
+            if isinstance(field_type, EnumMetaType):
+                field_type = field_type.type
+
+            continues_bits = (
+                field.bits
+                # Still room in the current bit field
+                and bits_remaining > 0
+                # Not moved to a bit field of another type, e.g. uint16 f1 : 8, uint32 f2 : 8;
+                and field_type == bits_type
+                # Not moved to a different offset due to a manual offset
+                and (
+                    field.offset is None
+                    or (bits_field_offset is not None and offset <= bits_field_offset + bits_type.size)
+                )
+            )
+
+            if align and offset is not None and not continues_bits:
                 # Round to next alignment
                 offset += -offset & (field.alignment - 1)
 
@@ -182,21 +199,9 @@ class StructureMetaType(MetaType):
             alignment = max(alignment, field.alignment)
 
             if field.bits:
-                field_type = field.type
-
-                if isinstance(field_type, EnumMetaType):
-                    field_type = field_type.type
-
                 # Bit fields have special logic
-                if (
-                    # Exhausted a bit field
-                    bits_remaining == 0
-                    # Moved to a bit field of another type, e.g. uint16 f1 : 8, uint32 f2 : 8;
-                    or field_type != bits_type
-                    # Still processing a bit field, but it's at a different offset due to alignment or a manual offset
-                    or (bits_type is not None and offset > bits_field_offset + bits_type.size)
-                ):
-                    # ... if any of this is true, we have to move to the next field
+                if not continues_bits:
+                    # We have to move to the next field
                     bits_type = field_type
                     bits_count = bits_type.size * 8
                     bits_remaining = bits_count
-- 
2.43.0


From a31f21d2399c3de77375b9dfd226bae3069136f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:47 +0000
Subject: [PATCH 05/50] fix: align relative to the start of the structure
 instead of the start of the stream

Padding after dynamic fields and at the end of an aligned structure was computed from the absolute stream
position, so an aligned structure nested at an unaligned offset was read and written with the wrong size.
---
 dissect/cstruct/compiler.py        | 6 +++---
 dissect/cstruct/types/structure.py | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index e14d07e..c24c705 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -142,7 +142,7 @@ class _ReadSourceGenerator:
         def flush() -> Iterator[str]:
             if current_block:
                 if self.align and current_block[0].offset is None:
-                    yield f"stream.seek(-stream.tell() & ({current_block[0].alignment} - 1), {io.SEEK_CUR})"
+                    yield f"stream.seek(-(stream.tell() - o) & ({current_block[0].alignment} - 1), {io.SEEK_CUR})"
 
                 yield from self._generate_packed(current_block)
                 current_block[:] = []
@@ -156,7 +156,7 @@ class _ReadSourceGenerator:
                 current_offset = field.offset
 
             if self.align and field.offset is None:
-                yield f"stream.seek(-stream.tell() & ({field.alignment} - 1), {io.SEEK_CUR})"
+                yield f"stream.seek(-(stream.tell() - o) & ({field.alignment} - 1), {io.SEEK_CUR})"
 
         for field in self.fields:
             field_type = field.type
@@ -221,7 +221,7 @@ class _ReadSourceGenerator:
         yield from flush()
 
         if self.align:
-            yield f"stream.seek(-stream.tell() & (cls.alignment - 1), {io.SEEK_CUR})"
+            yield f"stream.seek(-(stream.tell() - o) & (cls.alignment - 1), {io.SEEK_CUR})"
 
     def _generate_structure(self, field: Field) -> Iterator[str]:
         template = f"""
diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 8d19512..d20aaa6 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -260,7 +260,7 @@ class StructureMetaType(MetaType):
 
             if cls.__align__ and field.offset is None:
                 # Previous field was dynamically sized and we need to align
-                offset += -offset & (field.alignment - 1)
+                offset += -(offset - struct_start) & (field.alignment - 1)
                 stream.seek(offset)
 
             if field.bits:
@@ -281,7 +281,7 @@ class StructureMetaType(MetaType):
 
         if cls.__align__:
             # Align the stream
-            stream.seek(-stream.tell() & (cls.alignment - 1), io.SEEK_CUR)
+            stream.seek(-(stream.tell() - struct_start) & (cls.alignment - 1), io.SEEK_CUR)
 
         # Using type.__call__ directly calls the __init__ method of the class
         # This is faster than calling cls() and bypasses the metaclass __call__ method
@@ -330,7 +330,7 @@ class StructureMetaType(MetaType):
                 )
                 if not bit_buffer._type or is_bitbuffer_boundary:
                     # Previous field was dynamically sized and we need to align
-                    align_pad = -offset & (field.alignment - 1)
+                    align_pad = -(offset - struct_start) & (field.alignment - 1)
                     stream.write(b"\x00" * align_pad)
                     offset += align_pad
 
@@ -352,7 +352,7 @@ class StructureMetaType(MetaType):
 
         if cls.__align__:
             # Align the stream
-            stream.write(b"\x00" * (-stream.tell() & (cls.alignment - 1)))
+            stream.write(b"\x00" * (-(stream.tell() - struct_start) & (cls.alignment - 1)))
 
         return num
 
-- 
2.43.0


From afc6c6300b4de023b233183edb537ad2256f7d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 06/50] fix: compiled reader lost alignment in front of and
 inside a block of packed fields

No seek was generated when the first field of a block was not at the current position, e.g. after an aligned
nested structure or bit field, and after a dynamic field only the first field of a block was aligned.
---
 dissect/cstruct/compiler.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index c24c705..b42e6e2 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -141,9 +141,6 @@ class _ReadSourceGenerator:
 
         def flush() -> Iterator[str]:
             if current_block:
-                if self.align and current_block[0].offset is None:
-                    yield f"stream.seek(-(stream.tell() - o) & ({current_block[0].alignment} - 1), {io.SEEK_CUR})"
-
                 yield from self._generate_packed(current_block)
                 current_block[:] = []
 
@@ -212,7 +209,21 @@ class _ReadSourceGenerator:
 
             # Everything else - basic and composite types (and arrays of them)
             else:
+                if (
+                    current_block
+                    and self.align
+                    and field.offset is None
+                    and field.alignment > current_block[0].alignment
+                ):
+                    # We only know the block to be aligned to its first field, so start a new block
+                    yield from flush()
+
+                if not current_block:
+                    yield from align_to_field(field)
+
                 current_block.append(field)
+                if field.offset is not None:
+                    current_offset = field.offset
 
             if current_offset is not None and size is not None and (not field.bits or bits_rollover):
                 current_offset += size
-- 
2.43.0


From a96c7ec7a57f5f06bcbb3a37e643f43082c68257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 07/50] fix: reading an aligned 3 or 6 byte bit field unit
 after a dynamic field

The interpreted reader aligned the stream in front of every bit field, also when it continues the current unit.
---
 dissect/cstruct/types/structure.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index d20aaa6..0a5a958 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -258,7 +258,12 @@ class StructureMetaType(MetaType):
                 offset = struct_start + field.offset
                 stream.seek(offset)
 
-            if cls.__align__ and field.offset is None:
+            bit_field_type = (
+                (field.type.type if isinstance(field.type, EnumMetaType) else field.type) if field.bits else None
+            )
+            continues_bits = field.bits and bit_buffer._remaining > 0 and bit_buffer._type == bit_field_type
+
+            if cls.__align__ and field.offset is None and not continues_bits:
                 # Previous field was dynamically sized and we need to align
                 offset += -(offset - struct_start) & (field.alignment - 1)
                 stream.seek(offset)
-- 
2.43.0


From a9fba17262513769f8114ebb84a35cfc5e7cd806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:56 +0000
Subject: [PATCH 08/50] fix: compiled reader tracks bit field units like the
 interpreted reader

The remaining bits and the type of the current unit were not updated, the stream was aligned in the middle of
a unit, and a char bit field shared its unit with a following uint8 bit field.
---
 dissect/cstruct/compiler.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index b42e6e2..39036c8 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -195,16 +195,16 @@ class _ReadSourceGenerator:
                 if size is None:
                     raise TypeError(f"Unsupported type for bit field: {field_type}")
 
-                if not prev_was_bits:
-                    prev_bits_type = field_type
-                    prev_was_bits = True
+                yield from flush()
 
                 if bits_remaining == 0 or prev_bits_type != field_type:
-                    bits_remaining = (size * 8) - field.bits
+                    prev_bits_type = field_type
+                    bits_remaining = size * 8
                     bits_rollover = True
+                    yield from align_to_field(field)
 
-                yield from flush()
-                yield from align_to_field(field)
+                prev_was_bits = True
+                bits_remaining -= field.bits
                 yield from self._generate_bits(field)
 
             # Everything else - basic and composite types (and arrays of them)
@@ -261,7 +261,7 @@ class _ReadSourceGenerator:
             field_type = field_type.type
 
         if issubclass(field_type, Char):
-            field_type = field_type.cs.uint8
+            read_type = lookup
             lookup = "cls.cs.uint8"
 
         template = f"""
-- 
2.43.0


From 2ae6e6647b90137484f6394f21889fb6bdf9d596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:07 +0000
Subject: [PATCH 09/50] fix: compiled reader of a zero-length array next to
 byte-based fields failed with NameError

---
 dissect/cstruct/compiler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 39036c8..93da676 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -277,6 +277,7 @@ class _ReadSourceGenerator:
 
         size = 0
         slice_index = 0
+        uses_data = False
         for field, count, _ in info:
             if field is None:
                 # Padding
@@ -296,11 +297,13 @@ class _ReadSourceGenerator:
                 else:
                     getter = f"data[{slice_index}:{slice_index + count}]"
                     slice_index += count
+                    uses_data = True
             elif issubclass(read_type, (Char, Wchar, Int)):
                 getter = f"buf[{size}:{size + read_type.size}]"
             else:
                 getter = f"data[{slice_index}]"
                 slice_index += 1
+                uses_data = True
 
             if issubclass(read_type, (Wchar, Int)):
                 # Types that parse bytes further down to their own type
@@ -347,7 +350,7 @@ class _ReadSourceGenerator:
             size += field_type.size
 
         fmt = _optimize_struct_fmt(info)
-        if fmt == "x" or (len(fmt) == 2 and fmt[0].isdigit() and fmt[1] == "x"):
+        if not uses_data and (fmt == "x" or (len(fmt) == 2 and fmt[1] == "x")):
             unpack = ""
         else:
             unpack = f'data = _struct(cls.cs.endian, "{fmt}").unpack(buf)\n'
-- 
2.43.0


From c1ef39b314620c0ffd45a342d1c57232c30dd104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 10/50] fix: dumping bit fields of a signed type with the
 highest bit of the unit set raised struct.error

---
 dissect/cstruct/bitbuffer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dissect/cstruct/bitbuffer.py b/dissect/cstruct/bitbuffer.py
index 57b1fb4..53f06e1 100644
--- a/dissect/cstruct/bitbuffer.py
+++ b/dissect/cstruct/bitbuffer.py
@@ -6,6 +6,10 @@ if TYPE_CHECKING:
     from dissect.cstruct.types import BaseType
 
 
+def _is_signed(type_: type[BaseType]) -> bool:
+    return getattr(type_, "signed", False) or getattr(type_, "packchar", "").islower()
+
+
 class BitBuffer:
     """Implements a bit buffer that can read and write bit fields."""
 
@@ -71,6 +75,10 @@ class BitBuffer:
 
     def flush(self) -> None:
         if self._type is not None:
+            bits = self._type.size * 8
+            if self._buffer >> (bits - 1) and _is_signed(self._type):
+                # The storage unit is accumulated as an unsigned integer
+                self._buffer -= 1 << bits
             self._type._write(self.stream, self._buffer)
         self._type = None
         self._remaining = 0
-- 
2.43.0


From bbd720497d2f42e0742def5be21c8bb73e7698bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:15 +0000
Subject: [PATCH 11/50] fix: writing a value that does not fit its bit field
 corrupted neighbouring fields

Reject it instead, like integers that do not fit their type.
---
 dissect/cstruct/bitbuffer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dissect/cstruct/bitbuffer.py b/dissect/cstruct/bitbuffer.py
index 53f06e1..f655fb7 100644
--- a/dissect/cstruct/bitbuffer.py
+++ b/dissect/cstruct/bitbuffer.py
@@ -64,6 +64,9 @@ class BitBuffer:
         if self._type is None or self._type.size is None:
             raise ValueError("Invalid state")
 
+        if data < 0 or data >> bits:
+            raise ValueError(f"Value {data} does not fit in a bit field of {bits} bits")
+
         if self.endian == "<":
             self._buffer |= data << (self._type.size * 8 - self._remaining)
         else:
-- 
2.43.0


From c9b4df33d34541d5c75d9c2348fb4dc90e07c4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 12/50] fix: arrays to the end of the stream failed on a
 trailing partial element

x[EOF] takes every remaining whole element and leaves the stream right after the last one.
---
 dissect/cstruct/types/base.py   | 8 +++++++-
 dissect/cstruct/types/packed.py | 9 +++++++--
 dissect/cstruct/types/wchar.py  | 6 ++++++
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index 0c9e527..70e05fa 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -146,7 +146,13 @@ class MetaType(type):
         if count == EOF:
             result = []
             while not _is_eof(stream):
-                result.append(cls._read(stream, context))
+                pos = stream.tell()
+                try:
+                    result.append(cls._read(stream, context))
+                except EOFError:
+                    # Not a whole element anymore
+                    stream.seek(pos)
+                    break
             return result
 
         return [cls._read(stream, context) for _ in range(count)]
diff --git a/dissect/cstruct/types/packed.py b/dissect/cstruct/types/packed.py
index 76e7099..af9ed49 100644
--- a/dissect/cstruct/types/packed.py
+++ b/dissect/cstruct/types/packed.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import io
 from functools import lru_cache
 from struct import Struct
 from typing import TYPE_CHECKING, Any, BinaryIO, Generic, TypeVar
@@ -31,8 +32,12 @@ class Packed(BaseType, Generic[T]):
     def _read_array(cls, stream: BinaryIO, count: int, context: dict[str, Any] | None = None) -> list[Self]:
         if count == EOF:
             data = stream.read()
-            length = len(data)
-            count = length // cls.size
+            count = len(data) // cls.size
+            length = cls.size * count
+            if remainder := len(data) - length:
+                # Not a whole element anymore
+                stream.seek(-remainder, io.SEEK_CUR)
+                data = data[:length]
         else:
             length = cls.size * count
             data = stream.read(length)
diff --git a/dissect/cstruct/types/wchar.py b/dissect/cstruct/types/wchar.py
index 1cd8822..45c4eeb 100644
--- a/dissect/cstruct/types/wchar.py
+++ b/dissect/cstruct/types/wchar.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import io
 import sys
 from typing import Any, BinaryIO, ClassVar
 
@@ -60,6 +61,11 @@ class Wchar(str, BaseType):
         if count != EOF and len(data) != count:
             raise EOFError(f"Read {len(data)} bytes, but expected {count}")
 
+        if count == EOF and len(data) % 2:
+            # Not a whole character anymore
+            stream.seek(-1, io.SEEK_CUR)
+            data = data[:-1]
+
         return type.__call__(cls, data.decode(cls.__encoding_map__[cls.cs.endian]))
 
     @classmethod
-- 
2.43.0


From 5785fb5b68471142c0ca5fc0b7532dc9ccaf7a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:15 +0000
Subject: [PATCH 13/50] fix: array with a negative constant length had a
 negative size

---
 dissect/cstruct/cstruct.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dissect/cstruct/cstruct.py b/dissect/cstruct/cstruct.py
index 548b3f5..5e4a0a1 100644
--- a/dissect/cstruct/cstruct.py
+++ b/dissect/cstruct/cstruct.py
@@ -348,6 +348,10 @@ class cstruct:
 
     def _make_array(self, type_: T, num_entries: int | Expression | None) -> type[Array[T]]:
         null_terminated = False
+        if isinstance(num_entries, int):
+            # Same as when the length is only known when reading
+            num_entries = max(0, num_entries)
+
         if num_entries is None:
             null_terminated = True
             size = None
-- 
2.43.0


From 986f18e19280bced2db9697402715bc9d92b9dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 14/50] fix: a constant with the same name shadowed the field
 an array length refers to

Array lengths made of constants are evaluated when the definition is parsed, where a field is not in scope yet.
---
 dissect/cstruct/parser.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 6de850e..563cf5b 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -207,7 +207,7 @@ class TokenParser(Parser):
                 tokens.consume()
                 break
 
-            field = self._parse_field(tokens)
+            field = self._parse_field(tokens, fields)
             fields.append(field)
 
         if register:
@@ -254,7 +254,7 @@ class TokenParser(Parser):
         d = ast.literal_eval(m.group(2))
         self.cstruct.lookups[m.group(1)] = {self.cstruct.consts[k]: v for k, v in d.items()}
 
-    def _parse_field(self, tokens: TokenConsumer) -> Field:
+    def _parse_field(self, tokens: TokenConsumer, fields: list[Field]) -> Field:
         type_ = None
         if tokens.next == self.TOK.IDENTIFIER:
             type_ = self.cstruct.resolve(self._identifier(tokens))
@@ -268,12 +268,14 @@ class TokenParser(Parser):
             raise ParserError(f"line {self._lineno(tokens.next)}: expected name")
         nametok = tokens.consume()
 
-        type_, name, bits = self._parse_field_type(type_, nametok.value)
+        type_, name, bits = self._parse_field_type(type_, nametok.value, {field._name for field in fields})
 
         tokens.eol()
         return Field(name.strip(), type_, bits)
 
-    def _parse_field_type(self, type_: type[BaseType], name: str) -> tuple[type[BaseType], str, int | None]:
+    def _parse_field_type(
+        self, type_: type[BaseType], name: str, field_names: set[str] | None = None
+    ) -> tuple[type[BaseType], str, int | None]:
         pattern = self.TOK.patterns[self.TOK.NAME]
         # Dirty trick because the regex expects a ; but we don't want it to be part of the value
         d = pattern.match(name + ";").groupdict()
@@ -294,10 +296,12 @@ class TokenParser(Parser):
                     count = None
                 else:
                     count = Expression(self.cstruct, count)
-                    try:
-                        count = count.evaluate()
-                    except Exception:
-                        pass
+                    # Fields take precedence over constants with the same name, but are only known when reading
+                    if not field_names or field_names.isdisjoint(count.tokens):
+                        try:
+                            count = count.evaluate()
+                        except Exception:
+                            pass
 
                 if issubclass(type_, BaseArray) and count is None:
                     raise ParserError("Depth required for multi-dimensional array")
-- 
2.43.0


From f469e04a426b84bffcebff9f2a25ed2eb23020f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 15/50] fix: enum values of the legacy parser could not refer
 to earlier members

---
 dissect/cstruct/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 563cf5b..2d681ea 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -438,7 +438,7 @@ class CStyleParser(Parser):
                     if not key:
                         continue
 
-                    val = nextval if not val else Expression(self.cstruct, val).evaluate()
+                    val = nextval if not val else Expression(self.cstruct, val).evaluate(values)
 
                     if enumtype == "flag":
                         high_bit = val.bit_length() - 1
-- 
2.43.0


From 055c14a3941e9204de4e16d62c4f5fd7c7649204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:17 +0000
Subject: [PATCH 16/50] fix: negative values of signed flags were changed when
 parsed

IntFlag maps a negative value to the positive value with the corresponding known members set, so an int8 flag
read from 0xff had the value 3 and was dumped as 0x03.
---
 dissect/cstruct/types/flag.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dissect/cstruct/types/flag.py b/dissect/cstruct/types/flag.py
index 6740591..437b663 100644
--- a/dissect/cstruct/types/flag.py
+++ b/dissect/cstruct/types/flag.py
@@ -1,10 +1,15 @@
 from __future__ import annotations
 
 from enum import IntFlag
+from typing import TYPE_CHECKING
 
+from dissect.cstruct.bitbuffer import _is_signed
 from dissect.cstruct.types.base import BaseType
 from dissect.cstruct.types.enum import PY_311, EnumMetaType
 
+if TYPE_CHECKING:
+    from typing_extensions import Self
+
 
 class Flag(BaseType, IntFlag, metaclass=EnumMetaType):
     """Flag type supercharged with cstruct functionality.
@@ -70,3 +75,14 @@ class Flag(BaseType, IntFlag, metaclass=EnumMetaType):
 
     def __hash__(self) -> int:
         return hash((self.__class__, self.name, self.value))
+
+    @classmethod
+    def _missing_(cls, value: int) -> Self:
+        if isinstance(value, int) and value < 0 and _is_signed(cls.type):
+            # IntFlag would turn this into the positive value with the same bits of the known members set
+            new_member = int.__new__(cls, value)
+            new_member._name_ = None
+            new_member._value_ = value
+            return new_member
+
+        return super()._missing_(value)
-- 
2.43.0


From 9c5b9e4375d1ab733ddecb180ec40db736ba805e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:22 +0000
Subject: [PATCH 17/50] fix: equal enum members with a different name had
 different hashes

---
 dissect/cstruct/types/enum.py | 2 +-
 dissect/cstruct/types/flag.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/types/enum.py b/dissect/cstruct/types/enum.py
index 5b83056..6a14162 100644
--- a/dissect/cstruct/types/enum.py
+++ b/dissect/cstruct/types/enum.py
@@ -196,7 +196,7 @@ class Enum(BaseType, IntEnum, metaclass=EnumMetaType):
         return not self.__eq__(value)
 
     def __hash__(self) -> int:
-        return hash((self.__class__, self.name, self.value))
+        return hash((self.__class__, self.value))
 
     @classmethod
     def _missing_(cls, value: int) -> Self:
diff --git a/dissect/cstruct/types/flag.py b/dissect/cstruct/types/flag.py
index 437b663..0574799 100644
--- a/dissect/cstruct/types/flag.py
+++ b/dissect/cstruct/types/flag.py
@@ -74,7 +74,7 @@ class Flag(BaseType, IntFlag, metaclass=EnumMetaType):
         return not self.__eq__(value)
 
     def __hash__(self) -> int:
-        return hash((self.__class__, self.name, self.value))
+        return hash((self.__class__, self.value))
 
     @classmethod
     def _missing_(cls, value: int) -> Self:
-- 
2.43.0


From dbcc3f9950dd93fa179ea06801c50bd3fad223b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:45 +0000
Subject: [PATCH 18/50] fix: the uint48 type was named int48

---
 dissect/cstruct/cstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/cstruct.py b/dissect/cstruct/cstruct.py
index 5e4a0a1..bc675e1 100644
--- a/dissect/cstruct/cstruct.py
+++ b/dissect/cstruct/cstruct.py
@@ -73,7 +73,7 @@ class cstruct:
             "int24": self._make_int_type("int24", 3, True, alignment=4),
             "uint24": self._make_int_type("uint24", 3, False, alignment=4),
             "int48": self._make_int_type("int48", 6, True, alignment=8),
-            "uint48": self._make_int_type("int48", 6, False, alignment=8),
+            "uint48": self._make_int_type("uint48", 6, False, alignment=8),
             "int128": self._make_int_type("int128", 16, True, alignment=16),
             "uint128": self._make_int_type("uint128", 16, False, alignment=16),
 
-- 
2.43.0


From 960fb9b3e476281fbc361ae7b50f87a7e99e175b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:52 +0000
Subject: [PATCH 19/50] fix: bit fields and compiled structures in native byte
 order

The bit buffer treated "@" and "=" as big endian, and "@" made the struct module insert native alignment
between the members of a packed block.
---
 dissect/cstruct/bitbuffer.py    | 4 ++++
 dissect/cstruct/types/packed.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/dissect/cstruct/bitbuffer.py b/dissect/cstruct/bitbuffer.py
index f655fb7..bb424f1 100644
--- a/dissect/cstruct/bitbuffer.py
+++ b/dissect/cstruct/bitbuffer.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import sys
 from typing import TYPE_CHECKING, BinaryIO
 
 if TYPE_CHECKING:
@@ -15,6 +16,9 @@ class BitBuffer:
 
     def __init__(self, stream: BinaryIO, endian: str):
         self.stream = stream
+        if endian in ("@", "="):
+            # Native byte order
+            endian = "<" if sys.byteorder == "little" else ">"
         self.endian = endian
 
         self._type: type[BaseType] | None = None
diff --git a/dissect/cstruct/types/packed.py b/dissect/cstruct/types/packed.py
index af9ed49..899cc27 100644
--- a/dissect/cstruct/types/packed.py
+++ b/dissect/cstruct/types/packed.py
@@ -13,6 +13,8 @@ if TYPE_CHECKING:
 
 @lru_cache(1024)
 def _struct(endian: str, packchar: str) -> Struct:
+    # Native byte order, but never the native sizes and alignment
+    endian = "=" if endian == "@" else endian
     return Struct(f"{endian}{packchar}")
 
 
-- 
2.43.0


From 74b397a9df781b2140a4efb681eea03747c2f714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:25 +0000
Subject: [PATCH 20/50] fix: evaluation state of expressions was shared between
 evaluations

Array lengths are Expression objects attached to the (shared) array type. Threads that parse with the same
type, or a field whose conversion to int evaluates the same expression again, clobbered the work stacks.
---
 dissect/cstruct/expression.py | 57 +++++++++++++++++------------------
 1 file changed, 28 insertions(+), 29 deletions(-)

diff --git a/dissect/cstruct/expression.py b/dissect/cstruct/expression.py
index 6c48356..fc29cf2 100644
--- a/dissect/cstruct/expression.py
+++ b/dissect/cstruct/expression.py
@@ -191,8 +191,6 @@ class Expression:
         self.cstruct = cstruct
         self.expression = expression
         self.tokens = ExpressionTokenizer(expression).tokenize()
-        self.stack = []
-        self.queue = []
 
     def __repr__(self) -> str:
         return self.expression
@@ -200,24 +198,24 @@ class Expression:
     def precedence(self, o1: str, o2: str) -> bool:
         return self.precedence_levels[o1] >= self.precedence_levels[o2]
 
-    def evaluate_exp(self) -> None:
-        operator = self.stack.pop(-1)
+    def evaluate_exp(self, stack: list[str], queue: list[int]) -> None:
+        operator = stack.pop(-1)
         res = 0
 
-        if len(self.queue) < 1:
+        if len(queue) < 1:
             raise ExpressionParserError("Invalid expression: not enough operands")
 
-        right = self.queue.pop(-1)
+        right = queue.pop(-1)
         if operator in self.unary_operators:
             res = self.unary_operators[operator](right)
         else:
-            if len(self.queue) < 1:
+            if len(queue) < 1:
                 raise ExpressionParserError("Invalid expression: not enough operands")
 
-            left = self.queue.pop(-1)
+            left = queue.pop(-1)
             res = self.binary_operators[operator](left, right)
 
-        self.queue.append(res)
+        queue.append(res)
 
     def is_number(self, token: str) -> bool:
         return token.isnumeric() or (len(token) > 2 and token[0] == "0" and token[1] in ("x", "X", "b", "B", "o", "O"))
@@ -225,8 +223,9 @@ class Expression:
     def evaluate(self, context: dict[str, int] | None = None) -> int:
         """Evaluates an expression using a Shunting-Yard implementation."""
 
-        self.stack = []
-        self.queue = []
+        # The expression object is shared by all users of a type, so keep the evaluation state local
+        stack = []
+        queue = []
         operators = set(self.binary_operators.keys()) | set(self.unary_operators.keys())
 
         context = context or {}
@@ -246,24 +245,24 @@ class Expression:
         while i < len(tmp_expression):
             current_token = tmp_expression[i]
             if self.is_number(current_token):
-                self.queue.append(int(current_token, 0))
+                queue.append(int(current_token, 0))
             elif current_token in context:
-                self.queue.append(int(context[current_token]))
+                queue.append(int(context[current_token]))
             elif current_token in self.cstruct.consts:
-                self.queue.append(int(self.cstruct.consts[current_token]))
+                queue.append(int(self.cstruct.consts[current_token]))
             elif current_token in self.unary_operators:
-                self.stack.append(current_token)
+                stack.append(current_token)
             elif current_token == "sizeof":
                 if len(tmp_expression) < i + 3 or (tmp_expression[i + 1] != "(" or tmp_expression[i + 3] != ")"):
                     raise ExpressionParserError("Invalid sizeof operation")
-                self.queue.append(len(self.cstruct.resolve(tmp_expression[i + 2])))
+                queue.append(len(self.cstruct.resolve(tmp_expression[i + 2])))
                 i += 3
             elif current_token in operators:
                 while (
-                    len(self.stack) != 0 and self.stack[-1] != "(" and (self.precedence(self.stack[-1], current_token))
+                    len(stack) != 0 and stack[-1] != "(" and (self.precedence(stack[-1], current_token))
                 ):
-                    self.evaluate_exp()
-                self.stack.append(current_token)
+                    self.evaluate_exp(stack, queue)
+                stack.append(current_token)
             elif current_token == "(":
                 if i > 0:
                     previous_token = tmp_expression[i - 1]
@@ -272,7 +271,7 @@ class Expression:
                             f"Parser expected sizeof or an arethmethic operator instead got: '{previous_token}'"
                         )
 
-                self.stack.append(current_token)
+                stack.append(current_token)
             elif current_token == ")":
                 if i > 0:
                     previous_token = tmp_expression[i - 1]
@@ -281,24 +280,24 @@ class Expression:
                             f"Parser expected an expression, instead received empty parenthesis. Index: {i}"
                         )
 
-                if len(self.stack) == 0:
+                if len(stack) == 0:
                     raise ExpressionParserError("Invalid expression")
 
-                while self.stack[-1] != "(":
-                    self.evaluate_exp()
+                while stack[-1] != "(":
+                    self.evaluate_exp(stack, queue)
 
-                self.stack.pop(-1)
+                stack.pop(-1)
             else:
                 raise ExpressionParserError(f"Unmatched token: '{current_token}'")
             i += 1
 
-        while len(self.stack) != 0:
-            if self.stack[-1] == "(":
+        while len(stack) != 0:
+            if stack[-1] == "(":
                 raise ExpressionParserError("Invalid expression")
 
-            self.evaluate_exp()
+            self.evaluate_exp(stack, queue)
 
-        if len(self.queue) != 1:
+        if len(queue) != 1:
             raise ExpressionParserError("Invalid expression")
 
-        return self.queue[0]
+        return queue[0]
-- 
2.43.0


From b10b92da981b724c555099ed0a37f386c9eb874b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 21/50] fix: unary minus in an expression was mistaken for an
 identifier named u

A field or constant named "u" replaced every unary minus, and the unknown identifier "u" was accepted as an
operator.
---
 dissect/cstruct/expression.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dissect/cstruct/expression.py b/dissect/cstruct/expression.py
index fc29cf2..b421ffe 100644
--- a/dissect/cstruct/expression.py
+++ b/dissect/cstruct/expression.py
@@ -167,7 +167,8 @@ class Expression:
     }
 
     unary_operators: ClassVar[dict[str, Callable[[int], int]]] = {
-        "u": lambda a: -a,
+        # Unary minus, marked differently to be distinguishable from a binary minus and from identifiers
+        "-u": lambda a: -a,
         "~": lambda a: ~a,
     }
 
@@ -182,7 +183,7 @@ class Expression:
         "*": 5,
         "/": 5,
         "%": 5,
-        "u": 6,
+        "-u": 6,
         "~": 6,
         "sizeof": 6,
     }
@@ -235,10 +236,10 @@ class Expression:
         for i in range(len(self.tokens)):
             if self.tokens[i] == "-":
                 if i == 0:
-                    self.tokens[i] = "u"
+                    self.tokens[i] = "-u"
                     continue
-                if self.tokens[i - 1] in operators or self.tokens[i - 1] == "u" or self.tokens[i - 1] == "(":
-                    self.tokens[i] = "u"
+                if self.tokens[i - 1] in operators or self.tokens[i - 1] == "(":
+                    self.tokens[i] = "-u"
                     continue
 
         i = 0
-- 
2.43.0


From 7d977c87bab8e47b21479929ef78642231a76cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:05 +0000
Subject: [PATCH 22/50] fix: sizeof of a type name of multiple words was
 rejected

---
 dissect/cstruct/expression.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/expression.py b/dissect/cstruct/expression.py
index b421ffe..2bf8682 100644
--- a/dissect/cstruct/expression.py
+++ b/dissect/cstruct/expression.py
@@ -254,10 +254,15 @@ class Expression:
             elif current_token in self.unary_operators:
                 stack.append(current_token)
             elif current_token == "sizeof":
-                if len(tmp_expression) < i + 3 or (tmp_expression[i + 1] != "(" or tmp_expression[i + 3] != ")"):
+                if tmp_expression[i + 1 : i + 2] != ["("] or ")" not in tmp_expression[i + 3 :]:
                     raise ExpressionParserError("Invalid sizeof operation")
-                queue.append(len(self.cstruct.resolve(tmp_expression[i + 2])))
-                i += 3
+                end = tmp_expression.index(")", i + 3)
+                # Type names can consist of multiple words
+                words = tmp_expression[i + 2 : end]
+                if len(words) > 1 and not all(word.isidentifier() for word in words):
+                    raise ExpressionParserError("Invalid sizeof operation")
+                queue.append(len(self.cstruct.resolve(" ".join(words))))
+                i = end
             elif current_token in operators:
                 while (
                     len(stack) != 0 and stack[-1] != "(" and (self.precedence(stack[-1], current_token))
-- 
2.43.0


From 6ec5530e8e4834e800ecb4a4dc09cb6ca38386dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:27 +0000
Subject: [PATCH 23/50] fix: pack of negative values without a size, unpack of
 sizes that are not a multiple of 8

pack(-129) did not reserve room for the sign bit, and unpack rejected what pack made of e.g. 12 bits.
---
 dissect/cstruct/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/utils.py b/dissect/cstruct/utils.py
index 0345598..721db2c 100644
--- a/dissect/cstruct/utils.py
+++ b/dissect/cstruct/utils.py
@@ -224,7 +224,8 @@ def pack(value: int, size: int | None = None, endian: str = "little") -> bytes:
         size: Integer size in bits.
         endian: Endianness to use (little, big, network, <, > or !)
     """
-    size = ((size or value.bit_length()) + 7) // 8
+    # Negative values need a sign bit
+    size = ((size or (value.bit_length() if value >= 0 else (~value).bit_length() + 1)) + 7) // 8
     return value.to_bytes(size, ENDIANNESS_MAP.get(endian, endian), signed=value < 0)
 
 
@@ -237,8 +238,8 @@ def unpack(value: bytes, size: int | None = None, endian: str = "little", sign:
         endian: Endianness to use (little, big, network, <, > or !)
         sign: Signedness of the integer.
     """
-    if size and len(value) != size // 8:
-        raise ValueError(f"Invalid byte value, expected {size // 8} bytes, got {len(value)} bytes")
+    if size and len(value) != (size + 7) // 8:
+        raise ValueError(f"Invalid byte value, expected {(size + 7) // 8} bytes, got {len(value)} bytes")
     return int.from_bytes(value, ENDIANNESS_MAP.get(endian, endian), signed=sign)
 
 
-- 
2.43.0


From f8d83c575be8ca28fd9e0fe63ff8e8ca7dd691c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:31 +0000
Subject: [PATCH 24/50] fix: failed dereference of a pointer moved the stream

---
 dissect/cstruct/types/pointer.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/dissect/cstruct/types/pointer.py b/dissect/cstruct/types/pointer.py
index 289e400..569a5fa 100644
--- a/dissect/cstruct/types/pointer.py
+++ b/dissect/cstruct/types/pointer.py
@@ -89,16 +89,18 @@ class Pointer(int, BaseType, Generic[T]):
         if self._value is None and not issubclass(self.type, Void):
             # Read current position of file read/write pointer
             position = self._stream.tell()
-            # Reposition the file read/write pointer
-            self._stream.seek(self)
+            try:
+                # Reposition the file read/write pointer
+                self._stream.seek(self)
+
+                if issubclass(self.type, Char):
+                    # this makes the assumption that a char pointer is a null-terminated string
+                    value = self.type._read_0(self._stream, self._context)
+                else:
+                    value = self.type._read(self._stream, self._context)
+            finally:
+                self._stream.seek(position)
 
-            if issubclass(self.type, Char):
-                # this makes the assumption that a char pointer is a null-terminated string
-                value = self.type._read_0(self._stream, self._context)
-            else:
-                value = self.type._read(self._stream, self._context)
-
-            self._stream.seek(position)
             self._value = value
 
         return self._value
-- 
2.43.0


From b0c647d8c0bcb53bfbb9ae661b732ac341de87b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:05 +0000
Subject: [PATCH 25/50] fix: dumpstruct with color failed on structures with
 bit fields

---
 dissect/cstruct/utils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/utils.py b/dissect/cstruct/utils.py
index 721db2c..e7d3a42 100644
--- a/dissect/cstruct/utils.py
+++ b/dissect/cstruct/utils.py
@@ -153,13 +153,23 @@ def _dumpstruct(
     ci = 0
     out = [f"struct {structure.__class__.__name__}:"]
     foreground, background = None, None
+    bits_type, bits_remaining = None, 0
     for field in structure.__class__.__fields__:
         if getattr(field.type, "anonymous", False):
             continue
 
         if color:
             foreground, background = colors[ci % len(colors)]
-            palette.append((structure._sizes[field._name], background))
+            if field.bits:
+                # Bit fields don't have a size of their own, so color the storage unit for its first bit field
+                field_type = field.type.type if issubclass(field.type, Enum) else field.type
+                if field_type is not bits_type or bits_remaining == 0:
+                    bits_type, bits_remaining = field_type, field_type.size * 8
+                    palette.append((field_type.size, background))
+                bits_remaining -= field.bits
+            else:
+                bits_type = None
+                palette.append((structure._sizes[field._name], background))
         ci += 1
 
         value = getattr(structure, field._name)
-- 
2.43.0


From 1cc0195a5ea9244ea54c679da9dd071fbe475447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:30 +0000
Subject: [PATCH 26/50] fix: default constructed instances shared their arrays
 and nested structures

The default values were created once per class, and the entries of an array default were all the same object,
so that modifying a default constructed instance changed other instances and later default constructions.
---
 dissect/cstruct/types/base.py      |  6 +--
 dissect/cstruct/types/structure.py | 60 ++++++++++++++++++++++++++++++
 2 files changed, 63 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index 70e05fa..b7580e3 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -249,9 +249,9 @@ class BaseArray(BaseType):
 
     @classmethod
     def __default__(cls) -> BaseType:
-        return type.__call__(
-            cls, [cls.type.__default__()] * (cls.num_entries if isinstance(cls.num_entries, int) else 0)
-        )
+        num_entries = cls.num_entries if isinstance(cls.num_entries, int) else 0
+        # Every entry is its own default value
+        return type.__call__(cls, [cls.type.__default__() for _ in range(num_entries)])
 
     @classmethod
     def _read(cls, stream: BinaryIO, context: dict[str, Any] | None = None) -> list[BaseType]:
diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 0a5a958..e66d302 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -689,6 +689,22 @@ def _make_structure__init__(fields: list[str]) -> str:
     return code + (field_init or " pass")
 
 
+@_codegen
+def _make_structure_mutable__init__(fields: list[str]) -> str:
+    """Generates an ``__init__`` method for a structure of which some fields have a mutable default value.
+
+    Args:
+        fields: List of field names.
+    """
+    field_args = ", ".join(f"{field} = None" for field in fields)
+    field_init = "\n".join(
+        f" self.{name} = {name} if {name} is not None else _default[{i}]()" for i, name in enumerate(fields)
+    )
+
+    code = f"def __init__(self{', ' + field_args or ''}):\n"
+    return code + (field_init or " pass")
+
+
 @_codegen
 def _make_union__init__(fields: list[str]) -> str:
     """Generates an ``__init__`` method for a class with the specified fields using setattr.
@@ -705,6 +721,23 @@ def _make_union__init__(fields: list[str]) -> str:
     return code + (field_init or " pass")
 
 
+@_codegen
+def _make_union_mutable__init__(fields: list[str]) -> str:
+    """Generates an ``__init__`` method using setattr for a class of which some fields have a mutable default value.
+
+    Args:
+        fields: List of field names.
+    """
+    field_args = ", ".join(f"{field} = None" for field in fields)
+    field_init = "\n".join(
+        f" object.__setattr__(self, '{name}', {name} if {name} is not None else _default[{i}]())"
+        for i, name in enumerate(fields)
+    )
+
+    code = f"def __init__(self{', ' + field_args or ''}):\n"
+    return code + (field_init or " pass")
+
+
 @_codegen
 def _make__eq__(fields: list[str]) -> str:
     """Generates an ``__eq__`` method for a class with the specified fields.
@@ -779,6 +812,11 @@ def _patch_attributes(func: FunctionType, fields: list[str], start: int = 0) ->
     )
 
 
+def _has_mutable_default(field: Field) -> bool:
+    """Return whether the default value of a field can be modified, and thus can't be shared between instances."""
+    return issubclass(field.type, (Structure, list))
+
+
 def _generate_structure__init__(fields: list[Field]) -> FunctionType:
     """Generates an ``__init__`` method for a structure with the specified fields.
 
@@ -787,6 +825,17 @@ def _generate_structure__init__(fields: list[Field]) -> FunctionType:
     """
     field_names = [field._name for field in fields]
 
+    if any(_has_mutable_default(field) for field in fields):
+        template: FunctionType = _make_structure_mutable__init__(len(field_names))
+        return type(template)(
+            template.__code__.replace(
+                co_names=("_default", *field_names),
+                co_varnames=("self", *field_names),
+            ),
+            {"_default": [field.type.__default__ for field in fields]},
+            argdefs=template.__defaults__,
+        )
+
     template: FunctionType = _make_structure__init__(len(field_names))
     return type(template)(
         template.__code__.replace(
@@ -807,6 +856,17 @@ def _generate_union__init__(fields: list[Field]) -> FunctionType:
     """
     field_names = [field._name for field in fields]
 
+    if any(_has_mutable_default(field) for field in fields):
+        template: FunctionType = _make_union_mutable__init__(len(field_names))
+        return type(template)(
+            template.__code__.replace(
+                co_consts=(None, *sum([(name, i) for i, name in enumerate(field_names)], ())),
+                co_varnames=("self", *field_names),
+            ),
+            {"_default": [field.type.__default__ for field in fields]},
+            argdefs=template.__defaults__,
+        )
+
     template: FunctionType = _make_union__init__(len(field_names))
     return type(template)(
         template.__code__.replace(
-- 
2.43.0


From 0d12a7da49bfe46d7880479faebd3e0a1b340f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:46 +0000
Subject: [PATCH 27/50] fix: assignment in a structure nested more than one
 level deep in a union raised KeyError

---
 dissect/cstruct/types/structure.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index e66d302..64e883a 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -593,13 +593,15 @@ class Union(Structure, metaclass=UnionMetaType):
         object.__setattr__(self, "_sizes", sizes)
 
     def _proxify(self) -> None:
-        def _proxy_structure(value: Structure) -> None:
+        def _proxy_structure(value: Structure, attr: str | None = None) -> None:
             for field in value.__class__.__fields__:
                 if issubclass(field.type, Structure):
                     nested_value = getattr(value, field._name)
-                    proxy = UnionProxy(self, field._name, nested_value)
+                    # Modifications at any depth require a rebuild from the member of this union they are a part of
+                    union_attr = attr or field._name
+                    proxy = UnionProxy(self, union_attr, nested_value)
                     object.__setattr__(value, field._name, proxy)
-                    _proxy_structure(nested_value)
+                    _proxy_structure(nested_value, union_attr)
 
         _proxy_structure(self)
 
-- 
2.43.0


From b136bd2150c4356a89f9e465dbec954afa35177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:20 +0000
Subject: [PATCH 28/50] fix: assignments in nested structures and unions of a
 union

Every modification of a union replaces its nested structures. A reference to a nested structure obtained before
that modified the replaced object, so the second assignment through it was lost. Unions nested in a union that
contain structures themselves could not be parsed, and fields of anonymous structures could not be assigned. A
failed assignment left the value behind in the member.
---
 dissect/cstruct/types/structure.py | 71 ++++++++++++++++++------------
 1 file changed, 43 insertions(+), 28 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 64e883a..baba85f 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -564,13 +564,17 @@ class Union(Structure, metaclass=UnionMetaType):
             raise NotImplementedError("Modifying a dynamic union is not yet supported")
 
         super().__setattr__(attr, value)
+        if attr in self.__class__.fields and attr not in self.__class__.lookup:
+            # A field of an anonymous structure, which has been assigned through its proxy
+            return
+
         self._rebuild(attr)
 
     def _rebuild(self, attr: str) -> None:
-        if (cur_buf := getattr(self, "_buf", None)) is None:
-            cur_buf = b"\x00" * self.__class__.size
+        if getattr(self, "_buf", None) is None:
+            object.__setattr__(self, "_buf", b"\x00" * self.__class__.size)
 
-        buf = io.BytesIO(cur_buf)
+        buf = io.BytesIO(self._buf)
         field = self.__class__.lookup[attr]
         if field.offset:
             buf.seek(field.offset)
@@ -578,13 +582,15 @@ class Union(Structure, metaclass=UnionMetaType):
         if (value := getattr(self, attr)) is None:
             value = field.type.__default__()
 
-        field.type._write(buf, value)
-
-        object.__setattr__(self, "_buf", buf.getvalue())
-        self._update()
+        try:
+            field.type._write(buf, value)
+            object.__setattr__(self, "_buf", buf.getvalue())
+        finally:
+            # If the value couldn't be written this restores the previous values
+            self._update()
 
-        # (Re-)proxify all values
-        self._proxify()
+            # (Re-)proxify all values
+            self._proxify()
 
     def _update(self) -> None:
         result, sizes = self.__class__._read_fields(io.BytesIO(self._buf))
@@ -593,28 +599,34 @@ class Union(Structure, metaclass=UnionMetaType):
         object.__setattr__(self, "_sizes", sizes)
 
     def _proxify(self) -> None:
-        def _proxy_structure(value: Structure, attr: str | None = None) -> None:
-            for field in value.__class__.__fields__:
-                if issubclass(field.type, Structure):
-                    nested_value = getattr(value, field._name)
-                    # Modifications at any depth require a rebuild from the member of this union they are a part of
-                    union_attr = attr or field._name
-                    proxy = UnionProxy(self, union_attr, nested_value)
-                    object.__setattr__(value, field._name, proxy)
-                    _proxy_structure(nested_value, union_attr)
-
-        _proxy_structure(self)
+        for field in self.__class__.__fields__:
+            if issubclass(field.type, Structure):
+                value = getattr(self, field._name)
+                if not isinstance(value, UnionProxy):
+                    self._values[field._name] = value
+                    object.__setattr__(self, field._name, UnionProxy(self, (field._name,)))
 
 
 class UnionProxy:
+    """Proxy for a (nested) structure of a union, so that modifying it modifies the union.
+
+    The nested structures are replaced on every modification of the union, so refer to them by their attribute path.
+    """
+
     __union__: Union
-    __attr__: str
-    __target__: Structure
+    __path__: tuple[str, ...]
 
-    def __init__(self, union: Union, attr: str, target: Structure):
+    def __init__(self, union: Union, path: tuple[str, ...]):
         object.__setattr__(self, "__union__", union)
-        object.__setattr__(self, "__attr__", attr)
-        object.__setattr__(self, "__target__", target)
+        object.__setattr__(self, "__path__", path)
+
+    @property
+    def __target__(self) -> Structure | UnionProxy:
+        name, *path = self.__path__
+        value = self.__union__._values[name]
+        for name in path:
+            value = getattr(value, name)
+        return value
 
     def __len__(self) -> int:
         return len(self.__target__.dumps())
@@ -623,17 +635,20 @@ class UnionProxy:
         return self.__target__.dumps()
 
     def __getitem__(self, item: str) -> Any:
-        return getattr(self.__target__, item)
+        return getattr(self, item)
 
     def __repr__(self) -> str:
         return repr(self.__target__)
 
     def __getattr__(self, attr: str) -> Any:
-        return getattr(self.__target__, attr)
+        value = getattr(self.__target__, attr)
+        if isinstance(value, (Structure, UnionProxy)):
+            return UnionProxy(self.__union__, (*self.__path__, attr))
+        return value
 
     def __setattr__(self, attr: str, value: Any) -> None:
         setattr(self.__target__, attr, value)
-        self.__union__._rebuild(self.__attr__)
+        self.__union__._rebuild(self.__path__[0])
 
 
 def attrsetter(path: str) -> Callable[[Any], Any]:
-- 
2.43.0


From b7c63343754a59ee1c3f33dc06160ea7a63b6149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:34 +0000
Subject: [PATCH 29/50] fix: structures of a union never compared equal, had
 unequal hashes and were never false

This also made equal unions (and structures holding them) hash differently, and null-terminated arrays of unions
with structures never end.
---
 dissect/cstruct/types/structure.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index baba85f..c3ae9cc 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -628,6 +628,20 @@ class UnionProxy:
             value = getattr(value, name)
         return value
 
+    @property
+    def __class__(self) -> type[Structure]:
+        # Behave like an instance of the structure in comparisons
+        return self.__target__.__class__
+
+    def __eq__(self, other: object) -> bool:
+        return self.__target__ == other
+
+    def __hash__(self) -> int:
+        return hash(self.__target__)
+
+    def __bool__(self) -> bool:
+        return bool(self.__target__)
+
     def __len__(self) -> int:
         return len(self.__target__.dumps())
 
-- 
2.43.0


From 3553dbf52813f232db930a3fbb8387d500a275c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 30/50] fix: data of a union member in the padding of another
 member was lost

Dumping a union wrote its largest member (or just a smaller one, if the largest was an anonymous structure), and
assigning a member zeroed what is padding in that member.
---
 dissect/cstruct/types/structure.py | 76 ++++++++++++++++++++----------
 1 file changed, 52 insertions(+), 24 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index c3ae9cc..d45539a 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -12,6 +12,7 @@ from typing import TYPE_CHECKING, Any, BinaryIO, Callable
 
 from dissect.cstruct.bitbuffer import BitBuffer
 from dissect.cstruct.types.base import (
+    BaseArray,
     BaseType,
     MetaType,
     _is_buffer_type,
@@ -527,28 +528,16 @@ class UnionMetaType(StructureMetaType):
 
         # Sort by largest field
         fields = sorted(cls.__fields__, key=lambda e: e.type.size or 0, reverse=True)
-        anonymous_struct = False
 
-        # Try to write by largest field
-        for field in fields:
-            if isinstance(field.type, StructureMetaType) and field.name is None:
-                # Prefer to write regular fields initially
-                anonymous_struct = field.type
-                continue
-
-            # Write the value
-            field.type._write(stream, getattr(data, field._name))
-            break
-
-        # If we haven't written anything yet and we initially skipped an anonymous struct, write it now
-        if stream.tell() == offset and anonymous_struct:
-            anonymous_struct._write(stream, data)
+        # Start with the smallest field, larger fields only leave it their padding
+        buf = bytearray(len(cls))
+        for field in reversed(fields):
+            if (value := getattr(data, field._name, None)) is None:
+                value = field.type.__default__()
 
-        # If we haven't filled the union size yet, pad it
-        if remaining := expected_offset - stream.tell():
-            stream.write(b"\x00" * remaining)
+            _update_buffer(buf, field, value)
 
-        return stream.tell() - offset
+        return stream.write(buf)
 
 
 class Union(Structure, metaclass=UnionMetaType):
@@ -574,17 +563,15 @@ class Union(Structure, metaclass=UnionMetaType):
         if getattr(self, "_buf", None) is None:
             object.__setattr__(self, "_buf", b"\x00" * self.__class__.size)
 
-        buf = io.BytesIO(self._buf)
+        buf = bytearray(self._buf)
         field = self.__class__.lookup[attr]
-        if field.offset:
-            buf.seek(field.offset)
 
         if (value := getattr(self, attr)) is None:
             value = field.type.__default__()
 
         try:
-            field.type._write(buf, value)
-            object.__setattr__(self, "_buf", buf.getvalue())
+            _update_buffer(buf, field, value)
+            object.__setattr__(self, "_buf", bytes(buf))
         finally:
             # If the value couldn't be written this restores the previous values
             self._update()
@@ -665,6 +652,47 @@ class UnionProxy:
         self.__union__._rebuild(self.__path__[0])
 
 
+def _update_buffer(buf: bytearray, field: Field, value: Any) -> None:
+    """Update the bytes of a union with the value of one of its fields, except for what is padding in that field."""
+    data = field.type.dumps(value)
+
+    for i, (value_byte, mask_byte) in enumerate(zip(data, _data_mask(field.type)), start=field.offset or 0):
+        buf[i] = (buf[i] & ~mask_byte) | (value_byte & mask_byte)
+
+
+def _data_mask(type_: type[BaseType]) -> bytes:
+    """Return a mask of the bits that hold data, i.e. are not padding, in values of the given fixed size type."""
+    if issubclass(type_, BaseArray):
+        return _data_mask(type_.type) * type_.num_entries
+
+    if not issubclass(type_, Structure):
+        return b"\xff" * type_.size
+
+    if issubclass(type_, Union):
+        mask = bytearray(type_.size)
+        for field in type_.__fields__:
+            for i, mask_byte in enumerate(_data_mask(field.type), start=field.offset or 0):
+                mask[i] |= mask_byte
+        return bytes(mask)
+
+    stream = io.BytesIO(b"\x00" * type_.size)
+    bit_buffer = BitBuffer(stream, type_.cs.endian)
+    for field in type_.__fields__:
+        if field.offset is not None:
+            # Anything but a bit field that continues in the current storage unit
+            bit_buffer.flush()
+            stream.seek(field.offset)
+
+        if field.bits:
+            field_type = field.type.type if isinstance(field.type, EnumMetaType) else field.type
+            bit_buffer.write(field_type, (1 << field.bits) - 1, field.bits)
+        else:
+            stream.write(_data_mask(field.type))
+
+    bit_buffer.flush()
+    return stream.getvalue()
+
+
 def attrsetter(path: str) -> Callable[[Any], Any]:
     path, _, attr = path.rpartition(".")
     path = path.split(".")
-- 
2.43.0


From b4b6d712acdf2ab00944407e66af7cfddf6333a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 31/50] fix: the width of bit fields in a union was ignored

---
 dissect/cstruct/types/structure.py | 38 ++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index d45539a..8023d1b 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -445,6 +445,9 @@ class UnionMetaType(StructureMetaType):
         alignment = 0
 
         for field in fields:
+            if field.bits and field.bits > len(field.type) * 8:
+                raise ValueError("Straddled bit fields are unsupported")
+
             if size is not None:
                 try:
                     size = max(len(field.type), size)
@@ -482,7 +485,14 @@ class UnionMetaType(StructureMetaType):
                 start = field.offset
 
             buf.seek(offset + start)
-            value = field_type._read(buf, result)
+            if field.bits:
+                bit_buffer = BitBuffer(buf, cls.cs.endian)
+                if isinstance(field_type, EnumMetaType):
+                    value = field_type(bit_buffer.read(field_type.type, field.bits))
+                else:
+                    value = bit_buffer.read(field_type, field.bits)
+            else:
+                value = field_type._read(buf, result)
 
             sizes[field._name] = buf.tell() - start
             result[field._name] = value
@@ -563,7 +573,8 @@ class Union(Structure, metaclass=UnionMetaType):
         if getattr(self, "_buf", None) is None:
             object.__setattr__(self, "_buf", b"\x00" * self.__class__.size)
 
-        buf = bytearray(self._buf)
+        # Tail padding may have been missing when reading
+        buf = bytearray(self._buf.ljust(self.__class__.size, b"\x00"))
         field = self.__class__.lookup[attr]
 
         if (value := getattr(self, attr)) is None:
@@ -654,12 +665,29 @@ class UnionProxy:
 
 def _update_buffer(buf: bytearray, field: Field, value: Any) -> None:
     """Update the bytes of a union with the value of one of its fields, except for what is padding in that field."""
-    data = field.type.dumps(value)
+    if field.bits:
+        data = _dump_bits(field, value.value if isinstance(field.type, EnumMetaType) else value)
+    else:
+        data = field.type.dumps(value)
 
-    for i, (value_byte, mask_byte) in enumerate(zip(data, _data_mask(field.type)), start=field.offset or 0):
+    for i, (value_byte, mask_byte) in enumerate(zip(data, _field_mask(field)), start=field.offset or 0):
         buf[i] = (buf[i] & ~mask_byte) | (value_byte & mask_byte)
 
 
+def _dump_bits(field: Field, value: int) -> bytes:
+    """Dump the storage unit of a bit field that doesn't share it with other bit fields."""
+    stream = io.BytesIO()
+    bit_buffer = BitBuffer(stream, field.type.cs.endian)
+    bit_buffer.write(field.type.type if isinstance(field.type, EnumMetaType) else field.type, value, field.bits)
+    bit_buffer.flush()
+    return stream.getvalue()
+
+
+def _field_mask(field: Field) -> bytes:
+    """Return a mask of the bits that hold data in the given field of a union."""
+    return _dump_bits(field, (1 << field.bits) - 1) if field.bits else _data_mask(field.type)
+
+
 def _data_mask(type_: type[BaseType]) -> bytes:
     """Return a mask of the bits that hold data, i.e. are not padding, in values of the given fixed size type."""
     if issubclass(type_, BaseArray):
@@ -671,7 +699,7 @@ def _data_mask(type_: type[BaseType]) -> bytes:
     if issubclass(type_, Union):
         mask = bytearray(type_.size)
         for field in type_.__fields__:
-            for i, mask_byte in enumerate(_data_mask(field.type), start=field.offset or 0):
+            for i, mask_byte in enumerate(_field_mask(field), start=field.offset or 0):
                 mask[i] |= mask_byte
         return bytes(mask)
 
-- 
2.43.0


From 363c02fbdd5dad09ac823a02596d5ea28a2195f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:56 +0000
Subject: [PATCH 32/50] fix: pointers in a union were dereferenced relative to
 the union instead of the stream

---
 dissect/cstruct/types/pointer.py   |  3 ++-
 dissect/cstruct/types/structure.py | 14 ++++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/types/pointer.py b/dissect/cstruct/types/pointer.py
index 569a5fa..5d38652 100644
--- a/dissect/cstruct/types/pointer.py
+++ b/dissect/cstruct/types/pointer.py
@@ -23,7 +23,8 @@ class Pointer(int, BaseType, Generic[T]):
 
     def __new__(cls, value: int, stream: BinaryIO | None, context: dict[str, Any] | None = None) -> Self:
         obj = super().__new__(cls, value)
-        obj._stream = stream
+        # Pointers in a union refer to the stream the union was read from
+        obj._stream = getattr(stream, "pointer_stream", stream)
         obj._context = context
         obj._value = None
         return obj
diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 8023d1b..09a8a25 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -413,6 +413,14 @@ class Structure(BaseType, metaclass=StructureMetaType):
         return f"<{self.__class__.__name__} {' '.join(values)}>"
 
 
+class _UnionBuffer(io.BytesIO):
+    """Bytes of a union to read its fields from, of which the pointers refer to the stream they came from."""
+
+    def __init__(self, buf: bytes, stream: BinaryIO | None):
+        super().__init__(buf)
+        self.pointer_stream = stream.pointer_stream if isinstance(stream, _UnionBuffer) else stream
+
+
 class UnionMetaType(StructureMetaType):
     """Base metaclass for cstruct union type classes."""
 
@@ -475,7 +483,7 @@ class UnionMetaType(StructureMetaType):
             buf = stream
         else:
             offset = 0
-            buf = io.BytesIO(stream.read(cls.size))
+            buf = _UnionBuffer(stream.read(cls.size), stream)
 
         for field in cls.__fields__:
             field_type = cls.cs.resolve(field.type)
@@ -520,6 +528,7 @@ class UnionMetaType(StructureMetaType):
         object.__setattr__(obj, "_values", result)
         object.__setattr__(obj, "_sizes", sizes)
         object.__setattr__(obj, "_buf", buf)
+        object.__setattr__(obj, "_stream", stream)
 
         if cls.size is not None:
             obj._update()
@@ -554,6 +563,7 @@ class Union(Structure, metaclass=UnionMetaType):
     """Base class for cstruct union type classes."""
 
     _buf: bytes
+    _stream: BinaryIO | None = None
 
     def __eq__(self, other: object) -> bool:
         return self.__class__ is other.__class__ and bytes(self) == bytes(other)
@@ -591,7 +601,7 @@ class Union(Structure, metaclass=UnionMetaType):
             self._proxify()
 
     def _update(self) -> None:
-        result, sizes = self.__class__._read_fields(io.BytesIO(self._buf))
+        result, sizes = self.__class__._read_fields(_UnionBuffer(self._buf, self._stream))
         self.__dict__.update(result)
         object.__setattr__(self, "_values", result)
         object.__setattr__(self, "_sizes", sizes)
-- 
2.43.0


From 31f1e70a88afe8d1685b81f064d12507ee1950ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:56 +0000
Subject: [PATCH 33/50] fix: whitespace and comments between tokens changed or
 broke definitions

---
 dissect/cstruct/parser.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 2d681ea..36d9394 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -58,15 +58,19 @@ class TokenParser(Parser):
         TOK.add(r"typedef(?=\s)", "TYPEDEF")
         TOK.add(r"(?:struct|union)(?=\s|{)", "STRUCT")
         TOK.add(
-            r"(?P<enumtype>enum|flag)\s+(?P<name>[^\s:{]+)?\s*(:\s"
-            r"*(?P<type>[^{]+?)\s*)?\{(?P<values>[^}]+)\}\s*(?=;)",
+            r"(?P<enumtype>enum|flag)\s+(?P<name>[^\s:;{]+)?\s*(:\s"
+            r"*(?P<type>[^{;]+?)\s*)?\{(?P<values>[^}]+)\}\s*(?=;)",
             "ENUM",
         )
         TOK.add(r"(?<=})\s*(?P<defs>(?:[a-zA-Z0-9_]+\s*,\s*)+[a-zA-Z0-9_]+)\s*(?=;)", "DEFS")
-        TOK.add(r"(?P<name>\**?\s*[a-zA-Z0-9_]+)(?:\s*:\s*(?P<bits>\d+))?(?:\[(?P<count>[^;\n]*)\])?\s*(?=;)", "NAME")
+        TOK.add(
+            r"(?P<name>(?:\*\s*)*[a-zA-Z0-9_]+)(?:\s*:\s*(?P<bits>\d+))?"
+            r"\s*(?:\[(?P<count>[^;\n]*(?:\]\s*\[[^;\n]*)*)\])?\s*(?=;)",
+            "NAME",
+        )
         TOK.add(r"[a-zA-Z_][a-zA-Z0-9_]*", "IDENTIFIER")
         TOK.add(r"[{}]", "BLOCK")
-        TOK.add(r"\$(?P<name>[^\s]+) = (?P<value>{[^}]+})\w*[\r\n]+", "LOOKUP")
+        TOK.add(r"\$(?P<name>[^\s]+)\s+=\s+(?P<value>{[^}]+})\w*\s*[\r\n]+", "LOOKUP")
         TOK.add(r";", "EOL")
         TOK.add(r"\s+", None)
         TOK.add(r".", None)
@@ -84,7 +88,7 @@ class TokenParser(Parser):
         pattern = self.TOK.patterns[self.TOK.DEFINE]
         match = pattern.match(const.value).groupdict()
 
-        value = match["value"]
+        value = match["value"].rstrip()
         try:
             value = ast.literal_eval(value)
         except (ValueError, SyntaxError):
@@ -111,8 +115,11 @@ class TokenParser(Parser):
         if enumtype == "flag":
             nextval = 1
 
+        # Members can also be separated by just a newline, but a newline next to an operator is just whitespace
+        members = re.sub(r"(?<=[^\w\s)])\s+|\s+(?=[^\w\s])", " ", d["values"])
+
         values = {}
-        for line in d["values"].splitlines():
+        for line in members.splitlines():
             for v in line.split(","):
                 key, _, val = v.partition("=")
                 key = key.strip()
@@ -130,8 +137,7 @@ class TokenParser(Parser):
 
                 values[key] = val
 
-        if not d["type"]:
-            d["type"] = "uint32"
+        d["type"] = " ".join(d["type"].split()) if d["type"] else "uint32"
 
         factory = self.cstruct._make_flag if enumtype == "flag" else self.cstruct._make_enum
 
@@ -284,15 +290,15 @@ class TokenParser(Parser):
         count_expression = d["count"]
 
         while name.startswith("*"):
-            name = name[1:]
+            name = name[1:].lstrip()
             type_ = self.cstruct._make_pointer(type_)
 
         if count_expression is not None:
             # Poor mans multi-dimensional array by abusing the eager regex match of count
-            counts = count_expression.split("][") if "][" in count_expression else [count_expression]
+            counts = re.split(r"\]\s*\[", count_expression)
 
             for count in reversed(counts):
-                if count == "":
+                if not count.strip():
                     count = None
                 else:
                     count = Expression(self.cstruct, count)
@@ -331,7 +337,7 @@ class TokenParser(Parser):
     @staticmethod
     def _remove_comments(string: str) -> str:
         # https://stackoverflow.com/a/18381470
-        pattern = r"(\".*?\"|\'.*?\')|(/\*.*?\*/|//[^\r\n]*$)"
+        pattern = r"(\".*?\"|\'.*?\')|(/\*.*?\*/|//[^\r\n]*)"
         # first group captures quoted strings (double or single)
         # second group captures comments (//single-line or /* multi-line */)
         regex = re.compile(pattern, re.MULTILINE | re.DOTALL)
@@ -340,7 +346,8 @@ class TokenParser(Parser):
             # if the 2nd group (capturing comments) is not None,
             # it means we have captured a non-quoted (real) comment string.
             if comment := match.group(2):
-                return "\n" * comment.count("\n")  # so we will return empty to remove the comment
+                # so we will return whitespace to remove the comment, which still separates the surrounding tokens
+                return "\n" * comment.count("\n") or " "
             # otherwise, we will return the 1st group
             return match.group(1)  # captured quoted-string
 
@@ -357,7 +364,7 @@ class TokenParser(Parser):
         flag_token = tokens.consume()
         pattern = self.TOK.patterns[self.TOK.CONFIG_FLAG]
         tok_dict = pattern.match(flag_token.value).groupdict()
-        tokens.flags.extend(tok_dict["values"].split(","))
+        tokens.flags.extend(value.strip() for value in tok_dict["values"].split(","))
 
     def parse(self, data: str) -> None:
         scanner = re.Scanner(self.TOK.tokens)
-- 
2.43.0


From 4f987bde26857e1ecc9d2cda48ad6366d84f4813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:45 +0000
Subject: [PATCH 34/50] fix: typedef of a pointer to or array of an anonymous
 structure renamed the structure

---
 dissect/cstruct/parser.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 36d9394..ac4b485 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -164,15 +164,17 @@ class TokenParser(Parser):
 
         names.extend(self._names(tokens))
         for name in names:
-            if issubclass(type_, Structure) and type_.__anonymous__:
+            alias, name, bits = self._parse_field_type(type_, name)
+            if bits is not None:
+                raise ParserError(f"line {self._lineno(tokens.previous)}: typedefs cannot have bitfields")
+
+            # An array of, or pointer to, an anonymous structure doesn't name the structure itself
+            if alias is type_ and issubclass(type_, Structure) and type_.__anonymous__:
                 type_.__anonymous__ = False
                 type_.__name__ = name
                 type_.__qualname__ = name
 
-            type_, name, bits = self._parse_field_type(type_, name)
-            if bits is not None:
-                raise ParserError(f"line {self._lineno(tokens.previous)}: typedefs cannot have bitfields")
-            self.cstruct.add_type(name, type_)
+            self.cstruct.add_type(name, alias)
 
     def _struct(self, tokens: TokenConsumer, register: bool = False) -> type[Structure]:
         stype = tokens.consume()
-- 
2.43.0


From ee850d65ac494a273554c0bf0cff8e5a8ce116f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:49 +0000
Subject: [PATCH 35/50] fix: invalid stubs for aliases, anonymous enums, inline
 structures and unusual names

---
 dissect/cstruct/tools/stubgen.py | 98 +++++++++++++++++++++++++-------
 1 file changed, 77 insertions(+), 21 deletions(-)

diff --git a/dissect/cstruct/tools/stubgen.py b/dissect/cstruct/tools/stubgen.py
index 8f30b6a..4369b19 100644
--- a/dissect/cstruct/tools/stubgen.py
+++ b/dissect/cstruct/tools/stubgen.py
@@ -1,8 +1,10 @@
 from __future__ import annotations
 
 import argparse
+import ast
 import importlib
 import importlib.util
+import keyword
 import logging
 import textwrap
 from pathlib import Path
@@ -76,32 +78,44 @@ def generate_cstruct_stub(cs: cstruct, module_prefix: str = "", cls_name: str =
     for name, value in cs.consts.items():
         if name in empty_cs.consts:
             continue
-        body.append(textwrap.indent(f"{name}: Literal[{value!r}] = ...", prefix=indent))
+        if not is_declarable(name):
+            body.append(textwrap.indent(f"# {name} is not a valid Python name", prefix=indent))
+            continue
+        body.append(textwrap.indent(f"{name}: {generate_constant_typehint(value)} = ...", prefix=indent))
 
-    defined_names = set()
+    defined_types = {}
 
     # Then typedefs
     for name, typedef in cs.typedefs.items():
         if name in empty_cs.typedefs:
             continue
 
+        if not is_declarable(name):
+            body.append(textwrap.indent(f"# {name} is not a valid Python name", prefix=indent))
+            continue
+
+        # Could be the name of another type
+        typedef = cs.resolve(typedef)
+
         if typedef.__name__ in empty_cs.typedefs:
             stub = f"{name}: TypeAlias = {cs_prefix}{typedef.__name__}"
-        elif typedef.__name__ in defined_names:
+        elif typedef in defined_types:
             # Create an alias to the type if we have already seen it before.
-            stub = f"{name}: TypeAlias = {typedef.__name__}"
+            stub = f"{name}: TypeAlias = {defined_types[typedef]}"
+        elif issubclass(typedef, (types.BaseArray, types.Pointer)):
+            # These don't have a name of their own
+            type_hint, stub = generate_nested_typehint(cs, typedef, cs_prefix, module_prefix)
+            stub += f"{name}: TypeAlias = {type_hint}"
         elif issubclass(typedef, (types.Enum, types.Flag)):
             stub = generate_enum_stub(typedef, cs_prefix=cs_prefix, module_prefix=module_prefix)
         elif issubclass(typedef, types.Structure):
             stub = generate_structure_stub(typedef, cs_prefix=cs_prefix, module_prefix=module_prefix)
         elif issubclass(typedef, types.BaseType):
             stub = generate_generic_stub(typedef, cs_prefix=cs_prefix, module_prefix=module_prefix)
-        elif isinstance(typedef, str):
-            stub = f"{name}: TypeAlias = {typedef}"
         else:
             raise TypeError(f"Unknown typedef: {typedef}")
 
-        defined_names.add(typedef.__name__)
+        defined_types.setdefault(typedef, name)
 
         body.append(textwrap.indent(stub, prefix=indent))
 
@@ -111,6 +125,48 @@ def generate_cstruct_stub(cs: cstruct, module_prefix: str = "", cls_name: str =
     return "\n".join(header + body)
 
 
+def is_declarable(name: str) -> bool:
+    """Return whether the given name can be declared in Python."""
+    return name.isidentifier() and not keyword.iskeyword(name)
+
+
+def generate_constant_typehint(value: object) -> str:
+    # Members of anonymous enums are constants too
+    value = value.value if isinstance(value, (types.Enum, types.Flag)) else value
+
+    try:
+        ast.literal_eval(repr(value))
+    except (ValueError, SyntaxError):
+        # No literal, e.g. float infinity
+        return type(value).__name__
+
+    return f"Literal[{value!r}]"
+
+
+def generate_nested_typehint(
+    cs: cstruct,
+    type_: type[types.BaseType],
+    cs_prefix: str = "",
+    module_prefix: str = "",
+    parent: type[types.Structure] | None = None,
+) -> tuple[str, str]:
+    """Generate the type hint for a type, and an inline stub if it concerns a structure that is not globally defined."""
+    nested_type = type_
+    while issubclass(nested_type, (types.BaseArray, types.Pointer)):
+        nested_type = nested_type.type
+
+    name = nested_type.__name__
+    if (
+        not issubclass(nested_type, types.Structure)
+        or nested_type is parent
+        or (name in cs.typedefs and cs.resolve(name) is nested_type)
+    ):
+        return generate_typehint(type_, cs_prefix, module_prefix), ""
+
+    stub = generate_structure_stub(nested_type, cs_prefix=cs_prefix, module_prefix=module_prefix)
+    return generate_typehint(type_, "", module_prefix), f"{stub}\n"
+
+
 def generate_typehint(
     type_: type[types.BaseType],
     prefix: str = "",
@@ -143,7 +199,10 @@ def generate_enum_stub(
     module_prefix: str = "",
 ) -> str:
     result = [f"class {name_prefix}{enum.__name__}({module_prefix}{enum.__base__.__name__}):"]
-    result.extend(f"    {key} = ..." for key in enum.__members__)
+    members = [key for key in enum.__members__ if is_declarable(key)]
+    result.extend(f"    {key} = ..." for key in members)
+    if not members:
+        result.append("    ...")
     result.append("")
 
     return "\n".join(result)
@@ -159,23 +218,20 @@ def generate_structure_stub(
 
     indent = " " * 4
 
-    args = ["self"]
+    # A field can be named self as well
+    args = ["self" if "self" not in structure.fields else "__self"]
     for field_name, field in structure.fields.items():
-        type_name = field.type.__name__
-        inlined = False
+        if not is_declarable(field_name):
+            result.append(f"    # {field_name} is not a valid Python name")
+            continue
 
         # If it's a structure and not globally defined, add an inline stub for it
-        nested_type = field.type
-        while issubclass(nested_type, types.BaseArray):
-            nested_type = nested_type.type
-
-        if issubclass(nested_type, types.Structure) and type_name not in structure.cs.typedefs:
-            inlined = True
-            inline_stub = generate_structure_stub(nested_type, cs_prefix=cs_prefix, module_prefix=module_prefix)
-
-            result.append(textwrap.indent(inline_stub, prefix=indent))
+        type_hint, inline_stub = generate_nested_typehint(
+            structure.cs, field.type, cs_prefix, module_prefix, parent=structure
+        )
+        if inline_stub:
+            result.append(textwrap.indent(inline_stub[:-1], prefix=indent))
 
-        type_hint = generate_typehint(field.type, "" if inlined else f"{cs_prefix}", module_prefix)
         result.append(f"    {field_name}: {type_hint}")
 
         args.append(f"{field_name}: {type_hint} | None = ...")
-- 
2.43.0


From f543d25a043872fe15aa7a172c6790d857f2cb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:19 +0000
Subject: [PATCH 36/50] fix: structures couldn't have fields named self or cls

---
 dissect/cstruct/types/base.py      |  2 +-
 dissect/cstruct/types/structure.py | 21 +++++++++++++++------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index b7580e3..ecd305d 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -32,7 +32,7 @@ class MetaType(type):
     ArrayType: type[BaseArray] = "Array"
     """The array type for this type class."""
 
-    def __call__(cls, *args, **kwargs) -> Self:  # type: ignore
+    def __call__(cls, /, *args, **kwargs) -> Self:  # type: ignore
         """Adds support for ``TypeClass(bytes | file-like object)`` parsing syntax."""
         # TODO: add support for Type(cs) API to create new bounded type classes, similar to the old API?
         if len(args) == 1 and not isinstance(args[0], cls):
diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 09a8a25..531ff42 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -68,7 +68,7 @@ class StructureMetaType(MetaType):
 
         return super().__new__(metacls, name, bases, classdict)
 
-    def __call__(cls, *args, **kwargs) -> Self:  # type: ignore
+    def __call__(cls, /, *args, **kwargs) -> Self:  # type: ignore
         if (
             cls.__fields__
             and len(args) == len(cls.__fields__) == 1
@@ -424,7 +424,7 @@ class _UnionBuffer(io.BytesIO):
 class UnionMetaType(StructureMetaType):
     """Base metaclass for cstruct union type classes."""
 
-    def __call__(cls, *args, **kwargs) -> Self:  # type: ignore
+    def __call__(cls, /, *args, **kwargs) -> Self:  # type: ignore
         obj: Union = super().__call__(*args, **kwargs)
 
         # Calling with non-stream args or kwargs means we are initializing with values
@@ -914,6 +914,15 @@ def _has_mutable_default(field: Field) -> bool:
     return issubclass(field.type, (Structure, list))
 
 
+def _argument_names(field_names: list[str]) -> tuple[str, ...]:
+    """Return the names of the arguments of a generated ``__init__`` method."""
+    name = "self"
+    while name in field_names:
+        # A field can be named self as well
+        name = f"_{name}"
+    return (name, *field_names)
+
+
 def _generate_structure__init__(fields: list[Field]) -> FunctionType:
     """Generates an ``__init__`` method for a structure with the specified fields.
 
@@ -927,7 +936,7 @@ def _generate_structure__init__(fields: list[Field]) -> FunctionType:
         return type(template)(
             template.__code__.replace(
                 co_names=("_default", *field_names),
-                co_varnames=("self", *field_names),
+                co_varnames=_argument_names(field_names),
             ),
             {"_default": [field.type.__default__ for field in fields]},
             argdefs=template.__defaults__,
@@ -938,7 +947,7 @@ def _generate_structure__init__(fields: list[Field]) -> FunctionType:
         template.__code__.replace(
             co_consts=(None, *[field.type.__default__() for field in fields]),
             co_names=(*field_names,),
-            co_varnames=("self", *field_names),
+            co_varnames=_argument_names(field_names),
         ),
         template.__globals__,
         argdefs=template.__defaults__,
@@ -958,7 +967,7 @@ def _generate_union__init__(fields: list[Field]) -> FunctionType:
         return type(template)(
             template.__code__.replace(
                 co_consts=(None, *sum([(name, i) for i, name in enumerate(field_names)], ())),
-                co_varnames=("self", *field_names),
+                co_varnames=_argument_names(field_names),
             ),
             {"_default": [field.type.__default__ for field in fields]},
             argdefs=template.__defaults__,
@@ -971,7 +980,7 @@ def _generate_union__init__(fields: list[Field]) -> FunctionType:
                 None,
                 *sum([(field._name, field.type.__default__()) for field in fields], ()),
             ),
-            co_varnames=("self", *field_names),
+            co_varnames=_argument_names(field_names),
         ),
         template.__globals__,
         argdefs=template.__defaults__,
-- 
2.43.0


From 55601562c2ce965bf43b3caf94bf23847508fa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:52 +0000
Subject: [PATCH 37/50] fix: array lengths couldn't refer to fields of
 anonymous structures

---
 dissect/cstruct/parser.py     |  8 +++++++-
 dissect/cstruct/types/base.py | 14 +++++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index ac4b485..8eb5f2b 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -276,7 +276,13 @@ class TokenParser(Parser):
             raise ParserError(f"line {self._lineno(tokens.next)}: expected name")
         nametok = tokens.consume()
 
-        type_, name, bits = self._parse_field_type(type_, nametok.value, {field._name for field in fields})
+        names = {field._name for field in fields}
+        for field in fields:
+            if field.name is None and issubclass(field.type, Structure):
+                # The fields of an anonymous structure can be referred to as well
+                names.update(field.type.fields)
+
+        type_, name, bits = self._parse_field_type(type_, nametok.value, names)
 
         tokens.eol()
         return Field(name.strip(), type_, bits)
diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index ecd305d..f8f5732 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -264,7 +264,7 @@ class BaseArray(BaseType):
             num = EOF
         elif isinstance(cls.num_entries, Expression):
             try:
-                num = max(0, cls.num_entries.evaluate(context))
+                num = max(0, cls.num_entries.evaluate(_fold_context(context)))
             except Exception:
                 if cls.num_entries.expression != "EOF":
                     raise
@@ -289,6 +289,18 @@ class Array(list[T], BaseArray):
         return cls(super()._read(stream, context))
 
 
+def _fold_context(context: dict[str, Any] | None) -> dict[str, Any]:
+    """Return the reading context including the fields of anonymous structures."""
+    result = {}
+    for name, value in (context or {}).items():
+        # Anonymous structures go by the name of their type
+        if name == type(value).__name__:
+            for field in getattr(type(value), "fields", {}):
+                result[field] = getattr(value, field)
+        result[name] = value
+    return result
+
+
 def _is_readable_type(value: object) -> bool:
     return hasattr(value, "read")
 
-- 
2.43.0


From 55c6c97f72813d90ff41c36adeafacb7191e77eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:49 +0000
Subject: [PATCH 38/50] fix: fields following a union were read from its
 padding after a short read

---
 dissect/cstruct/types/structure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 531ff42..e723cd9 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -518,6 +518,9 @@ class UnionMetaType(StructureMetaType):
             result = {}
             sizes = {}
             buf = stream.read(cls.size)
+            if len(buf) < cls.size:
+                # Only tail padding may be missing, which is not to be read as whatever follows the union
+                stream.seek(cls.size - len(buf), io.SEEK_CUR)
 
         # Create the object and set the values
         # Using type.__call__ directly calls the __init__ method of the class
-- 
2.43.0


From dd7d51750ff24475cd104f975c49b333c2314e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:39 +0000
Subject: [PATCH 39/50] fix: non-contiguous memoryviews couldn't be parsed

---
 dissect/cstruct/types/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index f8f5732..d71333d 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -78,7 +78,8 @@ class MetaType(type):
         Returns:
             The parsed value of this type.
         """
-        return cls._read(BytesIO(data))
+        # Not every memoryview is contiguous
+        return cls._read(BytesIO(bytes(data)))
 
     def read(cls, obj: BinaryIO | bytes | memoryview | bytearray) -> Self:  # type: ignore
         """Parse the given data.
-- 
2.43.0


From 52913d3f8ec5eb6235d44f580da7b06e503f8798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:35 +0000
Subject: [PATCH 40/50] fix: refuse wrong sizes for fixed-size arrays of
 variable length elements

---
 dissect/cstruct/types/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index d71333d..b07f44b 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -278,7 +278,7 @@ class BaseArray(BaseType):
         if cls.null_terminated:
             return cls.type._write_0(stream, data)
 
-        if not cls.dynamic and cls.num_entries != (actual_size := len(data)):
+        if isinstance(cls.num_entries, int) and cls.num_entries != (actual_size := len(data)):
             raise ArraySizeError(f"Expected static array size {cls.num_entries}, got {actual_size} instead.")
 
         return cls.type._write_array(stream, data)
-- 
2.43.0


From ab5f0932d8b718e71333d0f6d186e5529fd0ef33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:09 +0000
Subject: [PATCH 41/50] fix: accept whitespace around EOF and lengths in array
 brackets

---
 dissect/cstruct/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 8eb5f2b..7f78bb9 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -309,7 +309,7 @@ class TokenParser(Parser):
                 if not count.strip():
                     count = None
                 else:
-                    count = Expression(self.cstruct, count)
+                    count = Expression(self.cstruct, count.strip())
                     # Fields take precedence over constants with the same name, but are only known when reading
                     if not field_names or field_names.isdisjoint(count.tokens):
                         try:
-- 
2.43.0


From dae97f70b07be43bf074a8e924d367827148a45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:35 +0000
Subject: [PATCH 42/50] fix: dumpstruct of a structure that wasn't read from a
 stream

---
 dissect/cstruct/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/utils.py b/dissect/cstruct/utils.py
index e7d3a42..56ddf17 100644
--- a/dissect/cstruct/utils.py
+++ b/dissect/cstruct/utils.py
@@ -154,6 +154,7 @@ def _dumpstruct(
     out = [f"struct {structure.__class__.__name__}:"]
     foreground, background = None, None
     bits_type, bits_remaining = None, 0
+    sizes = getattr(structure, "_sizes", {})
     for field in structure.__class__.__fields__:
         if getattr(field.type, "anonymous", False):
             continue
@@ -169,7 +170,10 @@ def _dumpstruct(
                 bits_remaining -= field.bits
             else:
                 bits_type = None
-                palette.append((structure._sizes[field._name], background))
+                if (size := sizes.get(field._name)) is None:
+                    # Not read from a stream
+                    size = len(field.type.dumps(getattr(structure, field._name)))
+                palette.append((size, background))
         ci += 1
 
         value = getattr(structure, field._name)
-- 
2.43.0


From 6b4633349b699c06c7cafcb800fb5173ee87ffbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:00 +0000
Subject: [PATCH 43/50] fix: enum members compared equal to flag members

---
 dissect/cstruct/types/enum.py | 3 ++-
 dissect/cstruct/types/flag.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/types/enum.py b/dissect/cstruct/types/enum.py
index 6a14162..6429ef1 100644
--- a/dissect/cstruct/types/enum.py
+++ b/dissect/cstruct/types/enum.py
@@ -183,7 +183,8 @@ class Enum(BaseType, IntEnum, metaclass=EnumMetaType):
             return f"{base}{value}"
 
     def __eq__(self, other: int | Enum) -> bool:
-        if isinstance(other, Enum) and other.__class__ is not self.__class__:
+        # This includes flags
+        if isinstance(other.__class__, EnumMetaType) and other.__class__ is not self.__class__:
             return False
 
         # Python <= 3.10 compatibility
diff --git a/dissect/cstruct/types/flag.py b/dissect/cstruct/types/flag.py
index 0574799..a35fcc9 100644
--- a/dissect/cstruct/types/flag.py
+++ b/dissect/cstruct/types/flag.py
@@ -61,7 +61,8 @@ class Flag(BaseType, IntFlag, metaclass=EnumMetaType):
             return result
 
     def __eq__(self, other: int | Flag) -> bool:
-        if isinstance(other, Flag) and other.__class__ is not self.__class__:
+        # This includes enums
+        if isinstance(other.__class__, EnumMetaType) and other.__class__ is not self.__class__:
             return False
 
         # Python <= 3.10 compatibility
-- 
2.43.0


From 5e3815c07dfcf0fbfc00fd1dd0634ec2615cd222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 44/50] fix: constructing a structure from a single pointer
 dereferenced that pointer

---
 dissect/cstruct/types/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index b07f44b..91784ef 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -303,7 +303,8 @@ def _fold_context(context: dict[str, Any] | None) -> dict[str, Any]:
 
 
 def _is_readable_type(value: object) -> bool:
-    return hasattr(value, "read")
+    # Values of other types may have a field called read, and looking that up on a pointer would dereference it
+    return not isinstance(value, BaseType) and hasattr(value, "read")
 
 
 def _is_buffer_type(value: object) -> bool:
-- 
2.43.0


From 73901da46593e5076eb3031a307f83980a62af35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 45/50] fix: comparing unions of dynamic size raised
 NotImplementedError

---
 dissect/cstruct/types/structure.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index e723cd9..2000a82 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -569,7 +569,14 @@ class Union(Structure, metaclass=UnionMetaType):
     _stream: BinaryIO | None = None
 
     def __eq__(self, other: object) -> bool:
-        return self.__class__ is other.__class__ and bytes(self) == bytes(other)
+        if self.__class__ is not other.__class__:
+            return False
+
+        if self.__class__.dynamic:
+            # Dynamic unions can't be dumped
+            return all(getattr(self, name) == getattr(other, name) for name in self.__class__.fields)
+
+        return bytes(self) == bytes(other)
 
     def __setattr__(self, attr: str, value: Any) -> None:
         if self.__class__.dynamic:
-- 
2.43.0


From f89743a71c19e7a6a69d0f796f673da4eb8c23f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:01 +0000
Subject: [PATCH 46/50] fix: newline between the words of a type in an enum
 value was a member separator

---
 dissect/cstruct/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 7f78bb9..54e1f36 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -115,8 +115,9 @@ class TokenParser(Parser):
         if enumtype == "flag":
             nextval = 1
 
-        # Members can also be separated by just a newline, but a newline next to an operator is just whitespace
-        members = re.sub(r"(?<=[^\w\s)])\s+|\s+(?=[^\w\s])", " ", d["values"])
+        # Members can also be separated by just a newline, but a newline next to an operator or in parentheses is just
+        # whitespace
+        members = re.sub(r"(?<=[^\w\s)])\s+|\s+(?=[^\w\s])|\s+(?=[^()]*\))", " ", d["values"])
 
         values = {}
         for line in members.splitlines():
-- 
2.43.0


From f6b02ca5ebc6a5d9f2bbc077b7bd02855a74d629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:40 +0000
Subject: [PATCH 47/50] fix: anonymous enum without whitespace behind the
 keyword was a syntax error

---
 dissect/cstruct/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 54e1f36..cecc062 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -58,7 +58,7 @@ class TokenParser(Parser):
         TOK.add(r"typedef(?=\s)", "TYPEDEF")
         TOK.add(r"(?:struct|union)(?=\s|{)", "STRUCT")
         TOK.add(
-            r"(?P<enumtype>enum|flag)\s+(?P<name>[^\s:;{]+)?\s*(:\s"
+            r"(?P<enumtype>enum|flag)(?=[\s:{])\s*(?P<name>[^\s:;{]+)?\s*(:\s"
             r"*(?P<type>[^{;]+?)\s*)?\{(?P<values>[^}]+)\}\s*(?=;)",
             "ENUM",
         )
-- 
2.43.0


From b2ff2a0fd5f22bbd297a00b7593b764b264ded33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 48/50] fix: stub of only undeclarable names had an empty class
 body

---
 dissect/cstruct/tools/stubgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/tools/stubgen.py b/dissect/cstruct/tools/stubgen.py
index 4369b19..0240cc4 100644
--- a/dissect/cstruct/tools/stubgen.py
+++ b/dissect/cstruct/tools/stubgen.py
@@ -119,7 +119,7 @@ def generate_cstruct_stub(cs: cstruct, module_prefix: str = "", cls_name: str =
 
         body.append(textwrap.indent(stub, prefix=indent))
 
-    if not body:
+    if all(stub.lstrip().startswith("#") for stub in body):
         body.append(textwrap.indent("...", prefix=indent))
 
     return "\n".join(header + body)
-- 
2.43.0


From 2cd3bc0e0cd7e150479b0587599bd4c93fa1c825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 49/50] fix: stub declared types under a name that is no Python
 identifier

---
 dissect/cstruct/tools/stubgen.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/dissect/cstruct/tools/stubgen.py b/dissect/cstruct/tools/stubgen.py
index 0240cc4..c6e421e 100644
--- a/dissect/cstruct/tools/stubgen.py
+++ b/dissect/cstruct/tools/stubgen.py
@@ -130,6 +130,17 @@ def is_declarable(name: str) -> bool:
     return name.isidentifier() and not keyword.iskeyword(name)
 
 
+def declarable_name(type_: type[types.BaseType]) -> str | None:
+    """Return the name to declare the given type by, or ``None`` if none of its names can be declared in Python."""
+    if is_declarable(type_.__name__):
+        return type_.__name__
+
+    return next(
+        (name for name in type_.cs.typedefs if is_declarable(name) and type_.cs.resolve(name) is type_),
+        None,
+    )
+
+
 def generate_constant_typehint(value: object) -> str:
     # Members of anonymous enums are constants too
     value = value.value if isinstance(value, (types.Enum, types.Flag)) else value
@@ -163,6 +174,9 @@ def generate_nested_typehint(
     ):
         return generate_typehint(type_, cs_prefix, module_prefix), ""
 
+    if not declarable_name(nested_type):
+        return generate_typehint(type_, "", module_prefix), ""
+
     stub = generate_structure_stub(nested_type, cs_prefix=cs_prefix, module_prefix=module_prefix)
     return generate_typehint(type_, "", module_prefix), f"{stub}\n"
 
@@ -180,7 +194,9 @@ def generate_typehint(
         return f"{module_prefix}Pointer[{generate_typehint(type_.type, prefix, module_prefix)}]"
     if issubclass(type_, types.Array):
         return f"{module_prefix}Array[{generate_typehint(type_.type, prefix, module_prefix)}]"
-    return f"{prefix}{type_.__name__}"
+    if not (name := declarable_name(type_)):
+        return f"{module_prefix}{type_.__base__.__name__}"
+    return f"{prefix}{name}"
 
 
 def generate_generic_stub(
@@ -189,7 +205,7 @@ def generate_generic_stub(
     cs_prefix: str = "",
     module_prefix: str = "",
 ) -> str:
-    return f"class {name_prefix}{type_.__name__}({module_prefix}{type_.__base__.__name__}): ...\n"
+    return f"class {name_prefix}{declarable_name(type_)}({module_prefix}{type_.__base__.__name__}): ...\n"
 
 
 def generate_enum_stub(
@@ -198,7 +214,7 @@ def generate_enum_stub(
     cs_prefix: str = "",
     module_prefix: str = "",
 ) -> str:
-    result = [f"class {name_prefix}{enum.__name__}({module_prefix}{enum.__base__.__name__}):"]
+    result = [f"class {name_prefix}{declarable_name(enum)}({module_prefix}{enum.__base__.__name__}):"]
     members = [key for key in enum.__members__ if is_declarable(key)]
     result.extend(f"    {key} = ..." for key in members)
     if not members:
@@ -214,7 +230,7 @@ def generate_structure_stub(
     cs_prefix: str = "",
     module_prefix: str = "",
 ) -> str:
-    result = [f"class {name_prefix}{structure.__name__}({module_prefix}{structure.__base__.__name__}):"]
+    result = [f"class {name_prefix}{declarable_name(structure)}({module_prefix}{structure.__base__.__name__}):"]
 
     indent = " " * 4
 
-- 
2.43.0


From d369867f110f624ac1831e4d60ed51c4c64bf652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:32 +0000
Subject: [PATCH 50/50] fix: position after a union of dynamic size was the end
 of its last field

---
 dissect/cstruct/types/structure.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 2000a82..4906977 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -485,6 +485,7 @@ class UnionMetaType(StructureMetaType):
             offset = 0
             buf = _UnionBuffer(stream.read(cls.size), stream)
 
+        end = offset
         for field in cls.__fields__:
             field_type = cls.cs.resolve(field.type)
 
@@ -502,8 +503,13 @@ class UnionMetaType(StructureMetaType):
             else:
                 value = field_type._read(buf, result)
 
-            sizes[field._name] = buf.tell() - start
+            sizes[field._name] = buf.tell() - (offset + start)
             result[field._name] = value
+            end = max(end, buf.tell())
+
+        if cls.size is None:
+            # The union ends where its largest field does
+            stream.seek(end)
 
         return result, sizes
 
-- 
2.43.0

