From 6a4c469cf423a9f2a1065974b9e63a9baced4095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:51 +0000
Subject: [PATCH 01/35] fix: fold_overlaps dropped everything after the first
 specifier of the right format

---
 structured/serializers/structs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index bac49aa..e1786b4 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -56,7 +56,7 @@ def compute_num_values(st: struct.Struct, *, __cache: dict[str, int] = {}) -> in
 
 _struct_chars = r'xcbB\?hHiIlLqQnNefdspP'
 _re_end: re.Pattern[str] = re.compile(rf'(.*?)(\d*)([{_struct_chars}])$')
-_re_start: re.Pattern[str] = re.compile(rf'^(\d*)([{_struct_chars}])(.*?)')
+_re_start: re.Pattern[str] = re.compile(rf'^(\d*)([{_struct_chars}])(.*)')
 
 
 def fold_overlaps(format1: str, format2: str, combine_strings: bool = False) -> str:
-- 
2.43.0


From f147e03aa63847085d683ed3470a7ab912f4099a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:53 +0000
Subject: [PATCH 02/35] fix: zero length strings could not be packed or
 unpacked

---
 structured/serializers/structs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index e1786b4..6fb2d60 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -188,6 +188,10 @@ class StructSerializer(Generic[Unpack[Ts]], struct.Struct, Serializer[Unpack[Ts]
         if not isinstance(other, int):
             return NotImplemented
         elif other == 0:
+            _, fmt = self._split_format
+            if combine_strings and fmt:
+                # Still one value, just with no bytes
+                return type(self)(f'0{fmt[-1]}', self.byte_order)
             return NullSerializer()
         elif other < 0:
             raise ValueError('count must be non-negative')
-- 
2.43.0


From 500cb247b8cd34f456677d48bab7a57b93fa15aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:55 +0000
Subject: [PATCH 03/35] fix: length prefixed strings could not be packed with a
 byte order set

---
 structured/serializers/strings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 9073e1f..6e1b9da 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -71,7 +71,8 @@ class DynamicCharSerializer(Serializer[bytes]):
         """
         raw_data = values[0]
         count = len(raw_data)
-        st = self.st + _single_char @ count
+        char = _single_char.with_byte_order(self.st.byte_order)
+        st = self.st + char @ count
         self.size = st.size
         return st, count, raw_data
 
-- 
2.43.0


From 7f8198db52b76cea8893fc59be6692f4a1d513f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:57 +0000
Subject: [PATCH 04/35] fix: size of a terminated string included the offset it
 was unpacked from

---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 6e1b9da..55e61c5 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -228,7 +228,7 @@ class TerminatedCharSerializer(Serializer[bytes]):
                 end += 1
         except IndexError:
             raise ValueError('unterminated string.') from None
-        self.size = end + 1
+        self.size = end + 1 - offset
         return (bytes(buffer[offset:end]),)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[bytes]:
-- 
2.43.0


From 53307ad2848527860fd98605dfcb2d30679c7626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 05/35] fix: terminator was written again when the string
 already ends with it

---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 55e61c5..5a9263f 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -197,7 +197,7 @@ class TerminatedCharSerializer(Serializer[bytes]):
     def _st_data(self, values: tuple[bytes]) -> tuple[StructSerializer, bytes]:
         """Common packing logic."""
         raw_data = values[0]
-        if not raw_data or raw_data[-1] != self.terminator:
+        if raw_data[-1:] != self.terminator:
             # Insert terminator if needed
             raw_data += self.terminator
         count = len(raw_data)
-- 
2.43.0


From 2f8388a7488cbe14afe9cdb9ec70f02043c2d83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:01 +0000
Subject: [PATCH 06/35] fix: consuming strings resized the output buffer and
 returned views of the input

---
 structured/serializers/strings.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 5a9263f..d2fb940 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -161,7 +161,7 @@ class ConsumingCharSerializer(Serializer[bytes]):
     ) -> None:
         data = values[0]
         self.size = len(data)
-        buffer[offset : offset + self.size] = data
+        struct.pack_into(f'{self.size}s', buffer, offset, data)
 
     def pack_write(self, writable: BinaryIO, *values: Unpack[tuple[bytes]]) -> None:
         data = values[0]
@@ -169,12 +169,14 @@ class ConsumingCharSerializer(Serializer[bytes]):
         writable.write(data)
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[bytes]:
-        self.size = len(buffer)
-        return (buffer,)
+        data = bytes(buffer)
+        self.size = len(data)
+        return (data,)
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[bytes]:
-        self.size = len(buffer) - offset
-        return (buffer[offset:],)
+        data = bytes(buffer[offset:])
+        self.size = len(data)
+        return (data,)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[bytes]:
         data = readable.read()
-- 
2.43.0


From ce736e0b2abb4c5aac08f8ff8a14546391e2b50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:03 +0000
Subject: [PATCH 07/35] fix: truncated length prefixed and .NET strings were
 returned short

---
 structured/serializers/strings.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index d2fb940..6eda1bd 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -28,7 +28,6 @@ from ..type_checking import (
     Union,
     Unpack,
     WritableBuffer,
-    cast,
 )
 from .api import Serializer
 from .structs import StructSerializer
@@ -113,7 +112,8 @@ class DynamicCharSerializer(Serializer[bytes]):
         """
         count = self.st.unpack(buffer)[0]
         self.size = self.st.size + count
-        return (bytes(buffer[self.st.size : self.size]),)
+        st = _single_char @ count
+        return st.unpack(buffer[self.st.size : self.size])
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[bytes]:
         """Unpack a dynamically sized bytestring from a buffer supporting the
@@ -318,7 +318,7 @@ class NETCharSerializer(Serializer[bytes]):
         else:
             size = self.short_len.size
         self.size = size + count
-        return (cast(bytes, buffer[size : size + count]),)
+        return struct.unpack_from(f'{count}s', buffer, size)
 
     def unpack_from(
         self,
@@ -346,7 +346,7 @@ class NETCharSerializer(Serializer[bytes]):
         else:
             size = self.short_len.size
         self.size = size + count
-        return (readable.read(count),)
+        return struct.unpack(f'{count}s', readable.read(count))
 
 
 Encoder = Callable[[str], bytes]
-- 
2.43.0


From a938c826f3ac7929271ac16d1e07bdcbaf71a680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:06 +0000
Subject: [PATCH 08/35] fix: dynamic arrays of basic types reported zero values

---
 structured/serializers/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index e840cbc..aa77ef3 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -235,7 +235,7 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
     ) -> None:
         self.count_serializer = count_serializer
         self.item_serializer = item_serializer
-        self.num_values = 0
+        self.num_values = 1
         self.size = 0
 
     def with_byte_order(self, byte_order: ByteOrder) -> Self:
-- 
2.43.0


From 0b3e71a4d52b5eaa3b11b85599951ca627cd4c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:08 +0000
Subject: [PATCH 09/35] fix: dynamic arrays of basic types were packed with
 padding that unpacking does not skip

---
 structured/serializers/arrays.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index aa77ef3..a06dc4f 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -245,30 +245,26 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
         )
 
     def _packer(self, values: tuple[list[T]]) -> tuple[Serializer, list[T]]:
+        # NOTE: Not joined with the count serializer, that could introduce
+        # alignment padding, which isn't there for unpacking.
         items = values[0]
-        count = len(items)
-        if count == 0:
-            # Since we'll be modifying its .num_values, we want a copy
-            serializer = StructSerializer(self.count_serializer.format)
-        else:
-            serializer = self.count_serializer + (self.item_serializer * count)
-        serializer.num_values -= 1
-        self.size = serializer.size
+        serializer = self.item_serializer * len(items)
+        self.size = self.count_serializer.size + serializer.size
         return serializer, items
 
     def pack(self, *values: Unpack[tuple[list[T]]]) -> bytes:
         serializer, items = self._packer(values)
-        return serializer.pack(serializer.num_values, *items)
+        return self.count_serializer.pack(len(items)) + serializer.pack(*items)
 
     def pack_into(
         self, buffer: WritableBuffer, offset: int, *values: Unpack[tuple[list[T]]]
     ) -> None:
         serializer, items = self._packer(values)
-        serializer.pack_into(buffer, offset, serializer.num_values, *items)
+        self.count_serializer.pack_into(buffer, offset, len(items))
+        serializer.pack_into(buffer, offset + self.count_serializer.size, *items)
 
     def pack_write(self, writable: BinaryIO, *values: Unpack[tuple[list[T]]]) -> None:
-        serializer, items = self._packer(values)
-        serializer.pack_write(writable, serializer.num_values, *items)
+        writable.write(self.pack(*values))
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack(buffer)
-- 
2.43.0


From 80b4a638f75284de4fb970a9fc670967ee92e21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 10/35] fix: the data size field of arrays of basic types was
 dropped

---
 structured/hint_types/arrays.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/structured/hint_types/arrays.py b/structured/hint_types/arrays.py
index 5021869..02ee042 100644
--- a/structured/hint_types/arrays.py
+++ b/structured/hint_types/arrays.py
@@ -107,6 +107,7 @@ class array(Generic[S, T], list[T], requires_indexing):
         if (
             isinstance(item_serializer, StructSerializer)
             and item_serializer.num_values == 1
+            and header.data_size is None
         ):
             if isinstance(header.count, int):
                 return Annotated[
-- 
2.43.0


From 7525eda91b7fb17c89222bec46ec121e98ec948a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:12 +0000
Subject: [PATCH 11/35] fix: unpack_from of some serializers had no default
 offset

---
 structured/serializers/arrays.py  | 6 +++---
 structured/serializers/structs.py | 2 +-
 structured/serializers/tuples.py  | 4 +++-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index a06dc4f..afb0d4c 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -147,7 +147,7 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         self.size = size
         return (items,)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[list[T]]:
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
         header = self.header_serializer.unpack_from(buffer, offset)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
@@ -216,7 +216,7 @@ class StaticStructArraySerializer(Generic[T], Serializer[list[T]]):
     def unpack(self, buffer: ReadableBuffer) -> tuple[list[T]]:
         return (list(self.serializer.unpack(buffer)),)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[list[T]]:
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
         return (list(self.serializer.unpack_from(buffer, offset)),)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[list[T]]:
@@ -274,7 +274,7 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
         self.size = size + serializer.size
         return (list(items),)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[list[T]]:
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack_from(buffer, offset)
         size = self.count_serializer.size
         serializer = self.item_serializer * count
diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index 6fb2d60..d34c3ac 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -247,7 +247,7 @@ class StructActionSerializer(Generic[Unpack[Ts]], StructSerializer[Unpack[Ts]]):
         )  # type: ignore
 
     def unpack_from(
-        self, buffer: ReadableBuffer, offset: int = ...
+        self, buffer: ReadableBuffer, offset: int = 0
     ) -> tuple[Unpack[Ts]]:
         return tuple(
             action(value)
diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index ff231bb..702faff 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -58,7 +58,9 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
     def unpack(self, buffer: ReadableBuffer) -> tuple[Iterable[Any]]:
         return (self.serializer.preunpack(self._partial_obj).unpack(buffer),)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[Iterable[Any]]:
+    def unpack_from(
+        self, buffer: ReadableBuffer, offset: int = 0
+    ) -> tuple[Iterable[Any]]:
         return (
             self.serializer.preunpack(self._partial_obj).unpack_from(buffer, offset),
         )
-- 
2.43.0


From 2985c8f1500b76b316cdcc1e14acc27b54982d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:14 +0000
Subject: [PATCH 12/35] fix: serializers with actions could be joined with a
 different byte order

---
 structured/serializers/structs.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index d34c3ac..ee90388 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -284,7 +284,12 @@ class StructActionSerializer(Generic[Unpack[Ts]], StructSerializer[Unpack[Ts]]):
         else:
             return super().__add__(other)
         byte_order, lfmt = self._split_format
-        _, rfmt = other._split_format
+        byte_order2, rfmt = other._split_format
+        if byte_order is not byte_order2:
+            raise ValueError(
+                f'Cannot join StructSerializers with different byte orders: '
+                f'{self} + {other}'
+            )
         fmt = fold_overlaps(lfmt, rfmt)
         actions = tuple(chain(self.actions, actions))
         return type(self)(fmt, byte_order, actions)
@@ -297,7 +302,12 @@ class StructActionSerializer(Generic[Unpack[Ts]], StructSerializer[Unpack[Ts]]):
         else:
             return NotImplemented
         byte_order, lfmt = other._split_format
-        _, rfmt = self._split_format
+        byte_order2, rfmt = self._split_format
+        if byte_order is not byte_order2:
+            raise ValueError(
+                f'Cannot join StructSerializers with different byte orders: '
+                f'{other} + {self}'
+            )
         fmt = fold_overlaps(lfmt, rfmt)
         actions = tuple(chain(actions, self.actions))
         return type(self)(fmt, byte_order, actions)  # type: ignore
-- 
2.43.0


From c9bc3259083bb581be88f1b3fb49b494988d2b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:16 +0000
Subject: [PATCH 13/35] fix: tuples unpacked to a generator, with a stale size

---
 structured/serializers/tuples.py | 35 +++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index 702faff..07dac00 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -28,42 +28,53 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
 
     def __init__(self, serializers: Iterable[Serializer]) -> None:
         self.serializer = sum(serializers, NullSerializer())
+        self.size = 0
 
     def get_final(self) -> Optional[Serializer]:
         return self.serializer.get_final()
 
-    @property
-    def size(self) -> int:
-        return self.serializer.size
-
     def prepack(self, partial_object: Any) -> Serializer:
         self._partial_obj = partial_object
         return self
 
     def pack(self, values: tuple[Unpack[Ts]]) -> bytes:
-        return self.serializer.prepack(self._partial_obj).pack(*values)
+        serializer = self.serializer.prepack(self._partial_obj)
+        data = serializer.pack(*values)
+        self.size = serializer.size
+        return data
 
     def pack_into(
         self, buffer: WritableBuffer, offset: int, values: tuple[Unpack[Ts]]
     ) -> None:
-        self.serializer.prepack(self._partial_obj).pack_into(buffer, offset, *values)
+        serializer = self.serializer.prepack(self._partial_obj)
+        serializer.pack_into(buffer, offset, *values)
+        self.size = serializer.size
 
     def pack_write(self, writable: BinaryIO, values: tuple[Unpack[Ts]]) -> None:
-        self.serializer.prepack(self._partial_obj).pack_write(writable, *values)
+        serializer = self.serializer.prepack(self._partial_obj)
+        serializer.pack_write(writable, *values)
+        self.size = serializer.size
 
     def preunpack(self, partial_object: Any) -> Serializer:
         self._partial_obj = partial_object
         return self
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[Iterable[Any]]:
-        return (self.serializer.preunpack(self._partial_obj).unpack(buffer),)
+        serializer = self.serializer.preunpack(self._partial_obj)
+        values = tuple(serializer.unpack(buffer))
+        self.size = serializer.size
+        return (values,)
 
     def unpack_from(
         self, buffer: ReadableBuffer, offset: int = 0
     ) -> tuple[Iterable[Any]]:
-        return (
-            self.serializer.preunpack(self._partial_obj).unpack_from(buffer, offset),
-        )
+        serializer = self.serializer.preunpack(self._partial_obj)
+        values = tuple(serializer.unpack_from(buffer, offset))
+        self.size = serializer.size
+        return (values,)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[Iterable[Any]]:
-        return (self.serializer.preunpack(self._partial_obj).unpack_read(readable),)
+        serializer = self.serializer.preunpack(self._partial_obj)
+        values = tuple(serializer.unpack_read(readable))
+        self.size = serializer.size
+        return (values,)
-- 
2.43.0


From b960b563986bd9f95bda7208589bc22bd8377d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:18 +0000
Subject: [PATCH 14/35] fix: byte order was not applied inside tuples

---
 structured/serializers/tuples.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index 07dac00..9118050 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -7,7 +7,7 @@ __all__ = [
     'TupleSerializer',
 ]
 
-
+from ..base_types import ByteOrder
 from ..type_checking import (
     Any,
     BinaryIO,
@@ -16,6 +16,7 @@ from ..type_checking import (
     Iterable,
     Optional,
     ReadableBuffer,
+    Self,
     Ts,
     Unpack,
     WritableBuffer,
@@ -33,6 +34,9 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
     def get_final(self) -> Optional[Serializer]:
         return self.serializer.get_final()
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        return type(self)((self.serializer.with_byte_order(byte_order),))
+
     def prepack(self, partial_object: Any) -> Serializer:
         self._partial_obj = partial_object
         return self
-- 
2.43.0


From f96fd6abe30bff98406aba134681fec693e01323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:21 +0000
Subject: [PATCH 15/35] fix: byte order was not applied to the length of text
 fields

---
 structured/serializers/strings.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 6eda1bd..5f9e853 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -375,6 +375,11 @@ class UnicodeSerializer(Serializer[str]):
     def get_final(self) -> Optional[Serializer]:
         return self.serializer.get_final()
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        return type(self)(
+            self.serializer.with_byte_order(byte_order), self.encoder, self.decoder
+        )
+
     @property
     def size(self) -> int:
         return self.serializer.size
-- 
2.43.0


From 03500994b9d5b3d36a8d74307df487790f03064d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:23 +0000
Subject: [PATCH 16/35] fix: byte order was not applied inside unions

---
 structured/serializers/unions.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 21b29cc..1ba15a3 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -12,7 +12,9 @@ __all__ = [
 ]
 
 import os
+from copy import copy
 
+from ..base_types import ByteOrder
 from ..type_checking import (
     Any,
     BinaryIO,
@@ -21,6 +23,7 @@ from ..type_checking import (
     Iterable,
     Optional,
     ReadableBuffer,
+    Self,
     WritableBuffer,
     annotated,
     get_union_args,
@@ -58,6 +61,16 @@ class AUnion(Serializer):
             if serializer.is_final():
                 return serializer.get_final()
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        new = copy(self)
+        new.result_map = {
+            key: serializer.with_byte_order(byte_order)
+            for key, serializer in self.result_map.items()
+        }
+        if self.default is not None:
+            new.default = self.default.with_byte_order(byte_order)
+        return new
+
     @staticmethod
     def validate_serializer(hint) -> Serializer:
         serializer = annotated.transform(hint)
@@ -190,6 +203,13 @@ class LookaheadDecider(AUnion):
             )
         self.read_ahead_serializer = serializer
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        new = super().with_byte_order(byte_order)
+        new.read_ahead_serializer = self.read_ahead_serializer.with_byte_order(
+            byte_order
+        )
+        return new
+
     def pack(self, *values: Any) -> bytes:
         result = self.decider(self._partial_object)
         serializer = self.get_serializer(result, True)
-- 
2.43.0


From 3c050aa3cebc8cc3ee5ea902593c09e95b75d1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:25 +0000
Subject: [PATCH 17/35] fix: a union with a final default could be followed by
 more fields

---
 structured/serializers/unions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 1ba15a3..9b9ad5b 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -60,6 +60,8 @@ class AUnion(Serializer):
         for serializer in self.result_map.values():
             if serializer.is_final():
                 return serializer.get_final()
+        if self.default is not None:
+            return self.default.get_final()
 
     def with_byte_order(self, byte_order: ByteOrder) -> Self:
         new = copy(self)
-- 
2.43.0


From ab9de19806f1d405d7d8550baa8f0629ade35b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:28 +0000
Subject: [PATCH 18/35] fix: the read ahead serializer of a union was used
 without preparing it

---
 structured/serializers/unions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 9b9ad5b..519174b 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -232,22 +232,25 @@ class LookaheadDecider(AUnion):
         self.size = serializer.size
 
     def unpack(self, buffer: ReadableBuffer) -> Iterable:
-        result = tuple(self.read_ahead_serializer.unpack(buffer))[0]
+        read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
+        result = tuple(read_ahead.unpack(buffer))[0]
         serializer = self.get_serializer(result, False)
         values = serializer.unpack(buffer)
         self.size = serializer.size
         return values
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> Iterable:
-        result = tuple(self.read_ahead_serializer.unpack_from(buffer, offset))[0]
+        read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
+        result = tuple(read_ahead.unpack_from(buffer, offset))[0]
         serializer = self.get_serializer(result, False)
         values = serializer.unpack_from(buffer, offset)
         self.size = serializer.size
         return values
 
     def unpack_read(self, readable: BinaryIO) -> Iterable:
-        result = tuple(self.read_ahead_serializer.unpack_read(readable))[0]
-        readable.seek(-self.read_ahead_serializer.size, os.SEEK_CUR)
+        read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
+        result = tuple(read_ahead.unpack_read(readable))[0]
+        readable.seek(-read_ahead.size, os.SEEK_CUR)
         serializer = self.get_serializer(result, False)
         values = serializer.unpack_read(readable)
         self.size = serializer.size
-- 
2.43.0


From 6a56e9b1e59209b4039f9decb7677173a53dfe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:30 +0000
Subject: [PATCH 19/35] fix: unions read the size of a lazily unpacked value
 before it was unpacked

---
 structured/serializers/unions.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 519174b..f703ae9 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -164,19 +164,19 @@ class LookbackDecider(AUnion):
 
     def unpack(self, buffer: ReadableBuffer) -> Iterable:
         serializer = self.decide(False)
-        value = serializer.unpack(buffer)
+        value = tuple(serializer.unpack(buffer))
         self.size = serializer.size
         return value
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> Iterable:
         serializer = self.decide(False)
-        value = serializer.unpack_from(buffer, offset)
+        value = tuple(serializer.unpack_from(buffer, offset))
         self.size = serializer.size
         return value
 
     def unpack_read(self, readable: BinaryIO) -> Iterable:
         serializer = self.decide(False)
-        value = serializer.unpack_read(readable)
+        value = tuple(serializer.unpack_read(readable))
         self.size = serializer.size
         return value
 
@@ -235,7 +235,7 @@ class LookaheadDecider(AUnion):
         read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
         result = tuple(read_ahead.unpack(buffer))[0]
         serializer = self.get_serializer(result, False)
-        values = serializer.unpack(buffer)
+        values = tuple(serializer.unpack(buffer))
         self.size = serializer.size
         return values
 
@@ -243,7 +243,7 @@ class LookaheadDecider(AUnion):
         read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
         result = tuple(read_ahead.unpack_from(buffer, offset))[0]
         serializer = self.get_serializer(result, False)
-        values = serializer.unpack_from(buffer, offset)
+        values = tuple(serializer.unpack_from(buffer, offset))
         self.size = serializer.size
         return values
 
@@ -252,6 +252,6 @@ class LookaheadDecider(AUnion):
         result = tuple(read_ahead.unpack_read(readable))[0]
         readable.seek(-read_ahead.size, os.SEEK_CUR)
         serializer = self.get_serializer(result, False)
-        values = serializer.unpack_read(readable)
+        values = tuple(serializer.unpack_read(readable))
         self.size = serializer.size
         return values
-- 
2.43.0


From 503bc5de04d1291367064a4d68b8fded9820c6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:33 +0000
Subject: [PATCH 20/35] fix: Self could not be unpacked in place, or with a
 field named cls

---
 structured/serializers/self.py | 8 +++++---
 structured/structured.py       | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/structured/serializers/self.py b/structured/serializers/self.py
index b611367..e4336c6 100644
--- a/structured/serializers/self.py
+++ b/structured/serializers/self.py
@@ -7,7 +7,7 @@ __all__ = [
 ]
 
 
-from ..type_checking import TYPE_CHECKING, Any, ClassVar, Self, annotated
+from ..type_checking import TYPE_CHECKING, Any, ClassVar, Self, Union, annotated
 from .api import Serializer
 from .structured import StructuredSerializer
 
@@ -24,8 +24,10 @@ class SelfSerializer(Serializer[Structured]):
     def prepack(self, partial_object: Structured) -> Serializer:
         return StructuredSerializer(type(partial_object))
 
-    def preunpack(self, partial_object: _Proxy) -> Serializer:
-        return StructuredSerializer(partial_object.cls)
+    def preunpack(self, partial_object: Union[Structured, _Proxy]) -> Serializer:
+        # A proxy only when creating a new object, otherwise the object itself
+        cls = getattr(partial_object, '__structured_class__', type(partial_object))
+        return StructuredSerializer(cls)
 
     @classmethod
     def _transform(cls, base_type: Any, hint: Any) -> Any:
diff --git a/structured/structured.py b/structured/structured.py
index bd9038f..0daece5 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -474,7 +474,7 @@ class _Proxy:
     # is a proxy for won't be shadowed.
     def __init__(self, cls: type[Structured]) -> None:
         self.__attrs = cls.attrs
-        self.cls = cls
+        self.__structured_class__ = cls
 
     def __call__(self, values: Iterable[Any]) -> None:
         for attr, value in zips(self.__attrs, values, strict=True):
-- 
2.43.0


From cf75fb51399425879238b78283222d6aa032cef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:35 +0000
Subject: [PATCH 21/35] fix: items following a recursive one in an array were
 processed with its context

---
 structured/serializers/arrays.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index afb0d4c..1dfda7f 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -108,8 +108,9 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
     def pack(self, *values: Unpack[tuple[list[T]]]) -> bytes:
         data = [b'']
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.prepack(self._partial_object)
+        partial_object = self._partial_object
         for item in values[0]:
+            item_serializer = self.item_serializer.prepack(partial_object)
             data.append(item_serializer.pack(item))
             size += item_serializer.size
         header_values = self._header_pack_values(values[0], size - header_size)
@@ -122,8 +123,9 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
     ) -> None:
         items = values[0]
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.prepack(self._partial_object)
+        partial_object = self._partial_object
         for item in items:
+            item_serializer = self.item_serializer.prepack(partial_object)
             item_serializer.pack_into(buffer, offset + size, item)
             size += item_serializer.size
         header_values = self._header_pack_values(items, size - header_size)
@@ -138,9 +140,10 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         header = self.header_serializer.unpack(buffer)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
         items = []
         for _ in range(count):
+            item_serializer = self.item_serializer.preunpack(partial_object)
             items.extend(item_serializer.unpack(buffer[size:]))
             size += item_serializer.size
         self._check_data_size(data_size, size - header_size)
@@ -151,9 +154,10 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         header = self.header_serializer.unpack_from(buffer, offset)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
         items = []
         for _ in range(count):
+            item_serializer = self.item_serializer.preunpack(partial_object)
             items.extend(item_serializer.unpack_from(buffer, offset + size))
             size += item_serializer.size
         self._check_data_size(data_size, size - header_size)
@@ -164,9 +168,10 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         header = self.header_serializer.unpack_read(readable)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
         items = []
         for _ in range(count):
+            item_serializer = self.item_serializer.preunpack(partial_object)
             items.extend(item_serializer.unpack_read(readable))
             size += item_serializer.size
         self._check_data_size(data_size, size - header_size)
-- 
2.43.0


From d1dda09099eb2fd458608ee93f8857df3e21eea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:36 +0000
Subject: [PATCH 22/35] fix: conditions did not pass on the object, required
 bool results and had no size

---
 structured/serializers/conditional.py | 55 +++++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/structured/serializers/conditional.py b/structured/serializers/conditional.py
index fc6299f..8461b2f 100644
--- a/structured/serializers/conditional.py
+++ b/structured/serializers/conditional.py
@@ -48,6 +48,7 @@ class ConditionalSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
             False: SkipSerializer(default),
         }
         self.num_values = serializer.num_values
+        self.size = 0
         if serializer.num_values != len(default):
             expected = len(default)
             raise ValueError(
@@ -63,11 +64,57 @@ class ConditionalSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         defaults = self.serializers[False].values
         return type(self)(serializer, self.condition, defaults)
 
-    def prepack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
-        return self.serializers[self.condition(partial_object)]
+    def prepack(self, partial_object: Any) -> Self:
+        self._partial_object = partial_object
+        return self
 
-    def preunpack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
-        return self.prepack(partial_object)
+    def preunpack(self, partial_object: Any) -> Self:
+        self._partial_object = partial_object
+        return self
+
+    def _decide(self, packing: bool) -> Serializer[Unpack[Ts]]:
+        partial_object = self._partial_object
+        serializer = self.serializers[bool(self.condition(partial_object))]
+        if packing:
+            return serializer.prepack(partial_object)
+        else:
+            return serializer.preunpack(partial_object)
+
+    def pack(self, *values: Unpack[Ts]) -> bytes:
+        serializer = self._decide(True)
+        data = serializer.pack(*values)
+        self.size = serializer.size
+        return data
+
+    def pack_into(
+        self, buffer: WritableBuffer, offset: int, *values: Unpack[Ts]
+    ) -> None:
+        serializer = self._decide(True)
+        serializer.pack_into(buffer, offset, *values)
+        self.size = serializer.size
+
+    def pack_write(self, writable: BinaryIO, *values: Unpack[Ts]) -> None:
+        serializer = self._decide(True)
+        serializer.pack_write(writable, *values)
+        self.size = serializer.size
+
+    def unpack(self, buffer: ReadableBuffer) -> tuple[Unpack[Ts]]:
+        serializer = self._decide(False)
+        values = tuple(serializer.unpack(buffer))
+        self.size = serializer.size
+        return values
+
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[Unpack[Ts]]:
+        serializer = self._decide(False)
+        values = tuple(serializer.unpack_from(buffer, offset))
+        self.size = serializer.size
+        return values
+
+    def unpack_read(self, readable: BinaryIO) -> tuple[Unpack[Ts]]:
+        serializer = self._decide(False)
+        values = tuple(serializer.unpack_read(readable))
+        self.size = serializer.size
+        return values
 
 
 class SkipSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
-- 
2.43.0


From 354d1ec922866ea7900fc0f0b7acda850e3b70e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:38 +0000
Subject: [PATCH 23/35] fix: generic classes with a byte order could not be
 used as field types

---
 structured/serializers/structured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/structured.py b/structured/serializers/structured.py
index 0f0f520..1cbfb9d 100644
--- a/structured/serializers/structured.py
+++ b/structured/serializers/structured.py
@@ -96,7 +96,7 @@ class StructuredSerializer(Generic[TStructured], Serializer[TStructured]):
                 except KeyError:
                     pass
 
-                class _Specialized(base_type):
+                class _Specialized(base_type, byte_order=origin.byte_order):
                     pass
 
                 serializer = StructuredSerializer(_Specialized)
-- 
2.43.0


From 19addb46a629b2bca0c3187a815cbda6ccb6f446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:40 +0000
Subject: [PATCH 24/35] fix: specializing a generic base replaced hints the
 subclass redefines

---
 structured/structured.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/structured/structured.py b/structured/structured.py
index 0daece5..1463113 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -384,6 +384,13 @@ class Structured(metaclass=StructuredMeta):
             orig_base = base_to_origbase.get(base, None)
             if orig_base:
                 annotations = base._get_specialization_hints(*get_args(orig_base))
+                # But not those this class redefines
+                own_annotations = get_annotations(cls)
+                annotations = {
+                    attr: hint
+                    for attr, hint in annotations.items()
+                    if attr not in own_annotations
+                }
                 update_annotations(cls, annotations)
         # Analyze the class
         typehints = get_type_hints(cls, include_extras=True)
@@ -460,7 +467,13 @@ class Structured(metaclass=StructuredMeta):
             args = get_args(alias)
             args = (tvar_map.get(arg, arg) for arg in args)
             super_annotations = base._get_specialization_hints(*args)
-            all_annotations.append(super_annotations)
+            all_annotations.append(
+                {
+                    attr: hint
+                    for attr, hint in super_annotations.items()
+                    if attr not in cls_annotations
+                }
+            )
         return reduce(operator.or_, reversed(all_annotations))
 
 
-- 
2.43.0


From a5a4203245d4f782fd6fabb0ce95bc444924d672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:52 +0000
Subject: [PATCH 25/35] fix: invalid lengths like 1.0 were accepted after the
 equal valid one was used

---
 structured/hint_types/arrays.py  | 6 +++---
 structured/hint_types/strings.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/structured/hint_types/arrays.py b/structured/hint_types/arrays.py
index 02ee042..d31ee10 100644
--- a/structured/hint_types/arrays.py
+++ b/structured/hint_types/arrays.py
@@ -9,7 +9,7 @@ __all__ = [
     'Header',
 ]
 
-from functools import cache
+from functools import lru_cache
 
 from ..base_types import requires_indexing
 from ..serializers import (
@@ -52,7 +52,7 @@ class Header:
         return cls._create(length_kind, size_kind)
 
     @classmethod
-    @cache
+    @lru_cache(maxsize=None, typed=True)  # don't mix up 1 and 1.0
     def _create(
         cls,
         length_kind: int | TypeVar | StructSerializer[int],
@@ -84,7 +84,7 @@ class array(Generic[S, T], list[T], requires_indexing):
     """Dispatching class used for typehinting to create ArraySerializers"""
 
     @classmethod
-    @cache
+    @lru_cache(maxsize=None, typed=True)
     def __class_getitem__(cls, args) -> type[list[T]]:
         if not isinstance(args, tuple) or len(args) != 2:
             raise TypeError(f'{cls.__name__}[] expected 2 arguments, got {args!r}')
diff --git a/structured/hint_types/strings.py b/structured/hint_types/strings.py
index 8abc533..96568a0 100644
--- a/structured/hint_types/strings.py
+++ b/structured/hint_types/strings.py
@@ -13,7 +13,7 @@ __all__ = [
 ]
 
 import math
-from functools import cache, partial
+from functools import lru_cache, partial
 
 from ..base_types import requires_indexing
 from ..serializers import (
@@ -58,7 +58,7 @@ class char(bytes, requires_indexing):
         return cls._create(*args)
 
     @classmethod
-    @cache
+    @lru_cache(maxsize=None, typed=True)  # don't mix up 1 and 1.0
     def _create(
         cls,
         count: Union[int, type[_TSize], type[NET]],
@@ -143,7 +143,7 @@ class unicode(str, requires_indexing):
         return cls._create(count, encoding)
 
     @classmethod
-    @cache
+    @lru_cache(maxsize=None, typed=True)  # don't mix up 1 and 1.0
     def _create(
         cls,
         count: Union[int, type[_TSize], type[NET]],
-- 
2.43.0


From 3df67ae626bca4218d34cd1eef66a87f812f2f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:54 +0000
Subject: [PATCH 26/35] fix: classes generic through their base only could not
 be specialized

---
 structured/structured.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/structured/structured.py b/structured/structured.py
index 1463113..6b75670 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -22,7 +22,6 @@ from .type_checking import (
     BinaryIO,
     Callable,
     ClassVar,
-    Generic,
     Iterable,
     Iterator,
     Optional,
@@ -434,11 +433,10 @@ class Structured(metaclass=StructuredMeta):
         to be specialized with `args`,
         """
         supers: dict[type[Structured], Any] = {}
-        tvars = ()
+        tvars = getattr(cls, '__parameters__', ())
         for base in getattr(cls, '__orig_bases__', ()):
-            if (origin := get_origin(base)) is Generic:
-                tvars = get_args(base)
-            elif origin and issubclass(origin, Structured):
+            origin = get_origin(base)
+            if origin and issubclass(origin, Structured):
                 supers[origin] = base
         tvar_map = dict(zip(tvars, args))
         if not tvar_map:
-- 
2.43.0


From b66db7ff926af39bbcc0ba2546cb299171dc7eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:57 +0000
Subject: [PATCH 27/35] fix: conditional padding was treated as a field with a
 value

---
 structured/structured.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structured/structured.py b/structured/structured.py
index 6b75670..a3949fd 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -16,7 +16,7 @@ from functools import reduce
 from itertools import count
 
 from .base_types import ByteOrder, ByteOrderMode
-from .serializers import NullSerializer, Serializer, StructSerializer
+from .serializers import ConditionalSerializer, NullSerializer, Serializer, StructSerializer
 from .type_checking import (
     Any,
     BinaryIO,
@@ -45,6 +45,8 @@ from .utils import StructuredAlias, attrgetter, zips
 def ispad(annotation: Any) -> bool:
     """Detect pad[x] generated StructSerializers."""
     serializer = annotated.transform(annotation)
+    if isinstance(serializer, ConditionalSerializer):
+        serializer = serializer.serializers[True]
     return (
         isinstance(serializer, StructSerializer)
         and serializer.num_values == 0
-- 
2.43.0


From d2ee428333f896a666e47ee1d3bdcc95c82c453c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:59 +0000
Subject: [PATCH 28/35] fix: type variables inside nested generic hints were
 not resolved

---
 structured/hint_types/arrays.py      | 2 ++
 structured/hint_types/tuples.py      | 8 ++++++--
 structured/serializers/structured.py | 4 ++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/structured/hint_types/arrays.py b/structured/hint_types/arrays.py
index d31ee10..6d25898 100644
--- a/structured/hint_types/arrays.py
+++ b/structured/hint_types/arrays.py
@@ -96,6 +96,8 @@ class array(Generic[S, T], list[T], requires_indexing):
             raise TypeError(f'invalid array header type: {header!r}')
         # Item type checks
         item_serializer = annotated.transform(item_type)
+        if isinstance(item_serializer, StructuredAlias):
+            return StructuredAlias(cls, (header, item_serializer))  # type: ignore
         if not isinstance(item_serializer, Serializer):
             raise TypeError(f'invalid array item type: {item_type!r}')
         elif item_serializer.is_final():
diff --git a/structured/hint_types/tuples.py b/structured/hint_types/tuples.py
index b28f4dd..bdf484b 100644
--- a/structured/hint_types/tuples.py
+++ b/structured/hint_types/tuples.py
@@ -10,9 +10,13 @@ from ..utils import StructuredAlias
 def transform_tuple(base_type: Any, hint: Any) -> Any:
     if istuple(base_type):
         if tuple_args := get_tuple_args(base_type):
-            if any(isinstance(arg, (TypeVar, StructuredAlias)) for arg in tuple_args):
-                return StructuredAlias(Tuple, tuple_args)
             serializers = [annotated.transform(x) for x in tuple_args]
+            if any(isinstance(x, (TypeVar, StructuredAlias)) for x in serializers):
+                tuple_args = tuple(
+                    x if isinstance(x, StructuredAlias) else arg
+                    for x, arg in zip(serializers, tuple_args)
+                )
+                return StructuredAlias(Tuple, tuple_args)
             if all(isinstance(x, Serializer) for x in serializers):
                 return TupleSerializer(serializers)
 
diff --git a/structured/serializers/structured.py b/structured/serializers/structured.py
index 1cbfb9d..009d5cf 100644
--- a/structured/serializers/structured.py
+++ b/structured/serializers/structured.py
@@ -89,7 +89,7 @@ class StructuredSerializer(Generic[TStructured], Serializer[TStructured]):
         elif safe_issubclass((origin := get_origin(base_type)), Structured):
             spec_args = get_args(base_type)
             key = (origin, spec_args)
-            if all(not isinstance(arg, TypeVar) for arg in spec_args):
+            if not any(isinstance(arg, (TypeVar, StructuredAlias)) for arg in spec_args):
                 # Fully specialized, first try the cache
                 try:
                     return cls._specializations[key]
@@ -106,7 +106,7 @@ class StructuredSerializer(Generic[TStructured], Serializer[TStructured]):
                 # Not fully specialized, return a StructuredAlias so it
                 # can potentially be fully speciailized by a further
                 # subclassing of the containing class.
-                return StructuredAlias(base_type, spec_args)
+                return StructuredAlias(origin, spec_args)
 
 
 annotated.register_transform(StructuredSerializer._transform)
-- 
2.43.0


From e60a556dacfdff595561174ee0302ee35560d282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:04 +0000
Subject: [PATCH 29/35] fix: type variables in the items of arrays with a
 generic header were not resolved

---
 structured/hint_types/arrays.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/structured/hint_types/arrays.py b/structured/hint_types/arrays.py
index 6d25898..d6118a7 100644
--- a/structured/hint_types/arrays.py
+++ b/structured/hint_types/arrays.py
@@ -90,14 +90,16 @@ class array(Generic[S, T], list[T], requires_indexing):
             raise TypeError(f'{cls.__name__}[] expected 2 arguments, got {args!r}')
         header, item_type = args
         # TypeVar checks
-        if isinstance(header, StructuredAlias) or isinstance(item_type, TypeVar):
+        item_serializer = annotated.transform(item_type)
+        if isinstance(item_serializer, StructuredAlias):
+            item_type = item_serializer
+        if isinstance(header, StructuredAlias) or isinstance(
+            item_type, (StructuredAlias, TypeVar)
+        ):
             return StructuredAlias(cls, (header, item_type))  # type: ignore
         elif not isinstance(header, Header):
             raise TypeError(f'invalid array header type: {header!r}')
         # Item type checks
-        item_serializer = annotated.transform(item_type)
-        if isinstance(item_serializer, StructuredAlias):
-            return StructuredAlias(cls, (header, item_serializer))  # type: ignore
         if not isinstance(item_serializer, Serializer):
             raise TypeError(f'invalid array item type: {item_type!r}')
         elif item_serializer.is_final():
-- 
2.43.0


From febd523cdb99bb95cb695e04688cf0f155b1caba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:52 +0000
Subject: [PATCH 30/35] fix: consuming strings packed values that are not bytes

---
 structured/serializers/strings.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 5f9e853..ab042b7 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -153,8 +153,9 @@ class ConsumingCharSerializer(Serializer[bytes]):
         return self
 
     def pack(self, *values: Unpack[tuple[bytes]]) -> bytes:
-        self.size = len(values[0])
-        return values[0]
+        data = values[0]
+        self.size = len(data)
+        return struct.pack(f'{self.size}s', data)
 
     def pack_into(
         self, buffer: WritableBuffer, offset: int, *values: Unpack[tuple[bytes]]
@@ -164,9 +165,7 @@ class ConsumingCharSerializer(Serializer[bytes]):
         struct.pack_into(f'{self.size}s', buffer, offset, data)
 
     def pack_write(self, writable: BinaryIO, *values: Unpack[tuple[bytes]]) -> None:
-        data = values[0]
-        self.size = len(data)
-        writable.write(data)
+        writable.write(self.pack(*values))
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[bytes]:
         data = bytes(buffer)
-- 
2.43.0


From beb673e9b5658fb10c85da16964b3aee7c63adc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:35 +0000
Subject: [PATCH 31/35] fix: a look-ahead key containing the class itself no
 longer loses the union's object

---
 structured/serializers/unions.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index f703ae9..efd4dc6 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -232,25 +232,34 @@ class LookaheadDecider(AUnion):
         self.size = serializer.size
 
     def unpack(self, buffer: ReadableBuffer) -> Iterable:
-        read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
+        read_ahead = self.read_ahead_serializer.preunpack(partial_object)
         result = tuple(read_ahead.unpack(buffer))[0]
+        # Reading ahead may have used this serializer for another object
+        self._partial_object = partial_object
         serializer = self.get_serializer(result, False)
         values = tuple(serializer.unpack(buffer))
         self.size = serializer.size
         return values
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> Iterable:
-        read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
+        read_ahead = self.read_ahead_serializer.preunpack(partial_object)
         result = tuple(read_ahead.unpack_from(buffer, offset))[0]
+        # Reading ahead may have used this serializer for another object
+        self._partial_object = partial_object
         serializer = self.get_serializer(result, False)
         values = tuple(serializer.unpack_from(buffer, offset))
         self.size = serializer.size
         return values
 
     def unpack_read(self, readable: BinaryIO) -> Iterable:
-        read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
+        read_ahead = self.read_ahead_serializer.preunpack(partial_object)
         result = tuple(read_ahead.unpack_read(readable))[0]
         readable.seek(-read_ahead.size, os.SEEK_CUR)
+        # Reading ahead may have used this serializer for another object
+        self._partial_object = partial_object
         serializer = self.get_serializer(result, False)
         values = tuple(serializer.unpack_read(readable))
         self.size = serializer.size
-- 
2.43.0


From 918ffc9b644df187a3910f3ec7de82395e74be40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:28 +0000
Subject: [PATCH 32/35] fix: packing a terminated string held in a bytearray
 changed the value

Appending the terminator with += extends a bytearray in place, so packing
modified the instance.
---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index ab042b7..263f25e 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -200,7 +200,7 @@ class TerminatedCharSerializer(Serializer[bytes]):
         raw_data = values[0]
         if raw_data[-1:] != self.terminator:
             # Insert terminator if needed
-            raw_data += self.terminator
+            raw_data = raw_data + self.terminator
         count = len(raw_data)
         self.size = count
         return _single_char @ count, raw_data
-- 
2.43.0


From 3d417e65d7c89355289c3798b814f8df611e4b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:27 +0000
Subject: [PATCH 33/35] fix: resolving a generic hint resolved the arguments
 substituted for its variables again

A variable mapped to a hint over a variable of the same name recursed without
end, as in class Mid(Base[array[Header[uint8], T]], Generic[T]).
---
 structured/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/structured/utils.py b/structured/utils.py
index ad88a0a..07b693d 100644
--- a/structured/utils.py
+++ b/structured/utils.py
@@ -89,9 +89,12 @@ class StructuredAlias:
         """
         resolved = []
         for arg in self.args:
-            arg = tvar_map.get(arg, arg)
             if isinstance(arg, StructuredAlias):
                 arg = arg.resolve(tvar_map)
+            else:
+                # What it maps to may contain TypeVars of the same name, but of
+                # the specializing class, so must not be resolved further.
+                arg = tvar_map.get(arg, arg)
             resolved.append(arg)
         resolved = tuple(resolved)
         if any((isinstance(arg, (TypeVar, StructuredAlias)) for arg in resolved)):
-- 
2.43.0


From 06e945dadf5af49628cb70951caf0de36af4c9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:55 +0000
Subject: [PATCH 34/35] fix: generic classes with arguments that are themselves
 generic were specialized too early

A field like Inner[Tuple[uint8, T]] was taken for fully specialized, giving a
class without the fields that use the variable.
---
 structured/serializers/structured.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/structured/serializers/structured.py b/structured/serializers/structured.py
index 009d5cf..b19efd6 100644
--- a/structured/serializers/structured.py
+++ b/structured/serializers/structured.py
@@ -87,7 +87,13 @@ class StructuredSerializer(Generic[TStructured], Serializer[TStructured]):
         if safe_issubclass(base_type, Structured):
             return StructuredSerializer(base_type)
         elif safe_issubclass((origin := get_origin(base_type)), Structured):
-            spec_args = get_args(base_type)
+            # Arguments may themselves be generic, like Tuple[uint8, T]
+            spec_args = tuple(
+                alias
+                if isinstance(alias := annotated.transform(arg), StructuredAlias)
+                else arg
+                for arg in get_args(base_type)
+            )
             key = (origin, spec_args)
             if not any(isinstance(arg, (TypeVar, StructuredAlias)) for arg in spec_args):
                 # Fully specialized, first try the cache
-- 
2.43.0


From 3e21af82ce7859be440d850a65ce0b749b26e3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:55 +0000
Subject: [PATCH 35/35] fix: fields lost when a generic base is specialized
 with a hint that is itself generic

In class Mid(Base[U, Tuple[uint8, T]], Generic[T, U]) the variables within such
an argument were not found again when Mid is specialized.
---
 structured/structured.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/structured/structured.py b/structured/structured.py
index a3949fd..b653be9 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -440,6 +440,13 @@ class Structured(metaclass=StructuredMeta):
             origin = get_origin(base)
             if origin and issubclass(origin, Structured):
                 supers[origin] = base
+        # Arguments may themselves be generic, like Tuple[uint8, T]
+        args = tuple(
+            nested
+            if isinstance(nested := annotated.transform(arg), StructuredAlias)
+            else arg
+            for arg in args
+        )
         tvar_map = dict(zip(tvars, args))
         if not tvar_map:
             raise TypeError(f'{cls.__name__} is not a Generic')
-- 
2.43.0

