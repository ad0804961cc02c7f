From eba45285ad1df12ca6cf65f811e26f0cd8e157b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:25 +0000
Subject: [PATCH 001/138] fix: copies of scaled primitives keep their scaling
 and time source

---
 runtimepy/primitives/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtimepy/primitives/base.py b/runtimepy/primitives/base.py
index e186bad..7b22570 100644
--- a/runtimepy/primitives/base.py
+++ b/runtimepy/primitives/base.py
@@ -93,7 +93,11 @@ class Primitive(_Generic[T]):
 
     def __copy__(self) -> "Primitive[T]":
         """Make a copy of this primitive."""
-        return type(self)(value=self.value)
+        return type(self)(
+            value=self.value,
+            scaling=self.scaling,
+            time_source=self.time_source,
+        )
 
     def copy(self) -> "Primitive[T]":
         """A simple wrapper for copy."""
-- 
2.43.0


From 644c06b027890809adddd7da3ac5a6d9edcd5698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:34 +0000
Subject: [PATCH 002/138] fix: value-change callbacks receive the stored value

---
 runtimepy/primitives/base.py | 4 +++-
 runtimepy/primitives/int.py  | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/runtimepy/primitives/base.py b/runtimepy/primitives/base.py
index 7b22570..1aaa847 100644
--- a/runtimepy/primitives/base.py
+++ b/runtimepy/primitives/base.py
@@ -167,7 +167,9 @@ class Primitive(_Generic[T]):
 
         curr: T = self.raw.value  # type: ignore
         self.raw.value = value
-        self._check_callbacks(curr, value)
+
+        # Storage may wrap or round, observers need what was really stored.
+        self._check_callbacks(curr, self.raw.value)  # type: ignore
 
     @property
     def scaled(self) -> Numeric:
diff --git a/runtimepy/primitives/int.py b/runtimepy/primitives/int.py
index 69895fd..6218bbb 100644
--- a/runtimepy/primitives/int.py
+++ b/runtimepy/primitives/int.py
@@ -38,7 +38,7 @@ class BaseIntPrimitive(PrimitiveIsCloseMixin[int]):
 
         new_val: int = self.raw.value + amount  # type: ignore
         self.set_value(new_val, timestamp_ns=timestamp_ns)
-        return new_val
+        return self.value
 
     async def wait_for_value(
         self,
-- 
2.43.0


From 4cb09b77edb06ae08afc2b99c25bba3f16b35008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:34 +0000
Subject: [PATCH 003/138] fix: value-change callbacks may register and remove
 callbacks

---
 runtimepy/primitives/base.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/runtimepy/primitives/base.py b/runtimepy/primitives/base.py
index 1aaa847..02b16f1 100644
--- a/runtimepy/primitives/base.py
+++ b/runtimepy/primitives/base.py
@@ -147,15 +147,18 @@ class Primitive(_Generic[T]):
         """Determine if any callbacks should be serviced."""
 
         if self.callbacks and curr != new:
-            to_remove = []
-            for ident, (callback, once) in self.callbacks.items():
-                callback(curr, new)
+            # Callbacks may register or remove callbacks (or assign again).
+            for ident in list(self.callbacks):
+                if ident not in self.callbacks:
+                    continue
+
+                callback, once = self.callbacks[ident]
+
+                # Remove one-time callbacks.
                 if once:
-                    to_remove.append(ident)
+                    self.remove_callback(ident)
 
-            # Remove one-time callbacks.
-            for item in to_remove:
-                self.remove_callback(item)
+                callback(curr, new)
 
     def set_value(self, value: T, timestamp_ns: int = None) -> None:
         """Set a new underlying value."""
-- 
2.43.0


From 51d62adc6ce13b79100f5fff8334a8dc43fdd2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 004/138] fix: an evaluation that succeeded can't be
 overwritten by later changes

---
 runtimepy/primitives/evaluation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/runtimepy/primitives/evaluation.py b/runtimepy/primitives/evaluation.py
index a7780bd..77dfbb9 100644
--- a/runtimepy/primitives/evaluation.py
+++ b/runtimepy/primitives/evaluation.py
@@ -72,11 +72,12 @@ async def evaluate(
     def change_callback(curr: T, new: T) -> None:
         """Handle underlying value changes to the provided primitive."""
 
-        # Always update the result when called.
+        # Update the result when called (until it's resolved).
         nonlocal result
-        result = evaluator(curr, new)
-        if result:
-            event.set()
+        if not event.is_set():
+            result = evaluator(curr, new)
+            if result:
+                event.set()
 
     # Service the callback until resolved or this evaluation times out.
     with primitive.callback(change_callback):
-- 
2.43.0


From 6c665e532336232cbb3a4333fb63a47ec80787eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:47 +0000
Subject: [PATCH 005/138] fix: sampling timeouts don't cancel what the sample
 consumer awaits

---
 runtimepy/primitives/evaluation.py | 31 +++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/runtimepy/primitives/evaluation.py b/runtimepy/primitives/evaluation.py
index 77dfbb9..eca5b60 100644
--- a/runtimepy/primitives/evaluation.py
+++ b/runtimepy/primitives/evaluation.py
@@ -121,7 +121,8 @@ async def sample_for(
     is set).
     """
 
-    sample_queue: asyncio.Queue[tuple[T, int]] = asyncio.Queue()
+    # Nothing in the queue signals that the timeout expired.
+    sample_queue: asyncio.Queue[None | tuple[T, int]] = asyncio.Queue()
     keep_sampling = True
     samples = 0
 
@@ -150,18 +151,30 @@ async def sample_for(
             sample_queue.put_nowait((new, primitive.last_updated_ns))
             poll_sample_event()
 
+    def expire() -> None:
+        """Stop sampling, which must not disturb the sample consumer."""
+
+        nonlocal keep_sampling
+        keep_sampling = False
+        sample_queue.put_nowait(None)
+
+    timer = asyncio.get_running_loop().call_later(timeout, expire)
+
     # Service the callback until resolved or this evaluation times out.
-    with primitive.callback(sample):
-        try:
-            async with asyncio.timeout(timeout):
-                while keep_sampling:
-                    yield await sample_queue.get()
-        except asyncio.TimeoutError:
-            pass
+    try:
+        with primitive.callback(sample):
+            while keep_sampling:
+                item = await sample_queue.get()
+                if item is not None:
+                    yield item
+    finally:
+        timer.cancel()
 
     # Drain queue.
     while not sample_queue.empty():
-        yield sample_queue.get_nowait()
+        item = sample_queue.get_nowait()
+        if item is not None:
+            yield item
 
 
 class PrimitiveIsCloseMixin(Primitive[T]):
-- 
2.43.0


From c5a2d6fef501ab09efcb0616d899f9a97dbcd678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 006/138] fix: rejected bit fields don't replace fields or
 consume bits

---
 runtimepy/primitives/field/fields.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/runtimepy/primitives/field/fields.py b/runtimepy/primitives/field/fields.py
index a181ef7..8bb15fe 100644
--- a/runtimepy/primitives/field/fields.py
+++ b/runtimepy/primitives/field/fields.py
@@ -146,6 +146,7 @@ class BitFields(_RuntimepyDictCodec):
     ) -> _BitFlag:
         """Create a new bit flag."""
 
+        self._validate_new(name)
         index = self._claim_bits(1, index=index)
 
         result = _BitFlag(
@@ -156,6 +157,12 @@ class BitFields(_RuntimepyDictCodec):
         self.by_index[index] = result
         return result
 
+    def _validate_new(self, name: str) -> None:
+        """Validate a new field's name (before any bits are allocated)."""
+
+        assert name not in self.fields, f"Field '{name}' already exists!"
+        assert _BitField.validate_name(name), f"Invalid name '{name}'!"
+
     def _claim_bits(self, width: int, index: int = None) -> int:
         """Allocate bits within this primitive."""
 
@@ -211,6 +218,7 @@ class BitFields(_RuntimepyDictCodec):
         """Create a new bit field."""
 
         assert width != 1, "Use bit-flags for single-width fields!"
+        self._validate_new(name)
 
         return self.claim_field(
             _BitField(
-- 
2.43.0


From 2be6c755a1621d65f733e2016f1280d3ecebbbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 007/138] fix: exported bit fields keep padding values and
 descriptions when loaded

---
 runtimepy/primitives/field/__init__.py | 2 ++
 runtimepy/primitives/field/fields.py   | 7 ++++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/runtimepy/primitives/field/__init__.py b/runtimepy/primitives/field/__init__.py
index 4fe1265..ec213a0 100644
--- a/runtimepy/primitives/field/__init__.py
+++ b/runtimepy/primitives/field/__init__.py
@@ -131,6 +131,8 @@ class BitField(BitFieldBase, _RegexMixin, _EnumMixin):
             result["enum"] = self.enum
         if self.commandable:
             result["commandable"] = True
+        if self.description is not None:
+            result["description"] = self.description
         return result
 
 
diff --git a/runtimepy/primitives/field/fields.py b/runtimepy/primitives/field/fields.py
index 8bb15fe..821e2e0 100644
--- a/runtimepy/primitives/field/fields.py
+++ b/runtimepy/primitives/field/fields.py
@@ -60,9 +60,10 @@ class BitFields(_RuntimepyDictCodec):
 
             # Fields without names are considered padding.
             if not name:
-                assert value == 0, "Can't set padding to non-zero value!"
                 assert enum is None, f"Enum '{enum}' specified for padding!"
-                item["index"] = self.pad(width=width, index=index)
+                item["index"] = self.pad(
+                    width=width, index=index, val=value
+                )
                 continue
 
             if width == 1:
@@ -193,7 +194,7 @@ class BitFields(_RuntimepyDictCodec):
         result = self._claim_bits(width, index=index)
 
         # Ensure the padded field is still set to the correct value.
-        _BitFieldBase(self.raw, result, width)(val=val)
+        val = _BitFieldBase(self.raw, result, width)(val=val)
 
         self.by_index[result] = (width, val)
         return result
-- 
2.43.0


From 328ce82aadb6fc56b405e35ed1a866f0bfb1e8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 008/138] fix: reject bit fields that extend past their
 primitive

---
 runtimepy/primitives/field/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtimepy/primitives/field/__init__.py b/runtimepy/primitives/field/__init__.py
index ec213a0..453a96c 100644
--- a/runtimepy/primitives/field/__init__.py
+++ b/runtimepy/primitives/field/__init__.py
@@ -113,6 +113,9 @@ class BitField(BitFieldBase, _RegexMixin, _EnumMixin):
         assert (
             width <= raw.kind.bits
         ), f"Field can't be {width}-bits wide for {raw.kind}!"
+        assert (
+            index + width <= raw.kind.bits
+        ), f"Field of {width} bits at {index} exceeds {raw.kind}!"
 
         assert self.validate_name(name), f"Invalid name '{name}'!"
         self.name = name
-- 
2.43.0


From ae8470ce0dae0ffe2d908d402dc286ae2664ae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:20 +0000
Subject: [PATCH 009/138] fix: rejected name mappings don't leave one direction
 updated

---
 runtimepy/mapping.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/runtimepy/mapping.py b/runtimepy/mapping.py
index 34a20bb..1c8e955 100644
--- a/runtimepy/mapping.py
+++ b/runtimepy/mapping.py
@@ -64,22 +64,21 @@ class TwoWayNameMapping(_RegexMixin, LoggerMixin, _Generic[T]):
 
         assert self.validate_name(name), f"Invalid name '{name}'!"
 
-        # Add to the key->name mapping.
-        if key not in self._mapping:
-            self._mapping[key] = name
-        else:
-            # Ensure the mappings are consistent.
+        # Ensure the mappings are consistent (before changing either one).
+        if key in self._mapping:
             curr_name = self._mapping[key]
             assert curr_name == name, f"{curr_name} != {name} ({key})"
+        if name in self._reverse:
+            curr_key = self._reverse[name]
+            assert curr_key == key, f"{curr_key} != {key} ({name})"
+
+        # Add to the key->name mapping.
+        self._mapping[key] = name
 
         # Add to the name->key mapping.
         if name not in self._reverse:
             self._reverse[name] = key
             self.registered_order.append(name)
-        else:
-            # Ensure the mappings are consistent.
-            curr_key = self._reverse[name]
-            assert curr_key == key, f"{curr_key} != {key} ({name})"
 
     def load_key_to_name(self, mapping: KeyToName[T]) -> None:
         """Load a key-to-name mapping."""
-- 
2.43.0


From 691304d1f4ea42c68d6ddf76e2b86f20ed5a246d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:20 +0000
Subject: [PATCH 010/138] fix: registered boolean names are part of the
 registration order

---
 runtimepy/registry/bool.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/runtimepy/registry/bool.py b/runtimepy/registry/bool.py
index ec76935..306e31e 100644
--- a/runtimepy/registry/bool.py
+++ b/runtimepy/registry/bool.py
@@ -21,6 +21,5 @@ class BooleanRegistry(_TwoWayNameMapping[bool]):
         ):
             return False
 
-        self._mapping[value] = name
-        self._reverse[name] = value
+        self._set(value, name)
         return True
-- 
2.43.0


From 1b99bd653e83b41e4207c3799df65ac71a6d5310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:20 +0000
Subject: [PATCH 011/138] fix: name mapping dictionaries don't alias the
 mapping

---
 runtimepy/mapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/mapping.py b/runtimepy/mapping.py
index 1c8e955..76c81e5 100644
--- a/runtimepy/mapping.py
+++ b/runtimepy/mapping.py
@@ -116,7 +116,7 @@ class TwoWayNameMapping(_RegexMixin, LoggerMixin, _Generic[T]):
 
     def asdict(self) -> dict[str, T]:
         """Provide a dictionary representation."""
-        return self._reverse
+        return dict(self._reverse)
 
     @classmethod
     def int_from_dict(
-- 
2.43.0


From 76e17e66472a4f3a29f0bb65856963f1fce0cd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:20 +0000
Subject: [PATCH 012/138] fix: registry items can be compared with each other

---
 runtimepy/registry/item.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/runtimepy/registry/item.py b/runtimepy/registry/item.py
index 3c07291..475ff3e 100644
--- a/runtimepy/registry/item.py
+++ b/runtimepy/registry/item.py
@@ -21,7 +21,13 @@ class RegistryItem(_RuntimepyDictCodec):
 
     def __eq__(self, other) -> bool:
         """Use the integer identifier to determine equivalence."""
-        return bool(self.id == getattr(other, "id", other["id"]))
+
+        if isinstance(other, dict):
+            other_id = other.get("id")
+        else:
+            other_id = getattr(other, "id", None)
+
+        return bool(self.id == other_id)
 
     def init(self, data: _JsonObject) -> None:
         """Perform implementation-specific initialization."""
-- 
2.43.0


From b81b13e461f182e765a9113d2dd2e3baab88e8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:20 +0000
Subject: [PATCH 013/138] fix: runtime enumerations keep their class's
 primitive

---
 runtimepy/enum/registry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtimepy/enum/registry.py b/runtimepy/enum/registry.py
index 845e1f1..a4f8979 100644
--- a/runtimepy/enum/registry.py
+++ b/runtimepy/enum/registry.py
@@ -76,7 +76,11 @@ class RuntimeIntEnum(_IntEnum):
     @classmethod
     def runtime_enum(cls, identifier: int) -> _RuntimeEnum:
         """Obtain a runtime enumeration from this class."""
-        return _RuntimeEnum.from_enum(cls, identifier)
+
+        data = _RuntimeEnum.data_from_enum(cls)
+        data["id"] = identifier
+        data["primitive"] = cls.primitive()
+        return _RuntimeEnum.create(data)
 
     @classmethod
     def register_enum(
-- 
2.43.0


From 28dda49d084f382929267825951d5a96f556a055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:16 +0000
Subject: [PATCH 014/138] fix: native byte order doesn't insert alignment
 padding

---
 runtimepy/primitives/byte_order.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtimepy/primitives/byte_order.py b/runtimepy/primitives/byte_order.py
index b183db7..4826835 100644
--- a/runtimepy/primitives/byte_order.py
+++ b/runtimepy/primitives/byte_order.py
@@ -19,7 +19,8 @@ class ByteOrder(_RuntimeIntEnum):
         """Get the struct formatter for this byte order."""
 
         if self is ByteOrder.NATIVE:
-            return "@"
+            # Native byte order without native alignment (padding).
+            return "="
         if self is ByteOrder.LITTLE_ENDIAN:
             return "<"
         if self is ByteOrder.BIG_ENDIAN:
-- 
2.43.0


From 56d8f928df68f15e7aecb7b62283560ac577d992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:16 +0000
Subject: [PATCH 015/138] fix: track byte positions of every element of
 primitive arrays

---
 runtimepy/primitives/array/__init__.py | 28 ++++++++++++++------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/runtimepy/primitives/array/__init__.py b/runtimepy/primitives/array/__init__.py
index 237e3db..a7332bc 100644
--- a/runtimepy/primitives/array/__init__.py
+++ b/runtimepy/primitives/array/__init__.py
@@ -184,29 +184,31 @@ class PrimitiveArray(Serializable):
         """Add to the array by specifying the type of element to add."""
         return self.add(_create(kind), array_length=array_length)
 
+    def _append(self, primitive: _AnyPrimitive) -> None:
+        """Append a single primitive to this array."""
+
+        self._primitives.append(primitive)
+        self._format += primitive.kind.format
+        self.size += primitive.size
+
+        # Add tracking information for the current tail.
+        curr_idx = len(self._primitives)
+        self._bytes_to_index[self.size] = curr_idx
+        self._index_to_bytes[curr_idx] = self.size
+
     def add(self, primitive: _AnyPrimitive, array_length: int = None) -> int:
         """Add another primitive to manage."""
 
         end = self.end
         if isinstance(end, PrimitiveArray):
             if end is self:
-                self._primitives.append(primitive)
-                self._format += primitive.kind.format
-                self.size += primitive.size
+                self._append(primitive)
 
                 # Handle array length.
                 if array_length is not None:
                     for _ in range(array_length - 1):
-                        self._primitives.append(
-                            primitive.copy(),  # type: ignore
-                        )
-                        self._format += primitive.kind.format
-                        self.size += primitive.size
-
-                # Add tracking information for the current tail.
-                curr_idx = len(self._primitives)
-                self._bytes_to_index[self.size] = curr_idx
-                self._index_to_bytes[curr_idx] = self.size
+                        self._append(primitive.copy())  # type: ignore
+
                 result = self.size
             else:
                 result = end.add(primitive, array_length=array_length)
-- 
2.43.0


From 201fd0662ce739bdfd68624e4219a95b3b4aed5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:16 +0000
Subject: [PATCH 016/138] fix: oversized prefixed chunk updates are rejected
 without side effects

---
 runtimepy/primitives/serializable/prefixed.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtimepy/primitives/serializable/prefixed.py b/runtimepy/primitives/serializable/prefixed.py
index 115204c..7e801a9 100644
--- a/runtimepy/primitives/serializable/prefixed.py
+++ b/runtimepy/primitives/serializable/prefixed.py
@@ -47,6 +47,10 @@ class PrefixedChunk(Serializable):
     def update(self, data: bytes, timestamp_ns: int = None) -> int:
         """Update this serializable from a bytes instance."""
 
+        # Don't change anything if the size can't be represented.
+        bounds = self.prefix.kind.int_bounds
+        assert bounds is not None and bounds.validate(len(data)), len(data)
+
         size = self.chunk.update(data, timestamp_ns=timestamp_ns)
         self.prefix.value = size
         return self._update_size()
-- 
2.43.0


From 3711c987963755550c8bbd95343b233259519777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:16 +0000
Subject: [PATCH 017/138] fix: string prefixes are the encoded size of the
 string

---
 runtimepy/primitives/string.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/runtimepy/primitives/string.py b/runtimepy/primitives/string.py
index 05a2ee2..94c0d33 100644
--- a/runtimepy/primitives/string.py
+++ b/runtimepy/primitives/string.py
@@ -26,9 +26,9 @@ class StringPrimitive:
         """Initialize this string primitive."""
 
         assert kind.kind.is_integer
-        self._value = value
-        self._size = kind(value=len(self._value))
+        self._size = kind()
         self.byte_order = byte_order
+        self.set(value)
 
     def __str__(self) -> str:
         """Get this instance as a string."""
@@ -61,8 +61,14 @@ class StringPrimitive:
 
     def set(self, value: str) -> None:
         """Set a new value for the underlying string."""
+
+        # The prefix is the encoded size (in bytes).
+        size = len(value.encode())
+        bounds = self._size.kind.int_bounds
+        assert bounds is not None and bounds.validate(size), size
+
         self._value = value
-        self._size.value = len(self._value)
+        self._size.value = size
 
     @property
     def size(self) -> int:
-- 
2.43.0


From 1b651c4d5e5d22385c7ee0ccd18a978ad32f604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:16 +0000
Subject: [PATCH 018/138] fix: copied and imported protocols keep their build,
 identifier and arrays

---
 runtimepy/codec/protocol/base.py | 6 ++++--
 runtimepy/codec/protocol/json.py | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/runtimepy/codec/protocol/base.py b/runtimepy/codec/protocol/base.py
index 9ee6de7..fb82d2d 100644
--- a/runtimepy/codec/protocol/base.py
+++ b/runtimepy/codec/protocol/base.py
@@ -110,7 +110,9 @@ class ProtocolBase:
             build = []
         for item in build:
             if isinstance(item, int):
-                self._add_bit_fields(self._fields.fields[item], track=False)
+                # These fields are already managed.
+                self.array.add(self._fields.fields[item].raw)
+                self._build.append(item)
             elif isinstance(item, str):
                 assert serializables, (item, serializables)
                 self.add_field(item, serializable=serializables[item])
@@ -120,7 +122,6 @@ class ProtocolBase:
                     item.name,
                     item.kind,
                     enum=item.enum,
-                    track=False,
                     array_length=item.array_length,
                 )
 
@@ -135,6 +136,7 @@ class ProtocolBase:
             names=self.names,
             fields=_copy(self._fields),
             build=self._build,
+            identifier=self.id,
             byte_order=self.array.byte_order,
             serializables={
                 key: val.copy_without_chain()
diff --git a/runtimepy/codec/protocol/json.py b/runtimepy/codec/protocol/json.py
index 8963f1e..51151de 100644
--- a/runtimepy/codec/protocol/json.py
+++ b/runtimepy/codec/protocol/json.py
@@ -111,6 +111,7 @@ class JsonProtocol(ProtocolBase):
                         item["name"],  # type: ignore
                         item["kind"],  # type: ignore
                         enum=item.get("enum"),  # type: ignore
+                        array_length=item.get("array_length"),
                     )
                 )
 
-- 
2.43.0


From 511935a246d7679fdb138b61fc519b3762e94daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:41 +0000
Subject: [PATCH 019/138] fix: copied protocols keep the length of serializable
 arrays

---
 runtimepy/codec/protocol/base.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/runtimepy/codec/protocol/base.py b/runtimepy/codec/protocol/base.py
index fb82d2d..ed2490f 100644
--- a/runtimepy/codec/protocol/base.py
+++ b/runtimepy/codec/protocol/base.py
@@ -71,6 +71,7 @@ class ProtocolBase:
         identifier: int = 1,
         byte_order: _Union[_ByteOrder, _RegistryKey] = _DEFAULT_BYTE_ORDER,
         serializables: SerializableMap = None,
+        array_lengths: dict[str, _Optional[int]] = None,
     ) -> None:
         """Initialize this protocol."""
 
@@ -104,6 +105,7 @@ class ProtocolBase:
 
         # Keep track of named serializables.
         self.serializables: SerializableMap = {}
+        self._array_lengths: dict[str, _Optional[int]] = {}
 
         # Add fields if necessary.
         if build is None:
@@ -115,7 +117,11 @@ class ProtocolBase:
                 self._build.append(item)
             elif isinstance(item, str):
                 assert serializables, (item, serializables)
-                self.add_field(item, serializable=serializables[item])
+                self.add_field(
+                    item,
+                    serializable=serializables[item],
+                    array_length=(array_lengths or {}).get(item),
+                )
                 del serializables[item]
             else:
                 self.add_field(
@@ -142,6 +148,7 @@ class ProtocolBase:
                 key: val.copy_without_chain()
                 for key, val in self.serializables.items()
             },
+            array_lengths=self._array_lengths,
         )
 
     def register_name(self, name: str) -> int:
@@ -158,6 +165,7 @@ class ProtocolBase:
 
         self.register_name(name)
         self.serializables[name] = serializable
+        self._array_lengths[name] = array_length
         self._build.append(name)
         return self.array.add_to_end(serializable, array_length=array_length)
 
-- 
2.43.0


From 2473a3eb9fc73ce8171b4d696871bbfe0da4566f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:41 +0000
Subject: [PATCH 020/138] fix: protocol strings only use names of the
 protocol's own fields

---
 runtimepy/codec/protocol/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtimepy/codec/protocol/base.py b/runtimepy/codec/protocol/base.py
index ed2490f..74fd0cc 100644
--- a/runtimepy/codec/protocol/base.py
+++ b/runtimepy/codec/protocol/base.py
@@ -258,7 +258,11 @@ class ProtocolBase:
         """Get this instance as a string."""
 
         return f"({self.size}) " + " ".join(
-            f"{name}={self[name]}" for name in self.names.registered_order
+            f"{name}={self[name]}"
+            for name in self.names.registered_order
+            if name in self._regular_fields
+            or name in self.serializables
+            or self._fields.has_field(name)
         )
 
     def __getitem__(self, name: str) -> ProtocolPrimitive:
-- 
2.43.0


From 655b5feef105fb8949cd016023ecd68487f0b76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:41 +0000
Subject: [PATCH 021/138] fix: exporting protocol values honors whether enums
 are resolved

---
 runtimepy/codec/protocol/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/codec/protocol/json.py b/runtimepy/codec/protocol/json.py
index 51151de..a785e74 100644
--- a/runtimepy/codec/protocol/json.py
+++ b/runtimepy/codec/protocol/json.py
@@ -83,7 +83,7 @@ class JsonProtocol(ProtocolBase):
         # Export regular-field values.
         json_obj = data.get(VALUES_KEY, {})
         for name in self._regular_fields:
-            json_obj[name] = self.value(name)
+            json_obj[name] = self.value(name, resolve_enum=resolve_enum)
         if json_obj:
             data[VALUES_KEY] = json_obj
 
-- 
2.43.0


From 877cee46731c3d8e089f1b58a6a06be818738656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:41 +0000
Subject: [PATCH 022/138] fix: importing a protocol doesn't modify the imported
 data

---
 runtimepy/codec/protocol/json.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/runtimepy/codec/protocol/json.py b/runtimepy/codec/protocol/json.py
index a785e74..388acb4 100644
--- a/runtimepy/codec/protocol/json.py
+++ b/runtimepy/codec/protocol/json.py
@@ -94,9 +94,8 @@ class JsonProtocol(ProtocolBase):
         """Create a bit-fields manager from JSON data."""
 
         # Only set values once (at the end).
-        values = data.get(VALUES_KEY, {})
-        if VALUES_KEY in data:
-            del data[VALUES_KEY]
+        data = dict(data)
+        values = data.pop(VALUES_KEY, {})
 
         fields = BitFieldsManager.import_json(data)
 
-- 
2.43.0


From 49f0e3361e570ce1e8ea2b6963396c3919bbac47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:02 +0000
Subject: [PATCH 023/138] fix: message streams stay in sync if a consumer stops
 early

---
 runtimepy/message/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtimepy/message/__init__.py b/runtimepy/message/__init__.py
index 1047a00..9b551b3 100644
--- a/runtimepy/message/__init__.py
+++ b/runtimepy/message/__init__.py
@@ -79,7 +79,8 @@ class MessageProcessor:
             else:
                 message = self.buffer.pop(self.message_length_in.value)
                 if message is not None:
-                    yield message
+                    # The consumer may not come back for more.
                     self.reading_header = True
+                    yield message
                 else:
                     can_continue = False
-- 
2.43.0


From 2958d569fbf9f3f49e7b517fa85309cc23eafeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:02 +0000
Subject: [PATCH 024/138] fix: messages too long for their prefix aren't sent

---
 runtimepy/message/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtimepy/message/__init__.py b/runtimepy/message/__init__.py
index 9b551b3..da7254c 100644
--- a/runtimepy/message/__init__.py
+++ b/runtimepy/message/__init__.py
@@ -42,6 +42,10 @@ class MessageProcessor:
         if isinstance(data, str):
             data = data.encode()
 
+        # The prefix must be able to express the size.
+        bounds = self.message_length_out.kind.int_bounds
+        assert bounds is not None and bounds.validate(len(data)), len(data)
+
         self.message_length_out.value = len(data)
         self.message_length_out.to_stream(stream, byte_order=self.byte_order)
         stream.write(data)
-- 
2.43.0


From e9d1fb16a6cc19c4b0b2acd5df621348bd3cb9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:22 +0000
Subject: [PATCH 025/138] fix: abandoned JSON requests stop waiting for a
 response

---
 runtimepy/message/interface.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/runtimepy/message/interface.py b/runtimepy/message/interface.py
index f7f723d..b99f27a 100644
--- a/runtimepy/message/interface.py
+++ b/runtimepy/message/interface.py
@@ -263,18 +263,21 @@ class JsonMessageInterface:
         assert ident not in self.ids_waiting
         self.ids_waiting[ident] = got_response
 
-        # Send message and await response.
-        self.send_json(data, addr=addr)
+        try:
+            # Send message and await response.
+            self.send_json(data, addr=addr)
 
-        assert await event_wait(
-            got_response, timeout
-        ), f"No response received in {timeout} seconds!"
+            assert await event_wait(
+                got_response, timeout
+            ), f"No response received in {timeout} seconds!"
 
-        # Return the result.
-        result = self.id_responses[ident]
-        del self.id_responses[ident]
+            # Return the result.
+            return self.id_responses[ident]
 
-        return result
+        # Nothing is waiting for a response anymore (in any case).
+        finally:
+            self.ids_waiting.pop(ident, None)
+            self.id_responses.pop(ident, None)
 
     async def loopback(
         self,
-- 
2.43.0


From c66f29ea0e77159bdab143fb8f3bbe11dd654bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:22 +0000
Subject: [PATCH 026/138] fix: JSON requests of a peer aren't mistaken for
 responses

---
 runtimepy/message/interface.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtimepy/message/interface.py b/runtimepy/message/interface.py
index b99f27a..d735368 100644
--- a/runtimepy/message/interface.py
+++ b/runtimepy/message/interface.py
@@ -7,6 +7,7 @@ import asyncio
 from copy import copy
 from io import BytesIO
 import logging
+from random import randrange
 from typing import Any, Optional, Union
 
 # third-party
@@ -70,7 +71,10 @@ class JsonMessageInterface:
             "kind": type(self).__name__,
         }
 
+        # Peers choose identifiers independently, a request must not be mistaken
+        # for the response to a different one.
         self.curr_id = Identifier()
+        self.curr_id.curr_id = randrange(1 << 47, 1 << 48)
 
         self.ids_waiting: dict[int, asyncio.Event] = {}
         self.id_responses: dict[int, JsonMessage] = {}
-- 
2.43.0


From 7240972d23814dc897083a2b2bc0e20434737564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:22 +0000
Subject: [PATCH 027/138] fix: JSON messages with invalid handler data are
 ignored

---
 runtimepy/message/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/message/interface.py b/runtimepy/message/interface.py
index d735368..29ac237 100644
--- a/runtimepy/message/interface.py
+++ b/runtimepy/message/interface.py
@@ -347,7 +347,7 @@ class JsonMessageInterface:
             sub_response: JsonMessage = {}
 
             target = self.targets.evaluate(key)
-            if target:
+            if target and isinstance(item, dict):
                 assert target.data is not None
                 key, handler, kind = target.data
 
-- 
2.43.0


From 3253d0e3abc0a13822bf7892226f2cefd3816f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:22 +0000
Subject: [PATCH 028/138] fix: sending JSON messages doesn't modify the
 caller's data

---
 runtimepy/message/interface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtimepy/message/interface.py b/runtimepy/message/interface.py
index 29ac237..14bca23 100644
--- a/runtimepy/message/interface.py
+++ b/runtimepy/message/interface.py
@@ -187,6 +187,9 @@ class JsonMessageInterface:
         if isinstance(data, JsonCodec):
             data = data.asdict()
 
+        # The caller's data must not be changed.
+        data = copy(data)
+
         # Stage any pending log messages.
         if self.list_handler:
             for record in self.list_handler.drain():
-- 
2.43.0


From aa37e2d4da3b4567a2d889c8cc8e800f7c12e0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:22 +0000
Subject: [PATCH 029/138] fix: undecodable string messages are ignored

---
 runtimepy/net/stream/string.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/stream/string.py b/runtimepy/net/stream/string.py
index c8820f2..d0633be 100644
--- a/runtimepy/net/stream/string.py
+++ b/runtimepy/net/stream/string.py
@@ -27,4 +27,11 @@ class StringMessageConnection(PrefixedMessageConnection):
     ) -> bool:
         """Process a single message."""
 
-        return await self.process_message(stream.read().decode(), addr=addr)
+        data = stream.read()
+        try:
+            message = data.decode()
+        except UnicodeDecodeError as exc:
+            self.logger.error("Ignoring message %s: %s.", data, exc)
+            return True
+
+        return await self.process_message(message, addr=addr)
-- 
2.43.0


From 2fef38c97c62db1f2d6a1a3e3214bbf12e89dedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:44 +0000
Subject: [PATCH 030/138] fix: HTTP headers may contain multi-byte characters

---
 runtimepy/net/http/state.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/runtimepy/net/http/state.py b/runtimepy/net/http/state.py
index 0811587..686ec93 100644
--- a/runtimepy/net/http/state.py
+++ b/runtimepy/net/http/state.py
@@ -21,12 +21,12 @@ class HeaderProcessingState:
     """A container for header-related processing state."""
 
     lines: list[str]
-    line: str
+    line: bytes
 
     @staticmethod
     def create() -> "HeaderProcessingState":
         """Create a default instance."""
-        return HeaderProcessingState([], "")
+        return HeaderProcessingState([], b"")
 
     def service(self, buffer: ByteFifo, kind: type[T]) -> Optional[T]:
         """
@@ -37,15 +37,15 @@ class HeaderProcessingState:
         result = None
 
         while result is None and buffer.size:
-            curr_raw = buffer.pop(1)
-            if curr_raw is not None:
-                curr = curr_raw.decode(encoding=DEFAULT_ENCODING)
-
+            curr = buffer.pop(1)
+            if curr is not None:
                 # Any '\r\n' sequence signifies the end of a header line.
-                if curr == "\n":
+                if curr == b"\n":
                     if self.line:
-                        self.lines.append(self.line)
-                        self.line = ""
+                        self.lines.append(
+                            self.line.decode(encoding=DEFAULT_ENCODING)
+                        )
+                        self.line = b""
 
                     # Two sequences in a row signifies the end of the header
                     # section.
@@ -54,7 +54,7 @@ class HeaderProcessingState:
                         result.from_lines(self.lines)
                         self.lines = []
 
-                elif curr != "\r":
+                elif curr != b"\r":
                     self.line += curr
 
         return result
-- 
2.43.0


From 050cce41e547612c127f57a6586127727843ea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:44 +0000
Subject: [PATCH 031/138] fix: HTTP messages aren't repeated if a consumer
 stops early

---
 runtimepy/net/http/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/http/__init__.py b/runtimepy/net/http/__init__.py
index 7fe79a4..3a14067 100644
--- a/runtimepy/net/http/__init__.py
+++ b/runtimepy/net/http/__init__.py
@@ -54,5 +54,8 @@ class HttpMessageProcessor:
                 if can_read_payload:
                     if payload_len > 0:
                         payload = self.buffer.pop(payload_len)
-                    yield cast(T, self.current_header), payload
+
+                    # The consumer may not resume this generator.
+                    header = self.current_header
                     self.current_header = None
+                    yield cast(T, header), payload
-- 
2.43.0


From 5ad7fc740866ec34679f3a62684a689c2735dc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:44 +0000
Subject: [PATCH 032/138] fix: HTTP queries may contain question marks

---
 runtimepy/net/http/request_target.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/http/request_target.py b/runtimepy/net/http/request_target.py
index 1153535..0a25575 100644
--- a/runtimepy/net/http/request_target.py
+++ b/runtimepy/net/http/request_target.py
@@ -41,7 +41,7 @@ class RequestTarget:
 
         # 3.2.1 origin-form
         elif request_target_raw.startswith("/"):
-            parts = request_target_raw.split("?")
+            parts = request_target_raw.split("?", maxsplit=1)
             path = parts[0]
             if len(parts) > 1:
                 query = parts[1]
-- 
2.43.0


From f9abff689c63bff9bdf3998873d1a68957289b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:44 +0000
Subject: [PATCH 033/138] fix: HTTP responses can be logged

---
 runtimepy/net/http/response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/http/response.py b/runtimepy/net/http/response.py
index 77fda5b..d2c69be 100644
--- a/runtimepy/net/http/response.py
+++ b/runtimepy/net/http/response.py
@@ -76,7 +76,7 @@ class ResponseHeader(HeadersMixin):
         """Log information about this response header."""
 
         level = logging.INFO if (200 <= self.status <= 299) else logging.ERROR
-        logger.debug(
+        logger.log(
             level,
             "(%s response) %s - %s",
             "outgoing" if out else "incoming",
-- 
2.43.0


From 8dd0c0a41b72b7766727285a52b71636163e97e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:44 +0000
Subject: [PATCH 034/138] fix: responses to abandoned HTTP requests aren't
 delivered to others

---
 runtimepy/net/tcp/http/__init__.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/runtimepy/net/tcp/http/__init__.py b/runtimepy/net/tcp/http/__init__.py
index 5351c07..a1a5038 100644
--- a/runtimepy/net/tcp/http/__init__.py
+++ b/runtimepy/net/tcp/http/__init__.py
@@ -4,6 +4,7 @@ A module implementing a basic HTTP (multiple RFC's) connection interface.
 
 # built-in
 import asyncio
+from collections import deque
 from copy import copy
 import http
 from json import loads
@@ -55,8 +56,6 @@ class HttpConnection(_TcpConnection):
 
     identity = f"{PKG_NAME}/{VERSION}"
 
-    expecting_response: bool
-
     log_alias = "HTTP"
 
     # Handlers registered at the class level so that instances created at
@@ -71,13 +70,17 @@ class HttpConnection(_TcpConnection):
 
         # Outgoing request handling.
         self.request_ready = asyncio.BoundedSemaphore()
-        self.expecting_response = False
-        self.responses: asyncio.Queue[HttpResponse] = asyncio.Queue(maxsize=1)
+        self.responses: deque[asyncio.Future[HttpResponse]] = deque()
 
         self.handlers = copy(self.handlers)
         self.handlers[http.HTTPMethod.GET] = self.get_handler
         self.handlers[http.HTTPMethod.POST] = self.post_handler
 
+    @property
+    def expecting_response(self) -> bool:
+        """Determine if any request is waiting for its response."""
+        return bool(self.responses)
+
     @classmethod
     def get_log_prefix(cls, is_ssl: bool = False) -> str:
         """Get a logging prefix for this instance."""
@@ -137,10 +140,12 @@ class HttpConnection(_TcpConnection):
             # Set boilerplate header data.
             request["user-agent"] = self.identity
 
+            # Abandoned requests (e.g. cancelled) remain in the queue, so that
+            # their responses aren't delivered to other requests.
             self._send(request, data)
-            self.expecting_response = True
-            result = await self.responses.get()
-            self.expecting_response = False
+            response = asyncio.get_running_loop().create_future()
+            self.responses.append(response)
+            result: HttpResponse = await response
 
         return result
 
@@ -192,8 +197,8 @@ class HttpConnection(_TcpConnection):
 
             # Process the response to a pending request.
             else:
-                await self.responses.put(
-                    (cast(ResponseHeader, header), payload)
-                )
+                waiter = self.responses.popleft()
+                if not waiter.done():
+                    waiter.set_result((cast(ResponseHeader, header), payload))
 
         return True
-- 
2.43.0


From fab1de8f450b94f5f22f3d44a84f9c752f624f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:14 +0000
Subject: [PATCH 035/138] fix: waiting for a connection to initialize always
 completes

---
 runtimepy/net/connection.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index c62c69e..12635d8 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -280,6 +280,8 @@ class Connection(
         if self.disabled:
             return
 
+        self.initialized.clear()
+
         self._tasks = [
             _asyncio.create_task(self._process_read()),
             _asyncio.create_task(self._async_init()),
@@ -315,6 +317,10 @@ class Connection(
         # Ensure that tasks have their exceptions retrieved.
         _log_exceptions(self._tasks + [gather_task], self.logger)
 
+        # Initialization may not have completed, tasks waiting for it can't be
+        # blocked indefinitely by this.
+        self.initialized.set()
+
         await self.close()
         self.exited.set()
 
-- 
2.43.0


From 6a49a7cd4fb081d37f9dad77697f35585a491099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:14 +0000
Subject: [PATCH 036/138] fix: connections are disabled if one of their tasks
 fails

---
 runtimepy/net/connection.py | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index 12635d8..74f8acb 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -7,6 +7,8 @@ from abc import ABC as _ABC
 import asyncio as _asyncio
 from contextlib import asynccontextmanager, suppress
 from typing import AsyncIterator
+from typing import Awaitable as _Awaitable
+from typing import Callable as _Callable
 from typing import Iterator as _Iterator
 from typing import Optional as _Optional
 from typing import Union as _Union
@@ -203,6 +205,17 @@ class Connection(
             # Signal that this connection has been disabled.
             self._set_enabled(False)
 
+    async def _disable_on_error(
+        self, task: _Callable[[], _Awaitable[None]]
+    ) -> None:
+        """Disable this connection if one of its tasks raises an exception."""
+
+        try:
+            await task()
+        except Exception as exc:
+            self.disable(f"task failed: {exc!r}")
+            raise
+
     async def _wait_sig(self, stop_sig: _asyncio.Event) -> None:
         """Disable the connection if a stop signal gets set."""
 
@@ -282,9 +295,12 @@ class Connection(
 
         self.initialized.clear()
 
+        init_task = _asyncio.create_task(
+            self._disable_on_error(self._async_init)
+        )
         self._tasks = [
-            _asyncio.create_task(self._process_read()),
-            _asyncio.create_task(self._async_init()),
+            _asyncio.create_task(self._disable_on_error(self._process_read)),
+            init_task,
         ]
 
         # Disable the connection automatically if requested.
@@ -295,11 +311,15 @@ class Connection(
 
         if self.uses_text_tx_queue:
             self._tasks.append(
-                _asyncio.create_task(self._process_write_text())
+                _asyncio.create_task(
+                    self._disable_on_error(self._process_write_text)
+                )
             )
         if self.uses_binary_tx_queue:
             self._tasks.append(
-                _asyncio.create_task(self._process_write_binary())
+                _asyncio.create_task(
+                    self._disable_on_error(self._process_write_binary)
+                )
             )
 
         # Allow a stop signal to also disable the connection.
@@ -317,9 +337,10 @@ class Connection(
         # Ensure that tasks have their exceptions retrieved.
         _log_exceptions(self._tasks + [gather_task], self.logger)
 
-        # Initialization may not have completed, tasks waiting for it can't be
-        # blocked indefinitely by this.
-        self.initialized.set()
+        # Tasks waiting for initialization can't be blocked indefinitely if it
+        # didn't complete.
+        if init_task.cancelled() or init_task.exception() is not None:
+            self.initialized.set()
 
         await self.close()
         self.exited.set()
-- 
2.43.0


From 3a32a69e6551fd8610f023d597c3e1ec1ef0906e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:09 +0000
Subject: [PATCH 037/138] fix: exponential backoff grows exponentially

---
 runtimepy/net/backoff.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/backoff.py b/runtimepy/net/backoff.py
index aa8ca4b..9be028d 100644
--- a/runtimepy/net/backoff.py
+++ b/runtimepy/net/backoff.py
@@ -42,5 +42,7 @@ class ExponentialBackoff:
         """Sleep for the correct amount of time."""
 
         await asyncio.sleep(self.wait)
-        self.wait = min((2 ^ self.attempt) * self.interval, self.max_sleep)
+        self.wait = min(
+            max(self.wait * 2.0, self.interval), self.max_sleep
+        )
         self.attempt += 1
-- 
2.43.0


From 8b261a1c8bb9c2d9386e0fd198b4612bc05301f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:09 +0000
Subject: [PATCH 038/138] fix: restart attempts aren't reported as restarts

---
 runtimepy/net/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index 74f8acb..4390f06 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -106,7 +106,7 @@ class Connection(
         )
         self.env.channel(
             "restart_attempts",
-            self._restarts,
+            self._restart_attempts,
             description="Number of connection restart attempts.",
         )
 
-- 
2.43.0


From cb211b8c1952dbd5fb50c1ca2f06d38ac742b5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:09 +0000
Subject: [PATCH 039/138] fix: managed connections aren't processed more than
 once at a time

---
 runtimepy/net/manager.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/runtimepy/net/manager.py b/runtimepy/net/manager.py
index 66b671c..01cf371 100644
--- a/runtimepy/net/manager.py
+++ b/runtimepy/net/manager.py
@@ -75,7 +75,7 @@ class ConnectionManager(LoggerMixin):
         self._running = True
 
         stop_sig_task = _asyncio.create_task(stop_sig.wait())
-        tasks: list[_asyncio.Task[None]] = []
+        tasks: dict[_asyncio.Task[None], _Connection] = {}
         self._conns = []
         new_conn_task: _Optional[_asyncio.Task[_Connection]] = None
 
@@ -87,12 +87,20 @@ class ConnectionManager(LoggerMixin):
 
             # Wait for any task to complete.
             await _asyncio.wait(
-                [stop_sig_task, new_conn_task] + tasks,  # type: ignore
+                [stop_sig_task, new_conn_task, *tasks],
                 return_when=_asyncio.FIRST_COMPLETED,
             )
 
             # Filter completed tasks out of the working set.
-            next_tasks = _log_exceptions(tasks)
+            next_tasks = {x: tasks[x] for x in _log_exceptions(tasks)}
+            processing = list(next_tasks.values())
+
+            # Connections that can't be processed (or restarted).
+            failed = [
+                conn
+                for task, conn in tasks.items()
+                if task.done() and (task.cancelled() or task.exception())
+            ]
 
             # Filter out disabled connections.
             enabled = []
@@ -100,11 +108,15 @@ class ConnectionManager(LoggerMixin):
                 if not conn.disabled:
                     enabled.append(conn)
 
-                # Check if this connection should be restarted.
-                elif conn.auto_restart:
-                    next_tasks.append(
-                        _asyncio.create_task(conn.process(stop_sig=stop_sig))
-                    )
+                # Check if this connection should be restarted (unless it's
+                # still being processed).
+                elif conn.auto_restart and conn not in failed:
+                    if conn not in processing:
+                        next_tasks[
+                            _asyncio.create_task(
+                                conn.process(stop_sig=stop_sig)
+                            )
+                        ] = conn
                     enabled.append(conn)
 
             self._conns = enabled
@@ -114,9 +126,9 @@ class ConnectionManager(LoggerMixin):
             if new_conn_task.done():
                 new_conn = new_conn_task.result()
                 self._conns.append(new_conn)
-                next_tasks.append(
+                next_tasks[
                     _asyncio.create_task(new_conn.process(stop_sig=stop_sig))
-                )
+                ] = new_conn
                 new_conn_task = None
 
             tasks = next_tasks
-- 
2.43.0


From f6c4072551d9965542da9fb02d3091deb75f36a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:09 +0000
Subject: [PATCH 040/138] fix: a failing connection doesn't interrupt a
 manager's shutdown

---
 runtimepy/net/manager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/manager.py b/runtimepy/net/manager.py
index 01cf371..e21013f 100644
--- a/runtimepy/net/manager.py
+++ b/runtimepy/net/manager.py
@@ -139,6 +139,9 @@ class ConnectionManager(LoggerMixin):
                 new_conn_task.cancel()
             if tasks:
                 with _suppress(_asyncio.TimeoutError):
-                    await _asyncio.wait_for(_asyncio.gather(*tasks), 1.0)
+                    await _asyncio.wait_for(
+                        _asyncio.gather(*tasks, return_exceptions=True), 1.0
+                    )
+                _log_exceptions(tasks)
 
         self._running = False
-- 
2.43.0


From d9e35df48b14a03e8cfb2fd0141b38cbe2ccdc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:09 +0000
Subject: [PATCH 041/138] fix: previous transports don't affect restarted
 connections

---
 runtimepy/net/tcp/connection.py | 4 ++++
 runtimepy/net/tcp/protocol.py   | 6 +++++-
 runtimepy/net/udp/connection.py | 4 ++++
 runtimepy/net/udp/protocol.py   | 6 +++++-
 4 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/tcp/connection.py b/runtimepy/net/tcp/connection.py
index 02e3950..bb77821 100644
--- a/runtimepy/net/tcp/connection.py
+++ b/runtimepy/net/tcp/connection.py
@@ -117,6 +117,10 @@ class TcpConnection(_Connection, _TransportMixin):
         def callback(transport_protocol: TcpTransportProtocol) -> None:
             """Callback if the socket creation succeeds."""
 
+            # The previous transport can't affect this connection anymore.
+            self._protocol.active = False
+            self._transport.close()
+
             self.set_transport(transport_protocol[0])
             self._set_protocol(transport_protocol[1])
 
diff --git a/runtimepy/net/tcp/protocol.py b/runtimepy/net/tcp/protocol.py
index 00004b7..747c4c8 100644
--- a/runtimepy/net/tcp/protocol.py
+++ b/runtimepy/net/tcp/protocol.py
@@ -26,6 +26,9 @@ class QueueProtocol(_BinaryMessageQueueMixin, _Protocol):
     logger: _LoggerType
     conn: _Connection
 
+    # Whether or not the connection uses this protocol.
+    active = True
+
     def data_received(self, data: _BinaryMessage) -> None:
         """Handle incoming data."""
         self.queue.put_nowait(data)
@@ -43,4 +46,5 @@ class QueueProtocol(_BinaryMessageQueueMixin, _Protocol):
 
         msg = "Disconnected." if exc is None else f"Disconnected: '{exc}'."
         self.logger.info(msg)
-        self.conn.disable("disconnected")
+        if self.active:
+            self.conn.disable("disconnected")
diff --git a/runtimepy/net/udp/connection.py b/runtimepy/net/udp/connection.py
index cfa4f8f..12fef6a 100644
--- a/runtimepy/net/udp/connection.py
+++ b/runtimepy/net/udp/connection.py
@@ -121,6 +121,10 @@ class UdpConnection(_Connection, _TransportMixin):
         def callback(transport_protocol: UdpTransportProtocol) -> None:
             """Callback if the socket creation succeeds."""
 
+            # The previous transport can't affect this connection anymore.
+            self._protocol.active = False
+            self._transport.close()
+
             self.set_transport(transport_protocol[0])
             self._set_protocol(transport_protocol[1])
 
diff --git a/runtimepy/net/udp/protocol.py b/runtimepy/net/udp/protocol.py
index ee41584..e1619e6 100644
--- a/runtimepy/net/udp/protocol.py
+++ b/runtimepy/net/udp/protocol.py
@@ -23,6 +23,9 @@ class UdpQueueProtocol(_DatagramProtocol):
     logger: LoggerType
     conn: _Connection
 
+    # Whether or not the connection uses this protocol.
+    active = True
+
     def __init__(self) -> None:
         """Initialize this protocol."""
 
@@ -49,4 +52,5 @@ class UdpQueueProtocol(_DatagramProtocol):
 
         # Most of the time this error occurs when sending to a loopback
         # destination (localhost) that is no longer listening.
-        self.conn.disable(str(exc))
+        if self.active:
+            self.conn.disable(str(exc))
-- 
2.43.0


From 6ed235a58977160b8d6bba54b096c334873df9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:50 +0000
Subject: [PATCH 042/138] fix: disabled connections that can't be restarted are
 closed

---
 runtimepy/net/connection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index 4390f06..0157254 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -289,7 +289,12 @@ class Connection(
         Process tasks for this connection while the connection is active.
         """
 
-        await self._handle_restart(stop_sig=stop_sig, backoff=backoff)
+        try:
+            await self._handle_restart(stop_sig=stop_sig, backoff=backoff)
+        finally:
+            if self.disabled:
+                await self.close()
+
         if self.disabled:
             return
 
-- 
2.43.0


From 9ef30c935e454c077227e43bd295033985571fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:36 +0000
Subject: [PATCH 043/138] fix: connection attempts are retried after any kind
 of OS error

---
 runtimepy/net/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/util.py b/runtimepy/net/util.py
index 9b86d02..6a4299a 100644
--- a/runtimepy/net/util.py
+++ b/runtimepy/net/util.py
@@ -219,7 +219,7 @@ async def try_log_connection_error(
 
     try:
         result = await future
-    except ConnectionError as exc:
+    except OSError as exc:
         if logger:
             logger.exception(message, exc_info=exc)
 
-- 
2.43.0


From f7a16aaa7772f7c0d89e0746ea14d06fbb1ebba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:36 +0000
Subject: [PATCH 044/138] fix: UDP connections created with a backoff can be
 restarted

---
 runtimepy/net/udp/connection.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/udp/connection.py b/runtimepy/net/udp/connection.py
index 12fef6a..1189d02 100644
--- a/runtimepy/net/udp/connection.py
+++ b/runtimepy/net/udp/connection.py
@@ -14,6 +14,7 @@ from typing import TypeVar as _TypeVar
 
 # internal
 from runtimepy.net import IpHost, get_free_socket, normalize_host
+from runtimepy.net.backoff import ExponentialBackoff
 from runtimepy.net.connection import BinaryMessage as _BinaryMessage
 from runtimepy.net.connection import Connection as _Connection
 from runtimepy.net.connection import EchoConnection as _EchoConnection
@@ -137,7 +138,10 @@ class UdpConnection(_Connection, _TransportMixin):
 
     @classmethod
     async def create_connection(
-        cls: type[T], markdown: str = None, **kwargs
+        cls: type[T],
+        backoff: ExponentialBackoff = None,
+        markdown: str = None,
+        **kwargs,
     ) -> T:
         """Create a UDP connection."""
 
@@ -161,7 +165,9 @@ class UdpConnection(_Connection, _TransportMixin):
                 kwargs.setdefault("family", _socket.AF_INET)
 
         # Create the underlying connection.
-        transport, protocol = await udp_transport_protocol_backoff(**kwargs)
+        transport, protocol = await udp_transport_protocol_backoff(
+            backoff=backoff, **kwargs
+        )
         conn = cls(transport, protocol, markdown=markdown)
         conn._conn_kwargs = {**kwargs}
 
-- 
2.43.0


From 9d56c464a5fedadae156cfc4a74a33db9346f117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:56 +0000
Subject: [PATCH 045/138] fix: periodic tasks that should stop aren't
 re-enabled

---
 runtimepy/task/basic/periodic.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/runtimepy/task/basic/periodic.py b/runtimepy/task/basic/periodic.py
index 11d4848..a364458 100644
--- a/runtimepy/task/basic/periodic.py
+++ b/runtimepy/task/basic/periodic.py
@@ -164,14 +164,13 @@ class PeriodicTask(
                     iter_time,
                     self.period_s.value,
                 ):
-                    self._enabled.raw.value = await _asyncio.shield(
-                        self.dispatch()
-                    )
+                    if not await _asyncio.shield(self.dispatch()):
+                        self.disable()
 
             # Check this synchronously. This may not be suitable for tasks
             # with long periods.
-            if stop_sig is not None:
-                self._enabled.raw.value = not stop_sig.is_set()
+            if stop_sig is not None and stop_sig.is_set():
+                self.disable()
 
             if self._enabled:
                 try:
-- 
2.43.0


From 41ff67943cc8afde209d73cbadf15800e5dfa962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:56 +0000
Subject: [PATCH 046/138] fix: paused tasks wait for their whole period

---
 runtimepy/task/basic/periodic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtimepy/task/basic/periodic.py b/runtimepy/task/basic/periodic.py
index a364458..0c7a02f 100644
--- a/runtimepy/task/basic/periodic.py
+++ b/runtimepy/task/basic/periodic.py
@@ -157,7 +157,9 @@ class PeriodicTask(
 
         while self._enabled:
             # When paused, don't run the iteration itself.
-            if not self.paused:
+            if self.paused:
+                iter_time.value = 0.0
+            else:
                 with self.metrics.measure(
                     self._dispatch_rate,
                     self._dispatch_time,
-- 
2.43.0


From 1e6d732da724c8b605a2cb644ab1d8b1da46434d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:56 +0000
Subject: [PATCH 047/138] fix: periodic tasks that fail can be started again

---
 runtimepy/task/basic/periodic.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/runtimepy/task/basic/periodic.py b/runtimepy/task/basic/periodic.py
index 0c7a02f..d00c3f9 100644
--- a/runtimepy/task/basic/periodic.py
+++ b/runtimepy/task/basic/periodic.py
@@ -128,6 +128,16 @@ class PeriodicTask(
     async def dispatch(self) -> bool:
         """Dispatch an iteration of this task."""
 
+    async def _iterate(self) -> None:
+        """Run an iteration and disable this task unless it succeeds."""
+
+        result = False
+        try:
+            result = await _asyncio.shield(self.dispatch())
+        finally:
+            if not result:
+                self.disable()
+
     def disable(self) -> bool:
         """Disable this task, return whether or not any action was taken."""
 
@@ -166,8 +176,7 @@ class PeriodicTask(
                     iter_time,
                     self.period_s.value,
                 ):
-                    if not await _asyncio.shield(self.dispatch()):
-                        self.disable()
+                    await self._iterate()
 
             # Check this synchronously. This may not be suitable for tasks
             # with long periods.
-- 
2.43.0


From 913568dd9394652acc27d6430c60f7cb3969ceff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:56 +0000
Subject: [PATCH 048/138] fix: asynchronous tasks can be limited to more than
 255 iterations

---
 runtimepy/task/asynchronous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/task/asynchronous.py b/runtimepy/task/asynchronous.py
index 9844391..3665d44 100644
--- a/runtimepy/task/asynchronous.py
+++ b/runtimepy/task/asynchronous.py
@@ -55,7 +55,7 @@ class AsyncTask(_LoggerMixin):
 
             with env.names_pushed(METRICS_NAME):
                 # Track the number of times this task has been dispatched.
-                self.dispatches = env.int_channel("dispatches", kind="uint8")[
+                self.dispatches = env.int_channel("dispatches", kind="uint32")[
                     0
                 ]
 
-- 
2.43.0


From 7d2dbcb1ec07fe1e5bcd635fa0c40cc4afcdcf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:56 +0000
Subject: [PATCH 049/138] fix: asynchronous tasks that fail or are disabled
 stay disabled

---
 runtimepy/task/asynchronous.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/runtimepy/task/asynchronous.py b/runtimepy/task/asynchronous.py
index 3665d44..64436a1 100644
--- a/runtimepy/task/asynchronous.py
+++ b/runtimepy/task/asynchronous.py
@@ -5,6 +5,7 @@ A module implementing an asynchronous task interface.
 # built-in
 import asyncio as _asyncio
 from logging import getLogger as _getLogger
+from typing import Awaitable as _Awaitable
 
 # third-party
 from vcorelib.logging import LoggerMixin as _LoggerMixin
@@ -124,6 +125,16 @@ class AsyncTask(_LoggerMixin):
         """Disable this task."""
         self.enabled.raw.value = False
 
+    async def _attempt(self, step: _Awaitable[bool]) -> None:
+        """Await a step of this task, disable the task unless it succeeds."""
+
+        result = False
+        try:
+            result = await _asyncio.shield(step)
+        finally:
+            if not result:
+                self.disable()
+
     async def run(
         self, *args, stop_sig: _asyncio.Event = None, **kwargs
     ) -> None:
@@ -139,18 +150,14 @@ class AsyncTask(_LoggerMixin):
         self.enable()
 
         # Run this task's initialization.
-        self.enabled.raw.value &= await _asyncio.shield(
-            self.init(*args, **kwargs)
-        )
+        await self._attempt(self.init(*args, **kwargs))
 
         while self.enabled:
             # Keep track of the rate that this task is running at.
             start = eloop.time()
             self.rate_hz.raw.value = self.dispatch_rate(to_nanos(start))
 
-            self.enabled.raw.value &= await _asyncio.shield(
-                self.dispatch(*args, **kwargs)
-            )
+            await self._attempt(self.dispatch(*args, **kwargs))
             exec_time = eloop.time() - start
 
             # Update runtime metrics.
-- 
2.43.0


From b3da092d491f7cfe63c4e0851f3b58f5828abf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:22 +0000
Subject: [PATCH 050/138] fix: files outside of search paths aren't served

---
 runtimepy/net/server/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/server/__init__.py b/runtimepy/net/server/__init__.py
index 9142443..9e75d49 100644
--- a/runtimepy/net/server/__init__.py
+++ b/runtimepy/net/server/__init__.py
@@ -7,6 +7,7 @@ import http
 from io import StringIO
 import logging
 import mimetypes
+from os.path import normpath
 from pathlib import Path
 from typing import Any, Optional, TextIO, Union
 
@@ -170,7 +171,11 @@ class RuntimepyServerConnection(HttpConnection):
 
         # Try serving the path as a file.
         for search in self.paths:
-            candidate = search.joinpath(path[0][1:])
+            candidate = Path(normpath(search.joinpath(path[0][1:])))
+
+            # Don't serve anything outside of the search path.
+            if search not in candidate.parents:
+                continue
 
             # Handle markdown sources.
             if candidate.name:
-- 
2.43.0


From 4536a416125a2fb3210838305f2a2c5c1722a2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:22 +0000
Subject: [PATCH 051/138] fix: unusable paths don't interrupt the HTTP server

---
 runtimepy/net/server/__init__.py |  6 +++---
 runtimepy/util.py                | 10 ++++++++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/server/__init__.py b/runtimepy/net/server/__init__.py
index 9e75d49..89ed775 100644
--- a/runtimepy/net/server/__init__.py
+++ b/runtimepy/net/server/__init__.py
@@ -26,7 +26,7 @@ from runtimepy.net.http.response import ResponseHeader
 from runtimepy.net.server.html import HtmlApp, HtmlApps, get_html, html_handler
 from runtimepy.net.server.json import encode_json, json_handler
 from runtimepy.net.tcp.http import HttpConnection
-from runtimepy.util import normalize_root, path_has_part, read_binary
+from runtimepy.util import is_file, normalize_root, path_has_part, read_binary
 
 MIMETYPES_INIT = False
 
@@ -180,12 +180,12 @@ class RuntimepyServerConnection(HttpConnection):
             # Handle markdown sources.
             if candidate.name:
                 md_candidate = candidate.with_suffix(".md")
-                if md_candidate.is_file():
+                if is_file(md_candidate):
                     return await self.render_markdown_file(
                         md_candidate, response
                     )
 
-            if candidate.is_file():
+            if is_file(candidate):
                 mime, encoding = mimetypes.guess_type(candidate, strict=False)
 
                 # Set MIME type if it can be determined.
diff --git a/runtimepy/util.py b/runtimepy/util.py
index 8cf0558..9d8d5bc 100644
--- a/runtimepy/util.py
+++ b/runtimepy/util.py
@@ -3,6 +3,7 @@ A module implementing package utilities.
 """
 
 # built-in
+from contextlib import suppress
 from os import sep
 from pathlib import Path
 from typing import Iterator, Union
@@ -22,6 +23,15 @@ async def read_binary(path: Path) -> bytes:
     return result  # type: ignore
 
 
+def is_file(path: Path) -> bool:
+    """Determine if a path (that may not be usable) is a file."""
+
+    result = False
+    with suppress(OSError):
+        result = path.is_file()
+    return result
+
+
 def normalize_root(*src_parts: Union[str, Path]) -> Path:
     """Make paths absolute that aren't. Useful for HTTP-request pathing."""
 
-- 
2.43.0


From fc429ce802061218c8f283d0f35a8140727e5eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:22 +0000
Subject: [PATCH 052/138] fix: compressed files can be served

---
 runtimepy/net/server/__init__.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/runtimepy/net/server/__init__.py b/runtimepy/net/server/__init__.py
index 89ed775..bfeb56b 100644
--- a/runtimepy/net/server/__init__.py
+++ b/runtimepy/net/server/__init__.py
@@ -188,13 +188,11 @@ class RuntimepyServerConnection(HttpConnection):
             if is_file(candidate):
                 mime, encoding = mimetypes.guess_type(candidate, strict=False)
 
-                # Set MIME type if it can be determined.
-                if mime:
+                # Set MIME type if it can be determined (it doesn't apply to
+                # the data of compressed files).
+                if mime and not encoding:
                     response["Content-Type"] = mime
 
-                # We don't handle this yet.
-                assert not encoding, (candidate, mime, encoding)
-
                 self.logger.info("Serving '%s' (MIME: %s)", candidate, mime)
 
                 # Return the file data.
-- 
2.43.0


From e7ce3091316e7e6960d3ae6496c199c6416cc708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:22 +0000
Subject: [PATCH 053/138] fix: markdown files that aren't valid text can be
 served

---
 runtimepy/net/server/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/server/__init__.py b/runtimepy/net/server/__init__.py
index bfeb56b..30fbcf1 100644
--- a/runtimepy/net/server/__init__.py
+++ b/runtimepy/net/server/__init__.py
@@ -159,7 +159,9 @@ class RuntimepyServerConnection(HttpConnection):
         """Render a markdown file as HTML and return the result."""
 
         return self.render_markdown(
-            (await read_binary(path)).decode(), response, **kwargs
+            (await read_binary(path)).decode(errors="replace"),
+            response,
+            **kwargs,
         )
 
     async def try_file(
-- 
2.43.0


From 05e03d026be446f71fbde5c9926d020eda2d7962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:24 +0000
Subject: [PATCH 054/138] fix: events may be divided anywhere in a stream

---
 runtimepy/channel/environment/telemetry.py | 13 +++++--------
 runtimepy/net/server/__init__.py           |  7 ++++++-
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/runtimepy/channel/environment/telemetry.py b/runtimepy/channel/environment/telemetry.py
index 1c040a1..2337cdd 100644
--- a/runtimepy/channel/environment/telemetry.py
+++ b/runtimepy/channel/environment/telemetry.py
@@ -134,9 +134,6 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
         # Ingest stream.
         channels.event_fifo.ingest(stream.read())
 
-        ident = -1
-        name = ""
-
         keep_going = True
         while keep_going:
             keep_going = False
@@ -148,17 +145,17 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
                 if data is not None:
                     channels.event_header.array.update(data)
 
-                    # Update local variables.
-                    ident = cast(int, channels.event_header["identifier"])
-                    name = channels.names.name(ident)  # type: ignore
-                    assert name is not None, ident
-
                     # Update state.
                     channels.header_ready = True
                     keep_going = True
             else:
                 event = None
 
+                # The header may belong to previous data.
+                ident = cast(int, channels.event_header["identifier"])
+                name = channels.names.name(ident)
+                assert name is not None, ident
+
                 # Handle bit-field.
                 if self.fields.has_field(name):
                     event = self._parse_field_event(name)
diff --git a/runtimepy/net/server/__init__.py b/runtimepy/net/server/__init__.py
index 30fbcf1..88efc89 100644
--- a/runtimepy/net/server/__init__.py
+++ b/runtimepy/net/server/__init__.py
@@ -26,7 +26,12 @@ from runtimepy.net.http.response import ResponseHeader
 from runtimepy.net.server.html import HtmlApp, HtmlApps, get_html, html_handler
 from runtimepy.net.server.json import encode_json, json_handler
 from runtimepy.net.tcp.http import HttpConnection
-from runtimepy.util import is_file, normalize_root, path_has_part, read_binary
+from runtimepy.util import (
+    is_file,
+    normalize_root,
+    path_has_part,
+    read_binary,
+)
 
 MIMETYPES_INIT = False
 
-- 
2.43.0


From b691504ce73d98d0cfc87ee9ee7a6470b03537e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:24 +0000
Subject: [PATCH 055/138] fix: event streams stay in sync if a consumer stops
 early

---
 runtimepy/channel/environment/telemetry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtimepy/channel/environment/telemetry.py b/runtimepy/channel/environment/telemetry.py
index 2337cdd..d957cae 100644
--- a/runtimepy/channel/environment/telemetry.py
+++ b/runtimepy/channel/environment/telemetry.py
@@ -165,8 +165,8 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
                     event = self._parse_channel_event(name)
 
                 if event is not None:
-                    yield event
-
                     # Update state.
                     channels.header_ready = False
                     keep_going = True
+
+                    yield event
-- 
2.43.0


From 6ce5ec22f844bddff53ddc210d895798183d452d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:24 +0000
Subject: [PATCH 056/138] fix: ingested events are raw values

---
 runtimepy/channel/environment/telemetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/channel/environment/telemetry.py b/runtimepy/channel/environment/telemetry.py
index d957cae..dcef33a 100644
--- a/runtimepy/channel/environment/telemetry.py
+++ b/runtimepy/channel/environment/telemetry.py
@@ -83,7 +83,7 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
         if self.fields.has_field(point.name):
             self.fields[point.name].raw.value = point.value  # type: ignore
         else:
-            self.set(point.name, point.value)
+            self.set(point.name, point.value, scaled=False)
 
     def _parse_channel_event(self, name: str) -> Optional[ParsedEvent]:
         """Attempt to parse a channel event from the fifo."""
-- 
2.43.0


From 328b9c53366ba879cb22559a7402930e0063dca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:24 +0000
Subject: [PATCH 057/138] fix: event streams are unregistered if their user
 fails

---
 runtimepy/channel/event/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/runtimepy/channel/event/__init__.py b/runtimepy/channel/event/__init__.py
index ec9a3b0..6a70a5d 100644
--- a/runtimepy/channel/event/__init__.py
+++ b/runtimepy/channel/event/__init__.py
@@ -63,9 +63,11 @@ class PrimitiveEvent:
         ident = raw.register_callback(callback)
 
         self.streaming = True
-        yield
-        assert raw.remove_callback(ident)
-        self.streaming = False
+        try:
+            yield
+        finally:
+            assert raw.remove_callback(ident)
+            self.streaming = False
 
     def _poll(
         self,
-- 
2.43.0


From 148c07caa85457b281b072756b794fbf54b5adb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:24 +0000
Subject: [PATCH 058/138] fix: throttled events aren't counted as messages

---
 runtimepy/channel/event/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/channel/event/__init__.py b/runtimepy/channel/event/__init__.py
index 6a70a5d..ea29031 100644
--- a/runtimepy/channel/event/__init__.py
+++ b/runtimepy/channel/event/__init__.py
@@ -98,7 +98,7 @@ class PrimitiveEvent:
             if flush:
                 stream.flush()
 
-        if channel is not None:
+        if written and channel is not None:
             channel.increment(written)
 
         return written
-- 
2.43.0


From 97b8877e0981b4f08bdf0bc6122138a8b7405cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:24 +0000
Subject: [PATCH 059/138] fix: channels with values that aren't enum members
 can be read

---
 runtimepy/channel/environment/base.py      | 4 +++-
 runtimepy/primitives/field/manager/base.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/runtimepy/channel/environment/base.py b/runtimepy/channel/environment/base.py
index 1366e64..b89062e 100644
--- a/runtimepy/channel/environment/base.py
+++ b/runtimepy/channel/environment/base.py
@@ -203,7 +203,9 @@ class BaseChannelEnvironment(_NamespaceMixin, FinalizeMixin):
 
         # Resolve enumeration values to strings.
         if enum is not None and resolve_enum:
-            value = enum.get_str(_cast(int, value))
+            resolved = enum.as_str(_cast(int, value))
+            if resolved is not None:
+                value = resolved
 
         return value
 
diff --git a/runtimepy/primitives/field/manager/base.py b/runtimepy/primitives/field/manager/base.py
index a75e52e..4ef1684 100644
--- a/runtimepy/primitives/field/manager/base.py
+++ b/runtimepy/primitives/field/manager/base.py
@@ -146,7 +146,9 @@ class BitFieldsManagerBase:
         if field.is_enum and resolve_enum:
             name = self.registry.name(key)
             assert name is not None, key
-            value = self.enum_lookup[name].get_str(value)
+            resolved = self.enum_lookup[name].as_str(value)
+            if resolved is not None:
+                value = resolved
 
         elif field.width == 1:
             value = bool(value)
-- 
2.43.0


From 2244327d72dd193f256a52ba334af49e31ea1fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:24 +0000
Subject: [PATCH 060/138] fix: channels can be looked up by type however
 they're created

---
 runtimepy/channel/environment/create.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/runtimepy/channel/environment/create.py b/runtimepy/channel/environment/create.py
index ffa3681..8b351bc 100644
--- a/runtimepy/channel/environment/create.py
+++ b/runtimepy/channel/environment/create.py
@@ -11,7 +11,9 @@ from typing import cast as _cast
 from vcorelib.namespace import Namespace as _Namespace
 
 # internal
+from runtimepy.channel import BoolChannel
 from runtimepy.channel import FloatChannel as _FloatChannel
+from runtimepy.channel import IntChannel
 from runtimepy.channel.environment.base import (
     BaseChannelEnvironment as _BaseChannelEnvironment,
 )
@@ -72,6 +74,14 @@ class CreateChannelEnvironment(_BaseChannelEnvironment):
         if min_period_s is not None:
             result.event.set_min_period(min_period_s)
 
+        # Organize channel by Python type.
+        if result.type.is_boolean:
+            self.bools.add(_cast(BoolChannel, result))
+        elif result.type.is_integer:
+            self.ints.add(_cast(IntChannel, result))
+        else:
+            self.floats.add(_cast(_FloatChannel, result))
+
         # Keep track of any new enum channels.
         if enum is not None:
             self.channel_enums[result] = self.enums[enum]
-- 
2.43.0


From 1ef5a93229093452d75cbb1a5e42b6ce1d500779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:24 +0000
Subject: [PATCH 061/138] fix: exported channels keep their scaling

---
 runtimepy/channel/__init__.py       | 10 +++++++++-
 runtimepy/data/schemas/Channel.yaml |  4 ++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/runtimepy/channel/__init__.py b/runtimepy/channel/__init__.py
index 9852536..49c638b 100644
--- a/runtimepy/channel/__init__.py
+++ b/runtimepy/channel/__init__.py
@@ -88,7 +88,12 @@ class Channel(_RegistryItem, _EnumMixin, _Generic[_T]):
         super().init(data)
 
         # This is the underlying storage entity for this channel.
-        self.raw: _T = _cast(_T, _normalize(_cast(str, data["type"]))())
+        self.raw: _T = _cast(
+            _T,
+            _normalize(_cast(str, data["type"]))(
+                scaling=data.get("scaling")  # type: ignore
+            ),
+        )
 
         _ctl: _Optional[Controls] = data.get("controls")  # type: ignore
         self.controls: _Optional[Controls] = _ctl
@@ -123,6 +128,9 @@ class Channel(_RegistryItem, _EnumMixin, _Generic[_T]):
         if self._enum is not None:
             result["enum"] = self._enum
 
+        if self.raw.scaling:
+            result["scaling"] = list(self.raw.scaling)
+
         if self.controls:
             result["controls"] = self.controls
 
diff --git a/runtimepy/data/schemas/Channel.yaml b/runtimepy/data/schemas/Channel.yaml
index 2f264d1..9044174 100644
--- a/runtimepy/data/schemas/Channel.yaml
+++ b/runtimepy/data/schemas/Channel.yaml
@@ -28,6 +28,10 @@ properties:
       - uint32
       - uint64
 
+  scaling:
+    type: array
+    items: {type: number}
+
   enum:
     oneOf:
       - type: integer
-- 
2.43.0


From bf529ea0136580d5424277c716f4e015f0af6a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:38 +0000
Subject: [PATCH 062/138] fix: exporting a finalized environment doesn't
 duplicate its fields

---
 runtimepy/channel/environment/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtimepy/channel/environment/base.py b/runtimepy/channel/environment/base.py
index b89062e..c4783f6 100644
--- a/runtimepy/channel/environment/base.py
+++ b/runtimepy/channel/environment/base.py
@@ -442,5 +442,6 @@ class BaseChannelEnvironment(_NamespaceMixin, FinalizeMixin):
 
         for fields in self.to_add:
             self.fields.add(fields)
+        self.to_add.clear()
 
         super().finalize(strict=strict)
-- 
2.43.0


From 4f7e00be687eb16a18d488bbd90ba731c88b61d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:21 +0000
Subject: [PATCH 063/138] fix: primitives with several bit-fields appear once
 in arrays

---
 runtimepy/channel/environment/array.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/runtimepy/channel/environment/array.py b/runtimepy/channel/environment/array.py
index 4a8e1bc..5b7c6ed 100644
--- a/runtimepy/channel/environment/array.py
+++ b/runtimepy/channel/environment/array.py
@@ -95,10 +95,10 @@ class ArrayChannelEnvironment(_BaseChannelEnvironment):
 
             # Begin handling a new bit-fields primitive.
             if curr_fields is None:
-                fields = self.fields.get_fields(name)
-                assert fields is not None, f"Unknown bit-field '{name}'!"
-                result.array.add(fields.raw)
-                available_field_names = set(fields.names)
+                curr_fields = self.fields.get_fields(name)
+                assert curr_fields is not None, f"Unknown bit-field '{name}'!"
+                result.array.add(curr_fields.raw)
+                available_field_names = set(curr_fields.names)
 
             # Keep track of field names processed in the current bit-fields
             # primitive.
-- 
2.43.0


From c1e36a24c215f81b71dea53bc299b2e671552597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:36 +0000
Subject: [PATCH 064/138] fix: every name an environment accepts can be loaded

---
 runtimepy/data/schemas/BitFields.yaml       | 4 ++--
 runtimepy/data/schemas/Channel.yaml         | 2 +-
 runtimepy/data/schemas/ChannelRegistry.yaml | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/runtimepy/data/schemas/BitFields.yaml b/runtimepy/data/schemas/BitFields.yaml
index d55ed62..01062ce 100644
--- a/runtimepy/data/schemas/BitFields.yaml
+++ b/runtimepy/data/schemas/BitFields.yaml
@@ -25,7 +25,7 @@ properties:
       properties:
         name:
           type: string
-          pattern: "^[a-z0-9-_.]+$"
+          pattern: "^[a-zA-Z0-9_.-]+$"
 
         commandable:
           type: boolean
@@ -54,4 +54,4 @@ properties:
             - type: integer
               minimum: 1
             - type: string
-              pattern: "^\\w+$"
+              pattern: "^[\\w\\:\\-_.\\/]+$"
diff --git a/runtimepy/data/schemas/Channel.yaml b/runtimepy/data/schemas/Channel.yaml
index 9044174..0dee2c1 100644
--- a/runtimepy/data/schemas/Channel.yaml
+++ b/runtimepy/data/schemas/Channel.yaml
@@ -37,4 +37,4 @@ properties:
       - type: integer
         minimum: 1
       - type: string
-        pattern: "^\\w+$"
+        pattern: "^[\\w\\:\\-_.\\/]+$"
diff --git a/runtimepy/data/schemas/ChannelRegistry.yaml b/runtimepy/data/schemas/ChannelRegistry.yaml
index da0c54c..cfdeee1 100644
--- a/runtimepy/data/schemas/ChannelRegistry.yaml
+++ b/runtimepy/data/schemas/ChannelRegistry.yaml
@@ -3,5 +3,5 @@ type: object
 additionalProperties: false
 
 patternProperties:
-  "^[a-z0-9-_.]+$":
+  "^[a-zA-Z0-9_.-]+$":
     $ref: package://runtimepy/schemas/Channel.yaml
-- 
2.43.0


From 8fab9527982677494b6297e52b4bf3d7e172c478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:04 +0000
Subject: [PATCH 065/138] fix: setting scaled integers to infinity fails
 instead of raising

---
 runtimepy/channel/environment/command/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/channel/environment/command/processor.py b/runtimepy/channel/environment/command/processor.py
index 52a5a6b..6c97682 100644
--- a/runtimepy/channel/environment/command/processor.py
+++ b/runtimepy/channel/environment/command/processor.py
@@ -96,7 +96,7 @@ class ChannelCommandProcessor(ChannelEnvironmentMixin):
 
         try:
             self.env.set(args.channel, args.extra[0])
-        except (ValueError, KeyError) as exc:
+        except (ValueError, KeyError, OverflowError) as exc:
             self.logger.exception(
                 "Exception setting '%s':", args.channel, exc_info=exc
             )
-- 
2.43.0


From 3e5f60ae59988df1f46833956e9f120e5872dca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:04 +0000
Subject: [PATCH 066/138] fix: commands accept negative numbers with exponents

---
 runtimepy/channel/environment/command/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtimepy/channel/environment/command/parser.py b/runtimepy/channel/environment/command/parser.py
index 71dad4c..94fccee 100644
--- a/runtimepy/channel/environment/command/parser.py
+++ b/runtimepy/channel/environment/command/parser.py
@@ -5,6 +5,7 @@ A module implementing a channel-environment command argument parser wrapper.
 # built-in
 from argparse import ArgumentParser
 from enum import StrEnum
+import re
 from typing import Any
 
 
@@ -39,6 +40,9 @@ class CommandParser(ArgumentParser):
     def initialize(self) -> None:
         """Initialize this command parser."""
 
+        # Any negative number is a value (not an option).
+        self._negative_number_matcher = re.compile(r"^-(?:\d|\.\d|inf)")
+
         self.add_argument(
             "command",
             type=ChannelCommand,
-- 
2.43.0


From 6387af9b4d561e088310b58434769ef11f97a10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:04 +0000
Subject: [PATCH 067/138] fix: commands with repeated '--' arguments fail
 instead of raising

---
 runtimepy/channel/environment/command/processor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtimepy/channel/environment/command/processor.py b/runtimepy/channel/environment/command/processor.py
index 6c97682..91a168c 100644
--- a/runtimepy/channel/environment/command/processor.py
+++ b/runtimepy/channel/environment/command/processor.py
@@ -175,6 +175,12 @@ class ChannelCommandProcessor(ChannelEnvironmentMixin):
 
         self.parser_data["error_message"] = None
         args = self.parser.parse_args(value.split())
+
+        # Only the first '--' is removed, others become empty lists.
+        if not self.parser_data["error_message"]:
+            if not isinstance(args.channel, str):
+                self.parser.error("invalid channel")
+
         return args if not self.parser_data["error_message"] else None
 
     def command(self, value: str) -> CommandResult:
-- 
2.43.0


From d3ef06b5b91841c9a0897d5b226c6497a20a1a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:48 +0000
Subject: [PATCH 068/138] fix: tftp reads acknowledge the last block

---
 runtimepy/net/udp/tftp/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/udp/tftp/__init__.py b/runtimepy/net/udp/tftp/__init__.py
index dbf4cba..4f4305e 100644
--- a/runtimepy/net/udp/tftp/__init__.py
+++ b/runtimepy/net/udp/tftp/__init__.py
@@ -89,9 +89,8 @@ class TftpConnection(BaseTftpConnection):
                 # Compute if this is the end of the stream.
                 nonlocal end_of_data
                 end_of_data = len(data) < endpoint.max_block_size
-                if not end_of_data:
-                    idx += 1
-                else:
+                idx += 1
+                if end_of_data:
                     fsync(path_fd.fileno())
 
             write_block()
-- 
2.43.0


From 89fce8a93aadd806ad5950f320529cdc3888652f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:48 +0000
Subject: [PATCH 069/138] fix: tftp writes of empty files succeed

---
 runtimepy/net/udp/tftp/endpoint.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index ef7c936..c639327 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -161,8 +161,7 @@ class TftpEndpoint(LoggerMixin):
 
         keep_going = True
         idx = 1
-        curr_size = 0
-        written = 0
+        curr_size = self.max_block_size
         while keep_going:
             # Set up event trigger for expected data payload.
             event = asyncio.Event()
@@ -190,7 +189,6 @@ class TftpEndpoint(LoggerMixin):
                 assert curr_size <= self.max_block_size, curr_size
 
                 stream.write(data)
-                written += curr_size
 
                 # We only expect future iterations if data payloads are
                 # saturated.
@@ -204,7 +202,7 @@ class TftpEndpoint(LoggerMixin):
                 idx += 1
 
         # Send the final acknowledgement for a bit ("dally" per rfc).
-        success = written > 0 and curr_size < self.max_block_size
+        success = curr_size < self.max_block_size
         if success:
             await repeat_until(
                 self._ack_sender(idx),
-- 
2.43.0


From 3ee4d52da78e1a7dbfa6e5c9ac8b47d20590814e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:22 +0000
Subject: [PATCH 070/138] fix: re-transmitted tftp requests don't start
 additional transfers

---
 runtimepy/net/udp/tftp/endpoint.py | 36 ++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index c639327..38e6e02 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -7,7 +7,7 @@ import asyncio
 from contextlib import AsyncExitStack, suppress
 import logging
 from pathlib import Path
-from typing import BinaryIO, Callable, Optional, Union
+from typing import Any, BinaryIO, Callable, Coroutine, Optional, Union
 
 # third-party
 from vcorelib.asyncio.poll import repeat_until
@@ -67,6 +67,9 @@ class TftpEndpoint(LoggerMixin):
         self.awaiting_blocks: dict[int, asyncio.Event] = {}
         self.blocks: dict[int, bytes] = {}
 
+        # Requests that are already being serviced.
+        self.active_requests: set[tuple[Path, str]] = set()
+
         # Can be upgraded via RFC 2347.
         self.max_block_size = TFTP_MAX_BLOCK
 
@@ -244,11 +247,30 @@ class TftpEndpoint(LoggerMixin):
 
         path = self.get_path(filename)
 
+        # Ignore re-transmitted requests.
+        if (path, "wb") in self.active_requests:
+            return None
+
         # Ensure we can service this request.
-        if not self._check_permission(path, "wb"):
+        if not self._check_permission(path, "ab"):
             return None
 
-        return asyncio.create_task(self._process_write_request(path, mode))
+        return self._request_task(
+            self._process_write_request(path, mode), path, "wb"
+        )
+
+    def _request_task(
+        self, coro: Coroutine[Any, Any, None], path: Path, mode: str
+    ) -> asyncio.Task[None]:
+        """Create a task to service a request."""
+
+        request = (path, mode)
+        self.active_requests.add(request)
+        task = asyncio.create_task(coro)
+        task.add_done_callback(
+            lambda _: self.active_requests.discard(request)
+        )
+        return task
 
     async def serve_file(self, path: Path) -> bool:
         """Serve file chunks via this endpoint."""
@@ -315,13 +337,19 @@ class TftpEndpoint(LoggerMixin):
 
         path = self.get_path(filename)
 
+        # Ignore re-transmitted requests.
+        if (path, "rb") in self.active_requests:
+            return None
+
         # Ensure we can service this request.
         if not self._check_exists(path) or not self._check_permission(
             path, "rb"
         ):
             return None
 
-        return asyncio.create_task(self._process_read_request(path, mode))
+        return self._request_task(
+            self._process_read_request(path, mode), path, "rb"
+        )
 
     def _check_permission(self, path: Path, mode: str) -> bool:
         """
-- 
2.43.0


From b0e4c812d3f59d1cba1b533ffeb6478217ceb1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:22 +0000
Subject: [PATCH 071/138] fix: late tftp write requests don't truncate files

---
 runtimepy/net/udp/tftp/endpoint.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index 38e6e02..081a786 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -191,6 +191,10 @@ class TftpEndpoint(LoggerMixin):
                 # to determine practical need for that support).
                 assert curr_size <= self.max_block_size, curr_size
 
+                # Only replace contents if there are any new ones.
+                if idx == 1:
+                    stream.truncate()
+
                 stream.write(data)
 
                 # We only expect future iterations if data payloads are
@@ -207,6 +211,7 @@ class TftpEndpoint(LoggerMixin):
         # Send the final acknowledgement for a bit ("dally" per rfc).
         success = curr_size < self.max_block_size
         if success:
+            stream.flush()
             await repeat_until(
                 self._ack_sender(idx),
                 asyncio.Event(),
@@ -224,7 +229,7 @@ class TftpEndpoint(LoggerMixin):
             stack.enter_context(suppress(asyncio.CancelledError))
             await stack.enter_async_context(self.lock)
 
-            path_fd = stack.enter_context(path.open("wb"))
+            path_fd = stack.enter_context(path.open("r+b"))
 
             with self.log_time(
                 "Ingesting (%s) '%s'", mode, path, reminder=True
-- 
2.43.0


From 48b0a6ebcbbd63443b8f0a3b321e43e1d004be58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:22 +0000
Subject: [PATCH 072/138] fix: final tftp acknowledgements don't repeat into
 the next transfer

---
 runtimepy/net/udp/tftp/__init__.py | 3 ++-
 runtimepy/net/udp/tftp/base.py     | 2 ++
 runtimepy/net/udp/tftp/endpoint.py | 3 +++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/udp/tftp/__init__.py b/runtimepy/net/udp/tftp/__init__.py
index 4f4305e..30070ab 100644
--- a/runtimepy/net/udp/tftp/__init__.py
+++ b/runtimepy/net/udp/tftp/__init__.py
@@ -111,11 +111,12 @@ class TftpConnection(BaseTftpConnection):
 
             # Repeat last ack in the background.
             if end_of_data:
+                endpoint.stop_dally = asyncio.Event()
                 self._conn_tasks.append(
                     asyncio.create_task(
                         repeat_until(  # type: ignore
                             ack_sender,
-                            asyncio.Event(),
+                            endpoint.stop_dally,
                             endpoint.period.value,
                             endpoint.timeout.value,
                         )
diff --git a/runtimepy/net/udp/tftp/base.py b/runtimepy/net/udp/tftp/base.py
index 386f73a..98d679f 100644
--- a/runtimepy/net/udp/tftp/base.py
+++ b/runtimepy/net/udp/tftp/base.py
@@ -142,6 +142,7 @@ class BaseTftpConnection(UdpConnection):
 
         endpoint = self.endpoint(addr)
         await stack.enter_async_context(endpoint.lock)
+        endpoint.stop_dally.set()
         event = asyncio.Event()
         endpoint.awaiting_acks[0] = event
         self._awaiting_first_ack[endpoint.addr.hostname] = endpoint
@@ -156,6 +157,7 @@ class BaseTftpConnection(UdpConnection):
 
         endpoint = self.endpoint(addr)
         await stack.enter_async_context(endpoint.lock)
+        endpoint.stop_dally.set()
         event = asyncio.Event()
         endpoint.awaiting_blocks[1] = event
         self._awaiting_first_block[endpoint.addr.hostname] = endpoint
diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index 081a786..b5dae42 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -70,6 +70,9 @@ class TftpEndpoint(LoggerMixin):
         # Requests that are already being serviced.
         self.active_requests: set[tuple[Path, str]] = set()
 
+        # Set to stop repeating the last acknowledgement.
+        self.stop_dally = asyncio.Event()
+
         # Can be upgraded via RFC 2347.
         self.max_block_size = TFTP_MAX_BLOCK
 
-- 
2.43.0


From fd99f4e07c9eb40333adfc59601bea726666130a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:16 +0000
Subject: [PATCH 073/138] fix: unknown tftp operations are answered and don't
 stop servers

---
 runtimepy/net/udp/tftp/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/udp/tftp/base.py b/runtimepy/net/udp/tftp/base.py
index 98d679f..c505908 100644
--- a/runtimepy/net/udp/tftp/base.py
+++ b/runtimepy/net/udp/tftp/base.py
@@ -366,7 +366,9 @@ class BaseTftpConnection(UdpConnection):
                 await self.handlers[code](stream, addr)
             else:
                 msg = f"Unknown opcode {code}"
-                self.send_error(TftpErrorCode.ILLEGAL_OPERATION, msg)
+                self.send_error(
+                    TftpErrorCode.ILLEGAL_OPERATION, msg, addr=addr
+                )
                 self.logger.error("%s from %s:%d.", msg, addr[0], addr[1])
 
         return True
-- 
2.43.0


From ff70bc9ca6909f733a67800666e14311562bf277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:16 +0000
Subject: [PATCH 074/138] fix: malformed tftp messages don't stop servers

---
 runtimepy/net/udp/tftp/base.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/runtimepy/net/udp/tftp/base.py b/runtimepy/net/udp/tftp/base.py
index c505908..128dd69 100644
--- a/runtimepy/net/udp/tftp/base.py
+++ b/runtimepy/net/udp/tftp/base.py
@@ -8,6 +8,7 @@ from contextlib import AsyncExitStack
 from io import BytesIO
 import logging
 from pathlib import Path
+import struct
 from typing import BinaryIO, Callable
 
 # third-party
@@ -359,6 +360,33 @@ class BaseTftpConnection(UdpConnection):
     ) -> bool:
         """Process a datagram."""
 
+        try:
+            return await self._process_message(data, addr)
+
+        # Messages that end early or contain invalid text or codes.
+        except (IndexError, ValueError, struct.error):
+            self.logger.error(
+                "Malformed message (%d bytes) from %s:%d.",
+                len(data),
+                addr[0],
+                addr[1],
+            )
+
+            # Don't respond to errors.
+            if data[:2] != bytes([0, TftpOpCode.ERROR.value]):
+                self.send_error(
+                    TftpErrorCode.ILLEGAL_OPERATION,
+                    "Malformed message",
+                    addr=addr,
+                )
+
+        return True
+
+    async def _process_message(
+        self, data: bytes, addr: tuple[str, int]
+    ) -> bool:
+        """Process a message."""
+
         with BytesIO(data) as stream:
             self.opcode.from_stream(stream)
             code: int = self.opcode.value
-- 
2.43.0


From 47dd17cbf6825ee8b374e2c3c274b79c1072f07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:16 +0000
Subject: [PATCH 075/138] fix: tftp requests for unusable paths are answered
 with errors

---
 runtimepy/net/udp/tftp/endpoint.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index b5dae42..035f19d 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -371,7 +371,7 @@ class TftpEndpoint(LoggerMixin):
             with path.open(mode):
                 pass
             result = True
-        except PermissionError:
+        except OSError:
             self.error_sender(
                 TftpErrorCode.ACCESS_VIOLATION,
                 f"Can't open={mode} '{path}'",
@@ -383,7 +383,9 @@ class TftpEndpoint(LoggerMixin):
     def _check_exists(self, path: Path) -> bool:
         """Check if a file exists, send an error if not."""
 
-        result = path.is_file()
+        result = False
+        with suppress(OSError):
+            result = path.is_file()
 
         if not result:
             self.error_sender(
-- 
2.43.0


From df284b15b60cfca5d2f938a79aab45de138f1b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:16 +0000
Subject: [PATCH 076/138] fix: tftp requests can't access files outside of the
 root path

---
 runtimepy/net/udp/tftp/endpoint.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index 035f19d..5677a2a 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -6,6 +6,7 @@ A module implementing an interface for individual tftp endpoints.
 import asyncio
 from contextlib import AsyncExitStack, suppress
 import logging
+from os.path import normpath
 from pathlib import Path
 from typing import Any, BinaryIO, Callable, Coroutine, Optional, Union
 
@@ -260,7 +261,9 @@ class TftpEndpoint(LoggerMixin):
             return None
 
         # Ensure we can service this request.
-        if not self._check_permission(path, "ab"):
+        if not self._check_contained(path) or not self._check_permission(
+            path, "ab"
+        ):
             return None
 
         return self._request_task(
@@ -336,7 +339,23 @@ class TftpEndpoint(LoggerMixin):
 
     def get_path(self, filename: str) -> Path:
         """Get a path from a filename."""
-        return self._path.joinpath(filename)
+        return Path(normpath(self._path.absolute().joinpath(filename)))
+
+    def _check_contained(self, path: Path) -> bool:
+        """
+        Check if a path is below the root path, send an error if not.
+        """
+
+        result = Path(normpath(self._path.absolute())) in path.parents
+
+        if not result:
+            self.error_sender(
+                TftpErrorCode.ACCESS_VIOLATION,
+                f"Path '{path}' isn't served",
+                self.addr,
+            )
+
+        return result
 
     def handle_read_request(
         self, filename: str, mode: str
@@ -350,8 +369,10 @@ class TftpEndpoint(LoggerMixin):
             return None
 
         # Ensure we can service this request.
-        if not self._check_exists(path) or not self._check_permission(
-            path, "rb"
+        if (
+            not self._check_contained(path)
+            or not self._check_exists(path)
+            or not self._check_permission(path, "rb")
         ):
             return None
 
-- 
2.43.0


From 1370539eaa83d8aa54ea403c39f625285b3152c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:09 +0000
Subject: [PATCH 077/138] fix: telnet sequences can be divided between frames

---
 runtimepy/net/tcp/telnet/__init__.py | 30 +++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/tcp/telnet/__init__.py b/runtimepy/net/tcp/telnet/__init__.py
index 4284538..e34fc8f 100644
--- a/runtimepy/net/tcp/telnet/__init__.py
+++ b/runtimepy/net/tcp/telnet/__init__.py
@@ -35,6 +35,26 @@ class Telnet(_TcpConnection):
 
     log_alias = "TELNET"
 
+    # Sequences can be divided between frames.
+    _last_val = 0
+    _processing_option = False
+    _processing_command = False
+
+    async def restart(self) -> bool:
+        """
+        Reset necessary underlying state for this connection to 'process'
+        again.
+        """
+
+        result = await super().restart()
+
+        # Sequences don't continue in a new stream.
+        if result:
+            self._processing_option = False
+            self._processing_command = False
+
+        return result
+
     async def process_telnet_message(self, data: bytes) -> bool:
         """By default, treat all incoming data bytes as text."""
         return await self.process_text(data.decode(encoding=DEFAULT_ENCODING))
@@ -71,11 +91,11 @@ class Telnet(_TcpConnection):
         result = True
 
         last_val = 0
-        val = 0
+        val = self._last_val
 
         # These two conditions are used to form a simple state machine.
-        processing_option = False
-        processing_command = False
+        processing_option = self._processing_option
+        processing_command = self._processing_command
 
         with _ExitStack() as stack:
             text = stack.enter_context(_BytesIO())
@@ -120,6 +140,10 @@ class Telnet(_TcpConnection):
                 else:
                     text.write(data)
 
+            self._last_val = val
+            self._processing_option = processing_option
+            self._processing_command = processing_command
+
             # Process the message that remains as data.
             if text.tell() > 0:
                 result = await self.process_telnet_message(text.getvalue())
-- 
2.43.0


From 0bda4ff0fef83daca4224cf88d838491f50747e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:10 +0000
Subject: [PATCH 078/138] fix: unknown telnet commands don't stop connections

---
 runtimepy/net/tcp/telnet/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtimepy/net/tcp/telnet/__init__.py b/runtimepy/net/tcp/telnet/__init__.py
index e34fc8f..694d35d 100644
--- a/runtimepy/net/tcp/telnet/__init__.py
+++ b/runtimepy/net/tcp/telnet/__init__.py
@@ -123,6 +123,10 @@ class Telnet(_TcpConnection):
                         # escaped.
                         if val == TelnetCode.IAC:
                             text.write(data)
+                        elif val < TelnetCode.SE:
+                            self.logger.warning(
+                                "Ignoring unknown command (%d).", val
+                            )
                         else:
                             await self.process_command(TelnetCode(val))
 
-- 
2.43.0


From de306038d8dff365a28fd44594848fc036bd36f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:10 +0000
Subject: [PATCH 079/138] fix: telnet text can be divided between frames

---
 runtimepy/net/tcp/telnet/__init__.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/tcp/telnet/__init__.py b/runtimepy/net/tcp/telnet/__init__.py
index 694d35d..6df0594 100644
--- a/runtimepy/net/tcp/telnet/__init__.py
+++ b/runtimepy/net/tcp/telnet/__init__.py
@@ -4,9 +4,12 @@ A module implementing a basic telnet (RFC 854) connection interface.
 
 # built-in
 from abc import abstractmethod as _abstractmethod
+from codecs import IncrementalDecoder as _IncrementalDecoder
+from codecs import getincrementaldecoder as _getincrementaldecoder
 from contextlib import ExitStack as _ExitStack
 from io import BytesIO as _BytesIO
 from typing import BinaryIO as _BinaryIO
+from typing import Optional as _Optional
 
 # third-party
 from vcorelib import DEFAULT_ENCODING
@@ -40,6 +43,9 @@ class Telnet(_TcpConnection):
     _processing_option = False
     _processing_command = False
 
+    # Characters can be divided between frames.
+    _decoder: _Optional[_IncrementalDecoder] = None
+
     async def restart(self) -> bool:
         """
         Reset necessary underlying state for this connection to 'process'
@@ -52,12 +58,20 @@ class Telnet(_TcpConnection):
         if result:
             self._processing_option = False
             self._processing_command = False
+            self._decoder = None
 
         return result
 
     async def process_telnet_message(self, data: bytes) -> bool:
         """By default, treat all incoming data bytes as text."""
-        return await self.process_text(data.decode(encoding=DEFAULT_ENCODING))
+
+        if self._decoder is None:
+            self._decoder = _getincrementaldecoder(DEFAULT_ENCODING)(
+                errors="replace"
+            )
+
+        text = self._decoder.decode(data)
+        return await self.process_text(text) if text else True
 
     @_abstractmethod
     async def process_command(self, code: TelnetCode) -> None:
-- 
2.43.0


From b1148a5f215b5da9e95a4f706c42892204b8a117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:35 +0000
Subject: [PATCH 080/138] fix: scpi responses don't get returned for later
 commands

---
 runtimepy/net/tcp/scpi/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/tcp/scpi/__init__.py b/runtimepy/net/tcp/scpi/__init__.py
index 57397ad..e0da4ad 100644
--- a/runtimepy/net/tcp/scpi/__init__.py
+++ b/runtimepy/net/tcp/scpi/__init__.py
@@ -17,7 +17,7 @@ class ScpiConnection(TcpConnection):
         """Initialize this instance."""
 
         self.command_lock = asyncio.Lock()
-        self.message_queue: asyncio.Queue[str] = asyncio.Queue(maxsize=1)
+        self.message_queue: asyncio.Queue[str] = asyncio.Queue()
 
     async def async_init(self) -> bool:
         """Initialize this instance."""
@@ -54,6 +54,10 @@ class ScpiConnection(TcpConnection):
             command += "?"
 
         async with self.command_lock:
+            # Anything received before this command isn't a response to it.
+            while not self.message_queue.empty():
+                self.message_queue.get_nowait()
+
             self.send_text(command + "\n")
 
             if response or query:
-- 
2.43.0


From 5ab13d7e73caa6ea8c88df9679618da4268e37b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:35 +0000
Subject: [PATCH 081/138] fix: scpi responses can be divided between frames

---
 runtimepy/net/tcp/scpi/__init__.py | 42 ++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/tcp/scpi/__init__.py b/runtimepy/net/tcp/scpi/__init__.py
index e0da4ad..0b2c0cd 100644
--- a/runtimepy/net/tcp/scpi/__init__.py
+++ b/runtimepy/net/tcp/scpi/__init__.py
@@ -4,6 +4,7 @@ A module implementing an SCPI interface.
 
 # built-in
 import asyncio
+from codecs import getincrementaldecoder
 
 # internal
 from runtimepy.net.arbiter.tcp import TcpConnectionFactory
@@ -18,6 +19,28 @@ class ScpiConnection(TcpConnection):
 
         self.command_lock = asyncio.Lock()
         self.message_queue: asyncio.Queue[str] = asyncio.Queue()
+        self._reset_stream()
+
+    def _reset_stream(self) -> None:
+        """Reset the state of the incoming stream."""
+
+        self._decoder = getincrementaldecoder("utf-8")(errors="replace")
+
+        # A line that hasn't ended (and whether it began too early to be a
+        # response to the current command).
+        self._partial = ""
+        self._partial_stale = False
+
+    async def restart(self) -> bool:
+        """
+        Reset necessary underlying state for this connection to 'process'
+        again.
+        """
+
+        result = await super().restart()
+        if result:
+            self._reset_stream()
+        return result
 
     async def async_init(self) -> bool:
         """Initialize this instance."""
@@ -28,7 +51,14 @@ class ScpiConnection(TcpConnection):
     async def process_text(self, data: str) -> bool:
         """Process a text frame."""
 
-        for item in data.splitlines():
+        *lines, self._partial = (self._partial + data).split("\n")
+
+        # The end of a line that began before the current command.
+        if lines and self._partial_stale:
+            self._partial_stale = False
+            lines.pop(0)
+
+        for item in "\n".join(lines).splitlines():
             if item:
                 await self.message_queue.put(item)
 
@@ -36,7 +66,7 @@ class ScpiConnection(TcpConnection):
 
     async def process_binary(self, data: bytes) -> bool:
         """Process a binary frame."""
-        return await self.process_text(data.decode())
+        return await self.process_text(self._decoder.decode(data))
 
     async def send_command(
         self,
@@ -57,6 +87,9 @@ class ScpiConnection(TcpConnection):
             # Anything received before this command isn't a response to it.
             while not self.message_queue.empty():
                 self.message_queue.get_nowait()
+            self._partial_stale = bool(
+                self._partial or self._decoder.getstate()[0]
+            )
 
             self.send_text(command + "\n")
 
@@ -68,6 +101,11 @@ class ScpiConnection(TcpConnection):
                     if log:
                         self.logger.info("(%s) %s", command, result)
                 except asyncio.TimeoutError:
+                    # Accept a response that isn't terminated.
+                    partial, self._partial = self._partial, ""
+                    if partial and not self._partial_stale:
+                        return partial
+
                     self.logger.error(
                         "Peer didn't respond to '%s'! (timeout: %.2f)",
                         command,
-- 
2.43.0


From fc1edfa8ab065573bf47299401db4d36edd977d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:35 +0000
Subject: [PATCH 082/138] fix: setting the state of an outlet that doesn't
 exist fails

---
 runtimepy/net/tcp/telnet/np_05b.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/tcp/telnet/np_05b.py b/runtimepy/net/tcp/telnet/np_05b.py
index 19bc5ab..8b65450 100644
--- a/runtimepy/net/tcp/telnet/np_05b.py
+++ b/runtimepy/net/tcp/telnet/np_05b.py
@@ -155,7 +155,7 @@ class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
         result = False
         real_idx = idx - 1
 
-        if 0 <= real_idx <= self.num_ports:
+        if 0 <= real_idx < self.num_ports:
             if self.outlets_on[real_idx] != state:
                 await self.np05b_command(
                     Np05bStrings.SET_OUTLET, str(idx), "1" if state else "0"
-- 
2.43.0


From 1c812852f9990e72c2e73dccbb276308b02ca406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:35 +0000
Subject: [PATCH 083/138] fix: NP-05B lines can be divided between frames

---
 runtimepy/net/tcp/telnet/np_05b.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/tcp/telnet/np_05b.py b/runtimepy/net/tcp/telnet/np_05b.py
index 8b65450..f4974a3 100644
--- a/runtimepy/net/tcp/telnet/np_05b.py
+++ b/runtimepy/net/tcp/telnet/np_05b.py
@@ -54,6 +54,7 @@ class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
 
     # Typing for some instance members.
     prev_cmd: str
+    partial: str
     chan_to_idx: dict[str, int]
 
     lock: asyncio.Lock
@@ -64,6 +65,7 @@ class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
         self.lock = asyncio.Lock()
 
         self.prev_cmd = ""
+        self.partial = ""
         self.outlets_on: List[Union[None, bool]] = [
             None for _ in range(self.num_ports)
         ]
@@ -118,6 +120,21 @@ class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
             if to_set is not None:
                 await self.set_outlet_state(idx, to_set)
 
+    async def restart(self) -> bool:
+        """
+        Reset necessary underlying state for this connection to 'process'
+        again.
+        """
+
+        result = await super().restart()
+
+        # Nothing that was in progress continues.
+        if result:
+            self.prev_cmd = ""
+            self.partial = ""
+
+        return result
+
     async def async_init(self) -> bool:
         """Ensure that initial statuses get set."""
 
@@ -209,10 +226,12 @@ class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
     async def process_text(self, data: str) -> bool:
         """Process a text frame."""
 
-        line_stack = list(data.splitlines())
+        # Lines can be divided between frames.
+        *lines, self.partial = (self.partial + data).split("\n")
+        line_stack = "\n".join(lines).splitlines()
 
         while line_stack:
-            line = line_stack.pop(0)
+            line = line_stack.pop(0).removeprefix(self.prompt)
 
             # We can skip lines that don't mean anything.
             if not line or line == self.prompt:
-- 
2.43.0


From 8d1b6094e8d7962a67a1ecad69e9611ac70f274f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:35 +0000
Subject: [PATCH 084/138] fix: late NP-05B outlet states aren't responses to
 later requests

---
 runtimepy/net/tcp/telnet/np_05b.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/tcp/telnet/np_05b.py b/runtimepy/net/tcp/telnet/np_05b.py
index f4974a3..d3a66f2 100644
--- a/runtimepy/net/tcp/telnet/np_05b.py
+++ b/runtimepy/net/tcp/telnet/np_05b.py
@@ -5,6 +5,7 @@ A module implementing a Telnet interface for the NP-05B.
 # built-in
 from argparse import Namespace
 import asyncio
+from collections import deque
 from enum import Enum
 from typing import List, Optional, Union
 
@@ -69,7 +70,7 @@ class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
         self.outlets_on: List[Union[None, bool]] = [
             None for _ in range(self.num_ports)
         ]
-        self.outlet_status_sem = asyncio.Semaphore(0)
+        self.status_requests: deque[asyncio.Future[None]] = deque()
         self.chan_to_idx = {}
 
         # Add runtime state.
@@ -132,6 +133,11 @@ class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
         if result:
             self.prev_cmd = ""
             self.partial = ""
+            self.outlets_on = [None for _ in range(self.num_ports)]
+            while self.status_requests:
+                request = self.status_requests.popleft()
+                if not request.done():
+                    request.set_result(None)
 
         return result
 
@@ -161,7 +167,9 @@ class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
         self._send_np05b(Np05bStrings.OUTLET_STATUS)
 
         # Wait for the device to respond.
-        await self.outlet_status_sem.acquire()
+        request = asyncio.get_running_loop().create_future()
+        self.status_requests.append(request)
+        await request
 
     async def set_outlet_state(self, idx: int, state: bool) -> bool:
         """
@@ -221,7 +229,10 @@ class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
                     self.env.set(f"outlet.{idx + 1}.on", curr)
 
             # Signal that we got a response to outlet status.
-            self.outlet_status_sem.release()
+            if self.status_requests:
+                request = self.status_requests.popleft()
+                if not request.done():
+                    request.set_result(None)
 
     async def process_text(self, data: str) -> bool:
         """Process a text frame."""
-- 
2.43.0


From 26ada9af69fb35bd7504c1b9badcb015735cae5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:35 +0000
Subject: [PATCH 085/138] fix: an NP-05B that doesn't respond doesn't stop
 housekeeping

---
 runtimepy/net/tcp/telnet/np_05b.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/tcp/telnet/np_05b.py b/runtimepy/net/tcp/telnet/np_05b.py
index d3a66f2..fb3ec6f 100644
--- a/runtimepy/net/tcp/telnet/np_05b.py
+++ b/runtimepy/net/tcp/telnet/np_05b.py
@@ -159,7 +159,13 @@ class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
 
         async with self.lock:
             self._send_np05b(message, *parts)
-            await asyncio.wait_for(self.request_outlet_status(), 5.0)
+            try:
+                await asyncio.wait_for(self.request_outlet_status(), 5.0)
+            except asyncio.TimeoutError:
+                self.logger.error("Peer didn't respond to '%s'!", message)
+
+                # The states aren't known anymore.
+                self.outlets_on = [None for _ in range(self.num_ports)]
 
     async def request_outlet_status(self) -> None:
         """Request that the endpoint sends information about outlet status."""
-- 
2.43.0


From fda3e166ec0309a6e138471a88c6d8837587d557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:13 +0000
Subject: [PATCH 086/138] fix: message framers capture entire chains

---
 runtimepy/primitives/serializable/framer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtimepy/primitives/serializable/framer.py b/runtimepy/primitives/serializable/framer.py
index cf9b995..e121ef2 100644
--- a/runtimepy/primitives/serializable/framer.py
+++ b/runtimepy/primitives/serializable/framer.py
@@ -3,6 +3,7 @@ A module implementing a message framing interface for serializables.
 """
 
 # built-in
+from io import BytesIO
 from typing import Optional
 
 # third-party
@@ -63,7 +64,9 @@ class SerializableFramer:
         """
 
         if sample:
-            self.raw += bytes(self.instance)
+            with BytesIO() as stream:
+                self.instance.to_stream(stream)
+                self.raw += stream.getvalue()
             self.elements += 1
 
         result = None
-- 
2.43.0


From 3e6a1c29822228ff0c3a73cba2307c25fa63d771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:13 +0000
Subject: [PATCH 087/138] fix: message framers aren't changed by an MTU that's
 too small

---
 runtimepy/primitives/serializable/framer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/runtimepy/primitives/serializable/framer.py b/runtimepy/primitives/serializable/framer.py
index e121ef2..29ed4af 100644
--- a/runtimepy/primitives/serializable/framer.py
+++ b/runtimepy/primitives/serializable/framer.py
@@ -33,8 +33,9 @@ class SerializableFramer:
         raw_length = self.instance.length()
         assert raw_length > 0
 
-        self.length = (mtu - protocol_overhead) // raw_length
-        assert self.length > 0
+        length = (mtu - protocol_overhead) // raw_length
+        assert length > 0, (mtu, protocol_overhead, raw_length)
+        self.length = length
 
         self.reset()
 
-- 
2.43.0


From f128425c6befe59c89e3b4365762fcec61a91258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:13 +0000
Subject: [PATCH 088/138] fix: unexpected datagrams don't stop struct
 transceivers

---
 runtimepy/net/arbiter/struct/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/runtimepy/net/arbiter/struct/__init__.py b/runtimepy/net/arbiter/struct/__init__.py
index c6a2937..1391ca9 100644
--- a/runtimepy/net/arbiter/struct/__init__.py
+++ b/runtimepy/net/arbiter/struct/__init__.py
@@ -196,6 +196,16 @@ class UdpStructTransceiver(UdpConnection, Generic[T]):
 
         # Should we handle the other branch?
         if self.struct_rx is not None:
+            # Anything can be received.
+            if len(data) % self.struct_rx.array.size:
+                self.logger.warning(
+                    "Ignoring %d-byte datagram from %s:%d.",
+                    len(data),
+                    addr[0],
+                    addr[1],
+                )
+                return True
+
             for timestamp_ns in self.struct_rx.process_datagram(data):
                 self.handle_update(timestamp_ns, self.struct_rx, addr)
 
-- 
2.43.0


From e9d586e7742c459b5921ab4280bc2a6f08b5ee57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:00 +0000
Subject: [PATCH 089/138] fix: early output of subprocesses isn't lost

---
 runtimepy/subprocess/__init__.py | 13 +++++--------
 runtimepy/subprocess/protocol.py | 11 +++++++++--
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/runtimepy/subprocess/__init__.py b/runtimepy/subprocess/__init__.py
index edc7f3d..1f9f028 100644
--- a/runtimepy/subprocess/__init__.py
+++ b/runtimepy/subprocess/__init__.py
@@ -101,15 +101,15 @@ async def spawn_exec(
     program, list_args = reconcile_platform(args[0], args[1:])
 
     _, protocol = await get_running_loop().subprocess_exec(
-        RuntimepySubprocessProtocol, program, *list_args, **kwargs
+        lambda: RuntimepySubprocessProtocol(stdout, stderr),
+        program,
+        *list_args,
+        **kwargs,
     )
 
     rel = log_process_info(program, *list_args)
     logger.info("Started exec '%s %s' %d.", rel[0], rel[1], protocol.pid)
 
-    protocol.stdout_queue = stdout
-    protocol.stderr_queue = stderr
-
     try:
         yield protocol
     finally:
@@ -129,14 +129,11 @@ async def spawn_shell(
     """Create a shell subprocess."""
 
     _, protocol = await get_running_loop().subprocess_shell(
-        RuntimepySubprocessProtocol, cmd, **kwargs
+        lambda: RuntimepySubprocessProtocol(stdout, stderr), cmd, **kwargs
     )
 
     logger.info("Started shell '%s' %d.", cmd, protocol.pid)
 
-    protocol.stdout_queue = stdout
-    protocol.stderr_queue = stderr
-
     try:
         yield protocol
     finally:
diff --git a/runtimepy/subprocess/protocol.py b/runtimepy/subprocess/protocol.py
index a1c2272..f0d1975 100644
--- a/runtimepy/subprocess/protocol.py
+++ b/runtimepy/subprocess/protocol.py
@@ -36,6 +36,15 @@ class RuntimepySubprocessProtocol(SubprocessProtocol):
 
     exited: Event
 
+    def __init__(
+        self, stdout: Queue[bytes] = None, stderr: Queue[bytes] = None
+    ) -> None:
+        """Initialize this instance."""
+
+        # Output can be received as soon as the process starts.
+        self.stdout_queue = stdout
+        self.stderr_queue = stderr
+
     @property
     def stdout(self) -> Queue[bytes]:
         """Get this instance's standard output queue."""
@@ -59,8 +68,6 @@ class RuntimepySubprocessProtocol(SubprocessProtocol):
         self.start_time = metrics_time_ns()
         self.elapsed_time = -1
 
-        self.stdout_queue = None
-        self.stderr_queue = None
         self.exited = Event()
 
         self.transport = transport
-- 
2.43.0


From 3bfee3b0f8d419384c1abb95709f72d55f067baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:00 +0000
Subject: [PATCH 090/138] fix: subprocess output without a queue doesn't raise

---
 runtimepy/subprocess/protocol.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/runtimepy/subprocess/protocol.py b/runtimepy/subprocess/protocol.py
index f0d1975..5a696f8 100644
--- a/runtimepy/subprocess/protocol.py
+++ b/runtimepy/subprocess/protocol.py
@@ -87,8 +87,7 @@ class RuntimepySubprocessProtocol(SubprocessProtocol):
 
         if fd == 1 and self.stdout_queue is not None:
             self.stdout_queue.put_nowait(data)
-        elif self.stderr_queue is not None:
-            assert fd == 2, fd
+        elif fd == 2 and self.stderr_queue is not None:
             self.stderr_queue.put_nowait(data)
 
     def pipe_connection_lost(self, fd: int, exc) -> None:
-- 
2.43.0


From 2e9c7c35f66a94d57c2cbfe22c188f50e7a495f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:44 +0000
Subject: [PATCH 091/138] fix: results of parallel applications don't cancel
 out

---
 runtimepy/net/arbiter/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/arbiter/base.py b/runtimepy/net/arbiter/base.py
index ef84b3e..7eddc1a 100644
--- a/runtimepy/net/arbiter/base.py
+++ b/runtimepy/net/arbiter/base.py
@@ -406,7 +406,7 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
 
             for idx, result in enumerate(results):
                 pairs[idx][1].logger.debug("Returned %d.", result)
-                total += result
+                total = total or result
 
                 # Capture a normal result.
                 stage_results[idx] = AppResult(
-- 
2.43.0


From c386ea42bb3e0a21d8df6015a041ac033c55822e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:44 +0000
Subject: [PATCH 092/138] fix: a raising application doesn't leave its stage
 running

---
 runtimepy/net/arbiter/base.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/arbiter/base.py b/runtimepy/net/arbiter/base.py
index 7eddc1a..efd14ec 100644
--- a/runtimepy/net/arbiter/base.py
+++ b/runtimepy/net/arbiter/base.py
@@ -396,11 +396,13 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
             inf.logger.debug("Starting.")
 
         total = 0
+        tasks: list[_asyncio.Future[int]] = []
         try:
             with TIMER.measure_ns() as token:
-                results = await _asyncio.gather(
-                    *(app(inf) for app, inf in pairs)
+                tasks.extend(
+                    _asyncio.ensure_future(app(inf)) for app, inf in pairs
                 )
+                results = await _asyncio.gather(*tasks)
 
             duration_ns = TIMER.result(token)
 
@@ -424,6 +426,12 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
             ]
             total = -1
 
+        # Don't leave other methods of this stage running.
+        finally:
+            for task in tasks:
+                task.cancel()
+            await _asyncio.gather(*tasks, return_exceptions=True)
+
         # Keep track of this stage's results.
         info.results.append(stage_results)
 
-- 
2.43.0


From b798374e9300da9743e7491048aa36101584f58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:44 +0000
Subject: [PATCH 093/138] fix: arbiters wait for connections to be closed

---
 runtimepy/net/arbiter/base.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/runtimepy/net/arbiter/base.py b/runtimepy/net/arbiter/base.py
index efd14ec..755a1e5 100644
--- a/runtimepy/net/arbiter/base.py
+++ b/runtimepy/net/arbiter/base.py
@@ -48,6 +48,10 @@ from runtimepy.subprocess.peer import RuntimepyPeer as _RuntimepyPeer
 from runtimepy.tui.mixin import CursesWindow, TuiMixin
 
 ServerTask = _Awaitable[None]
+
+# Longer than the connection manager waits for connections.
+SHUTDOWN_TIMEOUT = 2.0
+
 RuntimeProcessTask = tuple[
     type[_RuntimepyPeer], str, _JsonObject, str, Optional[str]
 ]
@@ -451,12 +455,23 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
         conns = _asyncio.create_task(self.manager.manage(self.stop_sig))
 
         # Run application.
-        result = await self._entry(
-            app=app, check_connections=check_connections, config=config
-        )
+        try:
+            result = await self._entry(
+                app=app, check_connections=check_connections, config=config
+            )
+        finally:
+            await self._shutdown(self._servers + [conns])
+
+        return int(result)
+
+    async def _shutdown(self, tasks: list[_asyncio.Task[None]]) -> None:
+        """Wait for tasks to complete (or cancel them)."""
+
+        # Allow connections to be closed.
+        await _asyncio.wait(tasks, timeout=SHUTDOWN_TIMEOUT)
 
         # Shutdown any pending tasks.
-        pending = log_exceptions(self._servers + [conns], logger=self.logger)
+        pending = log_exceptions(tasks, logger=self.logger)
         if pending:
             for task in pending:
                 task.cancel()
@@ -465,8 +480,6 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
 
             assert not log_exceptions(pending, logger=self.logger)
 
-        return int(result)
-
     def run(
         self,
         app: NetworkApplicationlike = None,
-- 
2.43.0


From 3efd59fbcc8d48934366b20ee01135f44e1bbcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:08 +0000
Subject: [PATCH 094/138] fix: servers that can't start don't block the arbiter

---
 runtimepy/net/arbiter/base.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/arbiter/base.py b/runtimepy/net/arbiter/base.py
index 755a1e5..656e682 100644
--- a/runtimepy/net/arbiter/base.py
+++ b/runtimepy/net/arbiter/base.py
@@ -207,6 +207,27 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
         for struct in self._structs.values():
             register_env(struct.name, struct.command)
 
+    async def _wait_servers(self) -> None:
+        """Wait for servers to start."""
+
+        async def all_started() -> None:
+            """Wait for every server."""
+            for _ in range(len(self._servers)):
+                await self._servers_started.acquire()
+
+        started = _asyncio.create_task(all_started())
+        try:
+            # A server that can't start won't ever signal that it did.
+            pending: set[_asyncio.Task[None]] = {started, *self._servers}
+            while started in pending:
+                done, pending = await _asyncio.wait(
+                    pending, return_when=_asyncio.FIRST_COMPLETED
+                )
+                for task in done:
+                    task.result()
+        finally:
+            started.cancel()
+
     async def _init_connections(self) -> None:
         """Initialize network connections."""
 
@@ -264,8 +285,7 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
         clear_env()
 
         # Wait for servers to start.
-        for _ in range(len(self._servers)):
-            await self._servers_started.acquire()
+        await self._wait_servers()
 
         # Start processes.
         await self._start_processes(stack)
-- 
2.43.0


From 52d908711c9b9c1ebccfef7aa842de93b4f003d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:08 +0000
Subject: [PATCH 095/138] fix: arbiters can be stopped before connections are
 initialized

---
 runtimepy/net/arbiter/base.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/arbiter/base.py b/runtimepy/net/arbiter/base.py
index 656e682..ccc8d8e 100644
--- a/runtimepy/net/arbiter/base.py
+++ b/runtimepy/net/arbiter/base.py
@@ -243,6 +243,27 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
             *(x.initialized.wait() for x in self._connections.values())
         )
 
+    async def _init_unless_stopped(self) -> bool:
+        """
+        Initialize network connections, return false if the application is
+        stopped before that's complete.
+        """
+
+        init = _asyncio.create_task(self._init_connections())
+        stop = _asyncio.create_task(self.stop_sig.wait())
+        tasks = [init, stop]
+        try:
+            await _asyncio.wait(tasks, return_when=_asyncio.FIRST_COMPLETED)
+            result = init.done()
+            if result:
+                init.result()
+        finally:
+            for task in tasks:
+                task.cancel()
+            await _asyncio.gather(*tasks, return_exceptions=True)
+
+        return result
+
     async def _build_structs(self, info: AppInfo) -> None:
         """Build structs."""
 
@@ -291,7 +312,7 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
         await self._start_processes(stack)
 
         with self.log_time("Connection initialization", reminder=True):
-            await self._init_connections()
+            initialized = await self._init_unless_stopped()
 
         # Register environments.
         self._register_envs()
@@ -301,8 +322,9 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
 
         # Run application, but only if all the registered connections
         # are still alive after initialization.
-        if not check_connections or not any(
-            x.disabled for x in self._connections.values()
+        if initialized and (
+            not check_connections
+            or not any(x.disabled for x in self._connections.values())
         ):
             info = AppInfo(
                 self.logger,
-- 
2.43.0


From 851a6ba8cc94363090c3314589d2ce67124a81a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:52 +0000
Subject: [PATCH 096/138] fix: connections that aren't processed yet are closed
 when stopping

---
 runtimepy/net/arbiter/base.py | 20 +++++++++++++++-----
 runtimepy/net/manager.py      | 18 ++++++++++++++++++
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/runtimepy/net/arbiter/base.py b/runtimepy/net/arbiter/base.py
index ccc8d8e..423d4d2 100644
--- a/runtimepy/net/arbiter/base.py
+++ b/runtimepy/net/arbiter/base.py
@@ -232,11 +232,19 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
         """Initialize network connections."""
 
         # Start deferred connections.
-        for key, value in zip(
-            self._deferred_connections,
-            await _asyncio.gather(*self._deferred_connections.values()),
-        ):
-            self._register_connection(value, key)
+        tasks = [
+            _asyncio.ensure_future(x)
+            for x in self._deferred_connections.values()
+        ]
+        try:
+            await _asyncio.gather(*tasks, return_exceptions=True)
+        finally:
+            for key, task in zip(self._deferred_connections, tasks):
+                if not task.cancelled() and not task.exception():
+                    self._register_connection(task.result(), key)
+
+        for task in tasks:
+            task.result()
 
         # Ensure connections are all initialized.
         await _asyncio.gather(
@@ -522,6 +530,8 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
 
             assert not log_exceptions(pending, logger=self.logger)
 
+        await self.manager.close_queued()
+
     def run(
         self,
         app: NetworkApplicationlike = None,
diff --git a/runtimepy/net/manager.py b/runtimepy/net/manager.py
index e21013f..09309c3 100644
--- a/runtimepy/net/manager.py
+++ b/runtimepy/net/manager.py
@@ -64,6 +64,21 @@ class ConnectionManager(LoggerMixin):
         for conn in self._conns:
             conn.metrics.poll(time_ns=time_ns)
 
+    async def _close(self, conn: _Connection) -> None:
+        """Close a connection that won't be processed."""
+
+        conn.disable("not processed")
+        try:
+            await conn.close()
+        except Exception as exc:  # pylint: disable=broad-exception-caught
+            self.logger.exception("Couldn't close %s:", conn, exc_info=exc)
+
+    async def close_queued(self) -> None:
+        """Close connections that aren't being processed yet."""
+
+        while not self.queue.empty():
+            await self._close(self.queue.get_nowait())
+
     async def manage(self, stop_sig: _asyncio.Event) -> None:
         """Handle incoming connections until the stop signal is set."""
 
@@ -136,7 +151,10 @@ class ConnectionManager(LoggerMixin):
         with self.log_time("Shutting down", reminder=True):
             # Allow existing tasks to clean up.
             if new_conn_task is not None:
+                if new_conn_task.done():
+                    await self._close(new_conn_task.result())
                 new_conn_task.cancel()
+            await self.close_queued()
             if tasks:
                 with _suppress(_asyncio.TimeoutError):
                     await _asyncio.wait_for(
-- 
2.43.0


From 421918c8988dcc94dca90e90121618a861f517a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:51 +0000
Subject: [PATCH 097/138] fix: tabs that are shown twice observe channels once

---
 runtimepy/net/server/app/env/tab/message.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtimepy/net/server/app/env/tab/message.py b/runtimepy/net/server/app/env/tab/message.py
index 8d7813c..430389a 100644
--- a/runtimepy/net/server/app/env/tab/message.py
+++ b/runtimepy/net/server/app/env/tab/message.py
@@ -21,6 +21,10 @@ class ChannelEnvironmentTabMessaging(ChannelEnvironmentTabBase):
     def _setup_callback(self, name: str, state: TabState) -> None:
         """Register a channel's value-change callback."""
 
+        # Tabs can be shown more than once.
+        if name in state.callbacks:
+            return
+
         chan = self.command.env.field_or_channel(name)
         assert isinstance(chan, Channel) or chan is not None
         prim = chan.raw
-- 
2.43.0


From 877fdacc7d92932fa951ede5fea37e5a1327c5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:51 +0000
Subject: [PATCH 098/138] fix: hidden tabs don't assume that every value was
 seen

---
 runtimepy/net/server/app/env/tab/message.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/runtimepy/net/server/app/env/tab/message.py b/runtimepy/net/server/app/env/tab/message.py
index 430389a..2bfb6d9 100644
--- a/runtimepy/net/server/app/env/tab/message.py
+++ b/runtimepy/net/server/app/env/tab/message.py
@@ -50,6 +50,7 @@ class ChannelEnvironmentTabMessaging(ChannelEnvironmentTabBase):
     ) -> None:
         """Handle 'shown' state changing."""
 
+        was_shown = state.shown
         state.shown = shown
         env = self.command.env
 
@@ -73,6 +74,15 @@ class ChannelEnvironmentTabMessaging(ChannelEnvironmentTabBase):
             for name in env.names:
                 self._setup_callback(name, state)
         else:
+            # Changes that haven't been sent yet won't be.
+            for name in state.points:
+                state.latest_ui_values.pop(name, None)
+            latest = {
+                name: value
+                for name, value in latest.items()
+                if was_shown and name not in state.points
+            }
+
             state.clear_telemetry()
 
         # Save current UI state.
-- 
2.43.0


From c8321364855b4abd72dcc03085edd44908ae8b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:07 +0000
Subject: [PATCH 099/138] fix: UI state is polled while there are connections

---
 runtimepy/net/server/websocket/__init__.py | 26 ++++++++--------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/runtimepy/net/server/websocket/__init__.py b/runtimepy/net/server/websocket/__init__.py
index 1feaa59..4708a50 100644
--- a/runtimepy/net/server/websocket/__init__.py
+++ b/runtimepy/net/server/websocket/__init__.py
@@ -27,7 +27,9 @@ class RuntimepyWebsocketConnection(WebsocketJsonMessageConnection):
     tabs: dict[str, TabState]
 
     poll_governor: RateLimiter
-    poll_connection_metrics: bool
+
+    # The connection that updates UI state.
+    poller: Optional["RuntimepyWebsocketConnection"] = None
 
     _ui: Optional[UiState]
 
@@ -52,18 +54,6 @@ class RuntimepyWebsocketConnection(WebsocketJsonMessageConnection):
 
             if ui is not None and ui.env.finalized:
 
-                def check_metrics_poll(_: int, curr: int) -> None:
-                    """
-                    Register change handler on 'num_connections' primitive.
-                    """
-
-                    self.poll_connection_metrics = (
-                        self.poll_connection_metrics or curr == 1
-                    )
-
-                chan, _ = ui.env["num_connections"]
-                chan.raw.register_callback(check_metrics_poll)  # type: ignore
-
                 # Add to num_connections.
                 ui.env.add_int("num_connections", 1)
                 self._ui = ui
@@ -74,7 +64,11 @@ class RuntimepyWebsocketConnection(WebsocketJsonMessageConnection):
         """Update UI-specific state."""
 
         # Only one connection needs to perform this task.
-        if self.poll_connection_metrics and self.poll_governor():
+        cls = RuntimepyWebsocketConnection
+        if cls.poller is None or cls.poller.disabled:
+            cls.poller = self
+
+        if cls.poller is self and self.poll_governor():
             # Update time.
             ui.env["time_ms"] = time
             ui.env["frame_period_ms"] = time - self.ui_time
@@ -136,7 +130,6 @@ class RuntimepyWebsocketConnection(WebsocketJsonMessageConnection):
             to_nanos(1.0 / 250.0), source=metrics_time_ns
         )
 
-        self.poll_connection_metrics = False
         self._ui = None
 
     async def async_init(self) -> bool:
@@ -156,9 +149,8 @@ class RuntimepyWebsocketConnection(WebsocketJsonMessageConnection):
             state.clear_loggers()
 
         # Subtract from num_connections.
-        ui = self._get_ui()
+        ui = self._ui
         if ui:
-            self.poll_connection_metrics = False
             ui.env.add_int("num_connections", -1)
 
 
-- 
2.43.0


From cea2b47034f2bc74bebe934709ab851d01ebf7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:09 +0000
Subject: [PATCH 100/138] fix: polling metrics doesn't change their unit

---
 runtimepy/metrics/channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtimepy/metrics/channel.py b/runtimepy/metrics/channel.py
index 1fd517d..90a0450 100644
--- a/runtimepy/metrics/channel.py
+++ b/runtimepy/metrics/channel.py
@@ -55,7 +55,8 @@ class ChannelMetrics:
     def poll(self, time_ns: int = None) -> None:
         """Poll kbps tracking."""
 
-        self.kbps.value = self._kbps_tracker.poll(time_ns=time_ns)
+        # Multiply by 8 to get bits from bytes.
+        self.kbps.value = self._kbps_tracker.poll(time_ns=time_ns) * 8
         self.message_rate.value = self._message_rate_tracker.poll(
             time_ns=time_ns
         )
-- 
2.43.0


From 3462ab846f720eaf41c933e6841088d3aa7d051e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:09 +0000
Subject: [PATCH 101/138] fix: resetting metrics resets all of them

---
 runtimepy/metrics/channel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtimepy/metrics/channel.py b/runtimepy/metrics/channel.py
index 90a0450..59aef44 100644
--- a/runtimepy/metrics/channel.py
+++ b/runtimepy/metrics/channel.py
@@ -79,6 +79,10 @@ class ChannelMetrics:
         """Reset metrics."""
 
         self.messages.value = 0
+        self.message_rate.value = 0.0
+        self._message_rate_tracker.reset()
+        self._message_rate_tracker.accumulated = 0.0
         self.bytes.value = 0
         self.kbps.value = 0.0
         self._kbps_tracker.reset()
+        self._kbps_tracker.accumulated = 0.0
-- 
2.43.0


From ec5bc491b46ef9161122e9a84483c48d1ce896cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:48 +0000
Subject: [PATCH 102/138] fix: datagrams are counted when processing them fails

---
 runtimepy/net/udp/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/udp/connection.py b/runtimepy/net/udp/connection.py
index 1189d02..b86b148 100644
--- a/runtimepy/net/udp/connection.py
+++ b/runtimepy/net/udp/connection.py
@@ -214,8 +214,8 @@ class UdpConnection(_Connection, _TransportMixin):
                 if message is not None:
                     data = message[0]
                     self.latest_rx_address = message[1]
-                    result = await self.process_datagram(data, message[1])
                     self.metrics.rx.increment(len(data))
+                    result = await self.process_datagram(data, message[1])
 
                 # If we failed to read a message, disable.
                 if not result:
-- 
2.43.0


From 3f032eb8e82b22fee653be8eadd4a50784003e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:48 +0000
Subject: [PATCH 103/138] fix: websocket metrics count bytes instead of
 characters

---
 runtimepy/net/websocket/connection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/websocket/connection.py b/runtimepy/net/websocket/connection.py
index e406d66..c223782 100644
--- a/runtimepy/net/websocket/connection.py
+++ b/runtimepy/net/websocket/connection.py
@@ -71,13 +71,15 @@ class WebsocketConnection(Connection):
 
         data = await self._handle_connection_closed(self.protocol.recv())
         if data is not None:
-            self.metrics.rx.increment(len(data))
+            self.metrics.rx.increment(
+                len(data.encode() if isinstance(data, str) else data)
+            )
         return data
 
     async def _send_text_message(self, data: str) -> None:
         """Send a text message."""
         await self._handle_connection_closed(self.protocol.send(data))
-        self.metrics.tx.increment(len(data))
+        self.metrics.tx.increment(len(data.encode()))
 
     async def _send_binay_message(self, data: BinaryMessage) -> None:
         """Send a binary message."""
-- 
2.43.0


From 445c6c4f70e39da5f96f7abf6222de6268b26df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:07 +0000
Subject: [PATCH 104/138] fix: messages that can't be sent aren't counted

---
 runtimepy/net/websocket/connection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/websocket/connection.py b/runtimepy/net/websocket/connection.py
index c223782..1c176b0 100644
--- a/runtimepy/net/websocket/connection.py
+++ b/runtimepy/net/websocket/connection.py
@@ -79,12 +79,14 @@ class WebsocketConnection(Connection):
     async def _send_text_message(self, data: str) -> None:
         """Send a text message."""
         await self._handle_connection_closed(self.protocol.send(data))
-        self.metrics.tx.increment(len(data.encode()))
+        if self._enabled:
+            self.metrics.tx.increment(len(data.encode()))
 
     async def _send_binay_message(self, data: BinaryMessage) -> None:
         """Send a binary message."""
         await self._handle_connection_closed(self.protocol.send(data))
-        self.metrics.tx.increment(len(data))
+        if self._enabled:
+            self.metrics.tx.increment(len(data))
 
     async def close(self) -> None:
         """Close this connection."""
-- 
2.43.0


From fd8df27e5f51edeeeb8ea157229f5747b889c0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:07 +0000
Subject: [PATCH 105/138] fix: toggle steppers don't poll each other

---
 runtimepy/control/step.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtimepy/control/step.py b/runtimepy/control/step.py
index 0284215..6c2a2ce 100644
--- a/runtimepy/control/step.py
+++ b/runtimepy/control/step.py
@@ -36,6 +36,10 @@ def should_poll(kind: type[RuntimeStruct]) -> bool:
     """
     Determine if a toggle stepper should poll the provided type of struct.
     """
+    # Steppers polling themselves (or each other) would never end.
+    if issubclass(kind, ToggleStepper):
+        return False
+
     return kind.__name__ not in DONT_POLL_SET and not kind.__name__.startswith(
         "Rt"
     )
-- 
2.43.0


From 02e4cc1ffde1703eacef41ff0916f9d295ed1eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:07 +0000
Subject: [PATCH 106/138] fix: waves without steps don't raise

---
 runtimepy/mixins/trig.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtimepy/mixins/trig.py b/runtimepy/mixins/trig.py
index 26447d2..240fbf8 100644
--- a/runtimepy/mixins/trig.py
+++ b/runtimepy/mixins/trig.py
@@ -75,6 +75,9 @@ class TrigMixin:
     def dispatch_trig(self, step: int) -> None:
         """Dispatch trig channel updates."""
 
-        self.step_angle = (math.tau / self.steps.value) * step
+        # The angle can't be determined without steps.
+        if self.steps.value:
+            self.step_angle = (math.tau / self.steps.value) * step
+
         self._update_sin()
         self._update_cos()
-- 
2.43.0


From fa89931154b0e021e51d611cdb07b381e3e54781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:16 +0000
Subject: [PATCH 107/138] fix: toggle steppers use their configured count

---
 runtimepy/control/step.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtimepy/control/step.py b/runtimepy/control/step.py
index 6c2a2ce..09dcf01 100644
--- a/runtimepy/control/step.py
+++ b/runtimepy/control/step.py
@@ -119,6 +119,7 @@ class ToggleStepper(RuntimeStruct):
             "count",
             self.count,
             controls="steps_1_1000",
+            default=self.count.value,
             description="The number of iterations to step.",
             commandable=True,
         )
-- 
2.43.0


From bd694a6f1b0bafd6723c57d5f999d9b42b52a1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:29 +0000
Subject: [PATCH 108/138] fix: failing commands don't stop housekeeping

---
 runtimepy/net/arbiter/housekeeping/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/arbiter/housekeeping/__init__.py b/runtimepy/net/arbiter/housekeeping/__init__.py
index a7f7daa..1f85503 100644
--- a/runtimepy/net/arbiter/housekeeping/__init__.py
+++ b/runtimepy/net/arbiter/housekeeping/__init__.py
@@ -68,9 +68,16 @@ class ConnectionMetricsPoller(_ArbiterTask):
         self.processors += list(self.app.conn_manager.connection_tasks)
 
         if self.processors:
-            await asyncio.gather(*self.processors)
+            results = await asyncio.gather(
+                *self.processors, return_exceptions=True
+            )
             self.processors.clear()
 
+            # Failing commands and connection tasks don't affect others.
+            for result in results:
+                if isinstance(result, Exception):
+                    self.logger.error("Task failed:", exc_info=result)
+
         return True
 
 
-- 
2.43.0


From 1a5f1d697a3b3b28a1820b74bf498958c4342e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:09 +0000
Subject: [PATCH 109/138] fix: log lines are captured when they're complete

---
 runtimepy/mixins/logging.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/runtimepy/mixins/logging.py b/runtimepy/mixins/logging.py
index d1d5003..de2975f 100644
--- a/runtimepy/mixins/logging.py
+++ b/runtimepy/mixins/logging.py
@@ -95,6 +95,9 @@ class LogCaptureMixin:
     # Open aiofiles handles.
     streams: list[tuple[int, Any]]
 
+    # Lines that aren't complete yet.
+    partial_lines: dict[int, bytes]
+
     # Set false to only forward to ListLogger handlers. Required for when the
     # system log / process-management logs are being forwarded (otherwise also
     # logging would lead to infinite spam).
@@ -108,12 +111,16 @@ class LogCaptureMixin:
         self.streams = [
             (
                 LogLevel.normalize(level),
-                await stack.enter_async_context(aiofiles.open(path, mode="r")),
+                await stack.enter_async_context(
+                    aiofiles.open(path, mode="rb")
+                ),
             )
             for level, path in log_paths
             if normalize(path).is_file()
         ]
 
+        self.partial_lines = {}
+
         # Don't handle any kind of backhaul.
         for stream in self.streams:
             await stream[1].seek(0, io.SEEK_END)
@@ -126,8 +133,16 @@ class LogCaptureMixin:
     async def dispatch_log_capture(self) -> None:
         """Get the next line from this log stream."""
 
-        for level, stream in self.streams:
-            line = (await stream.readline()).rstrip()
+        for index, (level, stream) in enumerate(self.streams):
+            line = await stream.readline()
             while line:
-                self.log_line(level, line)
-                line = (await stream.readline()).rstrip()
+                # Lines can be written in parts.
+                line = self.partial_lines.pop(index, b"") + line
+                if not line.endswith(b"\n"):
+                    self.partial_lines[index] = line
+                else:
+                    text = line.decode(errors="replace").rstrip()
+                    if text:
+                        self.log_line(level, text)
+
+                line = await stream.readline()
-- 
2.43.0


From edcea05318cc17ad868a08754f50fe0497838758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:13 +0000
Subject: [PATCH 110/138] fix: restarted UDP connections keep their remote
 address

---
 runtimepy/net/udp/connection.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtimepy/net/udp/connection.py b/runtimepy/net/udp/connection.py
index b86b148..465e297 100644
--- a/runtimepy/net/udp/connection.py
+++ b/runtimepy/net/udp/connection.py
@@ -126,9 +126,14 @@ class UdpConnection(_Connection, _TransportMixin):
             self._protocol.active = False
             self._transport.close()
 
+            remote_address = self.remote_address
             self.set_transport(transport_protocol[0])
             self._set_protocol(transport_protocol[1])
 
+            # Sockets that aren't connected don't have a remote address.
+            if self.remote_address is None:
+                self.remote_address = remote_address
+
         result = await try_udp_transport_protocol(
             callback=callback, **self._conn_kwargs
         )
-- 
2.43.0


From adca8495140b8f22708b7e184711887cdf7b0959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:27 +0000
Subject: [PATCH 111/138] fix: rejected names don't change a type system's
 namespace

---
 runtimepy/codec/system/__init__.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/runtimepy/codec/system/__init__.py b/runtimepy/codec/system/__init__.py
index 5d78b9d..89e2e64 100644
--- a/runtimepy/codec/system/__init__.py
+++ b/runtimepy/codec/system/__init__.py
@@ -3,7 +3,8 @@ A basic type-system implementation.
 """
 
 # built-in
-from typing import Iterable, Optional
+from contextlib import contextmanager
+from typing import Iterable, Iterator, Optional
 
 # third-party
 from vcorelib.logging import LoggerMixin
@@ -156,6 +157,18 @@ class TypeSystem(LoggerMixin):
                 array_length=array_length,
             )
 
+    @contextmanager
+    def _pushed(self, *namespace: str) -> Iterator[None]:
+        """Enter a namespace, also leave it if an exception is raised."""
+
+        stack = self.root_namespace.stack
+        depth = len(stack)
+        try:
+            with self.root_namespace.pushed(*namespace):
+                yield
+        finally:
+            del stack[depth:]
+
     def _find_name(
         self,
         name: str,
@@ -168,7 +181,7 @@ class TypeSystem(LoggerMixin):
         if name in self.primitives:
             return name
 
-        with self.root_namespace.pushed(*namespace):
+        with self._pushed(*namespace):
             candidate = self.root_namespace.namespace(name, track=False)
             if candidate in self.custom:
                 return candidate
@@ -193,7 +206,7 @@ class TypeSystem(LoggerMixin):
     ) -> str:
         """Resolve a given name against the current namespace."""
 
-        with self.root_namespace.pushed(*namespace):
+        with self._pushed(*namespace):
             if check_available:
                 resolved = self._find_name(name)
                 assert (
-- 
2.43.0


From 8a0dc8c55bbfc4b886e6d6e1c82899c41b2e5963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:27 +0000
Subject: [PATCH 112/138] fix: enumerations that can't be created don't reserve
 their name

---
 runtimepy/codec/system/__init__.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/runtimepy/codec/system/__init__.py b/runtimepy/codec/system/__init__.py
index 89e2e64..d4b083c 100644
--- a/runtimepy/codec/system/__init__.py
+++ b/runtimepy/codec/system/__init__.py
@@ -93,7 +93,9 @@ class TypeSystem(LoggerMixin):
     ) -> None:
         """Register an enumeration."""
 
-        name = self._name(name, *namespace, check_available=True)
+        name = self._name(
+            name, *namespace, check_available=True, track=False
+        )
 
         enum = self._enums.enum(name, "int", items=items, primitive=primitive)
         assert enum is not None
@@ -202,7 +204,11 @@ class TypeSystem(LoggerMixin):
         return match
 
     def _name(
-        self, name: str, *namespace: str, check_available: bool = False
+        self,
+        name: str,
+        *namespace: str,
+        check_available: bool = False,
+        track: bool = True,
     ) -> str:
         """Resolve a given name against the current namespace."""
 
@@ -215,7 +221,7 @@ class TypeSystem(LoggerMixin):
                     != resolved
                 ), f"Name '{name}' not available! found '{resolved}'"
 
-            result = self.root_namespace.namespace(name)
+            result = self.root_namespace.namespace(name, track=track)
 
         return result
 
@@ -223,6 +229,7 @@ class TypeSystem(LoggerMixin):
         """Register a type alias for a primitive value."""
 
         assert name not in self.primitives, name
+        self.root_namespace.names.add(name)
         self.primitives[name] = PrimitiveTypes[kind]
 
     def size(
-- 
2.43.0


From c5e79352321d9eb5fbb8ef1bef22f6c68d12ae5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:09 +0000
Subject: [PATCH 113/138] fix: a global name doesn't hide that a type name is
 taken

---
 runtimepy/codec/system/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/runtimepy/codec/system/__init__.py b/runtimepy/codec/system/__init__.py
index d4b083c..f5986b8 100644
--- a/runtimepy/codec/system/__init__.py
+++ b/runtimepy/codec/system/__init__.py
@@ -215,10 +215,11 @@ class TypeSystem(LoggerMixin):
         with self._pushed(*namespace):
             if check_available:
                 resolved = self._find_name(name)
+                full = self.root_namespace.namespace(name, track=False)
                 assert (
-                    resolved is None
-                    or self.root_namespace.namespace(name, track=False)
-                    != resolved
+                    full not in self.custom
+                    and full not in self.primitives
+                    and full != resolved
                 ), f"Name '{name}' not available! found '{resolved}'"
 
             result = self.root_namespace.namespace(name, track=track)
-- 
2.43.0


From da161fb937874945d7e46df28a93c7d941008ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:41 +0000
Subject: [PATCH 114/138] fix: protocols reject fields with names of other
 fields

---
 runtimepy/codec/protocol/base.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/runtimepy/codec/protocol/base.py b/runtimepy/codec/protocol/base.py
index 74fd0cc..53cbcdd 100644
--- a/runtimepy/codec/protocol/base.py
+++ b/runtimepy/codec/protocol/base.py
@@ -151,9 +151,19 @@ class ProtocolBase:
             array_lengths=self._array_lengths,
         )
 
+    def _check_available(self, name: str) -> None:
+        """Ensure that no other field has this name."""
+
+        assert (
+            name not in self._regular_fields
+            and name not in self.serializables
+            and not self._fields.has_field(name)
+        ), f"Field '{name}' already exists!"
+
     def register_name(self, name: str) -> int:
         """Register the field name."""
 
+        self._check_available(name)
         ident = self.names.register_name(name)
         assert ident is not None, f"Couldn't register field '{name}'!"
         return ident
@@ -214,6 +224,8 @@ class ProtocolBase:
     def _add_bit_fields(self, fields: _BitFields, track: bool = True) -> None:
         """Add a bit-fields instance."""
 
+        for name in fields.fields:
+            self._check_available(name)
         idx = self._fields.add(fields)
         self.array.add(fields.raw)
         if track:
-- 
2.43.0


From 2f9f780277affc936da289543c10ce163983e7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:35 +0000
Subject: [PATCH 115/138] fix: copies of protocols have the values of all
 fields

---
 runtimepy/codec/protocol/base.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/runtimepy/codec/protocol/base.py b/runtimepy/codec/protocol/base.py
index 53cbcdd..edad73e 100644
--- a/runtimepy/codec/protocol/base.py
+++ b/runtimepy/codec/protocol/base.py
@@ -5,6 +5,7 @@ A module implementing an interface to build communication protocols.
 # built-in
 from contextlib import contextmanager
 from copy import copy as _copy
+from io import BytesIO
 from typing import Iterator as _Iterator
 from typing import NamedTuple
 from typing import Optional as _Optional
@@ -137,7 +138,7 @@ class ProtocolBase:
     def __copy__(self: T) -> T:
         """Create another protocol instance from this one."""
 
-        return self.__class__(
+        result = self.__class__(
             self._enum_registry,
             names=self.names,
             fields=_copy(self._fields),
@@ -151,6 +152,14 @@ class ProtocolBase:
             array_lengths=self._array_lengths,
         )
 
+        # Copy the current values.
+        with BytesIO() as stream:
+            self.array.to_stream(stream)
+            stream.seek(0)
+            result.array.from_stream(stream)
+
+        return result
+
     def _check_available(self, name: str) -> None:
         """Ensure that no other field has this name."""
 
-- 
2.43.0


From e01e056eb18d7fbf2c605da7b926716aa7ce7a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:27 +0000
Subject: [PATCH 116/138] fix: event files include changes of bit fields

---
 runtimepy/channel/environment/command/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/channel/environment/command/__init__.py b/runtimepy/channel/environment/command/__init__.py
index 783bc14..369aaab 100644
--- a/runtimepy/channel/environment/command/__init__.py
+++ b/runtimepy/channel/environment/command/__init__.py
@@ -105,7 +105,7 @@ class GlobalEnvironment(UserDict[str, ChannelCommandProcessor], LoggerMixin):
         """Enable event streaming to a file for an environment by name."""
 
         with self.export(env).joinpath(path).open("wb") as path_fd:
-            with self[env].env.channels.registered(
+            with self[env].env.registered(
                 path_fd, pattern=pattern, exact=exact
             ) as chans:
                 yield chans
-- 
2.43.0


From 0fce203e6928af32dce23b6175488daaf214feb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:27 +0000
Subject: [PATCH 117/138] fix: telemetry of contexts that fail can be loaded

---
 runtimepy/channel/environment/command/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/runtimepy/channel/environment/command/__init__.py b/runtimepy/channel/environment/command/__init__.py
index 369aaab..853ea4d 100644
--- a/runtimepy/channel/environment/command/__init__.py
+++ b/runtimepy/channel/environment/command/__init__.py
@@ -212,10 +212,11 @@ class GlobalEnvironment(UserDict[str, ChannelCommandProcessor], LoggerMixin):
                 "Event-telemetry logged context", reminder=True
             ):
                 metadata["start_ns"] = default_time_ns()
-                yield name_channels
-                metadata["end_ns"] = default_time_ns()
-
-        self.write_meta(metadata)
+                try:
+                    yield name_channels
+                finally:
+                    metadata["end_ns"] = default_time_ns()
+                    self.write_meta(metadata)
 
     def clear(self) -> None:
         """Log environments that get cleared when clearing."""
-- 
2.43.0


From 09bdb379164061e5b2d0ecb777f7b158b7fa2eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:13 +0000
Subject: [PATCH 118/138] fix: pairs of websocket connections stay connected

---
 runtimepy/net/websocket/connection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtimepy/net/websocket/connection.py b/runtimepy/net/websocket/connection.py
index 1c176b0..8da1a65 100644
--- a/runtimepy/net/websocket/connection.py
+++ b/runtimepy/net/websocket/connection.py
@@ -182,6 +182,9 @@ class WebsocketConnection(Connection):
             assert server_conn is None
             server_conn = cls(protocol)
 
+            # The connection gets closed when this returns.
+            await protocol.wait_closed()
+
         async with _AsyncExitStack() as stack:
             if serve_kwargs is None:
                 serve_kwargs = {}
-- 
2.43.0


From 38e3997c1513d5b01c1828608c327981963a62f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:36 +0000
Subject: [PATCH 119/138] fix: descriptions are escaped in tooltips

---
 runtimepy/net/html/bootstrap/elements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/html/bootstrap/elements.py b/runtimepy/net/html/bootstrap/elements.py
index e3b907a..dab4f1b 100644
--- a/runtimepy/net/html/bootstrap/elements.py
+++ b/runtimepy/net/html/bootstrap/elements.py
@@ -3,6 +3,7 @@ A module for creating various bootstrap-related elements.
 """
 
 # built-in
+from html import escape
 from io import StringIO
 from typing import Optional
 
@@ -29,7 +30,7 @@ def flex(kind: str = "row", **kwargs) -> Element:
 def set_tooltip(element: Element, data: str, placement: str = "right") -> None:
     """Set a tooltip on an element."""
 
-    element["data-bs-title"] = data
+    element["data-bs-title"] = escape(data)
     element["data-bs-placement"] = placement
 
     # Should we use another mechanism for this?
-- 
2.43.0


From d96070d120f8d70c7be15a640742b4e95680bc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:47 +0000
Subject: [PATCH 120/138] fix: integer sliders can always be moved

---
 runtimepy/net/html/bootstrap/elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/html/bootstrap/elements.py b/runtimepy/net/html/bootstrap/elements.py
index dab4f1b..e32411c 100644
--- a/runtimepy/net/html/bootstrap/elements.py
+++ b/runtimepy/net/html/bootstrap/elements.py
@@ -148,7 +148,7 @@ def slider(
 
     step = (max_val - min_val) / steps
     if isinstance(min_val, int) and isinstance(max_val, int):
-        step = int(step)
+        step = max(int(step), 1)
 
     elem["step"] = step
 
-- 
2.43.0


From cbafd51ce93fa621e8a5d5bcad193bd4ba12463b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:35 +0000
Subject: [PATCH 121/138] fix: enumerations with defaults can be reset

---
 runtimepy/net/server/app/env/tab/controls.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtimepy/net/server/app/env/tab/controls.py b/runtimepy/net/server/app/env/tab/controls.py
index e8f645e..6cb48c5 100644
--- a/runtimepy/net/server/app/env/tab/controls.py
+++ b/runtimepy/net/server/app/env/tab/controls.py
@@ -91,6 +91,11 @@ class ChannelEnvironmentTabControls(ChannelEnvironmentTabBase):
                 enum_dropdown(control, name, enum, cast(int, chan.raw.value))
                 control_added = True
 
+                if chan.default is not None:
+                    default_button(
+                        control, name, chan, *TABLE_BUTTON_CLASSES, front=False
+                    )
+
         if chan.type.is_boolean:
             chan_type.add_class("text-primary-emphasis")
             if chan.commandable:
-- 
2.43.0


From 51bad2ae936f040c236bacbd964fd5714d716f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:05 +0000
Subject: [PATCH 122/138] fix: applications don't serve each other's documents

---
 runtimepy/net/server/app/create.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/runtimepy/net/server/app/create.py b/runtimepy/net/server/app/create.py
index fde6c6a..3b86c22 100644
--- a/runtimepy/net/server/app/create.py
+++ b/runtimepy/net/server/app/create.py
@@ -17,7 +17,6 @@ from runtimepy.net.http.response import ResponseHeader
 from runtimepy.net.server.app.base import WebApplication
 from runtimepy.net.server.html import HtmlApp
 
-DOCUMENTS: dict[str, Html] = {}
 T = TypeVar("T")
 
 
@@ -39,6 +38,9 @@ def create_cacheable_app(app: AppInfo, compose: HtmlAppComposer) -> HtmlApp:
     the originally composed document.
     """
 
+    # Every application has its own document.
+    documents: dict[str, Html] = {}
+
     async def cached_app(
         document: Html,
         request: RequestHeader,
@@ -56,8 +58,8 @@ def create_cacheable_app(app: AppInfo, compose: HtmlAppComposer) -> HtmlApp:
 
             # Use the already-rendered document.
             if config_param(app, "caching", True):
-                if compose_name in DOCUMENTS:
-                    document = DOCUMENTS[compose_name]
+                if compose_name in documents:
+                    document = documents[compose_name]
                     populate = False
 
             if populate:
@@ -65,7 +67,7 @@ def create_cacheable_app(app: AppInfo, compose: HtmlAppComposer) -> HtmlApp:
                 document = compose(
                     app, document, request, response, request_data
                 )
-                DOCUMENTS[compose_name] = document
+                documents[compose_name] = document
 
         return document
 
-- 
2.43.0


From d9460326ef4f9a9790c0c829f4fca51c711c5bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:24 +0000
Subject: [PATCH 123/138] fix: cancelled shutdowns don't leave subprocesses
 running

---
 runtimepy/subprocess/__init__.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/runtimepy/subprocess/__init__.py b/runtimepy/subprocess/__init__.py
index 1f9f028..2ae066a 100644
--- a/runtimepy/subprocess/__init__.py
+++ b/runtimepy/subprocess/__init__.py
@@ -33,12 +33,14 @@ async def shutdown_protocol(
         protocol.stdin.write_eof()
 
     while not protocol.exited.is_set():
-        with suppress(TimeoutError):
-            await wait_for(protocol.exited.wait(), poll_rate)
-
-        # Close transport.
-        logger.debug("Closing transport for %d.", protocol.pid)
-        protocol.transport.close()
+        try:
+            with suppress(TimeoutError):
+                await wait_for(protocol.exited.wait(), poll_rate)
+
+        # Close transport (also when cancelled).
+        finally:
+            logger.debug("Closing transport for %d.", protocol.pid)
+            protocol.transport.close()
 
 
 async def close_protocol(
-- 
2.43.0


From 7344e1f49098cf1f5edfde10b3b70831097e1435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:10 +0000
Subject: [PATCH 124/138] fix: waiting for the stop signal doesn't change
 configurations

---
 runtimepy/net/arbiter/imports/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/arbiter/imports/util.py b/runtimepy/net/arbiter/imports/util.py
index 1dffd9c..3dcc532 100644
--- a/runtimepy/net/arbiter/imports/util.py
+++ b/runtimepy/net/arbiter/imports/util.py
@@ -26,7 +26,8 @@ def get_apps(
         module_path = [module_path]
 
     if wait_for_stop:
-        module_path.append("runtimepy.net.apps.wait_for_stop")
+        # Don't change the caller's (configuration) data.
+        module_path = [*module_path, "runtimepy.net.apps.wait_for_stop"]
 
     # Load all application methods.
     apps = []
-- 
2.43.0


From b07c07b13557610cba0f86906390a50393278077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:48 +0000
Subject: [PATCH 125/138] fix: malformed requests are ignored

---
 runtimepy/message/interface.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/runtimepy/message/interface.py b/runtimepy/message/interface.py
index 14bca23..0f5b595 100644
--- a/runtimepy/message/interface.py
+++ b/runtimepy/message/interface.py
@@ -13,6 +13,7 @@ from typing import Any, Optional, Union
 # third-party
 from vcorelib.dict.codec import JsonCodec
 from vcorelib.logging import ListLogger, LoggerType
+from vcorelib.schemas.base import SchemaValidationError
 from vcorelib.target.resolver import TargetResolver
 
 # internal
@@ -365,9 +366,15 @@ class JsonMessageInterface:
                 if kind is None:
                     tasks.append(handler(sub_response, with_sub_data))
                 else:
-                    tasks.append(
-                        handler(sub_response, kind.create(with_sub_data))
-                    )
+                    # A malformed request can't be handled.
+                    try:
+                        request = kind.create(with_sub_data)
+                    except SchemaValidationError as exc:
+                        self.logger.error("Ignoring '%s': %s.", key, exc)
+                        keys_ignored.append(key)
+                        continue
+
+                    tasks.append(handler(sub_response, request))
 
             elif key not in RESERVED_KEYS:
                 keys_ignored.append(key)
-- 
2.43.0


From 9f6af4c3d95cdbb395b3a6e205b3c14ba0bf346a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:48 +0000
Subject: [PATCH 126/138] fix: odd metadata, identifiers and log messages don't
 end sessions

---
 runtimepy/message/interface.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/runtimepy/message/interface.py b/runtimepy/message/interface.py
index 0f5b595..e2075e0 100644
--- a/runtimepy/message/interface.py
+++ b/runtimepy/message/interface.py
@@ -129,7 +129,7 @@ class JsonMessageInterface:
 
         # Handle loopback.
         val = inbox.get("loopback", 0)
-        if val > 0:
+        if isinstance(val, (int, float)) and val > 0:
             outbox["loopback"] = val - 1
 
     def typed_handler(
@@ -161,10 +161,10 @@ class JsonMessageInterface:
                     "remote metadata: package=%s, "
                     "version=%s, kind=%s, handlers=%s"
                 ),
-                self.remote_meta["package"],
-                self.remote_meta["version"],
-                self.remote_meta["kind"],
-                self.remote_meta["handlers"],
+                self.remote_meta.get("package"),
+                self.remote_meta.get("version"),
+                self.remote_meta.get("kind"),
+                self.remote_meta.get("handlers"),
             )
 
     def stage_remote_log(
@@ -212,10 +212,12 @@ class JsonMessageInterface:
         """Handle a log message."""
 
         if "msg" in message and message["msg"]:
+            level = message.get("level", logging.INFO)
+            args = message.get("args", [])
             self.logger.log(
-                message.get("level", logging.INFO),
-                "remote: " + message["msg"],
-                *message.get("args", []),
+                level if isinstance(level, int) else logging.INFO,
+                "remote: " + str(message["msg"]),
+                *(args if isinstance(args, list) else [args]),
             )
 
     def _handle_reserved(
@@ -228,7 +230,7 @@ class JsonMessageInterface:
         # If a message identifier is present, send one in the response.
         if "__id__" in data:
             ident = data["__id__"]
-            if ident in self.ids_waiting:
+            if isinstance(ident, int) and ident in self.ids_waiting:
                 del data["__id__"]
                 self.id_responses[ident] = data
                 event = self.ids_waiting[ident]
@@ -242,8 +244,10 @@ class JsonMessageInterface:
 
         # Log messages sent by the peer.
         if "__log_messages__" in data:
-            for message in data["__log_messages__"]:
-                self.handle_log_message(message)
+            messages = data["__log_messages__"]
+            for message in messages if isinstance(messages, list) else []:
+                if isinstance(message, dict):
+                    self.handle_log_message(message)
             del data["__log_messages__"]
 
         return should_respond
-- 
2.43.0


From 4c8ecea058dab44c0cac825108ac52fd9babf358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:48 +0000
Subject: [PATCH 127/138] fix: messages that can't be decoded don't end
 sessions

---
 runtimepy/net/stream/json/__init__.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/runtimepy/net/stream/json/__init__.py b/runtimepy/net/stream/json/__init__.py
index 88b5bab..244c993 100644
--- a/runtimepy/net/stream/json/__init__.py
+++ b/runtimepy/net/stream/json/__init__.py
@@ -4,7 +4,7 @@ A module implementing a JSON message connection interface.
 
 # built-in
 from argparse import Namespace
-from json import JSONDecodeError, loads
+from json import loads
 from typing import Optional
 
 # internal
@@ -70,14 +70,16 @@ class JsonMessageConnection(
 
         result = True
 
+        # Integers can have too many digits and data can be nested too deeply.
         try:
             decoded = loads(data)
-
-            if decoded and isinstance(decoded, dict):
-                result = await self.process_json(decoded, addr=addr)
-            else:
-                self.logger.error("Ignoring message '%s'.", data)
-        except JSONDecodeError as exc:
+        except (ValueError, RecursionError) as exc:
             self.logger.exception("Couldn't decode '%s': %s", data, exc)
+            return result
+
+        if decoded and isinstance(decoded, dict):
+            result = await self.process_json(decoded, addr=addr)
+        else:
+            self.logger.error("Ignoring message '%s'.", data)
 
         return result
-- 
2.43.0


From 3b5ddfe661689e6abde742c9047290cddcec74dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:05 +0000
Subject: [PATCH 128/138] fix: file requests that can't be served don't end
 sessions

---
 runtimepy/message/handlers.py | 62 ++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 22 deletions(-)

diff --git a/runtimepy/message/handlers.py b/runtimepy/message/handlers.py
index b777941..c4714dd 100644
--- a/runtimepy/message/handlers.py
+++ b/runtimepy/message/handlers.py
@@ -4,6 +4,8 @@ A module defining some useful JSON message handlers.
 
 # built-in
 import asyncio
+from json import dumps
+from logging import getLogger
 
 # third-party
 from vcorelib.dict import MergeStrategy
@@ -19,6 +21,8 @@ from runtimepy.message import JsonMessage
 from runtimepy.message.types import TypedHandler
 from runtimepy.schemas import RuntimepyDictCodec
 
+LOG = getLogger(__name__)
+
 
 class ChannelCommand(RuntimepyDictCodec, BasicDictCodec):
     """A schema-validated find-file request."""
@@ -90,15 +94,21 @@ async def find_file_request_handler(
     """Attempt to find a file path based on the request."""
 
     if request.data["is_request"]:
-        path = find_file(
-            request.data["path"],
-            *request.data.get("parts", []),
-            search_paths=request.data.get("search_paths"),
-            include_cwd=request.data["include_cwd"],
-            relative_to=request.data.get("relative_to"),
-            package=request.data.get("package"),
-            package_subdir=request.data["package_subdir"],
-        )
+        # Any location can be requested.
+        try:
+            path = find_file(
+                request.data["path"],
+                *request.data.get("parts", []),
+                search_paths=request.data.get("search_paths"),
+                include_cwd=request.data["include_cwd"],
+                relative_to=request.data.get("relative_to"),
+                package=request.data.get("package"),
+                package_subdir=request.data["package_subdir"],
+            )
+        except Exception as exc:  # pylint: disable=broad-exception-caught
+            LOG.error("Couldn't search for '%s': %s.", request, exc)
+            path = None
+
         outbox["path"] = str(path) if path is not None else None
         outbox["is_request"] = False
 
@@ -107,18 +117,26 @@ async def find_file_request_handler(
             decoded = {"success": False, "data": {}, "time_ns": -1}
 
             if path is not None:
-                result = ARBITER.decode(
-                    path,
-                    includes_key=request.data["includes_key"],
-                    expect_overwrite=request.data["expect_overwrite"],
-                    strategy=(
-                        MergeStrategy.UPDATE
-                        if request.data["update"]
-                        else MergeStrategy.RECURSIVE
-                    ),
-                )
-                decoded["success"] = result.success
-                decoded["data"] = result.data
-                decoded["time_ns"] = result.time_ns
+                # Any kind of file can be found.
+                try:
+                    result = ARBITER.decode(
+                        path,
+                        includes_key=request.data["includes_key"],
+                        expect_overwrite=request.data["expect_overwrite"],
+                        strategy=(
+                            MergeStrategy.UPDATE
+                            if request.data["update"]
+                            else MergeStrategy.RECURSIVE
+                        ),
+                    )
+
+                    # The response must be possible to encode.
+                    dumps(result.data)
+
+                    decoded["success"] = result.success
+                    decoded["data"] = result.data
+                    decoded["time_ns"] = result.time_ns
+                except Exception as exc:  # pylint: disable=broad-exception-caught
+                    LOG.error("Couldn't decode '%s': %s.", path, exc)
 
             outbox["decoded"] = decoded
-- 
2.43.0


From cb84801052a9d1597e99ab0370471f12081b8b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:06 +0000
Subject: [PATCH 129/138] fix: requests without a command don't end sessions

---
 runtimepy/message/handlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/message/handlers.py b/runtimepy/message/handlers.py
index c4714dd..187a8fe 100644
--- a/runtimepy/message/handlers.py
+++ b/runtimepy/message/handlers.py
@@ -49,7 +49,7 @@ def channel_env_handler(
 
             # Run the command if we have the environment.
             if env is not None:
-                result = env.command(request.data["command"])
+                result = env.command(request.data.get("command", ""))
                 outbox["success"] = result.success
                 outbox["reason"] = result.reason
 
-- 
2.43.0


From 2b79677cac02b911d2044a553395a12b473779fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:29 +0000
Subject: [PATCH 130/138] fix: the server command doesn't print its arguments

---
 runtimepy/commands/server.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/runtimepy/commands/server.py b/runtimepy/commands/server.py
index 1a9afb2..ab7e9d4 100644
--- a/runtimepy/commands/server.py
+++ b/runtimepy/commands/server.py
@@ -48,7 +48,6 @@ def get_kwargs(args: _Namespace, **kwargs) -> dict[str, Any]:
     new_kwargs: dict[str, Any] = {**kwargs}
 
     # Pass additional arguments through.
-    print(args)
     for opt in PASSTHROUGH:
         value = getattr(args, opt, None)
         if value is not None:
-- 
2.43.0


From 95858c23c6d6a28331b09cd03632b5adfd9cfd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:29 +0000
Subject: [PATCH 131/138] fix: datagram servers listen on the host that was
 specified

---
 runtimepy/commands/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/commands/server.py b/runtimepy/commands/server.py
index ab7e9d4..890f8cf 100644
--- a/runtimepy/commands/server.py
+++ b/runtimepy/commands/server.py
@@ -101,7 +101,7 @@ def config_data(args: _Namespace) -> dict[str, Any]:
                 "name": port_name(args, port="server"),
                 "factory": args.factory,
                 "kwargs": get_kwargs(
-                    args, local_addr=["0.0.0.0", f"${port_name(args)}"]
+                    args, local_addr=[args.host, f"${port_name(args)}"]
                 ),
             }
         )
-- 
2.43.0


From 0d6617cb0d81d6238db6312a49a49df0e21d96de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:29 +0000
Subject: [PATCH 132/138] fix: loopback clients connect to the host that was
 specified

---
 runtimepy/commands/server.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/runtimepy/commands/server.py b/runtimepy/commands/server.py
index 890f8cf..bbbfef9 100644
--- a/runtimepy/commands/server.py
+++ b/runtimepy/commands/server.py
@@ -56,6 +56,13 @@ def get_kwargs(args: _Namespace, **kwargs) -> dict[str, Any]:
     return new_kwargs
 
 
+def client_host(args: _Namespace) -> str:
+    """Get the host that a loopback client should connect to."""
+    return (
+        "localhost" if args.host in ("", "0.0.0.0", "::") else str(args.host)
+    )
+
+
 def client_data(args: _Namespace) -> dict[str, Any]:
     """Get client data based on command-line arguments."""
 
@@ -64,15 +71,19 @@ def client_data(args: _Namespace) -> dict[str, Any]:
     arg_list: list[Any] = []
     kwargs: dict[str, Any] = {}
 
+    host = client_host(args)
+
     if is_websocket(args):
+        if ":" in host:
+            host = f"[{host}]"
         arg_list.append(
-            f"ws{'s' if is_ssl(get_kwargs(args)) else ''}://localhost:{port}"
+            f"ws{'s' if is_ssl(get_kwargs(args)) else ''}://{host}:{port}"
         )
     elif not args.udp:
-        kwargs["host"] = "localhost"
+        kwargs["host"] = host
         kwargs["port"] = port
     else:
-        kwargs["remote_addr"] = ["localhost", port]
+        kwargs["remote_addr"] = [host, port]
 
     result = {
         "name": port_name(args, port="client"),
-- 
2.43.0


From 5c07ca3855b658d773e99bac3b7a281699b84241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:29 +0000
Subject: [PATCH 133/138] fix: successful tftp commands exit zero

---
 runtimepy/commands/tftp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtimepy/commands/tftp.py b/runtimepy/commands/tftp.py
index faee900..bdccbf4 100644
--- a/runtimepy/commands/tftp.py
+++ b/runtimepy/commands/tftp.py
@@ -42,10 +42,13 @@ def tftp_cmd(args: argparse.Namespace) -> int:
     else:
         task = tftp_write(addr, args.our_file, args.their_file, **kwargs)
 
-    return run_handle_stop(
+    result = run_handle_stop(
         stop_sig, task, enable_uvloop=not getattr(args, "no_uvloop", False)
     )
 
+    # An exit code of zero indicates success.
+    return 0 if result else 1
+
 
 def add_tftp_cmd(parser: argparse.ArgumentParser) -> CommandFunction:
     """Add tftp-command arguments to its parser."""
-- 
2.43.0


From a58a7fc7e2677824853e3df1e61b74cb8c3f8bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:50 +0000
Subject: [PATCH 134/138] fix: sessions end with their context even if it ends
 at once

---
 runtimepy/net/connection.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index 0157254..ecc8058 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -274,9 +274,15 @@ class Connection(
 
         task = _asyncio.create_task(self.process(**kwargs))
         try:
+            # Processing can't be ended before it begins.
+            await _asyncio.sleep(0)
             yield
         finally:
             self.disable("nominal")
+
+            # It can get enabled again if it was being restarted.
+            while not (await _asyncio.wait([task], timeout=0.1))[0]:
+                self.disable("nominal")
             await task
 
     async def process(
-- 
2.43.0


From 40026c813fc9417f62e183114c1a8a5ac22a60e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:41 +0000
Subject: [PATCH 135/138] fix: unexpected output of peers doesn't stop their
 interfaces

---
 runtimepy/subprocess/interface.py | 40 +++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/runtimepy/subprocess/interface.py b/runtimepy/subprocess/interface.py
index fe2bad7..6ebcba3 100644
--- a/runtimepy/subprocess/interface.py
+++ b/runtimepy/subprocess/interface.py
@@ -86,14 +86,17 @@ class RuntimepyPeerInterface(
     def handle_log_message(self, message: JsonMessage) -> None:
         """Handle a log message."""
 
-        logger = self.logger
-        msg = "remote: " + message["msg"]
-
-        if self.peer is not None:
-            logger = self.peer.logger
-            msg = message["msg"]
-
-        logger.log(message.get("level", INFO), msg, *message.get("args", []))
+        # The peer's own logger is used as soon as there's one.
+        if self.peer is None:
+            super().handle_log_message(message)
+        elif message.get("msg"):
+            level = message.get("level", INFO)
+            args = message.get("args", [])
+            self.peer.logger.log(
+                level if isinstance(level, int) else INFO,
+                str(message["msg"]),
+                *(args if isinstance(args, list) else [args]),
+            )
 
     @property
     def peer_name(self) -> str:
@@ -168,8 +171,9 @@ class RuntimepyPeerInterface(
         ) -> None:
             """Store peer's configuration."""
 
-            if self.peer_config is None:
-                self.peer_config = inbox["config"]
+            config = inbox.get("config")
+            if self.peer_config is None and isinstance(config, dict):
+                self.peer_config = config
                 outbox["config"] = self.struct.config
                 self.logger.info(
                     "Peer's configuration: '%s'.",
@@ -230,9 +234,19 @@ class RuntimepyPeerInterface(
 
             # Parse channel events.
             if self.peer is not None:
-                with BytesIO(data) as stream:
-                    for event in self.peer.env.parse_event_stream(stream):
-                        self.peer.env.ingest(event)
+                try:
+                    with BytesIO(data) as stream:
+                        for event in self.peer.env.parse_event_stream(stream):
+                            self.peer.env.ingest(event)
+
+                # Not everything that's written has to be telemetry.
+                except AssertionError as exc:
+                    self.governed_log(
+                        self.log_limiter,
+                        "Couldn't parse telemetry: %s.",
+                        exc,
+                        level=logging.ERROR,
+                    )
             else:
                 self.governed_log(
                     self.log_limiter,
-- 
2.43.0


From bf2e4025826eb76b4cb4dbe43a639aadea29deb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:48 +0000
Subject: [PATCH 136/138] fix: text cursors can't leave their windows

---
 runtimepy/tui/cursor.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/runtimepy/tui/cursor.py b/runtimepy/tui/cursor.py
index 69c5301..de350d9 100644
--- a/runtimepy/tui/cursor.py
+++ b/runtimepy/tui/cursor.py
@@ -34,7 +34,7 @@ class Cursor:
         if new_x is None:
             new_x = self.x.value
 
-        result = new_y < self.height and new_x < self.width
+        result = 0 <= new_y < self.height and 0 <= new_x < self.width
         if result:
             self.window.move(new_y, new_x)
             self.y.value = new_y
@@ -55,6 +55,12 @@ class Cursor:
         if changed:
             self.window.resize(self.height, self.width)
 
+            # The position is always inside of the window.
+            self.move(
+                new_y=max(0, min(self.y.value, self.height - 1)),
+                new_x=max(0, min(self.x.value, self.width - 1)),
+            )
+
         return changed
 
     @property
-- 
2.43.0


From 2d154c55360a1515f88bf8d5ee28e92fb6979cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:48 +0000
Subject: [PATCH 137/138] fix: the text interface draws everything that fits
 after changes

---
 runtimepy/tui/channels/__init__.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/runtimepy/tui/channels/__init__.py b/runtimepy/tui/channels/__init__.py
index 598cf74..d97df36 100644
--- a/runtimepy/tui/channels/__init__.py
+++ b/runtimepy/tui/channels/__init__.py
@@ -63,16 +63,26 @@ class ChannelTui(TuiMixin):
 
             # Collect channel names from the environment.
             self.channel_names = sorted(self.env.names)
-            window = self.body
 
             # Initialize channel names.
-            for idx, item in enumerate(self.channel_names):
-                window.addstr(1 + idx, 1, item)
+            for item in self.channel_names:
                 self.value_col = max(self.value_col, len(item))
             self.value_col += 2
+            self.draw_names()
 
         return result
 
+    @property
+    def visible_names(self) -> list[str]:
+        """Get names of channels that fit inside the body's border."""
+        return self.channel_names[: max(0, self.body.getmaxyx()[0] - 2)]
+
+    def draw_names(self) -> None:
+        """Draw channel names."""
+
+        for idx, item in enumerate(self.visible_names):
+            self.body.addstr(1 + idx, 1, item)
+
     def update_dimensions(self) -> CursesWindow:
         """Handle an update to the window's dimensions."""
 
@@ -102,6 +112,9 @@ class ChannelTui(TuiMixin):
         body.box()
         self._body = body
 
+        # The screen content was cleared.
+        self.draw_names()
+
     async def handle_char(self, char: int) -> bool:
         """Handle character input."""
 
@@ -127,7 +140,7 @@ class ChannelTui(TuiMixin):
 
         window = self.body
 
-        for idx, item in enumerate(self.channel_names):
+        for idx, item in enumerate(self.visible_names):
             val = self.env.value(item)
 
             val_str = ""
@@ -136,7 +149,12 @@ class ChannelTui(TuiMixin):
             elif isinstance(val, int):
                 val_str = f"{val:<5d}"
 
-            window.addstr(1 + idx, self.value_col, val_str)
+            # Don't leave anything of a longer value behind.
+            window.addstr(
+                1 + idx,
+                self.value_col,
+                val_str.ljust(self.cursor.width - 3 - self.value_col),
+            )
 
         window.noutrefresh()
 
-- 
2.43.0


From 57378d9e31a7e42e77c82543cfefc6417c7b3602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:53 +0000
Subject: [PATCH 138/138] fix: sockets of failed probes are closed

---
 runtimepy/net/mtu.py  | 13 +++++++------
 runtimepy/net/util.py | 10 +++++++---
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/runtimepy/net/mtu.py b/runtimepy/net/mtu.py
index 12681b6..04cc989 100644
--- a/runtimepy/net/mtu.py
+++ b/runtimepy/net/mtu.py
@@ -103,12 +103,13 @@ def host_discover_mtu(
     """Perform MTU discovery given a local and remote host plus probe size."""
 
     sock = get_free_socket(local=local.zero_port(), kind=kind)
-    sock.connect(destination.address_str_tuple)
-    result = socket_discover_mtu(
-        sock, probe_size, fallback, probe_create=probe_create
-    )
-    sock.close()
-    return result
+    try:
+        sock.connect(destination.address_str_tuple)
+        return socket_discover_mtu(
+            sock, probe_size, fallback, probe_create=probe_create
+        )
+    finally:
+        sock.close()
 
 
 def discover_mtu(
diff --git a/runtimepy/net/util.py b/runtimepy/net/util.py
index 6a4299a..983c90c 100644
--- a/runtimepy/net/util.py
+++ b/runtimepy/net/util.py
@@ -185,9 +185,13 @@ def get_free_socket(
     local = normalize_host(local)
 
     sock = _socket.socket(local.family, kind)
-    if reuse:
-        sock.setsockopt(_socket.SOL_SOCKET, _socket.SO_REUSEADDR, 1)
-    sock.bind(local.address_str_tuple)
+    try:
+        if reuse:
+            sock.setsockopt(_socket.SOL_SOCKET, _socket.SO_REUSEADDR, 1)
+        sock.bind(local.address_str_tuple)
+    except BaseException:
+        sock.close()
+        raise
     return sock
 
 
-- 
2.43.0

