From cb51ce907652e4867b92f8ac17efc895a9d808b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:34 +0000
Subject: [PATCH 01/39] fix: keep significant zeros when serializing whole
 second durations

rstrip(".0") strips every trailing '0' and '.', so PT10S was written as PT1S.
---
 src/psrpcore/types/_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 37d6c7a..4b9af19 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -561,7 +561,7 @@ def _serialize_duration(
         minutes_str = f"{minutes}M" if minutes else ""
         seconds_str = f"{seconds:.7f}" if (seconds or (not hours_str and not minutes_str)) else ""
         if seconds_str:
-            seconds_str = seconds_str.rstrip(".0").zfill(1) + "S"
+            seconds_str = seconds_str.rstrip("0").rstrip(".") + "S"
 
         time_str = f"T{hours_str}{minutes_str}{seconds_str}"
 
-- 
2.43.0


From 76e28ed875b5af127822ff359b50737341dbfb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:34 +0000
Subject: [PATCH 02/39] fix: escape every surrogate and the two BMP
 non-characters in CLIXML strings

High surrogates end at U+DBFF, not U+D8FF, and U+FFFE/U+FFFF are not valid XML
characters. All of them were written verbatim producing XML no peer can parse.
---
 src/psrpcore/types/_serializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 4b9af19..02a3918 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -71,7 +71,9 @@ log = logging.getLogger(__name__)
 _STRING_SERIAL_ESCAPE_ESCAPE = re.compile("(?i)_(x)")
 
 # Finds C0, C1, and surrogate pairs in a unicode string for us to encode according to the PSRP rules.
-_STRING_SERIAL_ESCAPE = re.compile("[\u0000-\u001F\u007F-\u009F\uD800-\uD8FF\uDC00-\uDFFF\U00010000-\U0010FFFF]")
+_STRING_SERIAL_ESCAPE = re.compile(
+    "[\u0000-\u001F\u007F-\u009F\uD800-\uDBFF\uDC00-\uDFFF\uFFFE\uFFFF\U00010000-\U0010FFFF]"
+)
 
 # To support surrogate UTF-16 pairs we need to use a UTF-16 regex so we can replace the UTF-16 string representation
 # with the actual UTF-16 byte value and then decode that.
-- 
2.43.0


From 15bf890618f96af5a06c5905965819f3acb19eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:34 +0000
Subject: [PATCH 03/39] fix: match CLIXML string escapes on characters and not
 on UTF-16 bytes

The byte pattern could match in between two UTF-16 code units and corrupt text
like '\\u0100\\u5f00\\u7800\\u3000\\u3000\\u3000\\u3000\\u5f20'.
---
 src/psrpcore/types/_serializer.py | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 02a3918..bd98fdc 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -75,9 +75,8 @@ _STRING_SERIAL_ESCAPE = re.compile(
     "[\u0000-\u001F\u007F-\u009F\uD800-\uDBFF\uDC00-\uDFFF\uFFFE\uFFFF\U00010000-\U0010FFFF]"
 )
 
-# To support surrogate UTF-16 pairs we need to use a UTF-16 regex so we can replace the UTF-16 string representation
-# with the actual UTF-16 byte value and then decode that.
-_STRING_DESERIAL_FIND = re.compile(rb"\x00_\x00x((?:\x00[a-fA-F0-9]){4})\x00_")
+# Finds the _xXXXX_ escape sequence where XXXX is a single UTF-16 code unit.
+_STRING_DESERIAL_FIND = re.compile("_x([a-fA-F0-9]{4})_")
 
 # Python datetime only supports up to microsecond precision but .NET can go to 100 nanoseconds. To support this level
 # of precision we need to extract the fractional seconds part of a datetime ourselves and compute the value.
@@ -469,21 +468,13 @@ def _deserialize_string(
 
     # test '_xD83C_'
 
-    def rplcr(matchobj: typing.Any) -> bytes:
-        # The matched object is the UTF-16 byte representation of the UTF-8 hex string value. We need to decode the
-        # byte str to unicode and then unhexlify that hex string to get the actual bytes of the _x****_ value, e.g.
-        # group(0) == b'\x00_\x00x\x000\x000\x000\x00A\x00_'
-        # group(1) == b'\x000\x000\x000\x00A'
-        # unicode (from utf-16-be) == '000A'
-        # returns b'\x00\x0A'
-        match_hex = matchobj.group(1)
-        hex_string = match_hex.decode("utf-16-be")
-        return binascii.unhexlify(hex_string)
-
-    # Need to ensure we start with a unicode representation of the string so that we can get the actual UTF-16 bytes
-    # value from that string.
-    b_value = value.encode("utf-16-be")
-    b_escaped = re.sub(_STRING_DESERIAL_FIND, rplcr, b_value)
+    def rplcr(matchobj: typing.Any) -> str:
+        # The match is done on the unicode string and not the UTF-16 bytes so it cannot start halfway through a code unit.
+        return chr(int(matchobj.group(1), 16))
+
+    # A surrogate pair is escaped as 2 separate UTF-16 code units, going through UTF-16 combines them back together.
+    escaped = re.sub(_STRING_DESERIAL_FIND, rplcr, value)
+    b_escaped = escaped.encode("utf-16-be", errors="surrogatepass")
 
     return b_escaped.decode("utf-16-be", errors="surrogatepass")
 
-- 
2.43.0


From 44e2bdb0905eb232d84fcff4eeee6f7524e61e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:34 +0000
Subject: [PATCH 04/39] fix: escape the ToString value when serializing an
 object

The deserializer unescapes it, the serializer wrote it verbatim.
---
 src/psrpcore/types/_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index bd98fdc..db8eea3 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -933,7 +933,7 @@ class _Serializer:
                 to_string = ps_object.to_string
 
             if to_string:
-                ElementTree.SubElement(element, "ToString").text = to_string
+                ElementTree.SubElement(element, "ToString").text = _serialize_string(to_string)
 
             if is_complex and no_props and not isinstance(value, PSObject):
                 # If this was a complex object but no properties were defined we consider this a normal Python
-- 
2.43.0


From 822575a0326db6acfd42a5d2076931ff725b7576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:34 +0000
Subject: [PATCH 05/39] fix: serialize an int below the Int32 minimum as an
 Int64

---
 src/psrpcore/types/_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index db8eea3..81cf1d8 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -731,7 +731,7 @@ class _Serializer:
             if isinstance(value, PSObject):
                 ps_type = type(value)
             elif isinstance(value, int):
-                ps_type = PSInt64 if value > PSInt.MaxValue else PSInt
+                ps_type = PSInt if PSInt.MinValue <= value <= PSInt.MaxValue else PSInt64
             elif isinstance(value, float):
                 ps_type = PSSingle
             else:
-- 
2.43.0


From 4ff8f79bb013c15c159f821cf75f541824c4e4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:34 +0000
Subject: [PATCH 06/39] fix: only reuse a type name reference when the whole
 type hierarchy matches

Two objects that shared just the first type name were written with the same
TNRef, the second one came back with the type names of the first.
---
 src/psrpcore/types/_serializer.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 81cf1d8..d60f3a9 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -649,7 +649,7 @@ class _Serializer:
         self._obj_ref: weakref.WeakKeyDictionary = weakref.WeakKeyDictionary()
         self._obj_ref_enum: typing.Dict[int, int] = {}
         self._obj_ref_id = 0
-        self._tn_ref_list: typing.List[str] = []
+        self._tn_ref_list: typing.List[typing.List[str]] = []
 
         # Used for deserialization
         self._obj_ref_map: typing.Dict[str, typing.Any] = {}
@@ -855,16 +855,15 @@ class _Serializer:
         # Do not add the type names for extended primitive object unless it's an enum
         if ps_object.type_names and (is_enum or not is_extended_primitive):
             type_names = ps_object.type_names
-            main_type = type_names[0]
-            is_ref = main_type in self._tn_ref_list
+            is_ref = type_names in self._tn_ref_list
 
             if is_ref:
-                ref_id = self._tn_ref_list.index(main_type)
+                ref_id = self._tn_ref_list.index(type_names)
                 ElementTree.SubElement(element, "TNRef", RefId=str(ref_id))
 
             else:
-                self._tn_ref_list.append(main_type)
-                ref_id = self._tn_ref_list.index(main_type)
+                self._tn_ref_list.append(list(type_names))
+                ref_id = self._tn_ref_list.index(type_names)
 
                 tn = ElementTree.SubElement(element, "TN", RefId=str(ref_id))
                 for type_name in type_names:
-- 
2.43.0


From ada7b03efa371747c030182f4735ff36f4de64ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:34 +0000
Subject: [PATCH 07/39] fix: track serialized object references by identity and
 not equality

Equal but distinct objects, like 2 strings with different extended properties,
were collapsed into a Ref to the first one.
---
 src/psrpcore/types/_serializer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index d60f3a9..43cacb0 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -646,7 +646,7 @@ class _Serializer:
         self._kwargs = kwargs
 
         # Used for serialization to determine fi an object is already serialized or not.
-        self._obj_ref: weakref.WeakKeyDictionary = weakref.WeakKeyDictionary()
+        self._obj_ref: typing.Dict[int, typing.Tuple[int, typing.Any]] = {}
         self._obj_ref_enum: typing.Dict[int, int] = {}
         self._obj_ref_id = 0
         self._tn_ref_list: typing.List[typing.List[str]] = []
@@ -1174,7 +1174,12 @@ class _Serializer:
         next_ref_id = self._obj_ref_id
 
         try:
-            ref_id = self._obj_ref.setdefault(value, next_ref_id)
+            # Only hashable objects that support weak references are tracked.
+            hash(value)
+            weakref.ref(value)
+
+            # Must be keyed by identity, not equality, the object is also stored so the id cannot be reused.
+            ref_id = self._obj_ref.setdefault(id(value), (next_ref_id, value))[0]
         except TypeError as e:
             # Some objects cannot have a weakref, try id() only when dealing with known workable types.
             if isinstance(value, enum.Enum):
-- 
2.43.0


From 67a74cf1aba22d9618d020d4ae100bd29f3948c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:34 +0000
Subject: [PATCH 08/39] fix: do not drain a queue when serializing it

---
 src/psrpcore/types/_serializer.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 43cacb0..6c55a9a 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -901,13 +901,12 @@ class _Serializer:
         elif isinstance(value, (PSQueueBase, queue.Queue)):
             que_element = ElementTree.SubElement(element, self._type_to_element[PSQueue])
 
-            while True:
-                try:
-                    que_entry = self.serialize(value.get(block=False))
-                except queue.Empty:
-                    break
-                else:
-                    que_element.append(que_entry)
+            # Use a snapshot so the caller's queue is not drained by serializing it.
+            with value.mutex:
+                que_entries = list(value.queue)
+
+            for que_entry in que_entries:
+                que_element.append(self.serialize(que_entry))
 
         elif isinstance(value, (PSDictBase, dict)):
             dct_element = ElementTree.SubElement(element, self._type_to_element[PSDict])
-- 
2.43.0


From 377dc672605e6c148037c6ed80a3483f6c74cadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:34 +0000
Subject: [PATCH 09/39] fix: deserialize CLIXML with an empty self closed root
 element

---
 src/psrpcore/types/_serializer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 6c55a9a..87f713e 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -185,6 +185,8 @@ def deserialize_clixml(
     # breaking our parser. It is easier to just strip it from the root Objs
     # element.
     objs_header_end_idx = clixml.find(">")
+    if clixml[objs_header_end_idx - 1] == "/":
+        objs_header_end_idx -= 1  # Root element has no entries and is self closed.
     clixml = "<Objs" + clixml[objs_header_end_idx:]
 
     raw_clixml = ElementTree.fromstring(clixml)
-- 
2.43.0


From a004c8c9ce66ab14ea196b95ce6c7b43d4b514b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:34 +0000
Subject: [PATCH 10/39] fix: zero pad the year when serializing a datetime

---
 src/psrpcore/types/_serializer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 87f713e..707f06a 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -513,9 +513,10 @@ def _serialize_datetime(
         utc_offset = value.strftime("%z")
         timezone = f"{utc_offset[:3]}:{utc_offset[3:]}"
 
-    dt_str = value.strftime(f"%Y-%m-%dT%H:%M:%S{fraction_seconds}{timezone}")
+    # strftime does not pad %Y on all platforms.
+    dt_str = value.strftime(f"%m-%dT%H:%M:%S{fraction_seconds}{timezone}")
 
-    return dt_str
+    return f"{value.year:04d}-{dt_str}"
 
 
 def _serialize_duration(
-- 
2.43.0


From 21656496ca1f78f14b7dae9c8a7a101ffc5bb2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:34 +0000
Subject: [PATCH 11/39] fix: validate the range of integers created from an
 enum value

---
 src/psrpcore/types/_primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 34bbeeb..8918854 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -124,7 +124,7 @@ class PSIntegerBase(PSObject, int):
 
         if cls != type(num):
             # If the value is not the exact instance recreate it from an actual int.
-            return super().__new__(cls, int(num))
+            num = super().__new__(cls, int(num))
 
         int_num = int(num)
 
-- 
2.43.0


From c12be7cd3a5add07c955de5b26166f808f3060a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:34 +0000
Subject: [PATCH 12/39] fix: do not grow the accepted type list on every
 PSDuration operation

---
 src/psrpcore/types/_primitive.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 8918854..ecf8453 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -52,8 +52,7 @@ def _ensure_types_and_self(
 
     def decorator(func: typing.Callable) -> typing.Callable:
         def wrapped(self: PSObject, other: object) -> typing.Any:
-            types_to_check.append(type(self))
-            if not isinstance(other, tuple(types_to_check)):
+            if not isinstance(other, (*types_to_check, type(self))):
                 return NotImplemented
 
             return func(self, other)
-- 
2.43.0


From 889bc223fb7076662610d37c7b0b7b4ff06e8cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:34 +0000
Subject: [PATCH 13/39] fix: keep the nanosecond value when casting a
 PSDateTime

---
 src/psrpcore/types/_primitive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index ecf8453..234bd4c 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -343,6 +343,7 @@ class PSDateTime(PSObject, datetime.datetime):
 
         if args and isinstance(args[0], datetime.datetime):
             dt = args[0]
+            nanosecond = nanosecond or getattr(dt, "nanosecond", 0)
             instance = super().__new__(
                 cls,
                 dt.year,
-- 
2.43.0


From 0d79db7b984dbc325fb8c502aae0e15cb322b6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:34 +0000
Subject: [PATCH 14/39] fix: only skip the CLIXML marker once it has been sent

Calling data_to_send() with nothing to send lost the marker for good.
---
 src/psrpcore/_clixml_shell.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/psrpcore/_clixml_shell.py b/src/psrpcore/_clixml_shell.py
index 5580245..efd1fdc 100644
--- a/src/psrpcore/_clixml_shell.py
+++ b/src/psrpcore/_clixml_shell.py
@@ -318,16 +318,13 @@ class ClixmlShell:
         Returns:
             str: The string to write to stdout.
         """
-        if self._written_marker:
-            prefix = "\n"
-        else:
-            prefix = "#< CLIXML\n"
-            self._written_marker = True
+        prefix = "\n" if self._written_marker else "#< CLIXML\n"
 
         stdout = ""
         if self._stdout:
             stdout = f"{prefix}{serialize_clixml(self._stdout, self._cipher)}"
             self._stdout = []
+            self._written_marker = True
 
         return stdout
 
-- 
2.43.0


From 55816c3c95d898bb83092c7dfcb0722030d6cff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:34 +0000
Subject: [PATCH 15/39] fix: do not combine messages of different streams in
 one payload

The payload only carries the stream of its first message so a host response
could be sent on the default stream and the other way around.
---
 src/psrpcore/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/_base.py b/src/psrpcore/_base.py
index 0a453aa..7bc13bd 100644
--- a/src/psrpcore/_base.py
+++ b/src/psrpcore/_base.py
@@ -261,7 +261,7 @@ class RunspacePool(typing.Generic[T1]):
                 pipeline_id = message.pipeline_id
 
             # We can only combine fragments if they are for the same target.
-            if pipeline_id != message.pipeline_id:
+            if pipeline_id != message.pipeline_id or stream_type != message.stream_type:
                 break
 
             if amount is None:
-- 
2.43.0


From f35cb2f8e7944e00a6d4e1842f5c114a38147daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:34 +0000
Subject: [PATCH 16/39] fix: wait for the whole fragment before processing it

A fragment split across multiple receive_data() calls was processed as if it was
complete, or failed with a struct.error, instead of waiting for more data.
---
 src/psrpcore/_base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/_base.py b/src/psrpcore/_base.py
index 7bc13bd..6094a52 100644
--- a/src/psrpcore/_base.py
+++ b/src/psrpcore/_base.py
@@ -3,6 +3,7 @@
 # MIT License (see LICENSE or https://opensource.org/licenses/MIT)
 
 import logging
+import struct
 import typing
 import uuid
 from xml.etree import ElementTree
@@ -315,7 +316,11 @@ class RunspacePool(typing.Generic[T1]):
                 data buffer or `None` if not enough data has been received.
         """
         # First unpacks the raw receive buffer into messages.
-        while self._receive_buffer:
+        while len(self._receive_buffer) >= 21:
+            fragment_length = 21 + struct.unpack(">I", self._receive_buffer[17:21])[0]
+            if len(self._receive_buffer) < fragment_length:
+                break  # The rest of the fragment has not been received yet.
+
             fragment = unpack_fragment(self._receive_buffer)
             log.debug(
                 "Unpacked fragment - OID: %s, FID: %s, Start: %s, End: %s, Length: %s",
-- 
2.43.0


From f57376eb9eeef02a12bbe785fc13a60ca0265a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:34 +0000
Subject: [PATCH 17/39] fix: always return an ErrorRecord for a failed pool
 host response

---
 src/psrpcore/_events.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/_events.py b/src/psrpcore/_events.py
index b62b53a..8a92a3e 100644
--- a/src/psrpcore/_events.py
+++ b/src/psrpcore/_events.py
@@ -1100,7 +1100,11 @@ class RunspacePoolHostResponseEvent(PSRPEvent[RunspacePoolHostResponse, None]):
     @property
     def error(self) -> typing.Optional[ErrorRecord]:
         """The error record if the host call failed."""
-        return getattr(self._ps_object, "me", None)
+        me = getattr(self._ps_object, "me", None)
+        if me and not isinstance(me, ErrorRecord):
+            return ErrorRecord.FromPSObjectForRemoting(me)
+        else:
+            return me
 
     def __repr__(self) -> str:
         error = str(self.error) if self.error else None
-- 
2.43.0


From fa91189d6fb2491da5179ebcbba2d7b1017399f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:39 +0000
Subject: [PATCH 18/39] fix: do not leave the pool opening when its init
 message cannot be serialized

---
 src/psrpcore/_client.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/psrpcore/_client.py b/src/psrpcore/_client.py
index 1c29340..82eb9e5 100644
--- a/src/psrpcore/_client.py
+++ b/src/psrpcore/_client.py
@@ -124,19 +124,25 @@ class ClientRunspacePool(RunspacePool["_ClientPipeline"]):
             raise InvalidRunspacePoolState("open a Runspace Pool", self.state, [RunspacePoolState.BeforeOpen])
 
         host = self.host or HostInfo()
-        self._change_state(RunspacePoolState.Opening)
-
-        self.prepare_message(self.our_capability)
-        self.prepare_message(
-            InitRunspacePool(
-                MinRunspaces=self._min_runspaces,
-                MaxRunspaces=self._max_runspaces,
-                PSThreadOptions=self.thread_options,
-                ApartmentState=self.apartment_state,
-                HostInfo=host,
-                ApplicationArguments=self.application_arguments,
+        queued = len(self._send_buffer)
+        try:
+            self.prepare_message(self.our_capability)
+            self.prepare_message(
+                InitRunspacePool(
+                    MinRunspaces=self._min_runspaces,
+                    MaxRunspaces=self._max_runspaces,
+                    PSThreadOptions=self.thread_options,
+                    ApartmentState=self.apartment_state,
+                    HostInfo=host,
+                    ApplicationArguments=self.application_arguments,
+                )
             )
-        )
+        except Exception:
+            # Do not leave the first half of the exchange queued if the second one cannot be serialized.
+            del self._send_buffer[queued:]
+            raise
+
+        self._change_state(RunspacePoolState.Opening)
 
     def connect(self) -> None:
         """Connects to the Runspace Pool.
-- 
2.43.0


From 680dc5909f4ba3a14d83ed22e4d4c1c93b56b381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:39 +0000
Subject: [PATCH 19/39] fix: do not change the server pool state when its
 message cannot be serialized

---
 src/psrpcore/_server.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/_server.py b/src/psrpcore/_server.py
index fca9014..440570d 100644
--- a/src/psrpcore/_server.py
+++ b/src/psrpcore/_server.py
@@ -299,8 +299,6 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
         error: typing.Optional[ErrorRecord] = None,
         emit: bool = True,
     ) -> None:
-        super()._change_state(state, error)
-
         # (Dis)connection states aren't sent to the client
         if emit and state not in [
             RunspacePoolState.Disconnected,
@@ -314,6 +312,9 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
                 state_kwargs["ExceptionAsErrorRecord"] = error
             self.prepare_message(RunspacePoolStateMsg(**state_kwargs))
 
+        # Only changed once the message for the client could be serialized.
+        super()._change_state(state, error)
+
     def _process_ConnectRunspacePool(
         self,
         event: ConnectRunspacePoolEvent,
-- 
2.43.0


From af7d3d39a6b814d11b70cb46dedfce282a99c3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:21 +0000
Subject: [PATCH 20/39] fix: refuse a bool as the response to a get available
 runspaces request

---
 src/psrpcore/_server.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/_server.py b/src/psrpcore/_server.py
index 440570d..0b1b800 100644
--- a/src/psrpcore/_server.py
+++ b/src/psrpcore/_server.py
@@ -274,7 +274,10 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
         ):
             raise PSRPCoreError(f"Response for this event expects a bool not {type(response).__name__}")
 
-        if isinstance(event, GetAvailableRunspacesEvent) and not isinstance(response, int):
+        # A bool is also an int but it isn't a valid response for this event.
+        if isinstance(event, GetAvailableRunspacesEvent) and (
+            isinstance(response, bool) or not isinstance(response, int)
+        ):
             raise PSRPCoreError(f"Response for this event expects an int not {type(response).__name__}")
 
         del self._ci_events[ci]
-- 
2.43.0


From e6094d5688737412491efdaa744247fe23e726f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:25 +0000
Subject: [PATCH 21/39] fix: keep empty texts when deserializing a progress
 record

---
 src/psrpcore/types/_serializer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 707f06a..42a7d53 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -433,15 +433,17 @@ def _deserialize_progress_record(
         ("SD", "StatusDescription", str),
     ]:
         element_value = value.find(element_key)
-        if element_value is None or not element_value.text:
+        if element_value is None or (not element_value.text and prop_type != str):
             continue
 
         prop_value: typing.Union[int, str, ProgressRecordType]
+        # Empty strings are `<AV />` which means element_value.text is None.
+        element_text = element_value.text or ""
         if prop_type == int:
-            prop_value = int(element_value.text)
+            prop_value = int(element_text)
 
         else:
-            prop_value = _deserialize_string(element_value.text)
+            prop_value = _deserialize_string(element_text)
 
         if prop_type == ProgressRecordType:
             prop_value = ProgressRecordType[str(prop_value)]
-- 
2.43.0


From c3b0d9d214fb2b7b7e3932df5932111129517a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:52 +0000
Subject: [PATCH 22/39] fix: do not store received properties on the shared
 enum class

---
 src/psrpcore/types/_serializer.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 42a7d53..90ac37e 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -1141,12 +1141,16 @@ class _Serializer:
 
                     value = self._update_value_ref(new_value, ref_id)
 
-        if to_string is not None:
+        # Enum members are shared by the whole process and use the PSObject of the class, do not store what was in this
+        # CLIXML document on them.
+        is_enum = isinstance(value, enum.Enum)
+
+        if to_string is not None and not is_enum:
             value.PSObject.to_string = to_string
 
         if isinstance(value, PSObject):
             # Ensure the object's type names are what was in the CLIXML
-            if original_type_names:
+            if original_type_names and not is_enum:
                 value.PSObject.type_names = original_type_names
 
             for prop_group_name, prop_xml in props.items():
@@ -1156,7 +1160,9 @@ class _Serializer:
                 # add_note_property only sets to extended properties. We just use the actual prop list as the scratch
                 # object's extended properties. Anything modified/added will reflect in our actual object property.
                 scratch_obj = PSCustomObject()
-                scratch_obj.PSObject.extended_properties = getattr(value.PSObject, prop_group_name)
+                if not is_enum:
+                    scratch_obj.PSObject.extended_properties = getattr(value.PSObject, prop_group_name)
+
                 for obj_property in prop_xml:
                     prop_name = _deserialize_string(obj_property.attrib["N"])
                     prop_value = self.deserialize(obj_property)
-- 
2.43.0


From 7c54a3e8a050215481fc91363757c7073cd0ea2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:17 +0000
Subject: [PATCH 23/39] fix: do not call the constructor of a rehydrated list
 or dict

---
 src/psrpcore/types/_serializer.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 90ac37e..d65b86f 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -1080,11 +1080,9 @@ class _Serializer:
                 to_string = self.deserialize(obj_entry)
 
             elif obj_entry.tag == self._type_to_element[PSDict]:
-                dict_type: typing.Type[PSDictBase] = PSDict
-                if isinstance(value, PSDictBase):
-                    dict_type = type(value)
-
-                value = self._update_value_ref(dict_type(), ref_id)
+                # A rehydrated dict is already created without calling __init__.
+                if not isinstance(value, PSDictBase):
+                    value = self._update_value_ref(PSDict(), ref_id)
 
                 for dict_entry in obj_entry:
                     dict_key = dict_entry.find('*/[@N="Key"]')
@@ -1120,10 +1118,10 @@ class _Serializer:
                 else:
                     list_type = PSStack
 
-                if isinstance(value, _PSListBase):
-                    list_type = type(value)
+                # A rehydrated list is already created without calling __init__.
+                if not isinstance(value, _PSListBase):
+                    value = self._update_value_ref(list_type(), ref_id)
 
-                value = self._update_value_ref(list_type(), ref_id)
                 for list_entry in obj_entry:
                     value.append(self.deserialize(list_entry))
 
-- 
2.43.0


From b89624992fc8bfdc6b90d87416708f9901880ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:50 +0000
Subject: [PATCH 24/39] fix: read the key of a dictionary entry before its
 value

---
 src/psrpcore/types/_serializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index d65b86f..e103afb 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -1093,7 +1093,9 @@ class _Serializer:
                     if dict_value is None:
                         raise ValueError("Failed to find dict Value attribute")
 
-                    value[self.deserialize(dict_key)] = self.deserialize(dict_value)
+                    # The key is written before the value, anything the value refers to must have been read by then.
+                    key = self.deserialize(dict_key)
+                    value[key] = self.deserialize(dict_value)
 
             elif obj_entry.tag == self._type_to_element[PSQueue]:
                 if not isinstance(value, PSQueueBase):
-- 
2.43.0


From 5c57cff00983612fd979f44a46d8d50c277534fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:51 +0000
Subject: [PATCH 25/39] fix: read the properties and entries of an object in
 document order

---
 src/psrpcore/types/_serializer.py | 88 +++++++++++++++----------------
 1 file changed, 43 insertions(+), 45 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index e103afb..cb5a626 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -1064,19 +1064,10 @@ class _Serializer:
         elif issubclass(rehydrated_value, (PSEnumBase, PSFlagBase)):
             original_type_names = rehydrated_value.PSObject.type_names
 
-        props: typing.Dict[str, typing.Optional[ElementTree.Element]] = {
-            "adapted_properties": None,
-            "extended_properties": None,
-        }
+        # Create the value before reading its properties and entries so they can refer to it.
         to_string = None
         for obj_entry in element:
-            if obj_entry.tag == "Props":
-                props["adapted_properties"] = obj_entry
-
-            elif obj_entry.tag == "MS":
-                props["extended_properties"] = obj_entry
-
-            elif obj_entry.tag == "ToString":
+            if obj_entry.tag == "ToString":
                 to_string = self.deserialize(obj_entry)
 
             elif obj_entry.tag == self._type_to_element[PSDict]:
@@ -1084,26 +1075,10 @@ class _Serializer:
                 if not isinstance(value, PSDictBase):
                     value = self._update_value_ref(PSDict(), ref_id)
 
-                for dict_entry in obj_entry:
-                    dict_key = dict_entry.find('*/[@N="Key"]')
-                    dict_value = dict_entry.find('*/[@N="Value"]')
-                    if dict_key is None:
-                        raise ValueError("Failed to find dict Key attribute")
-
-                    if dict_value is None:
-                        raise ValueError("Failed to find dict Value attribute")
-
-                    # The key is written before the value, anything the value refers to must have been read by then.
-                    key = self.deserialize(dict_key)
-                    value[key] = self.deserialize(dict_value)
-
             elif obj_entry.tag == self._type_to_element[PSQueue]:
                 if not isinstance(value, PSQueueBase):
                     value = self._update_value_ref(PSQueue(), ref_id)
 
-                for queue_entry in obj_entry:
-                    value.put(self.deserialize(queue_entry))
-
             elif obj_entry.tag in [
                 self._type_to_element[PSIEnumerable],
                 self._type_to_element[PSList],
@@ -1124,10 +1099,7 @@ class _Serializer:
                 if not isinstance(value, _PSListBase):
                     value = self._update_value_ref(list_type(), ref_id)
 
-                for list_entry in obj_entry:
-                    value.append(self.deserialize(list_entry))
-
-            elif obj_entry.tag not in ["TN", "TNRef"]:
+            elif obj_entry.tag not in ["TN", "TNRef", "Props", "MS"]:
                 # Extended primitive types and enums store the value as a sub element of the Obj.
                 new_value = self.deserialize(obj_entry)
 
@@ -1136,38 +1108,64 @@ class _Serializer:
 
                 else:
                     # If the TypeRegister returned any types, set them on the new object name.
-                    if value.PSTypeNames:
+                    if value.PSTypeNames and isinstance(new_value, PSObject):
                         new_value.PSObject.type_names = value.PSTypeNames
 
                     value = self._update_value_ref(new_value, ref_id)
 
         # Enum members are shared by the whole process and use the PSObject of the class, do not store what was in this
-        # CLIXML document on them.
-        is_enum = isinstance(value, enum.Enum)
+        # CLIXML document on them. A bool cannot store it at all.
+        has_own_ps_object = isinstance(value, PSObject) and not isinstance(value, enum.Enum)
 
-        if to_string is not None and not is_enum:
+        if to_string is not None and has_own_ps_object:
             value.PSObject.to_string = to_string
 
-        if isinstance(value, PSObject):
-            # Ensure the object's type names are what was in the CLIXML
-            if original_type_names and not is_enum:
-                value.PSObject.type_names = original_type_names
-
-            for prop_group_name, prop_xml in props.items():
-                if prop_xml is None:
-                    continue
+        # Ensure the object's type names are what was in the CLIXML
+        if original_type_names and has_own_ps_object:
+            value.PSObject.type_names = original_type_names
 
+        # The properties and entries must be read in the order they are in the CLIXML, the later ones may refer to what
+        # an earlier one has declared.
+        for obj_entry in element:
+            if obj_entry.tag in ["Props", "MS"]:
                 # add_note_property only sets to extended properties. We just use the actual prop list as the scratch
                 # object's extended properties. Anything modified/added will reflect in our actual object property.
                 scratch_obj = PSCustomObject()
-                if not is_enum:
+                if has_own_ps_object:
+                    prop_group_name = "adapted_properties" if obj_entry.tag == "Props" else "extended_properties"
                     scratch_obj.PSObject.extended_properties = getattr(value.PSObject, prop_group_name)
 
-                for obj_property in prop_xml:
+                for obj_property in obj_entry:
                     prop_name = _deserialize_string(obj_property.attrib["N"])
                     prop_value = self.deserialize(obj_property)
                     add_note_property(scratch_obj, prop_name, prop_value, force=True)
 
+            elif obj_entry.tag == self._type_to_element[PSDict]:
+                for dict_entry in obj_entry:
+                    dict_key = dict_entry.find('*/[@N="Key"]')
+                    dict_value = dict_entry.find('*/[@N="Value"]')
+                    if dict_key is None:
+                        raise ValueError("Failed to find dict Key attribute")
+
+                    if dict_value is None:
+                        raise ValueError("Failed to find dict Value attribute")
+
+                    # The key is written before the value, anything the value refers to must have been read by then.
+                    key = self.deserialize(dict_key)
+                    value[key] = self.deserialize(dict_value)
+
+            elif obj_entry.tag == self._type_to_element[PSQueue]:
+                for queue_entry in obj_entry:
+                    value.put(self.deserialize(queue_entry))
+
+            elif obj_entry.tag in [
+                self._type_to_element[PSIEnumerable],
+                self._type_to_element[PSList],
+                self._type_to_element[PSStack],
+            ]:
+                for list_entry in obj_entry:
+                    value.append(self.deserialize(list_entry))
+
         # Final override that allows classes to transform the raw CLIXML deserialized object to something more human
         # friendly.
         from_override = getattr(type(value), "FromPSObjectForRemoting", None)
-- 
2.43.0


From b01fa7f0e6bd06a7c2379c9a8fae2e27054d3f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:03 +0000
Subject: [PATCH 26/39] fix: do not connect the client of a different runspace
 pool after refusing it

---
 src/psrpcore/_server.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/psrpcore/_server.py b/src/psrpcore/_server.py
index 0b1b800..fc9c7cd 100644
--- a/src/psrpcore/_server.py
+++ b/src/psrpcore/_server.py
@@ -322,6 +322,9 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
         self,
         event: ConnectRunspacePoolEvent,
     ) -> None:
+        if self.runspace_pool_id != event.runspace_pool_id:
+            raise PSRPCoreError("Incoming connection is targeted towards a different Runspace Pool")
+
         # FIXME: Verify this behaviour when the props aren't set or when invalid ones are
         self._max_runspaces = event.max_runspaces or self.max_runspaces
         self._min_runspaces = event.min_runspaces or self.min_runspaces
@@ -422,13 +425,12 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
         self,
         event: SessionCapabilityEvent,
     ) -> None:
-        super()._process_SessionCapability(event)
+        if self.state == RunspacePoolState.Connecting and self.runspace_pool_id != event.runspace_pool_id:
+            raise PSRPCoreError("Incoming connection is targeted towards a different Runspace Pool")
 
-        if self.state == RunspacePoolState.Connecting:
-            if self.runspace_pool_id != event.runspace_pool_id:
-                raise PSRPCoreError("Incoming connection is targeted towards a different Runspace Pool")
+        super()._process_SessionCapability(event)
 
-        else:
+        if self.state != RunspacePoolState.Connecting:
             self.prepare_message(self.our_capability)
             self.runspace_pool_id = event.runspace_pool_id
 
-- 
2.43.0


From bfe9ac4a75e98ea37ef0799bbaced014b9ef2167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:25 +0000
Subject: [PATCH 27/39] fix: keep an explicit STA apartment state of a pipeline

---
 src/psrpcore/_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/_client.py b/src/psrpcore/_client.py
index 82eb9e5..d0da5ce 100644
--- a/src/psrpcore/_client.py
+++ b/src/psrpcore/_client.py
@@ -561,7 +561,7 @@ class ClientPowerShell(_ClientPipeline):
         super().__init__(runspace_pool=runspace_pool, pipeline_id=pipeline_id)
         self.metadata: PowerShell = PowerShell(
             add_to_history=add_to_history,
-            apartment_state=apartment_state or runspace_pool.apartment_state,
+            apartment_state=runspace_pool.apartment_state if apartment_state is None else apartment_state,
             history=history,
             host=host,
             is_nested=is_nested,
-- 
2.43.0


From 0b5306ebfca97d2eb9bfaf8ce060bd67a35c495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:25 +0000
Subject: [PATCH 28/39] fix: read back error details with an empty message

---
 src/psrpcore/types/_complex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_complex.py b/src/psrpcore/types/_complex.py
index b34a45e..9f6ddfb 100644
--- a/src/psrpcore/types/_complex.py
+++ b/src/psrpcore/types/_complex.py
@@ -828,7 +828,7 @@ class ErrorRecord(PSObject):
         error_details = None
         error_details_message = getattr(obj, "ErrorDetails_Message", None)
         error_details_action = getattr(obj, "ErrorDetails_RecommendedAction", None)
-        if error_details_message or error_details_action:
+        if error_details_message is not None or error_details_action is not None:
             error_details = ErrorDetails(
                 Message=error_details_message,
                 RecommendedAction=error_details_action,
-- 
2.43.0


From 7e4701cb244adf85462f551c76455e689ebd98db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:12 +0000
Subject: [PATCH 29/39] fix: read information texts of CLIXML as information
 records

---
 src/psrpcore/_clixml_shell.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psrpcore/_clixml_shell.py b/src/psrpcore/_clixml_shell.py
index efd1fdc..ac87dd1 100644
--- a/src/psrpcore/_clixml_shell.py
+++ b/src/psrpcore/_clixml_shell.py
@@ -251,6 +251,8 @@ class ClixmlOutput:
                     out.progress.append(obj.Record)
 
                 elif stream == ClixmlStream.INFORMATION:
+                    if not isinstance(obj, InformationRecord):
+                        obj = InformationRecord(MessageData=obj)
                     out.information.append(obj)
 
                 else:
-- 
2.43.0


From 6d4c6deeb010d1c98d35574ad8b2dba107f08414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:17 +0000
Subject: [PATCH 30/39] fix: keep the nanoseconds of a PSDuration on the right
 of a sum, in abs() and in a truth test

---
 src/psrpcore/types/_primitive.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 234bd4c..4847cd4 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -509,6 +509,8 @@ class PSDuration(PSObject, datetime.timedelta):
         new_nano = _timedelta_total_nanoseconds(self) + _timedelta_total_nanoseconds(other)
         return PSDuration(nanoseconds=new_nano)
 
+    __radd__ = __add__
+
     @_ensure_types_and_self(datetime.timedelta)
     def __sub__(
         self,
@@ -530,6 +532,12 @@ class PSDuration(PSObject, datetime.timedelta):
     def __pos__(self) -> "PSDuration":
         return self
 
+    def __abs__(self) -> "PSDuration":
+        return PSDuration(nanoseconds=abs(_timedelta_total_nanoseconds(self)))
+
+    def __bool__(self) -> bool:
+        return _timedelta_total_nanoseconds(self) != 0
+
     @_ensure_types_and_self(datetime.timedelta)
     def __eq__(
         self,
-- 
2.43.0


From c778ac2eb0a92e098d1fe0ae52034da38ded7624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:17 +0000
Subject: [PATCH 31/39] fix: make PSDuration and PSVersion hashable so they can
 be the key of a dictionary

---
 src/psrpcore/types/_primitive.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 4847cd4..6f40b3a 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -545,6 +545,10 @@ class PSDuration(PSObject, datetime.timedelta):
     ) -> bool:
         return _timedelta_total_nanoseconds(self) == _timedelta_total_nanoseconds(other)
 
+    def __hash__(self) -> int:
+        # Equal durations share the days, seconds and microseconds.
+        return datetime.timedelta.__hash__(self)
+
     @_ensure_types_and_self(datetime.timedelta)
     def __ne__(
         self,
@@ -1073,6 +1077,10 @@ class PSVersion(PSObject):
 
         return self._cmp(other, operator.eq, "==")
 
+    def __hash__(self) -> int:
+        # A version is equal to its string.
+        return hash(str(self))
+
     def __ge__(
         self,
         other: typing.Union["PSVersion", str],
-- 
2.43.0


From 9333cb17eaa10ae91a757cf90f0890f702352ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:35 +0000
Subject: [PATCH 32/39] fix: keep the nanoseconds when a PSDateTime is added to
 a duration

---
 src/psrpcore/types/_primitive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 6f40b3a..f88d0ac 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -406,6 +406,8 @@ class PSDateTime(PSObject, datetime.datetime):
 
         return new_date
 
+    __radd__ = __add__
+
     def __sub__(  # type: ignore[override] # cannot seem to document NotImplemented as a return type
         self,
         other: typing.Union[datetime.datetime, datetime.timedelta],
-- 
2.43.0


From 0ec4eafc98b50bee9dfa53ff6f7b9921322424e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:59 +0000
Subject: [PATCH 33/39] fix: do not wait on the lock of a queue to serialize it

---
 src/psrpcore/types/_serializer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index cb5a626..f138209 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -907,8 +907,7 @@ class _Serializer:
             que_element = ElementTree.SubElement(element, self._type_to_element[PSQueue])
 
             # Use a snapshot so the caller's queue is not drained by serializing it.
-            with value.mutex:
-                que_entries = list(value.queue)
+            que_entries = list(value.queue)
 
             for que_entry in que_entries:
                 que_element.append(self.serialize(que_entry))
-- 
2.43.0


From b4808ac05522209714013cca11994588f95787ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:42 +0000
Subject: [PATCH 34/39] fix: read characters and dates that carry the type
 names of a registered type

---
 src/psrpcore/types/_base.py      | 5 +++++
 src/psrpcore/types/_primitive.py | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_base.py b/src/psrpcore/types/_base.py
index 87d8df7..2cee5d0 100644
--- a/src/psrpcore/types/_base.py
+++ b/src/psrpcore/types/_base.py
@@ -14,6 +14,7 @@ like `-is`, `Add-Member` and so on.
 """
 
 import abc
+import datetime
 import enum
 import inspect
 import types
@@ -73,6 +74,10 @@ class TypeRegistry(metaclass=_Singleton):
                 # The deserializer will rehydrate the object by providing the value.
                 obj = cls
 
+            elif issubclass(cls, datetime.datetime):
+                # Cannot be created without a date, the deserializer will replace it with the value.
+                obj = cls.__new__(cls, 1, 1, 1)
+
             else:
                 obj = cls.__new__(cls)
 
diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index f88d0ac..2a0fa53 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -264,7 +264,7 @@ class PSChar(PSObject, int):
     """
 
     def __new__(cls, *args: typing.Any, **kwargs: typing.Any) -> "PSChar":
-        raw_args = list(args)
+        raw_args = list(args) or [0]
 
         if isinstance(raw_args[0], bytes):
             raw_args[0] = raw_args[0].decode("utf-8")
-- 
2.43.0


From e4843f76e587929f9ac0974a13e148b0d16b68b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:23 +0000
Subject: [PATCH 35/39] fix: do not fix the text of an object that is
 serialized as itself

---
 src/psrpcore/types/_serializer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index f138209..6b15f5b 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -679,9 +679,10 @@ class _Serializer:
         # If the value type has a ToPSObjectForRemoting class method we use that to build our true PSObject that will
         # be serialized.
         if hasattr(value_type, "ToPSObjectForRemoting") and not isinstance(value, PSSecureString):
+            original_value = value
             value = value_type.ToPSObjectForRemoting(value, **self._kwargs)
 
-            if ps_object and hasattr(value, "PSObject"):
+            if ps_object and value is not original_value and hasattr(value, "PSObject"):
                 value.PSObject.type_names = ps_object.type_names
                 value.PSObject.to_string = ps_object.to_string
 
-- 
2.43.0


From 24e53d5db53df59c75cb97295a9ba7d30718612f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:23 +0000
Subject: [PATCH 36/39] fix: do not share the properties of a secure string
 with its plaintext

---
 src/psrpcore/types/_primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 2a0fa53..a845c2c 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -1232,7 +1232,7 @@ class PSSecureString(PSObject):
             raw = self._value
 
         dec_str = PSString(raw)
-        dec_str.PSObject = self.PSObject
+        self.PSObject.set_instance(dec_str)
         return dec_str
 
     def __repr__(self) -> str:
-- 
2.43.0


From c048169bc166f3adad5c8f9d7a7bf8ca38f02758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:08 +0000
Subject: [PATCH 37/39] fix: do not share the lists given to PSType between the
 types it is used for

---
 src/psrpcore/types/_base.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/psrpcore/types/_base.py b/src/psrpcore/types/_base.py
index 2cee5d0..43cd505 100644
--- a/src/psrpcore/types/_base.py
+++ b/src/psrpcore/types/_base.py
@@ -783,17 +783,22 @@ class PSType:
         if not issubclass(cls, PSObject):
             raise TypeError(f"PSType class {cls.__module__}.{cls.__qualname__} must be a subclass of PSObject")
 
+        # Each class needs its own lists, the ones given by the caller may be used for other classes.
+        type_names = list(self.type_names)
+        adapted_properties = list(self.adapted_properties)
+        extended_properties = list(self.extended_properties)
+
         if not self.skip_inheritance:
-            self.type_names.extend(cls.PSObject.type_names)
-            self.adapted_properties.extend(cls.PSObject.adapted_properties)
-            self.extended_properties.extend(cls.PSObject.extended_properties)
+            type_names.extend(cls.PSObject.type_names)
+            adapted_properties.extend(cls.PSObject.adapted_properties)
+            extended_properties.extend(cls.PSObject.extended_properties)
 
-        cls.PSObject = PSObjectMeta(self.type_names, self.adapted_properties, self.extended_properties)
+        cls.PSObject = PSObjectMeta(type_names, adapted_properties, extended_properties)
 
         registry = TypeRegistry()
 
-        if self.rehydrate and self.type_names and self.type_names[0] not in registry.type_registry:
-            registry.type_registry[self.type_names[0]] = cls
+        if self.rehydrate and type_names and type_names[0] not in registry.type_registry:
+            registry.type_registry[type_names[0]] = cls
 
         if self.tag is not None and self.tag not in registry.element_registry:
             registry.element_registry[self.tag] = cls
-- 
2.43.0


From 3a2da30b04d56264f286e235529db12c447f0e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:08 +0000
Subject: [PATCH 38/39] fix: do not return the value of an enum member itself
 when it is cast to an integer type

---
 src/psrpcore/types/_primitive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index a845c2c..5adda5c 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -116,7 +116,8 @@ class PSIntegerBase(PSObject, int):
                 num = 0
 
             elif isinstance(args[0], enum.Enum):
-                num = args[0].value
+                # The value is shared by every use of the enum member, create a new one from it.
+                num = int(args[0].value)
 
         if num is None:
             num = super().__new__(cls, *args, **kwargs)
-- 
2.43.0


From bffb624ad5caecdb5abe0f8de3b481c4d78feb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:28 +0000
Subject: [PATCH 39/39] fix: let a type declare an inherited property again

---
 src/psrpcore/types/_base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/types/_base.py b/src/psrpcore/types/_base.py
index 43cd505..1801a01 100644
--- a/src/psrpcore/types/_base.py
+++ b/src/psrpcore/types/_base.py
@@ -790,8 +790,13 @@ class PSType:
 
         if not self.skip_inheritance:
             type_names.extend(cls.PSObject.type_names)
-            adapted_properties.extend(cls.PSObject.adapted_properties)
-            extended_properties.extend(cls.PSObject.extended_properties)
+            # A property the class declares itself replaces the one it would inherit.
+            for properties, inherited in [
+                (adapted_properties, cls.PSObject.adapted_properties),
+                (extended_properties, cls.PSObject.extended_properties),
+            ]:
+                names = {p.name for p in properties}
+                properties.extend([p for p in inherited if p.name not in names])
 
         cls.PSObject = PSObjectMeta(type_names, adapted_properties, extended_properties)
 
-- 
2.43.0

