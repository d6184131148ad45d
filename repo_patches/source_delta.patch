From 342249b919b5b73456c41e20af1c8bfca9e15f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:21 +0000
Subject: [PATCH 01/21] fix: honour the device level size in the size
 adjustment of unsized elements

---
 src/svdsuite/resolve/resolver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index 2fb9b48..7745c85 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -435,7 +435,8 @@ class Resolver:
         parent = parents[0]  # only dim nodes have multiple parents, but all have same size
 
         if parent.level == ElementLevel.DEVICE:
-            return 32  # default size for device
+            device = cast(SVDDevice, parent.parsed)
+            return device.size if device.size is not None else 32  # default size for device
 
         element = parent.processed
         if not isinstance(element, IPeripheral | ICluster):
-- 
2.43.0


From e698062ecc13fabb1acc68bb91bdcb7592645316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:21 +0000
Subject: [PATCH 02/21] fix: tolerate alternatePeripheral/alternateCluster
 references to elements which are not present

---
 src/svdsuite/process.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 866322c..8063e19 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -765,7 +765,8 @@ class _ValidateAndFinalize:
             # Add peripherals that have 'current' as their alternate.
             stack.extend(name for name, p in peripheral_lookup.items() if p.alternate_peripheral == current)
             # If the current peripheral has an alternate (primary), add it.
-            primary = peripheral_lookup[current].alternate_peripheral
+            alternate = peripheral_lookup.get(current)
+            primary = alternate.alternate_peripheral if alternate is not None else None
             if primary is not None:
                 stack.append(primary)
 
@@ -975,7 +976,8 @@ class _ValidateAndFinalize:
             # Add clusters that have 'current' as their alternate.
             stack.extend(name for name, p in cluster_lookup.items() if p.alternate_cluster == current)
             # If the current cluster has an alternate (primary), add it.
-            primary = cluster_lookup[current].alternate_cluster
+            alternate = cluster_lookup.get(current)
+            primary = alternate.alternate_cluster if alternate is not None else None
             if primary is not None:
                 stack.append(primary)
 
-- 
2.43.0


From e9fbfd9e847cd3148e27a086d692ef652b72c2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 03/21] fix: process derived nodes only after their base node
 is processable

---
 src/svdsuite/resolve/resolver.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index 7745c85..1c87b41 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -241,7 +241,27 @@ class Resolver:
             for child in self._resolver_graph.get_element_childrens(node):
                 stack.append(child)
 
-        return result
+        return self._remove_nodes_with_pending_dependencies(result)
+
+    def _remove_nodes_with_pending_dependencies(self, nodes: list[ElementNode]) -> list[ElementNode]:
+        # A node can only be processed in this round, if its parents and the node it is derived from are already
+        # processed or are processed in this round as well.
+        while True:
+            available = set(nodes)
+            remaining: list[ElementNode] = []
+            for node in nodes:
+                dependencies = self._resolver_graph.get_element_parents(node)
+                base_node = self._resolver_graph.get_base_element_node(node)
+                if base_node is not None:
+                    dependencies.append(base_node)
+
+                if all(dep.status == NodeStatus.PROCESSED or dep in available for dep in dependencies):
+                    remaining.append(node)
+
+            if len(remaining) == len(nodes):
+                return remaining
+
+            nodes = remaining
 
     def _resolve_placeholder(self, placeholder: PlaceholderNode):
         if not self._is_placeholder_parent_resolved(placeholder):
-- 
2.43.0


From 5cc91ffea845505e285dcd56787542f770f6ee98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 04/21] fix: keep the default enumerated value if its ignored
 value equals another value

---
 src/svdsuite/process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 8063e19..8d99676 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -1315,7 +1315,8 @@ class _EnumeratedValueValidator:
         if value.name in self._seen_names:
             warnings.warn(f"Duplicate enumerated value name found: {value.name}. Ignoring value.", ProcessWarning)
             return False
-        if value.value in self._seen_values:
+        # The value of a default is ignored, so it can't collide with the value of another enumerated value
+        if not value.is_default and value.value in self._seen_values:
             warnings.warn(
                 f"Duplicate enumerated value value found for enumerated value with name "
                 f"'{value.name}' and value '{value.value}'. "
-- 
2.43.0


From 940da7e1c6d6c21020750a43e7b0371420b9db07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 05/21] fix: serialize bitOffset, bitWidth, lsb and msb of
 derived fields independently

---
 src/svdsuite/serialize.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/svdsuite/serialize.py b/src/svdsuite/serialize.py
index afaac20..c0cffdc 100644
--- a/src/svdsuite/serialize.py
+++ b/src/svdsuite/serialize.py
@@ -316,12 +316,16 @@ class SVDFieldSerializer(XMLSerializable):
         if self.field.description is not None:
             element.append(self._append_element("description", text=self.field.description))
 
-        if self.field.bit_offset is not None and self.field.bit_width is not None:
+        if self.field.bit_offset is not None:
             element.append(self._append_element("bitOffset", text=str(self.field.bit_offset)))
+
+        if self.field.bit_width is not None:
             element.append(self._append_element("bitWidth", text=str(self.field.bit_width)))
 
-        if self.field.lsb is not None and self.field.msb is not None:
+        if self.field.lsb is not None:
             element.append(self._append_element("lsb", text=str(self.field.lsb)))
+
+        if self.field.msb is not None:
             element.append(self._append_element("msb", text=str(self.field.msb)))
 
         if self.field.bit_range is not None:
-- 
2.43.0


From 574b687e4d839b7f630094d44b2931899793cd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 06/21] fix: don't emit isDefault next to value when exporting
 a processed device

---
 src/svdsuite/util/process_parse_model_convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svdsuite/util/process_parse_model_convert.py b/src/svdsuite/util/process_parse_model_convert.py
index 04ad35f..56598f2 100644
--- a/src/svdsuite/util/process_parse_model_convert.py
+++ b/src/svdsuite/util/process_parse_model_convert.py
@@ -96,7 +96,7 @@ def process_parse_convert_enumerated_value(value: EnumeratedValue) -> SVDEnumera
         name=value.name,
         description=value.description,
         value=str(value.value),
-        is_default=False,
+        is_default=None,  # value and isDefault exclude each other
         parent=None,  # set by parent enumerated value or dim array index
     )
 
-- 
2.43.0


From 0899cc56a849efacef1dc9c2a7bbdd1dd9437597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 07/21] fix: cover all address blocks in the allocated range of
 the register map

---
 src/svdsuite/map.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/svdsuite/map.py b/src/svdsuite/map.py
index cd4f0fa..fb56e4f 100644
--- a/src/svdsuite/map.py
+++ b/src/svdsuite/map.py
@@ -78,12 +78,10 @@ class PeripheralRegisterMap:
         return registers
 
     def _get_allocated_range(self, start_address: int, address_blocks: list[AddressBlock]) -> tuple[int, int]:
-        address_blocks = sorted(address_blocks, key=lambda x: x.offset)
-
         if not address_blocks:
             raise ValueError("Address blocks are empty")
 
-        begin = start_address + address_blocks[0].offset
-        end = start_address + address_blocks[-1].offset + address_blocks[-1].size - 1
+        begin = start_address + min(block.offset for block in address_blocks)
+        end = start_address + max(block.offset + block.size for block in address_blocks) - 1
 
         return (begin, end)
-- 
2.43.0


From 2b593e7bf91666707f9805b26917245a068c36fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 08/21] fix: match the whole dimIndex against the supported
 formats

---
 src/svdsuite/process.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 8d99676..3381cbf 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -1120,25 +1120,25 @@ class _ProcessDimension:
 
         if dim_index is None:
             dim_index_list = [str(i) for i in range(dim)]
-        elif re.match(r"[0-9]+\-[0-9]+", dim_index):
+        elif re.fullmatch(r"[0-9]+\-[0-9]+", dim_index):
             start, end = dim_index.split("-")
 
             if int(start) > int(end):
                 raise ProcessException(f"dim index '{dim_index}' start value must be less than end value")
 
             dim_index_list = [str(i) for i in range(int(start), int(end) + 1)]
-        elif re.match(r"[A-Z]-[A-Z]", dim_index):
+        elif re.fullmatch(r"[A-Z]-[A-Z]", dim_index):
             start, end = dim_index.split("-")
 
             if ord(start) >= ord(end):
                 raise ProcessException(f"dim index '{dim_index}' start value must be less than end value")
 
             dim_index_list = [chr(i) for i in range(ord(start), ord(end) + 1)]
-        elif re.match(r"[_0-9a-zA-Z]+(,\s*[_0-9a-zA-Z]+)+", dim_index):
+        elif re.fullmatch(r"[_0-9a-zA-Z]+(,\s*[_0-9a-zA-Z]+)+", dim_index):
             dim_index_no_whitespace = re.sub(r"\s+", "", dim_index)
             dim_index_list = dim_index_no_whitespace.split(",")
         # Not supported by the XSD, but required to parse some vendor files
-        elif re.match(r"[_0-9a-zA-Z]+", dim_index):
+        elif re.fullmatch(r"[_0-9a-zA-Z]+", dim_index):
             dim_index_list = [dim_index]
         else:
             raise ProcessException(f"can't resolve dim index for '{dim_index}'")
-- 
2.43.0


From 63a70247414d48f8a6eb8b327f5f7a32be1d3538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 09/21] fix: report resolver errors as ProcessException

---
 src/svdsuite/process.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 3381cbf..3519eb0 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -44,6 +44,7 @@ from svdsuite.util.process_parse_model_convert import process_parse_convert_devi
 from svdsuite.model.types import AccessType, ProtectionStringType, CPUNameType, ModifiedWriteValuesType, EnumUsageType
 from svdsuite.resolve.resolver import Resolver
 from svdsuite.resolve.exception import (
+    ResolveException,
     EnumeratedValueContainerException,
     LoopException,
     CycleException,
@@ -104,6 +105,8 @@ class Process:
             raise ProcessException("A circular inheritance was detected during resolving") from e
         except UnprocessedNodesException as e:
             raise ProcessException("Some nodes were not processed during resolving") from e
+        except ResolveException as e:
+            raise ProcessException("Resolving failed") from e
 
         intermediate_device = IDevice(
             size=size,
-- 
2.43.0


From 05d3df6846f29b9463b1aecfe5934db540be341d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 10/21] fix: don't fail on duplicate elements without text

---
 src/svdsuite/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svdsuite/parse.py b/src/svdsuite/parse.py
index 82b4378..6bebd4f 100644
--- a/src/svdsuite/parse.py
+++ b/src/svdsuite/parse.py
@@ -143,7 +143,7 @@ class Parser:
         elements = parent.findall(element_name)
 
         if len(elements) > 1:
-            texts = ", ".join([x.text for x in elements])  # type: ignore[union-attr]
+            texts = ", ".join([x.text or "" for x in elements])
             lines = ", ".join([str(x.sourceline) for x in elements])
             warnings.warn(
                 f"Multiple elements '{element_name}' with texts '{texts}' found at svd file source lines '{lines}'. "
-- 
2.43.0


From ec439a19c31727fd25cb8df48b29ee09677d4a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 11/21] fix: don't fail to expand a default enumerated value if
 msb is smaller than lsb

---
 src/svdsuite/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 3519eb0..fbe2457 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -1257,7 +1257,7 @@ class _ProcessEnumeratedValueContainer:
         self, enumerated_values: list[IEnumeratedValue], default: IEnumeratedValue, lsb: int, msb: int
     ) -> list[IEnumeratedValue]:
         covered_values = {value.value for value in enumerated_values if value.value is not None}
-        all_possible_values = set(range(pow(2, msb - lsb + 1)))
+        all_possible_values: set[int] = set(range(pow(2, msb - lsb + 1))) if msb >= lsb else set()
 
         uncovered_values = all_possible_values - covered_values
 
-- 
2.43.0


From a2ed84c16e4a460e3a929f7360740730eafb176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:14 +0000
Subject: [PATCH 12/21] fix: treat only a leading # of a number as binary
 prefix

---
 src/svdsuite/parse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/svdsuite/parse.py b/src/svdsuite/parse.py
index 6bebd4f..dd6898d 100644
--- a/src/svdsuite/parse.py
+++ b/src/svdsuite/parse.py
@@ -84,8 +84,9 @@ def _to_int(value: None | str, base: int = 0) -> None | int:
     if value is None:
         return None
 
-    # transfer binary value to a string int function can handle
-    value = value.replace("#", "0b")
+    # transfer binary value to a string int function can handle (only a leading # marks a binary value)
+    if value.lstrip("+-").startswith("#"):
+        value = value.replace("#", "0b")
 
     try:
         return int(value, base)
-- 
2.43.0


From 265c99a6c7af05f47cef8a01e804e49bfe508704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:52 +0000
Subject: [PATCH 13/21] fix: match the whole bitRange instead of a prefix

---
 src/svdsuite/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index fbe2457..10dd0f3 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -441,7 +441,7 @@ class Process:
 
         if parsed_field.bit_range is not None:
             if bit_range is not None:
-                match = re.match(r"\[(\d+):(\d+)\]", bit_range)
+                match = re.fullmatch(r"\[([0-9]+):([0-9]+)\]", bit_range)
                 if match:
                     field_msb, field_lsb = map(int, match.groups())
 
-- 
2.43.0


From 5cb3959f63ef647155053532d0cc2e9870657b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:52 +0000
Subject: [PATCH 14/21] fix: refuse malformed literals of enumerated values

---
 src/svdsuite/process.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 10dd0f3..3f7e70e 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -1276,7 +1276,10 @@ class _ProcessEnumeratedValueContainer:
 
     def _convert_enumerated_value(self, input_str: str) -> list[int]:
         # transfer binary value to a string int function can handle
-        input_str = input_str.lower().replace("#", "0b")
+        input_str = input_str.lower()
+        if not re.fullmatch(r"0x[0-9a-f]+|[0-9]+|(#|0b)[01x]+", input_str):
+            raise ProcessException(f"Unrecognized format for input: '{input_str}'")
+        input_str = input_str.replace("#", "0b")
 
         try:
             if input_str.startswith("0b"):
-- 
2.43.0


From c1a9fbe20b2e3f0cbafb9244350c04954aec568f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:52 +0000
Subject: [PATCH 15/21] fix: accept a leading plus in the literals of
 enumerated values

---
 src/svdsuite/process.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 3f7e70e..3708594 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -1233,11 +1233,8 @@ class _ProcessEnumeratedValueContainer:
                 continue
 
             if value is not None and parsed_value.value:
-                substring = (
-                    parsed_value.value[2:]
-                    if parsed_value.value.lower().startswith("0x")
-                    else parsed_value.value.lower()
-                )
+                literal = parsed_value.value.lower().removeprefix("+")
+                substring = literal[2:] if literal.startswith("0x") else literal
                 if "x" in substring.lower():
                     name = f"{name}_{value}"
 
@@ -1276,7 +1273,7 @@ class _ProcessEnumeratedValueContainer:
 
     def _convert_enumerated_value(self, input_str: str) -> list[int]:
         # transfer binary value to a string int function can handle
-        input_str = input_str.lower()
+        input_str = input_str.lower().removeprefix("+")
         if not re.fullmatch(r"0x[0-9a-f]+|[0-9]+|(#|0b)[01x]+", input_str):
             raise ProcessException(f"Unrecognized format for input: '{input_str}'")
         input_str = input_str.replace("#", "0b")
-- 
2.43.0


From a21350fbe12210274401ae10579ff5c47cea27c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 16/21] fix: read the whole text of an element containing
 comments

---
 src/svdsuite/parse.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/svdsuite/parse.py b/src/svdsuite/parse.py
index dd6898d..e504021 100644
--- a/src/svdsuite/parse.py
+++ b/src/svdsuite/parse.py
@@ -157,14 +157,12 @@ class Parser:
                 raise ParserException(f"can't get element '{element_name}'")
             return None
 
-        element = elements[-1]
-        if element.text is None:
+        text_before_strip = self._get_text(elements[-1])
+        if text_before_strip is None:
             if not optional:
                 raise ParserException(f"can't get element '{element_name}'")
             return None
 
-        text_before_strip = element.text
-
         if not strip:
             return text_before_strip
 
@@ -178,6 +176,13 @@ class Parser:
 
         return text_after_strip
 
+    def _get_text(self, element: lxml.etree._Element) -> None | str:  # pyright: ignore[reportPrivateUsage]
+        # the text of an element is split by comments and processing instructions
+        texts = [element.text] + [child.tail for child in element if not isinstance(child.tag, str)]
+        present_texts = [text for text in texts if text is not None]
+
+        return "".join(present_texts) if present_texts else None
+
     @overload
     def _parse_element_attribute(
         self,
-- 
2.43.0


From 5353e029d3f6a16e0d1f7926969e699d31b0888e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:00 +0000
Subject: [PATCH 17/21] fix: refuse texts that only Python reads as a number

---
 src/svdsuite/parse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/svdsuite/parse.py b/src/svdsuite/parse.py
index e504021..8913342 100644
--- a/src/svdsuite/parse.py
+++ b/src/svdsuite/parse.py
@@ -1,3 +1,4 @@
+import re
 import warnings
 from typing import Literal, Optional, overload
 
@@ -84,6 +85,10 @@ def _to_int(value: None | str, base: int = 0) -> None | int:
     if value is None:
         return None
 
+    # int() knows more than the notations of the format (underscores, octal numbers, digits of other scripts)
+    if base == 0 and not re.fullmatch(r"[+-]?(0[xX][0-9a-fA-F]+|(0[bB]|#)[01]+|[0-9]+)", value):
+        raise NotImplementedError(f"can't parse value '{value}' in function _to_int")
+
     # transfer binary value to a string int function can handle (only a leading # marks a binary value)
     if value.lstrip("+-").startswith("#"):
         value = value.replace("#", "0b")
-- 
2.43.0


From 38d60e491f0daaa01656647d8a51d18c948bf55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:50 +0000
Subject: [PATCH 18/21] fix: write the resolver log when resolving ends,
 refused descriptions included

---
 src/svdsuite/resolve/resolver.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index 1c87b41..7cff54e 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -56,6 +56,12 @@ class Resolver:
         return self._root_node_
 
     def resolve_peripherals(self, parsed_device: SVDDevice) -> list[IPeripheral]:
+        try:
+            return self._resolve_peripherals(parsed_device)
+        finally:
+            self._logger.log_finalize()
+
+    def _resolve_peripherals(self, parsed_device: SVDDevice) -> list[IPeripheral]:
         self._initialization(parsed_device)
 
         self._logger.log_repeating_steps_start()
-- 
2.43.0


From 22f423458d9a66ad967340e5535da323c90802ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:50 +0000
Subject: [PATCH 19/21] fix: keep one base per derived element when the
 container of both is derived from

---
 src/svdsuite/resolve/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/svdsuite/resolve/graph.py b/src/svdsuite/resolve/graph.py
index b152d4c..9618189 100644
--- a/src/svdsuite/resolve/graph.py
+++ b/src/svdsuite/resolve/graph.py
@@ -254,9 +254,9 @@ class ResolverGraph:
 
         # replicate the edges
         for rx_index in rx_indices_to_replicate:
-            # replicate outgoing _EdgeType.PROCESSED and _EdgeType.UNPROCESSED edges
+            # replicate outgoing _EdgeType.PROCESSED and _EdgeType.UNPROCESSED edges, _EdgeType.DERIVE edges follow below
             for _, child_rx_index, edge_type in self._graph.out_edges(rx_index):
-                if child_rx_index not in rx_indices_to_replicate:
+                if child_rx_index not in rx_indices_to_replicate or edge_type == EdgeType.DERIVE:
                     continue
 
                 self._graph.add_edge(replica_mapping[rx_index], replica_mapping[child_rx_index], edge_type)
-- 
2.43.0


From 041804655dd123b98955b570b92103c33f7c2ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:50 +0000
Subject: [PATCH 20/21] fix: take over unresolved references when an array
 element is derived from

---
 src/svdsuite/resolve/graph.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/svdsuite/resolve/graph.py b/src/svdsuite/resolve/graph.py
index 9618189..44080e5 100644
--- a/src/svdsuite/resolve/graph.py
+++ b/src/svdsuite/resolve/graph.py
@@ -239,6 +239,18 @@ class ResolverGraph:
                 rx_indices_to_replicate.add(child_rx_index)
                 stack.append(child_rx_index)
 
+        # pending placeholders of the children of an array element are attached to the array template only
+        template_placeholders = [
+            parent_rx_index
+            for _, child_rx_index, edge_type in self._graph.out_edges(source_rx_index)
+            if edge_type != EdgeType.DERIVE
+            for parent_rx_index, _, parent_edge_type in self._graph.in_edges(child_rx_index)
+            if parent_edge_type == EdgeType.PLACEHOLDER
+            and isinstance(self._graph[parent_rx_index], PlaceholderNode)
+            and parent_rx_index not in rx_indices_to_replicate
+        ]
+        rx_indices_to_replicate.update(template_placeholders)
+
         # replicate the nodes and map the indicies
         replica_mapping: dict[int, int] = {}
         for rx_index in rx_indices_to_replicate:
@@ -271,7 +283,7 @@ class ResolverGraph:
             child_rx_index
             for _, child_rx_index, _ in self._graph.out_edges(source_rx_index)
             if child_rx_index in rx_indices_to_replicate
-        ]
+        ] + template_placeholders
 
         # attach the replicated subgraph to target_node
         target_rx_index = self._node_to_rx_index[target_node]
-- 
2.43.0


From b1f7de67841cd958f3827c371c50daaf242f4a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:14 +0000
Subject: [PATCH 21/21] fix: report index and bit ranges with too many digits
 as ProcessException

A dimIndex range or a bitRange with more digits than int() converts ended in
ValueError, and the entries of a dimIndex range were all made before their
number was compared with dim.
---
 src/svdsuite/process.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 3708594..f620dd2 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -443,7 +443,10 @@ class Process:
             if bit_range is not None:
                 match = re.fullmatch(r"\[([0-9]+):([0-9]+)\]", bit_range)
                 if match:
-                    field_msb, field_lsb = map(int, match.groups())
+                    try:
+                        field_msb, field_lsb = map(int, match.groups())
+                    except ValueError as exc:  # more digits than int() converts
+                        raise ProcessException("Invalid bit range format: too many digits") from exc
 
                     if field_msb < field_lsb:
                         warnings.warn(
@@ -1126,9 +1129,17 @@ class _ProcessDimension:
         elif re.fullmatch(r"[0-9]+\-[0-9]+", dim_index):
             start, end = dim_index.split("-")
 
+            try:
+                count = int(end) - int(start) + 1
+            except ValueError as exc:  # more digits than int() converts
+                raise ProcessException("can't resolve dim index: too many digits") from exc
+
             if int(start) > int(end):
                 raise ProcessException(f"dim index '{dim_index}' start value must be less than end value")
 
+            if count != dim:  # before a list of that many entries is made
+                raise ProcessException(f"dim index '{dim_index}' does not match the dim value '{dim}'")
+
             dim_index_list = [str(i) for i in range(int(start), int(end) + 1)]
         elif re.fullmatch(r"[A-Z]-[A-Z]", dim_index):
             start, end = dim_index.split("-")
-- 
2.43.0

