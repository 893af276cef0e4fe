From eaddc206a0e295d118fdd8c18e7360889b70e894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:07 +0000
Subject: [PATCH 01/18] fix: treat extra data sizes 1 to 3 as the terminal
 block

[MS-SHLLINK] 2.5: a TerminalBlock is any value below 4. A size of 1 to 3
followed by 4 more bytes used to be taken for a block and made the
constructor fail with struct.error.
---
 LnkParse3/extra_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LnkParse3/extra_data.py b/LnkParse3/extra_data.py
index 2d71d5a..8aa5f1f 100644
--- a/LnkParse3/extra_data.py
+++ b/LnkParse3/extra_data.py
@@ -35,7 +35,8 @@ class ExtraData:
                 warnings.warn(f"Error while parsing extra data: {e!r}")
                 break
 
-            if not size:
+            if size < 4:
+                # TerminalBlock
                 break
 
             data, rest = rest[:size], rest[size:]
-- 
2.43.0


From 756a5a086901730a2aef65a82f659e2e80915684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:08 +0000
Subject: [PATCH 02/18] fix: do not read target items two bytes past their
 declared size

ItemIDSize includes the size field itself, so the item ends at size(), not
at 2 + size(). The two bytes after an item leaked into its last field.
---
 LnkParse3/target/lnk_target_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/target/lnk_target_base.py b/LnkParse3/target/lnk_target_base.py
index e069341..53bfab2 100644
--- a/LnkParse3/target/lnk_target_base.py
+++ b/LnkParse3/target/lnk_target_base.py
@@ -43,7 +43,7 @@ class LnkTargetBase:
         self.text_processor = TextProcessor(cp=self.cp)
 
         start = self.SIZE_OF_TARGET_SIZE
-        end = start + self.size()
+        end = self.size()
         self._raw_target = self._raw[start:end]
 
     def get_item_shell_fs_folder(self, flags: int) -> str:
-- 
2.43.0


From 2fcde833d3d0aa255518a218114631d7bf64af13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:08 +0000
Subject: [PATCH 03/18] fix: report the declared size of unknown target items

ItemIDSize already includes the size field; it was counted twice.
---
 LnkParse3/target/unknown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/target/unknown.py b/LnkParse3/target/unknown.py
index bb6f740..8143c55 100644
--- a/LnkParse3/target/unknown.py
+++ b/LnkParse3/target/unknown.py
@@ -9,5 +9,5 @@ class Unknown(LnkTargetBase):
 
     def as_item(self):
         item = super().as_item()
-        item["size"] = self.SIZE_OF_TARGET_SIZE + self.size()
+        item["size"] = self.size()
         return item
-- 
2.43.0


From a5da9048cd259a814df1767865cd35b565856cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:09 +0000
Subject: [PATCH 04/18] fix: read the Unicode common path suffix at its
 declared offset

The offset is relative to the start of LinkInfo, like all others; the first
two characters were skipped.
---
 LnkParse3/lnk_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/lnk_info.py b/LnkParse3/lnk_info.py
index 68e5b20..262c8ec 100644
--- a/LnkParse3/lnk_info.py
+++ b/LnkParse3/lnk_info.py
@@ -237,7 +237,7 @@ class LnkInfo:
         if not self.common_path_suffix_offset_unicode():
             return None
 
-        start = self.common_path_suffix_offset_unicode() + 4
+        start = self.common_path_suffix_offset_unicode()
 
         binary = self._raw[start:]
         # import pdb;pdb.set_trace()
-- 
2.43.0


From f8fadaf5944a3e880b2e472066f982e038f9f6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:09 +0000
Subject: [PATCH 05/18] fix: decode VT_I2 property values as 16-bit integers

Unpacking two bytes as a 32-bit integer always failed, which dropped the
whole property store block.
---
 LnkParse3/extra/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/extra/metadata.py b/LnkParse3/extra/metadata.py
index 9e43634..f769356 100644
--- a/LnkParse3/extra/metadata.py
+++ b/LnkParse3/extra/metadata.py
@@ -143,7 +143,7 @@ class TypedPropertyValue:
         start = 4
         if self.value_type() == PropertyType.VT_I2:
             end = 6
-            return unpack("<i", self._raw[start:end])[0]
+            return unpack("<h", self._raw[start:end])[0]
         if self.value_type() == PropertyType.VT_LPWSTR:
             unicode_string_size = unpack("<I", self._raw[start : start + 4])[0] * 2
             unicode_string = self._raw[start + 4 : start + 4 + unicode_string_size]
-- 
2.43.0


From 8c4e7c631979d5cc2c49f061fdb101e6da93c2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 06/18] fix: read the shim layer name as Unicode

[MS-SHLLINK] 2.5.8: LayerName is a Unicode string; only its first character
was reported.
---
 LnkParse3/extra/shim_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/extra/shim_layer.py b/LnkParse3/extra/shim_layer.py
index fe3d03b..43f36ca 100644
--- a/LnkParse3/extra/shim_layer.py
+++ b/LnkParse3/extra/shim_layer.py
@@ -22,7 +22,7 @@ class ShimLayer(LnkExtraBase):
     def layer_name(self):
         start = 8
         binary = self._raw[start:]
-        text = self.text_processor.read_string(binary)
+        text = self.text_processor.read_unicode_string(binary)
         return text
 
     def as_dict(self):
-- 
2.43.0


From 4d2c842d398c6814eca4532efd155a37d6f43e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 07/18] fix: treat FILETIME values as unsigned

Values from 2^63 on were reported as dates before 1601 instead of as invalid.
---
 LnkParse3/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/utils.py b/LnkParse3/utils.py
index dcc1819..31a21b9 100644
--- a/LnkParse3/utils.py
+++ b/LnkParse3/utils.py
@@ -85,7 +85,7 @@ def parse_filetime(binary):
     #   https://stackoverflow.com/questions/38878647/python-convert-filetime-to-datetime-for-dates-before-1970
     #   https://computerforensics.parsonage.co.uk/downloads/TheMeaningofLIFE.pdf
     try:
-        nanosec = unpack("<q", binary)[0]
+        nanosec = unpack("<Q", binary)[0]
 
         if nanosec == 0:
             # If the date is 0 it means that the file has been created in an
-- 
2.43.0


From 36ae3ef45d2b28e3098e204db7b2586812f3924e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:16 +0000
Subject: [PATCH 08/18] fix: skip the link info structure even when it is
 ignored

With ForceNoLinkInfo, or with neither content flag set, the structure is not
reported but it is still present in the file; the string data used to be
read from the middle of it.
---
 LnkParse3/lnk_file.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 0691810..47b0667 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -8,7 +8,9 @@ import argparse
 import datetime
 import json
 import re
+import struct
 import textwrap
+import warnings
 from subprocess import list2cmdline
 
 import yaml
@@ -78,12 +80,19 @@ class LnkFile:
 
         # Parse Link Info
         self.info = None
-        if self.has_link_info() and not self.force_no_link_info():
+        if self.has_link_info():
             info = LnkInfo(indata=self.indata[index:], cp=self.cp)
-            info_class = InfoFactory(info).info_class()
+            info_class = None
+            if not self.force_no_link_info():
+                info_class = InfoFactory(info).info_class()
             if info_class:
                 self.info = info_class(indata=self.indata[index:], cp=self.cp)
-                index += self.info.size()
+            # The structure takes its space in the file even if it is ignored.
+            try:
+                index += info.size()
+            except struct.error as e:
+                warnings.warn(f"Error while parsing link info size: {e!r}")
+                index = len(self.indata)
 
         # Parse String Data
         self.string_data = StringData(self, indata=self.indata[index:], cp=self.cp)
-- 
2.43.0


From 7e6f03d8e39f6afdf598ab8254180f8f6b39daa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:16 +0000
Subject: [PATCH 09/18] fix: do not fail on a file cut right after the header

A file whose target ID list size is cut off made the constructor raise
struct.error.
---
 LnkParse3/lnk_file.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 47b0667..fa37843 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -75,8 +75,12 @@ class LnkFile:
         # Parse ID List
         self.targets = None
         if self.has_target_id_list():
-            self.targets = LnkTargets(indata=self.indata[index:], cp=self.cp)
-            index += self.targets.size()
+            try:
+                self.targets = LnkTargets(indata=self.indata[index:], cp=self.cp)
+                index += self.targets.size()
+            except struct.error as e:
+                warnings.warn(f"Error while parsing target ID list size: {e!r}")
+                index = len(self.indata)
 
         # Parse Link Info
         self.info = None
-- 
2.43.0


From 0a18163846bd0006a3ad6b8811946b36beaccdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 10/18] fix: report what is readable of a cut off link info
 structure

Offsets pointing past the end of the data made get_json raise struct.error.
---
 LnkParse3/lnk_file.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index fa37843..f18bcb7 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -241,6 +241,17 @@ class LnkFile:
             }
 
         res["link_info"] = {}
+        try:
+            self._add_link_info(res)
+        except struct.error as e:
+            warnings.warn(f"Error while parsing link info: {e!r}")
+
+        res["data"] = self.string_data.as_dict()
+        res["extra"] = self.extras.as_dict()
+
+        return self._filter_json(res, get_all)
+
+    def _add_link_info(self, res):
         if self.info:
             res["link_info"] = {
                 "link_info_size": self.info.size(),
@@ -325,9 +336,8 @@ class LnkFile:
                 if self.info.device_name():
                     res["link_info"]["location_info"]["device_name"] = self.info.device_name()
 
-        res["data"] = self.string_data.as_dict()
-        res["extra"] = self.extras.as_dict()
-
+    @staticmethod
+    def _filter_json(res, get_all):
         if not get_all:
             res["header"].pop("header_size", None)
             res["header"].pop("reserved0", None)
-- 
2.43.0


From c1bb1f29017843cc760f0b2edd4b473abe02171d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 11/18] fix: leave out target items that are too short instead
 of failing

An item without room for its fields made get_json raise struct.error.
---
 LnkParse3/lnk_targets.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/LnkParse3/lnk_targets.py b/LnkParse3/lnk_targets.py
index 1639ba8..6a5a980 100644
--- a/LnkParse3/lnk_targets.py
+++ b/LnkParse3/lnk_targets.py
@@ -1,4 +1,5 @@
 import warnings
+from struct import error as StructError  # noqa: N812
 from struct import unpack
 
 from LnkParse3.target_factory import TargetFactory
@@ -70,15 +71,24 @@ class LnkTargets:
         rest = self._raw_targets
         while rest:
             factory = TargetFactory(indata=rest)
-            target_class = factory.target_class()
+            try:
+                target_class = factory.target_class()
+            except StructError as e:
+                warnings.warn(f"Error while parsing TargetID type: {e!r}")
+                break
 
             if not target_class:
                 # Empty or unknown target object.
                 break
 
-            target = target_class(indata=rest, cp=self.cp)
-
             size = factory.item_size()
+            try:
+                target = target_class(indata=rest, cp=self.cp)
+            except StructError as e:
+                warnings.warn(f"Error while parsing TargetID: {e!r}")
+                rest = rest[size:]
+                continue
+
             rest = rest[size:]
             yield target
 
@@ -87,8 +97,8 @@ class LnkTargets:
         for target in self:
             try:
                 res.append(target.as_item())
-            except KeyError as e:
-                msg = f"Error while parsing TargetID `{target.name}` (KeyError {e})"
+            except (KeyError, StructError) as e:
+                msg = f"Error while parsing TargetID `{target.name}` ({type(e).__name__} {e})"
                 warnings.warn(msg)
                 continue
         return res
-- 
2.43.0


From 16b504c7a334902cbe723f1b8edf2a84c998ba59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 12/18] fix: tolerate missing strings in network location items

Content flags announcing strings that the item does not contain made get_json
raise RuntimeError (StopIteration inside of a generator).
---
 LnkParse3/target/network_location.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LnkParse3/target/network_location.py b/LnkParse3/target/network_location.py
index bb46400..839cf28 100644
--- a/LnkParse3/target/network_location.py
+++ b/LnkParse3/target/network_location.py
@@ -37,11 +37,11 @@ class NetworkLocation(LnkTargetBase):
 
         self._description = None
         if self._has_description():
-            self._description = next(it)
+            self._description = next(it, None)
 
         self._comments = None
         if self._has_comments():
-            self._comments = next(it)
+            self._comments = next(it, None)
 
     def as_item(self):
         item = super().as_item()
-- 
2.43.0


From 0fbedfa5dd27337c99351c9e06d3608fbf30f9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:01 +0000
Subject: [PATCH 13/18] fix: report a packed GUID that is too short as missing

A Darwin block with a short descriptor made get_json raise IndexError.
---
 LnkParse3/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/LnkParse3/utils.py b/LnkParse3/utils.py
index 31a21b9..6020443 100644
--- a/LnkParse3/utils.py
+++ b/LnkParse3/utils.py
@@ -41,6 +41,10 @@ def parse_packed_uuid(text):
     if text is None:
         return None
 
+    if len(text) < 20:
+        warnings.warn("Invalid packed uuid: %s" % text)
+        return None
+
     # An implemetation is based on
     # https://metadataconsulting.blogspot.com/2019/12/CSharp-Convert-a-GUID-to-a-Darwin-Descriptor-and-back.html
     quad1 = _quad_to_hex(text[0:5])
-- 
2.43.0


From e4ad1cd0003b02626923f83bc1d182517d9e3286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:01 +0000
Subject: [PATCH 14/18] fix: leave cut off strings out of the shortcut target

A file which ends before its relative path or arguments made lnk_command
raise TypeError.
---
 LnkParse3/lnk_file.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index f18bcb7..6ce3089 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -176,10 +176,13 @@ class LnkFile:
 
         if self.has_relative_path():
             relative_path = self.string_data.relative_path()
-            out.append(list2cmdline([relative_path]))
+            if relative_path is not None:
+                out.append(list2cmdline([relative_path]))
 
         if self.has_arguments():
-            out.append(self.string_data.command_line_arguments())
+            arguments = self.string_data.command_line_arguments()
+            if arguments is not None:
+                out.append(arguments)
 
         return " ".join(out)
 
-- 
2.43.0


From 62b016d1d324c9344dcaa3aa08fc645a2840e2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:02 +0000
Subject: [PATCH 15/18] fix: do not report network names whose offset is zero

The bytes of the structure itself were reported as the name.
---
 LnkParse3/info/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LnkParse3/info/network.py b/LnkParse3/info/network.py
index 97975fa..52b4006 100644
--- a/LnkParse3/info/network.py
+++ b/LnkParse3/info/network.py
@@ -155,7 +155,7 @@ class Network(LnkInfo):
         return text
 
     def net_name(self):
-        if self.net_name_offset() > 20:
+        if not self.net_name_offset() or self.net_name_offset() > 20:
             return None
 
         start = self.common_network_relative_link_offset()
@@ -166,7 +166,7 @@ class Network(LnkInfo):
         return text
 
     def device_name(self):
-        if self.net_name_offset() > 20:
+        if not self.device_name_offset() or self.net_name_offset() > 20:
             return None
 
         start = self.common_network_relative_link_offset()
-- 
2.43.0


From 4d1dc37e42572cb07d3fa62bc3088ffae178bb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:31 +0000
Subject: [PATCH 16/18] fix: correct the network provider types

The values of [MS-SHLLINK] 2.3.2 were missing a digit, and those with letters
were in upper case whereas the lookup key is in lower case, so that no
documented provider type was ever recognised.
---
 LnkParse3/info/network.py | 82 ++++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 40 deletions(-)

diff --git a/LnkParse3/info/network.py b/LnkParse3/info/network.py
index 52b4006..d98cc91 100644
--- a/LnkParse3/info/network.py
+++ b/LnkParse3/info/network.py
@@ -38,47 +38,49 @@ from LnkParse3.lnk_info import LnkInfo
 
 class Network(LnkInfo):
     NETWORK_PROVIDER_TYPES = {
-        "0x1A000": "WNNC_NET_AVID",
-        "0x1B000": "WNNC_NET_DOCUSPACE",
-        "0x1C000": "WNNC_NET_MANGOSOFT",
-        "0x1D000": "WNNC_NET_SERNET",
-        "0X1E000": "WNNC_NET_RIVERFRONT1",
-        "0x1F000": "WNNC_NET_RIVERFRONT2",
+        # Not a documented value, kept for compatibility
         "0x20000": "WNNC_NET_DECORB",
-        "0x21000": "WNNC_NET_PROTSTOR",
-        "0x22000": "WNNC_NET_FJ_REDIR",
-        "0x23000": "WNNC_NET_DISTINCT",
-        "0x24000": "WNNC_NET_TWINS",
-        "0x25000": "WNNC_NET_RDR2SAMPLE",
-        "0x26000": "WNNC_NET_CSC",
-        "0x27000": "WNNC_NET_3IN1",
-        "0x29000": "WNNC_NET_EXTENDNET",
-        "0x2A000": "WNNC_NET_STAC",
-        "0x2B000": "WNNC_NET_FOXBAT",
-        "0x2C000": "WNNC_NET_YAHOO",
-        "0x2D000": "WNNC_NET_EXIFS",
-        "0x2E000": "WNNC_NET_DAV",
-        "0x2F000": "WNNC_NET_KNOWARE",
-        "0x30000": "WNNC_NET_OBJECT_DIRE",
-        "0x31000": "WNNC_NET_MASFAX",
-        "0x32000": "WNNC_NET_HOB_NFS",
-        "0x33000": "WNNC_NET_SHIVA",
-        "0x34000": "WNNC_NET_IBMAL",
-        "0x35000": "WNNC_NET_LOCK",
-        "0x36000": "WNNC_NET_TERMSRV",
-        "0x37000": "WNNC_NET_SRT",
-        "0x38000": "WNNC_NET_QUINCY",
-        "0x39000": "WNNC_NET_OPENAFS",
-        "0X3A000": "WNNC_NET_AVID1",
-        "0x3B000": "WNNC_NET_DFS",
-        "0x3C000": "WNNC_NET_KWNP",
-        "0x3D000": "WNNC_NET_ZENWORKS",
-        "0x3E000": "WNNC_NET_DRIVEONWEB",
-        "0x3F000": "WNNC_NET_VMWARE",
-        "0x40000": "WNNC_NET_RSFX",
-        "0x41000": "WNNC_NET_MFILES",
-        "0x42000": "WNNC_NET_MS_NFS",
-        "0x43000": "WNNC_NET_GOOGLE",
+        "0x1a0000": "WNNC_NET_AVID",
+        "0x1b0000": "WNNC_NET_DOCUSPACE",
+        "0x1c0000": "WNNC_NET_MANGOSOFT",
+        "0x1d0000": "WNNC_NET_SERNET",
+        "0x1e0000": "WNNC_NET_RIVERFRONT1",
+        "0x1f0000": "WNNC_NET_RIVERFRONT2",
+        "0x200000": "WNNC_NET_DECORB",
+        "0x210000": "WNNC_NET_PROTSTOR",
+        "0x220000": "WNNC_NET_FJ_REDIR",
+        "0x230000": "WNNC_NET_DISTINCT",
+        "0x240000": "WNNC_NET_TWINS",
+        "0x250000": "WNNC_NET_RDR2SAMPLE",
+        "0x260000": "WNNC_NET_CSC",
+        "0x270000": "WNNC_NET_3IN1",
+        "0x290000": "WNNC_NET_EXTENDNET",
+        "0x2a0000": "WNNC_NET_STAC",
+        "0x2b0000": "WNNC_NET_FOXBAT",
+        "0x2c0000": "WNNC_NET_YAHOO",
+        "0x2d0000": "WNNC_NET_EXIFS",
+        "0x2e0000": "WNNC_NET_DAV",
+        "0x2f0000": "WNNC_NET_KNOWARE",
+        "0x300000": "WNNC_NET_OBJECT_DIRE",
+        "0x310000": "WNNC_NET_MASFAX",
+        "0x320000": "WNNC_NET_HOB_NFS",
+        "0x330000": "WNNC_NET_SHIVA",
+        "0x340000": "WNNC_NET_IBMAL",
+        "0x350000": "WNNC_NET_LOCK",
+        "0x360000": "WNNC_NET_TERMSRV",
+        "0x370000": "WNNC_NET_SRT",
+        "0x380000": "WNNC_NET_QUINCY",
+        "0x390000": "WNNC_NET_OPENAFS",
+        "0x3a0000": "WNNC_NET_AVID1",
+        "0x3b0000": "WNNC_NET_DFS",
+        "0x3c0000": "WNNC_NET_KWNP",
+        "0x3d0000": "WNNC_NET_ZENWORKS",
+        "0x3e0000": "WNNC_NET_DRIVEONWEB",
+        "0x3f0000": "WNNC_NET_VMWARE",
+        "0x400000": "WNNC_NET_RSFX",
+        "0x410000": "WNNC_NET_MFILES",
+        "0x420000": "WNNC_NET_MS_NFS",
+        "0x430000": "WNNC_NET_GOOGLE",
     }
 
     def location(self):
-- 
2.43.0


From 003dcca68d87879ea11cdf0c96a96b5e6476a40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:39 +0000
Subject: [PATCH 17/18] fix: do not alter values containing the empty line
 placeholder

The placeholder was replaced anywhere in the readable output, including the
text of the values themselves, not only in front of the section keys.
---
 LnkParse3/lnk_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 6ce3089..4faef89 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -154,7 +154,7 @@ class LnkFile:
         res_yaml = yaml.dump(new_res_json, indent=3, sort_keys=False, width=132, allow_unicode=True)
 
         # replace palceholders for empty lines
-        res_yaml = res_yaml.replace("EMPTY_LINE_PLACEHOLDER", "\n")
+        res_yaml = re.sub("^EMPTY_LINE_PLACEHOLDER", "\n", res_yaml, flags=re.MULTILINE)
 
         print("Windows Shortcut Information:")
         print(textwrap.indent(res_yaml, "   "))
-- 
2.43.0


From a9b898c71197d38c982335cfc6c08ca755f68fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:33 +0000
Subject: [PATCH 18/18] fix: a too short item in a shell item block lost the
 whole block

---
 LnkParse3/extra/shell_item.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/LnkParse3/extra/shell_item.py b/LnkParse3/extra/shell_item.py
index 1dacea3..9a255f3 100644
--- a/LnkParse3/extra/shell_item.py
+++ b/LnkParse3/extra/shell_item.py
@@ -1,4 +1,5 @@
 import warnings
+from struct import error as StructError  # noqa: N812
 
 from LnkParse3.extra.lnk_extra_base import LnkExtraBase
 from LnkParse3.lnk_targets import TargetFactory
@@ -42,15 +43,24 @@ class ShellItem(LnkExtraBase):
         rest = self._raw[8 : self.size()]
         while rest:
             factory = TargetFactory(indata=rest)
-            target_class = factory.target_class()
+            try:
+                target_class = factory.target_class()
+            except StructError as e:
+                warnings.warn(f"Error while parsing extra TargetID type: {e!r}")
+                break
 
             if not target_class:
                 # Empty or unknown target object.
                 break
 
-            target = target_class(indata=rest, cp=self.cp)
-
             size = factory.item_size()
+            try:
+                target = target_class(indata=rest, cp=self.cp)
+            except StructError as e:
+                warnings.warn(f"Error while parsing extra TargetID: {e!r}")
+                rest = rest[size:]
+                continue
+
             rest = rest[size:]
             yield target
 
@@ -59,8 +69,8 @@ class ShellItem(LnkExtraBase):
         for target in self._id_list():
             try:
                 res.append(target.as_item())
-            except KeyError as e:
-                msg = f"Error while parsing extra TargetID `{target.name}` (KeyError {e})"
+            except (KeyError, StructError) as e:
+                msg = f"Error while parsing extra TargetID `{target.name}` ({type(e).__name__} {e})"
                 warnings.warn(msg)
                 continue
         return res
-- 
2.43.0

