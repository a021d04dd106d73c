From 43ab9bc0754571fa6d6a75975859aa6f069d5484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:21 +0000
Subject: [PATCH 01/21] fix: check_xml_file must respect the given model type

---
 aas_test_engines/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index d1ad9c6..f482034 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -48,7 +48,7 @@ def check_xml_file(file: TextIO, version: str = _DEFAULT_VERSION, model_type: st
         data = ElementTree.fromstring(file.read())
     except ElementTree.ParseError as e:
         return AasTestResult(f"Invalid xml: {e}", Level.ERROR)
-    return check_xml_data(data, version)
+    return check_xml_data(data, version, model_type)
 
 
 TYPE_AASX_ORIGIN = "http://admin-shell.io/aasx/relationships/aasx-origin"
-- 
2.43.0


From fb7c39b4fec72f30044fbbb32c87c49b7a0d1195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:49 +0000
Subject: [PATCH 02/21] fix: numeric value types must only accept values of the
 respective xs lexical space

---
 aas_test_engines/data_types.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index 6785f9b..69e373c 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -1,26 +1,25 @@
-from decimal import Decimal, DecimalException
 from typing import Pattern, Dict, Mapping
 import re
 import base64
 from enum import Enum
 
 
+# Surrounding whitespace which is collapsed by XML schema
+_XS_WHITESPACE = " \t\n\r"
+
+
 def is_decimal(s: str) -> bool:
-    try:
-        Decimal(s)
-        return True
-    except DecimalException:
-        return False
+    return re.fullmatch(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)", s.strip(_XS_WHITESPACE)) is not None
 
 
 def _is_bounded_double(s: str, min: float, max: float) -> bool:
+    s = s.strip(_XS_WHITESPACE)
     if s in ["INF", "-INF", "NaN"]:
         return True
-    try:
-        v = float(s)
-        return v > min and v < max
-    except ValueError:
+    if re.fullmatch(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?", s) is None:
         return False
+    v = float(s)
+    return v >= min and v <= max
 
 
 def is_float(s: str) -> bool:
@@ -28,10 +27,12 @@ def is_float(s: str) -> bool:
 
 
 def is_double(s: str) -> bool:
-    return _is_bounded_double(s, -1.7976931348623158e308, 1.7976931348623158e308)
+    return _is_bounded_double(s, -1.7976931348623157e308, 1.7976931348623157e308)
 
 
 def _is_bounded_integer(s: int, min: int, max: int) -> bool:
+    if re.fullmatch(r"[+-]?[0-9]+", s.strip(_XS_WHITESPACE)) is None:
+        return False
     try:
         v = int(s)
         return v >= min and v <= max
-- 
2.43.0


From 5b58483b1f96f5ed2897110c55702589888f136c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:19 +0000
Subject: [PATCH 03/21] fix: binary value types must only accept values of the
 respective xs lexical space

---
 aas_test_engines/data_types.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index 69e373c..a8e811b 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -41,11 +41,7 @@ def _is_bounded_integer(s: int, min: int, max: int) -> bool:
 
 
 def is_hex_binary(s: str) -> bool:
-    try:
-        bytes.fromhex(s)
-        return True
-    except (KeyError, ValueError):
-        return False
+    return re.fullmatch(r"([0-9a-fA-F]{2})*", s.strip(_XS_WHITESPACE)) is not None
 
 
 def _is_leap_year(year: int) -> bool:
@@ -272,7 +268,8 @@ def is_any_uri(s: str) -> bool:
 
 def is_base64_binary(s: str) -> bool:
     try:
-        base64.b64decode(s)
+        # According to the lexical representation, a single space is allowed between two characters
+        base64.b64decode(re.sub(r"(?<=\S) (?=\S)", "", s.strip(_XS_WHITESPACE)), validate=True)
         return True
     except ValueError:
         return False
-- 
2.43.0


From 0db10e15fbca3f53d98fbff2f4d03bff76aee4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:51 +0000
Subject: [PATCH 04/21] fix: lexical checks must not accept a trailing line
 feed

---
 aas_test_engines/data_types.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index a8e811b..f37a074 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -93,7 +93,7 @@ _DATE_PREFIX_RE = re.compile(r"^(-?[0-9]+)-([0-9]{2})-([0-9]{2})")
 
 
 def is_xs_date(value: str) -> bool:
-    if _REGEX_MATCHES_XS_DATE.match(value) is None:
+    if _REGEX_MATCHES_XS_DATE.fullmatch(value) is None:
         return False
 
     match = _DATE_PREFIX_RE.match(value)
@@ -141,7 +141,7 @@ _REGEX_MATCHES_XS_DATE_TIME = _construct_matches_xs_date_time()
 
 
 def is_xs_date_time(s: str) -> bool:
-    if _REGEX_MATCHES_XS_DATE_TIME.match(s) is None:
+    if _REGEX_MATCHES_XS_DATE_TIME.fullmatch(s) is None:
         return False
 
     date, _ = s.split("T")
@@ -168,7 +168,7 @@ _REGEX_MATCHES_XS_DATE_TIME_UTC = _construct_matches_xs_date_time_utc()
 
 
 def is_xs_date_time_utc(s: str) -> bool:
-    if _REGEX_MATCHES_XS_DATE_TIME_UTC.match(s) is None:
+    if _REGEX_MATCHES_XS_DATE_TIME_UTC.fullmatch(s) is None:
         return False
 
     date, _ = s.split("T")
@@ -250,7 +250,7 @@ _REGEX_MATCHES_XS_G_MONTH_DAY = _construct_matches_xs_g_month_day()
 
 
 def is_xs_g_month_day(s: str) -> bool:
-    if _REGEX_MATCHES_XS_G_MONTH_DAY.match(s) is None:
+    if _REGEX_MATCHES_XS_G_MONTH_DAY.fullmatch(s) is None:
         return False
     month = int(s[2:4])
     day = int(s[5:7])
@@ -263,7 +263,7 @@ _REGEX_MATCHES_XS_ANY_URI = _construct_matches_xs_any_uri()
 
 
 def is_any_uri(s: str) -> bool:
-    return _REGEX_MATCHES_XS_ANY_URI.match(s) is not None
+    return _REGEX_MATCHES_XS_ANY_URI.fullmatch(s) is not None
 
 
 def is_base64_binary(s: str) -> bool:
@@ -299,7 +299,7 @@ _REGEX_MATCHES_BCP_47 = _construct_matches_bcp_47()
 
 
 def is_bcp_lang_string(s: str) -> bool:
-    return _REGEX_MATCHES_BCP_47.match(s) is not None
+    return _REGEX_MATCHES_BCP_47.fullmatch(s) is not None
 
 
 def _construct_matches_version_type() -> Pattern[str]:
@@ -311,14 +311,14 @@ _REGEX_MATCHES_VERSION_TYPE = _construct_matches_version_type()
 
 
 def is_version_string(text: str) -> bool:
-    return _REGEX_MATCHES_VERSION_TYPE.match(text) is not None
+    return _REGEX_MATCHES_VERSION_TYPE.fullmatch(text) is not None
 
 
 _REGEX_IS_BCP_47_FOR_ENGLISH = re.compile("^(en|EN)(-.*)?$")
 
 
 def is_bcp_47_for_english(text: str) -> bool:
-    return _REGEX_IS_BCP_47_FOR_ENGLISH.match(text) is not None
+    return _REGEX_IS_BCP_47_FOR_ENGLISH.fullmatch(text) is not None
 
 
 class DataTypeDefXsd(Enum):
-- 
2.43.0


From 6044c215a386932443ff9d1196f0aaa0e9d447ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:13 +0000
Subject: [PATCH 05/21] fix: xs:base64Binary must not accept excess padding

---
 aas_test_engines/data_types.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index f37a074..ac9bea3 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -266,13 +266,17 @@ def is_any_uri(s: str) -> bool:
     return _REGEX_MATCHES_XS_ANY_URI.fullmatch(s) is not None
 
 
+# See lexical representation in https://www.w3.org/TR/xmlschema-2/#base64Binary
+_REGEX_MATCHES_XS_BASE64_BINARY = re.compile(
+    r"((([A-Za-z0-9+/] ?){4})*"
+    r"(([A-Za-z0-9+/] ?){3}[A-Za-z0-9+/]"
+    r"|([A-Za-z0-9+/] ?){2}[AEIMQUYcgkosw048] ?="
+    r"|[A-Za-z0-9+/] ?[AQgw] ?= ?=))?"
+)
+
+
 def is_base64_binary(s: str) -> bool:
-    try:
-        # According to the lexical representation, a single space is allowed between two characters
-        base64.b64decode(re.sub(r"(?<=\S) (?=\S)", "", s.strip(_XS_WHITESPACE)), validate=True)
-        return True
-    except ValueError:
-        return False
+    return _REGEX_MATCHES_XS_BASE64_BINARY.fullmatch(s.strip(_XS_WHITESPACE)) is not None
 
 
 def _construct_matches_bcp_47() -> Pattern[str]:
-- 
2.43.0


From 7e9d285692a2ffc0073e59282ca3f0dfdf19b49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:53 +0000
Subject: [PATCH 06/21] fix: integers and dates with many digits must neither
 be rejected nor crash

---
 aas_test_engines/data_types.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index ac9bea3..5d212b1 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -1,3 +1,4 @@
+from decimal import Decimal
 from typing import Pattern, Dict, Mapping
 import re
 import base64
@@ -31,13 +32,12 @@ def is_double(s: str) -> bool:
 
 
 def _is_bounded_integer(s: int, min: int, max: int) -> bool:
-    if re.fullmatch(r"[+-]?[0-9]+", s.strip(_XS_WHITESPACE)) is None:
-        return False
-    try:
-        v = int(s)
-        return v >= min and v <= max
-    except ValueError:
+    s = s.strip(_XS_WHITESPACE)
+    if re.fullmatch(r"[+-]?[0-9]+", s) is None:
         return False
+    # The number of digits is limited for int but not for Decimal
+    v = Decimal(s)
+    return v >= min and v <= max
 
 
 def is_hex_binary(s: str) -> bool:
@@ -92,6 +92,17 @@ _REGEX_MATCHES_XS_DATE = _construct_matches_xs_date()
 _DATE_PREFIX_RE = re.compile(r"^(-?[0-9]+)-([0-9]{2})-([0-9]{2})")
 
 
+def _shorten_year(year: str) -> str:
+    """
+    Leap years depend on the last four digits only. Drop the remaining ones as the number of digits is limited for int.
+    """
+    sign = "-" if year.startswith("-") else ""
+    digits = year[len(sign) :]
+    if len(digits) > 5:
+        digits = "1" + digits[-4:]
+    return sign + digits
+
+
 def is_xs_date(value: str) -> bool:
     if _REGEX_MATCHES_XS_DATE.fullmatch(value) is None:
         return False
@@ -99,7 +110,7 @@ def is_xs_date(value: str) -> bool:
     match = _DATE_PREFIX_RE.match(value)
     assert match is not None
 
-    year = int(match.group(1))
+    year = int(_shorten_year(match.group(1)))
     month = int(match.group(2))
     day = int(match.group(3))
 
-- 
2.43.0


From b49200dd8934cfc1a98580762790ed5d43a7684d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:51 +0000
Subject: [PATCH 07/21] fix: files which cannot be decoded must be reported as
 error instead of raising

---
 aas_test_engines/file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index f482034..429d13c 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -31,7 +31,8 @@ def check_json_data(data: any, version: str = _DEFAULT_VERSION, model_type: str
 def check_json_file(file: TextIO, version: str = _DEFAULT_VERSION, model_type: str = "Environment") -> AasTestResult:
     try:
         data = json.load(file)
-    except json.decoder.JSONDecodeError as e:
+    except (ValueError, RecursionError) as e:
+        # ValueError is not limited to JSONDecodeError, but covers invalid encodings and numbers as well
         return AasTestResult(f"Invalid JSON: {e}", Level.ERROR)
     return check_json_data(data, version, model_type)
 
@@ -46,7 +47,8 @@ def check_xml_data(
 def check_xml_file(file: TextIO, version: str = _DEFAULT_VERSION, model_type: str = "Environment") -> AasTestResult:
     try:
         data = ElementTree.fromstring(file.read())
-    except ElementTree.ParseError as e:
+    except (ElementTree.ParseError, LookupError, ValueError) as e:
+        # LookupError and ValueError are raised on unknown or unsupported encodings
         return AasTestResult(f"Invalid xml: {e}", Level.ERROR)
     return check_xml_data(data, version, model_type)
 
-- 
2.43.0


From aac59465822cff3bbc9b4466f2bc64dcd7ff26e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:58 +0000
Subject: [PATCH 08/21] fix: deeply nested documents must be reported as error
 instead of raising

---
 aas_test_engines/file.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index 429d13c..2ab50cb 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -24,7 +24,10 @@ def latest_version():
 
 
 def check_json_data(data: any, version: str = _DEFAULT_VERSION, model_type: str = "Environment") -> AasTestResult:
-    result, obj = json_to_obj(data, model_type)
+    try:
+        result, obj = json_to_obj(data, model_type)
+    except RecursionError:
+        return AasTestResult("Document is nested too deeply", Level.ERROR)
     return result
 
 
@@ -40,7 +43,10 @@ def check_json_file(file: TextIO, version: str = _DEFAULT_VERSION, model_type: s
 def check_xml_data(
     data: ElementTree, version: str = _DEFAULT_VERSION, model_type: str = "Environment"
 ) -> AasTestResult:
-    result, obj = xml_to_obj(data, model_type)
+    try:
+        result, obj = xml_to_obj(data, model_type)
+    except RecursionError:
+        return AasTestResult("Document is nested too deeply", Level.ERROR)
     return result
 
 
-- 
2.43.0


From 04f7a2d0187e612fdeb7e0cb3c8a30dbf4889d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:04 +0000
Subject: [PATCH 09/21] fix: relationships of parts in the root directory of a
 package must be checked

---
 aas_test_engines/opc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aas_test_engines/opc.py b/aas_test_engines/opc.py
index f618451..8bc9d79 100644
--- a/aas_test_engines/opc.py
+++ b/aas_test_engines/opc.py
@@ -100,7 +100,7 @@ def _scan_relationships(
             Level.ERROR,
         )
 
-    if dir:
+    if dir or file:
         result = AasTestResult(f"Checking relationships of {dir}{file}")
     else:
         result = AasTestResult(f"Checking root relationship")
@@ -142,7 +142,9 @@ def _scan_relationships(
         if target not in zipfile.namelist():
             result.append(AasTestResult(f"Relationship has non-existing target {target}", Level.ERROR))
             continue
-        r = _scan_relationships(zipfile, sub_rel, sub_dir + "/", file, visited_targets, deprecated_types)
+        if sub_dir:
+            sub_dir += "/"
+        r = _scan_relationships(zipfile, sub_rel, sub_dir, file, visited_targets, deprecated_types)
         if r:
             result.append(r)
 
-- 
2.43.0


From e25b99dcf9f0a8084aeccd7bd5b4c7c49a590619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:11 +0000
Subject: [PATCH 10/21] fix: parts which are referenced multiple times must be
 considered for each relationship

---
 aas_test_engines/opc.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/aas_test_engines/opc.py b/aas_test_engines/opc.py
index 8bc9d79..88a0503 100644
--- a/aas_test_engines/opc.py
+++ b/aas_test_engines/opc.py
@@ -1,4 +1,4 @@
-from typing import List, Set, Optional, Tuple, Dict
+from typing import List, Optional, Tuple, Dict
 from .result import AasTestResult, Level
 import zipfile
 from xml.etree import ElementTree
@@ -52,11 +52,14 @@ class Relationship:
     def sub_rels_by_type(self, type: str) -> List["Relationship"]:
         return [i for i in self.sub_rels if i.type == type]
 
-    def dump(self, indent=0):
+    def dump(self, indent=0, parent_targets=()):
         type_suffix = self.type.split("/")[-1]
         print("  " * indent + f"{self.target} [{type_suffix}]")
+        if self.target in parent_targets:
+            # Relationships might be cyclic
+            return
         for sub_rel in self.sub_rels:
-            sub_rel.dump(indent + 1)
+            sub_rel.dump(indent + 1, (*parent_targets, self.target))
 
 
 def _check_content_type(zipfile: zipfile.ZipFile) -> AasTestResult:
@@ -84,7 +87,7 @@ def _scan_relationships(
     parent_rel: Relationship,
     dir: str,
     file: str,
-    visited_targets: Set[str],
+    visited_targets: Dict[str, Relationship],
     deprecated_types: Dict[str, str],
 ) -> Optional[AasTestResult]:
     try:
@@ -137,8 +140,9 @@ def _scan_relationships(
         parent_rel.sub_rels.append(sub_rel)
         if target in visited_targets:
             result.append(AasTestResult(f"Already checked {target}", Level.INFO))
+            sub_rel.sub_rels = visited_targets[target].sub_rels
             continue
-        visited_targets.add(target)
+        visited_targets[target] = sub_rel
         if target not in zipfile.namelist():
             result.append(AasTestResult(f"Relationship has non-existing target {target}", Level.ERROR))
             continue
@@ -155,7 +159,7 @@ def _check_relationships(
     zipfile: zipfile.ZipFile, root_rel: Relationship, deprecated_types: Dict[str, str]
 ) -> AasTestResult:
     result = AasTestResult("Checking relationships")
-    visited_targets = set()
+    visited_targets: Dict[str, Relationship] = {}
     r = _scan_relationships(zipfile, root_rel, "", "", visited_targets, deprecated_types)
     if r:
         result.append(r)
-- 
2.43.0


From e3ed13c6b695b228548e8d7ad632391016ca49f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:02 +0000
Subject: [PATCH 11/21] fix: damaged AASX packages must be reported as error
 instead of raising

---
 aas_test_engines/file.py | 24 ++++++++++++--------
 aas_test_engines/opc.py  | 49 +++++++++++++++++++++++++++++++---------
 2 files changed, 52 insertions(+), 21 deletions(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index 2ab50cb..21518b9 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -1,8 +1,10 @@
 from typing import List, Dict, TextIO, Union, Any, Set, Optional
+import io
 import json
+import struct
 
 from .result import AasTestResult, Level
-from .opc import Relationship, read_opc
+from .opc import Relationship, read_opc, read_part, UnreadablePartException
 
 from xml.etree import ElementTree
 import zipfile
@@ -87,14 +89,16 @@ def _check_files(zipfile: zipfile.ZipFile, root_rel: Relationship, version: str)
         for aasx_spec in spec_rels:
             sub_result = AasTestResult(f"Checking {aasx_spec.target}")
             try:
-                with zipfile.open(aasx_spec.target) as f:
-                    if aasx_spec.target.endswith(".xml"):
-                        r = check_xml_file(f, version)
-                    elif aasx_spec.target.endswith(".json"):
-                        r = check_json_file(f, version)
-                    else:
-                        r = AasTestResult("Unknown filetype", Level.WARNING)
-                    sub_result.append(r)
+                f = io.BytesIO(read_part(zipfile, aasx_spec.target))
+                if aasx_spec.target.endswith(".xml"):
+                    r = check_xml_file(f, version)
+                elif aasx_spec.target.endswith(".json"):
+                    r = check_json_file(f, version)
+                else:
+                    r = AasTestResult("Unknown filetype", Level.WARNING)
+                sub_result.append(r)
+            except UnreadablePartException as e:
+                sub_result.append(AasTestResult(str(e), Level.ERROR))
             except KeyError:
                 return AasTestResult("File does not exist")
             result.append(sub_result)
@@ -118,7 +122,7 @@ def check_aasx_data(zipfile: zipfile.ZipFile, version: str = _DEFAULT_VERSION) -
 def check_aasx_file(file: TextIO, version: str = _DEFAULT_VERSION) -> AasTestResult:
     try:
         zip = zipfile.ZipFile(file)
-    except zipfile.BadZipFile as e:
+    except (zipfile.BadZipFile, NotImplementedError, ValueError, struct.error) as e:
         return AasTestResult(f"Cannot read: {e}", level=Level.ERROR)
 
     return check_aasx_data(zip, version)
diff --git a/aas_test_engines/opc.py b/aas_test_engines/opc.py
index 88a0503..2b2b89e 100644
--- a/aas_test_engines/opc.py
+++ b/aas_test_engines/opc.py
@@ -62,22 +62,48 @@ class Relationship:
             sub_rel.dump(indent + 1, (*parent_targets, self.target))
 
 
+class UnreadablePartException(Exception):
+    pass
+
+
+def read_part(zipfile: zipfile.ZipFile, name: str) -> bytes:
+    """
+    Reads a part of the package.
+    Raises a KeyError if there is no such part and an UnreadablePartException if it is damaged, encrypted, etc.
+    """
+    try:
+        return zipfile.read(name)
+    except KeyError:
+        raise
+    except Exception as e:
+        raise UnreadablePartException(f"Cannot read {name}: {e}")
+
+
+def _read_xml_part(zipfile: zipfile.ZipFile, name: str) -> ElementTree.Element:
+    content = read_part(zipfile, name)
+    try:
+        return ElementTree.fromstring(content)
+    except (ElementTree.ParseError, LookupError, ValueError) as e:
+        raise UnreadablePartException(f"{name} is not a valid XML: {e}")
+
+
 def _check_content_type(zipfile: zipfile.ZipFile) -> AasTestResult:
     content_types_xml = "[Content_Types].xml"
     result = AasTestResult(f"Checking {content_types_xml}")
     try:
-        with zipfile.open(content_types_xml, "r") as f:
-            content_types = ElementTree.parse(f)
-            expected_tag = f"{NS_CONTENT_TYPES}Types"
-            if content_types.getroot().tag != expected_tag:
-                result.append(
-                    AasTestResult(
-                        f"root must have tag {expected_tag}, got {content_types.getroot().tag}",
-                        Level.ERROR,
-                    )
+        content_types = _read_xml_part(zipfile, content_types_xml)
+        expected_tag = f"{NS_CONTENT_TYPES}Types"
+        if content_types.tag != expected_tag:
+            result.append(
+                AasTestResult(
+                    f"root must have tag {expected_tag}, got {content_types.tag}",
+                    Level.ERROR,
                 )
+            )
     except KeyError:
         result.append(AasTestResult(f"{content_types_xml} not found", Level.ERROR))
+    except UnreadablePartException as e:
+        result.append(AasTestResult(str(e), Level.ERROR))
 
     return result
 
@@ -91,11 +117,12 @@ def _scan_relationships(
     deprecated_types: Dict[str, str],
 ) -> Optional[AasTestResult]:
     try:
-        with zipfile.open(f"{dir}_rels/{file}.rels", "r") as f:
-            relationships = ElementTree.parse(f).getroot()
+        relationships = _read_xml_part(zipfile, f"{dir}_rels/{file}.rels")
     except KeyError:
         # file does not exist
         return None
+    except UnreadablePartException as e:
+        return AasTestResult(str(e), Level.ERROR)
     expected_tag = f"{NS_RELATIONSHIPS}Relationships"
     if relationships.tag != expected_tag:
         return AasTestResult(
-- 
2.43.0


From e2d217ecb789fff81284759d153d71863694d28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:18 +0000
Subject: [PATCH 12/21] fix: deeply nested relationships must be reported as
 error instead of raising

---
 aas_test_engines/file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index 21518b9..e2a8ab4 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -109,7 +109,10 @@ def check_aasx_data(zipfile: zipfile.ZipFile, version: str = _DEFAULT_VERSION) -
 
     result = AasTestResult("Checking AASX package")
     root_rel = Relationship("ROOT", "/")
-    read_opc(zipfile, root_rel, result, DEPRECATED_TYPES)
+    try:
+        read_opc(zipfile, root_rel, result, DEPRECATED_TYPES)
+    except RecursionError:
+        result.append(AasTestResult("Relationships are nested too deeply", Level.ERROR))
     if not result.ok():
         return result
     result.append(_check_files(zipfile, root_rel, version))
-- 
2.43.0


From 8bb8ae3e3b9a49d092244c472de28cc21aea7a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:24 +0000
Subject: [PATCH 13/21] fix: additional headers must be sent to the server

---
 aas_test_engines/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/http.py b/aas_test_engines/http.py
index 1a18b1e..572e7dd 100644
--- a/aas_test_engines/http.py
+++ b/aas_test_engines/http.py
@@ -70,6 +70,6 @@ class HttpClient:
             url=host + url,
             method=request.method,
             data=body,
-            headers=request.headers,
+            headers={**self.additional_headers, **request.headers},
             verify=self.verify,
         )
-- 
2.43.0


From 988dd625a900610d3905ecd2a944c27bfbf2f51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:30 +0000
Subject: [PATCH 14/21] fix: HttpClient.descend must keep the prefixes of its
 parent

---
 aas_test_engines/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/http.py b/aas_test_engines/http.py
index 572e7dd..7140780 100644
--- a/aas_test_engines/http.py
+++ b/aas_test_engines/http.py
@@ -46,7 +46,7 @@ class HttpClient:
 
     def descend(self, prefix: str):
         result = HttpClient(self.host, self.verify, self.remove_path_prefix, self.additional_headers)
-        result.prefixes.append(prefix)
+        result.prefixes = self.prefixes + [prefix]
         return result
 
     def send(self, request: Request) -> Response:
-- 
2.43.0


From a594a0f32b87fcfc1138e7811745d19189310af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:56 +0000
Subject: [PATCH 15/21] fix: HttpClient.descend must not drop custom client
 classes

---
 aas_test_engines/http.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aas_test_engines/http.py b/aas_test_engines/http.py
index 7140780..d7a4820 100644
--- a/aas_test_engines/http.py
+++ b/aas_test_engines/http.py
@@ -3,6 +3,7 @@ import requests
 from requests.models import Response
 from dataclasses import dataclass, field
 from urllib.parse import urlencode
+import copy
 import json
 
 
@@ -45,7 +46,8 @@ class HttpClient:
         self.additional_headers = additional_headers
 
     def descend(self, prefix: str):
-        result = HttpClient(self.host, self.verify, self.remove_path_prefix, self.additional_headers)
+        # Create a copy to support derived classes
+        result = copy.copy(self)
         result.prefixes = self.prefixes + [prefix]
         return result
 
-- 
2.43.0


From fbcd38ae08de63d7a14c3b1694442953198eab7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:03 +0000
Subject: [PATCH 16/21] fix: boolean query parameters must be sent as 'true' or
 'false'

---
 aas_test_engines/http.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aas_test_engines/http.py b/aas_test_engines/http.py
index d7a4820..da0e841 100644
--- a/aas_test_engines/http.py
+++ b/aas_test_engines/http.py
@@ -19,6 +19,8 @@ class Request:
     def make_url(self) -> str:
         url = self.path
         query_params = {k: v for k, v in self.query_parameters.items() if v is not None}
+        # Booleans are sent as 'true' / 'false', not as 'True' / 'False'
+        query_params = {k: str(v).lower() if isinstance(v, bool) else v for k, v in query_params.items()}
         if query_params:
             url += "?" + urlencode(query_params)
         return url
-- 
2.43.0


From d8671e9022cedeaa7bc9412f3f3211d918800d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:31 +0000
Subject: [PATCH 17/21] fix: an interrupt must not be swallowed by guarded
 result scopes

---
 aas_test_engines/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/result.py b/aas_test_engines/result.py
index 952067d..8b87751 100644
--- a/aas_test_engines/result.py
+++ b/aas_test_engines/result.py
@@ -127,7 +127,7 @@ class ContextManager:
             if managers:
                 managers[-1].result.append(self.result)
             return True
-        elif self.catch_all_exceptions:
+        elif self.catch_all_exceptions and isinstance(exc_val, Exception):
             self.result.append(AasTestResult(f"Internal error: {exc_val}", Level.CRITICAL))
             if managers:
                 managers[-1].result.append(self.result)
-- 
2.43.0


From 4665eeac8c818ad4a1f129ab1894f3e52d94a823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:10 +0000
Subject: [PATCH 18/21] fix: an unknown version must not crash the command line
 interface

---
 aas_test_engines/__main__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aas_test_engines/__main__.py b/aas_test_engines/__main__.py
index ddd0e53..3c79c16 100644
--- a/aas_test_engines/__main__.py
+++ b/aas_test_engines/__main__.py
@@ -106,6 +106,7 @@ def run_api_test(argv):
         available_suites = api.supported_versions()[args.version]
     except KeyError:
         sys.stderr.write(f"Unknown version, must be one of {api.supported_versions().keys()}\n")
+        sys.exit(1)
     suites = [i for i in available_suites if args.suite in i]
     if len(suites) == 0:
         sys.stderr.write(f"Unknown suite '{args.suite}', must be one of:\n")
-- 
2.43.0


From 630580b9cba8cd21734bfbd18da9c4db3b0d588f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:44 +0000
Subject: [PATCH 19/21] fix: accept all compressed IPv6 addresses in URIs

---
 aas_test_engines/data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index 5d212b1..d307c40 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -220,7 +220,7 @@ def _construct_matches_xs_any_uri() -> Pattern[str]:
     dec_octet = "([0-9]|[1-9][0-9]|1[0-9]{2}|2[0-4][0-9]|25[0-5])"
     ipv4address = f"{dec_octet}\\.{dec_octet}\\.{dec_octet}\\.{dec_octet}"
     ls32 = f"({h16}:{h16}|{ipv4address})"
-    ipv6address = f"(({h16}:){{6}}{ls32}|::({h16}:){{5}}{ls32}|({h16})?::({h16}:){{4}}{ls32}|(({h16}:)?{h16})?::({h16}:){{3}}{ls32}|(({h16}:){{2}}{h16})?::({h16}:){{2}}{ls32}|(({h16}:){{3}}{h16})?::{h16}:{ls32}|(({h16}:){{4}}{h16})?::{ls32}|(({h16}:){{5}}{h16})?::{h16}|(({h16}:){{6}}{h16})?::)"
+    ipv6address = f"(({h16}:){{6}}{ls32}|::({h16}:){{5}}{ls32}|({h16})?::({h16}:){{4}}{ls32}|(({h16}:)?{h16})?::({h16}:){{3}}{ls32}|(({h16}:){{0,2}}{h16})?::({h16}:){{2}}{ls32}|(({h16}:){{0,3}}{h16})?::{h16}:{ls32}|(({h16}:){{0,4}}{h16})?::{ls32}|(({h16}:){{0,5}}{h16})?::{h16}|(({h16}:){{0,6}}{h16})?::)"
     unreserved = "[a-zA-Z0-9\\-._~]"
     ipvfuture = f"[vV][0-9A-Fa-f]+\\.({unreserved}|{sub_delims}|:)+"
     ip_literal = f"\\[({ipv6address}|{ipvfuture})\\]"
-- 
2.43.0


From ee6d4bbd0505b4d6e9ee60450f70130ca5f7544c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:09 +0000
Subject: [PATCH 20/21] fix: checking of submodel templates must not crash if
 model type is not Environment

---
 aas_test_engines/file.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index e2a8ab4..3cce526 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -9,8 +9,9 @@ from .opc import Relationship, read_opc, read_part, UnreadablePartException
 from xml.etree import ElementTree
 import zipfile
 
-from aas_test_engines.test_cases.v3_0 import json_to_obj, xml_to_obj
-from aas_test_engines.test_cases.v3_0.submodel_templates import supported_templates
+from aas_test_engines.test_cases.v3_0.model import Environment, Submodel, symbol_table
+from aas_test_engines.test_cases.v3_0.parse import parse_and_check_json, parse_and_check_xml
+from aas_test_engines.test_cases.v3_0.submodel_templates import parse_submodel_templates, supported_templates
 
 JSON = Union[str, int, float, bool, None, Dict[str, Any], List[Any]]
 
@@ -25,9 +26,19 @@ def latest_version():
     return _DEFAULT_VERSION
 
 
+def _check_templates(result: AasTestResult, obj: any):
+    if not result.ok():
+        return
+    if isinstance(obj, Submodel):
+        obj = Environment(None, [obj], None)
+    if isinstance(obj, Environment):
+        parse_submodel_templates(result, obj)
+
+
 def check_json_data(data: any, version: str = _DEFAULT_VERSION, model_type: str = "Environment") -> AasTestResult:
     try:
-        result, obj = json_to_obj(data, model_type)
+        result, obj = parse_and_check_json(symbol_table.lookup(model_type), data)
+        _check_templates(result, obj)
     except RecursionError:
         return AasTestResult("Document is nested too deeply", Level.ERROR)
     return result
@@ -46,7 +57,8 @@ def check_xml_data(
     data: ElementTree, version: str = _DEFAULT_VERSION, model_type: str = "Environment"
 ) -> AasTestResult:
     try:
-        result, obj = xml_to_obj(data, model_type)
+        result, obj = parse_and_check_xml(symbol_table.lookup(model_type), data)
+        _check_templates(result, obj)
     except RecursionError:
         return AasTestResult("Document is nested too deeply", Level.ERROR)
     return result
-- 
2.43.0


From bf48366183ed51cc859bb3fe23519d6de9edb013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:00 +0000
Subject: [PATCH 21/21] fix: check_file crashes if a message cannot be
 represented in the encoding of stdout

---
 aas_test_engines/__main__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aas_test_engines/__main__.py b/aas_test_engines/__main__.py
index 3c79c16..0341a75 100644
--- a/aas_test_engines/__main__.py
+++ b/aas_test_engines/__main__.py
@@ -169,6 +169,10 @@ commands = {
 
 def main():
 
+    # Messages quote the input, which may contain characters stdout cannot represent
+    if hasattr(sys.stdout, "reconfigure"):
+        sys.stdout.reconfigure(errors="backslashreplace")
+
     if len(sys.argv) <= 1:
         print(f"Usage: {sys.argv[0]} COMMAND OPTIONS...")
         print("Available commands:")
-- 
2.43.0

