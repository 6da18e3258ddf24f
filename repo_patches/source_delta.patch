From edebc0bd52c2baef6d899455dcf6356d41d3ff27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:12 +0000
Subject: [PATCH 01/21] fix: require two hex digits in escape triplets of URI
 components

A serial such as "ab%2" was accepted because the grammar only asked for
one hex digit after the percent sign.
---
 epcpy/utils/regex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/utils/regex.py b/epcpy/utils/regex.py
index cda91f4..8b415cc 100644
--- a/epcpy/utils/regex.py
+++ b/epcpy/utils/regex.py
@@ -1,7 +1,7 @@
 # Generic
 CPREF_COMPONENT = "([0-9A-Z-]|%2F|%23)+"
 NUMERIC_COMPONENT = "(0|[1-9]\d*)"
-GS3A3_CHAR = "((%[0-9a-fA-F])|([a-zA-Z0-9!'()*+,-.:;=_]))"
+GS3A3_CHAR = "((%[0-9a-fA-F]{2})|([a-zA-Z0-9!'()*+,-.:;=_]))"
 GS3A3_COMPONENT = f"{GS3A3_CHAR}+"
 PADDED_NUMERIC_COMPONENT = "\d+"
 PADDED_NUMERIC_COMPONENT_OR_EMPTY = "\d*"
-- 
2.43.0


From 4312a4687c995018de8079ca65872520b6ff9975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:14 +0000
Subject: [PATCH 02/21] fix: accept escapes that contain a hex letter in serial
 components

Components were split on two decimal digits, so %2F, %3C, %3E and %3F were
rejected at the start of a component or raised ValueError.
---
 epcpy/utils/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index b2e0260..d5f53e6 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -506,7 +506,7 @@ def verify_gs3a3_component(gs3a3_component: str):
         ConvertException: Component not valid
     """
     res = ""
-    for g in re.split("(%\d\d)", gs3a3_component):
+    for g in re.split("(%[0-9a-fA-F]{2})", gs3a3_component):
         if len(g) == 0:
             continue
         elif g[0] != "%":
-- 
2.43.0


From 9a573be6f7d92a6dbccddeb3fa154b2654273dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:16 +0000
Subject: [PATCH 03/21] fix: only accept ASCII digits in URIs and element
 strings

\d also matches digits of other scripts, so a URI with Arabic-Indic digits
was accepted as a valid identity.
---
 epcpy/utils/regex.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/epcpy/utils/regex.py b/epcpy/utils/regex.py
index 8b415cc..36bba47 100644
--- a/epcpy/utils/regex.py
+++ b/epcpy/utils/regex.py
@@ -1,14 +1,14 @@
 # Generic
 CPREF_COMPONENT = "([0-9A-Z-]|%2F|%23)+"
-NUMERIC_COMPONENT = "(0|[1-9]\d*)"
+NUMERIC_COMPONENT = "(0|[1-9][0-9]*)"
 GS3A3_CHAR = "((%[0-9a-fA-F]{2})|([a-zA-Z0-9!'()*+,-.:;=_]))"
 GS3A3_COMPONENT = f"{GS3A3_CHAR}+"
-PADDED_NUMERIC_COMPONENT = "\d+"
-PADDED_NUMERIC_COMPONENT_OR_EMPTY = "\d*"
+PADDED_NUMERIC_COMPONENT = "[0-9]+"
+PADDED_NUMERIC_COMPONENT_OR_EMPTY = "[0-9]*"
 VERIFY_GS3A3_CHARS = "[a-zA-Z0-9!'()*+,-.:;=_\"%&/<>?]+"
 GS1_ELEM_CHARS = "[a-zA-Z0-9!'()*+,-.:;=_\"%&/<>?]"
 GS1_ELEM_CHARS_CPI = "[0-9A-Z\/\-\#]"
-DIGIT = "\d"
+DIGIT = "[0-9]"
 
 FOUR_PADDED_NUMERIC_COMPONENTS = f"{PADDED_NUMERIC_COMPONENT}\.{PADDED_NUMERIC_COMPONENT}\.{PADDED_NUMERIC_COMPONENT}\.{PADDED_NUMERIC_COMPONENT}"
 
-- 
2.43.0


From b54b6b7acb4bf3afb4b5d57bba1d1188149502d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:36 +0000
Subject: [PATCH 04/21] fix: parse element strings whose serial contains an
 AI-like group

A serial such as "a(99)b" was split as if it held another application
identifier, which raised ValueError.
---
 epcpy/epc_schemes/lgtin.py | 2 +-
 epcpy/epc_schemes/sgln.py  | 2 +-
 epcpy/epc_schemes/sgtin.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/epcpy/epc_schemes/lgtin.py b/epcpy/epc_schemes/lgtin.py
index 4c29723..610664c 100644
--- a/epcpy/epc_schemes/lgtin.py
+++ b/epcpy/epc_schemes/lgtin.py
@@ -141,7 +141,7 @@ class LGTIN(GS1Keyed):
                 message=f"Invalid LGTIN GS1 element string {gs1_element_string}"
             )
 
-        _, digits, chars = re.split(f"\(.{{2}}\)", gs1_element_string)
+        _, digits, chars = re.split(f"\(.{{2}}\)", gs1_element_string, maxsplit=2)
         chars = revert_uri_escapes(chars)
 
         return cls(
diff --git a/epcpy/epc_schemes/sgln.py b/epcpy/epc_schemes/sgln.py
index cccc48c..b028202 100644
--- a/epcpy/epc_schemes/sgln.py
+++ b/epcpy/epc_schemes/sgln.py
@@ -192,7 +192,7 @@ class SGLN(TagEncodable, GS1Keyed):
                 message=f"Invalid SGLN GS1 element string {gs1_element_string}"
             )
 
-        _, digits, chars = re.split(f"\(.{{3}}\)", gs1_element_string)
+        _, digits, chars = re.split(f"\(.{{3}}\)", gs1_element_string, maxsplit=2)
         chars = revert_uri_escapes(chars)
 
         return cls(
diff --git a/epcpy/epc_schemes/sgtin.py b/epcpy/epc_schemes/sgtin.py
index 37aee79..eb18597 100644
--- a/epcpy/epc_schemes/sgtin.py
+++ b/epcpy/epc_schemes/sgtin.py
@@ -255,7 +255,7 @@ class SGTIN(TagEncodable, GS1Keyed):
                 message=f"Invalid SGTIN GS1 element string {gs1_element_string}"
             )
 
-        _, digits, chars = re.split(f"\(.{{2}}\)", gs1_element_string)
+        _, digits, chars = re.split(f"\(.{{2}}\)", gs1_element_string, maxsplit=2)
         chars = revert_uri_escapes(chars)
 
         return cls(
-- 
2.43.0


From af6928f77a20ddc2d19212eee1786dc8629af615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:39 +0000
Subject: [PATCH 05/21] fix: keep colons in GIAI asset references

Everything after the first colon of the asset reference was dropped from the
GS1 key, the element string and the tag encodings.
---
 epcpy/epc_schemes/giai.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index 0e7dc5f..98fedf8 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -194,7 +194,7 @@ class GIAI(TagEncodable, GS1Keyed):
         if not GIAI_URI_REGEX.fullmatch(epc_uri):
             raise ConvertException(message=f"Invalid GIAI URI {epc_uri}")
 
-        company_prefix, *asset_reference = epc_uri.split(":")[4].split(".")
+        company_prefix, *asset_reference = ":".join(epc_uri.split(":")[4:]).split(".")
         asset_reference = ".".join(asset_reference)
 
         if (
-- 
2.43.0


From 21f5922103b4afa63f64cc0ebd98d1f35d488b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:02 +0000
Subject: [PATCH 06/21] fix: count escaped characters once in GRAI, GDTI, GIAI
 and CPI lengths

The length limits apply to characters of the serial or reference, but an
escape triplet was counted as three, so valid identities were rejected and
could not be read back from their own element string.
---
 epcpy/epc_schemes/cpi.py  | 2 +-
 epcpy/epc_schemes/gdti.py | 2 +-
 epcpy/epc_schemes/giai.py | 2 +-
 epcpy/epc_schemes/grai.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/epcpy/epc_schemes/cpi.py b/epcpy/epc_schemes/cpi.py
index a381313..baab3e0 100644
--- a/epcpy/epc_schemes/cpi.py
+++ b/epcpy/epc_schemes/cpi.py
@@ -211,7 +211,7 @@ class CPI(GS1Element, TagEncodable):
         )
 
         if (
-            len("".join([self._company_pref, self._cp_ref])) > 30
+            len("".join([self._company_pref, replace_cpi_escapes(self._cp_ref)])) > 30
             or len(self._serial) > 12
             or not (6 <= len(self._company_pref) <= 12)
         ):
diff --git a/epcpy/epc_schemes/gdti.py b/epcpy/epc_schemes/gdti.py
index 218df08..f927ea9 100644
--- a/epcpy/epc_schemes/gdti.py
+++ b/epcpy/epc_schemes/gdti.py
@@ -142,7 +142,7 @@ class GDTI(TagEncodable, GS1Keyed):
 
         if (
             len(f"{self._company_pref}{self._doc_type}") != 12
-            or len(self._serial) > 17
+            or len(replace_uri_escapes(self._serial)) > 17
             or not (6 <= len(self._company_pref) <= 12)
         ):
             raise ConvertException(
diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index 98fedf8..a40f18c 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -199,7 +199,7 @@ class GIAI(TagEncodable, GS1Keyed):
 
         if (
             not (6 <= len(company_prefix) <= 12)
-            or len(f"{company_prefix}{asset_reference}") > 30
+            or len(f"{company_prefix}{replace_uri_escapes(asset_reference)}") > 30
         ):
             raise ConvertException(
                 message=f"Invalid company prefix length {len(company_prefix)}"
diff --git a/epcpy/epc_schemes/grai.py b/epcpy/epc_schemes/grai.py
index 7b24302..3622695 100644
--- a/epcpy/epc_schemes/grai.py
+++ b/epcpy/epc_schemes/grai.py
@@ -143,7 +143,7 @@ class GRAI(TagEncodable, GS1Keyed):
         if (
             len(f"{self._company_pref}{self._asset_type}") != 12
             or not (6 <= len(self._company_pref) <= 12)
-            or len(self._serial) > 16
+            or len(replace_uri_escapes(self._serial)) > 16
         ):
             raise ConvertException(message=f"Invalid EPC URI {epc_uri}")
 
-- 
2.43.0


From 8d3be3386eb7532cbfa99fa7f7cc16ae6849fce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:04 +0000
Subject: [PATCH 07/21] fix: allow encoding the largest ITIP piece and total
 value

99 fits the two digit fixed width field and is decoded correctly, but was
refused when encoding.
---
 epcpy/utils/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index d5f53e6..cbfd134 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -415,7 +415,7 @@ def encode_fixed_width_integer(string: str, bit_count: int) -> str:
     Returns:
         str: Encoded fixed width integer string
     """
-    if int(string) >= (pow(10, int(bit_count * log(2) / log(10))) - 1):
+    if int(string) > (pow(10, int(bit_count * log(2) / log(10))) - 1):
         raise ConvertException(message="Fixed width numeric integer too large")
 
     return str_to_binary(string, bit_count)
-- 
2.43.0


From 1d495cfc749646ffb34168011ba8ec9dae9070b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:07 +0000
Subject: [PATCH 08/21] fix: check the ITIP piece and total lengths separately

Only the sum of the component lengths was checked, so a three digit piece
with a short item reference was accepted.
---
 epcpy/epc_schemes/itip.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/epcpy/epc_schemes/itip.py b/epcpy/epc_schemes/itip.py
index 075ba55..034a5f7 100644
--- a/epcpy/epc_schemes/itip.py
+++ b/epcpy/epc_schemes/itip.py
@@ -148,7 +148,9 @@ class ITIP(GS1Element, TagEncodable):
         verify_gs3a3_component(self._serial)
 
         if (
-            len(f"{self._company_pref}{self._item_ref}{self._piece}{self._total}") != 17
+            len(f"{self._company_pref}{self._item_ref}") != 13
+            or len(self._piece) != 2
+            or len(self._total) != 2
             or not (1 <= len(replace_uri_escapes(self._serial)) <= 20)
             or not (6 <= len(self._company_pref) <= 12)
         ):
-- 
2.43.0


From ae81dcce422e3fa8b1116664ef2c4d2fafac9720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:09 +0000
Subject: [PATCH 09/21] fix: check the company prefix length of UPUI identities

A thirteen digit company prefix left the item reference empty and made
gs1_element_string raise IndexError.
---
 epcpy/epc_schemes/upui.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/epcpy/epc_schemes/upui.py b/epcpy/epc_schemes/upui.py
index 1578323..840272b 100644
--- a/epcpy/epc_schemes/upui.py
+++ b/epcpy/epc_schemes/upui.py
@@ -50,6 +50,11 @@ class UPUI(GS1Element):
         if not (1 <= len(self._tpx) <= 28):
             raise ConvertException(message=f"Incorrect TPX size")
 
+        if not (6 <= len(self._company_pref) <= 12):
+            raise ConvertException(
+                message=f"Invalid company prefix length {len(self._company_pref)}"
+            )
+
         if len(f"{self._company_pref}{self._item_ref}") != 13:
             raise ConvertException(
                 message=f"Wrong company prefix + item ref size (!=13)"
-- 
2.43.0


From 2a64e816089829a4d3d8f7ffc402f8aac17fb143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:12 +0000
Subject: [PATCH 10/21] fix: match the whole string when reading tag URIs

A GID tag URI followed by arbitrary text was accepted and the text dropped.
---
 epcpy/epc_schemes/base_scheme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epcpy/epc_schemes/base_scheme.py b/epcpy/epc_schemes/base_scheme.py
index c951c98..7171edc 100644
--- a/epcpy/epc_schemes/base_scheme.py
+++ b/epcpy/epc_schemes/base_scheme.py
@@ -183,7 +183,7 @@ class TagEncodable(EPCScheme):
         Returns:
             TagEncodable: Instance of TagEncodable class
         """
-        if not TagEncodable.TAG_URI_REGEX.match(epc_tag_uri):
+        if not TagEncodable.TAG_URI_REGEX.fullmatch(epc_tag_uri):
             raise ConvertException(message=f"Invalid EPC tag URI {epc_tag_uri}")
 
         epc_scheme = epc_tag_uri.split(":")[3]
-- 
2.43.0


From c367f044925ce713a6957a15fc9291b719f19201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:52 +0000
Subject: [PATCH 11/21] fix: refuse binary encodings that cannot hold the
 identity

tag_uri() checked whether the serial fits the coding scheme, binary(), hex()
and base64() did not.  A serial with leading zeros silently changed, a large
one produced a tag of the wrong size and a non-numeric one raised ValueError.
---
 epcpy/epc_schemes/cpi.py   | 5 +++++
 epcpy/epc_schemes/gdti.py  | 5 +++++
 epcpy/epc_schemes/giai.py  | 5 +++++
 epcpy/epc_schemes/grai.py  | 5 +++++
 epcpy/epc_schemes/itip.py  | 5 +++++
 epcpy/epc_schemes/sgln.py  | 5 +++++
 epcpy/epc_schemes/sgtin.py | 5 +++++
 7 files changed, 35 insertions(+)

diff --git a/epcpy/epc_schemes/cpi.py b/epcpy/epc_schemes/cpi.py
index baab3e0..25e5d2c 100644
--- a/epcpy/epc_schemes/cpi.py
+++ b/epcpy/epc_schemes/cpi.py
@@ -304,6 +304,11 @@ class CPI(GS1Element, TagEncodable):
         Returns:
             str: binary representation
         """
+        # Raises if the identity does not fit the coding scheme
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         parts = [self._company_pref, self._cp_ref]
         serial = self._serial
 
diff --git a/epcpy/epc_schemes/gdti.py b/epcpy/epc_schemes/gdti.py
index f927ea9..fef0b37 100644
--- a/epcpy/epc_schemes/gdti.py
+++ b/epcpy/epc_schemes/gdti.py
@@ -248,6 +248,11 @@ class GDTI(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # Raises if the identity does not fit the coding scheme
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         parts = [self._company_pref, self._doc_type]
 
         header = GDTI.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index a40f18c..aa57293 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -308,6 +308,11 @@ class GIAI(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # Raises if the identity does not fit the coding scheme
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         header = GIAI.BinaryHeader[binary_coding_scheme.name].value
         filter_binary = str_to_binary(filter_value.value, 3)
         parts = [self._company_pref, self._asset_ref]
diff --git a/epcpy/epc_schemes/grai.py b/epcpy/epc_schemes/grai.py
index 3622695..1b7a918 100644
--- a/epcpy/epc_schemes/grai.py
+++ b/epcpy/epc_schemes/grai.py
@@ -243,6 +243,11 @@ class GRAI(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # Raises if the identity does not fit the coding scheme
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         parts = [self._company_pref, self._asset_type]
 
         header = GRAI.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/itip.py b/epcpy/epc_schemes/itip.py
index 034a5f7..172499f 100644
--- a/epcpy/epc_schemes/itip.py
+++ b/epcpy/epc_schemes/itip.py
@@ -246,6 +246,11 @@ class ITIP(GS1Element, TagEncodable):
         Returns:
             str: binary representation
         """
+        # Raises if the identity does not fit the coding scheme
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         parts = [self._company_pref, self._item_ref]
 
         header = ITIP.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/sgln.py b/epcpy/epc_schemes/sgln.py
index b028202..41d8bbc 100644
--- a/epcpy/epc_schemes/sgln.py
+++ b/epcpy/epc_schemes/sgln.py
@@ -243,6 +243,11 @@ class SGLN(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # Raises if the identity does not fit the coding scheme
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         parts = [self._company_pref, self._location_ref]
 
         header = SGLN.BinaryHeader[binary_coding_scheme.name].value
diff --git a/epcpy/epc_schemes/sgtin.py b/epcpy/epc_schemes/sgtin.py
index eb18597..0d1591c 100644
--- a/epcpy/epc_schemes/sgtin.py
+++ b/epcpy/epc_schemes/sgtin.py
@@ -307,6 +307,11 @@ class SGTIN(TagEncodable, GS1Keyed):
         Returns:
             str: binary representation
         """
+        # Raises if the identity does not fit the coding scheme
+        self.tag_uri(
+            binary_coding_scheme=binary_coding_scheme, filter_value=filter_value
+        )
+
         parts = [self._company_pref, self._item_ref]
 
         header = SGTIN.BinaryHeader[binary_coding_scheme.name].value
-- 
2.43.0


From 6a7770dd43b308b4835be7bde4a4ed90da90e298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:54 +0000
Subject: [PATCH 12/21] fix: raise ConvertException for unknown headers and
 non-binary characters

A tag of another scheme raised KeyError and a character other than 0 or 1
raised ValueError when decoding a binary string.
---
 epcpy/utils/common.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index cbfd134..a671c2a 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -17,6 +17,7 @@ ESCAPE_CHARACTERS = {
 }
 
 
+BINARY_REGEX = re.compile("[01]+")
 VERIFY_GS3A3_CHARS_REGEX = re.compile(VERIFY_GS3A3_CHARS)
 
 
@@ -554,6 +555,7 @@ def parse_header_and_truncate_binary(
     Raises:
         ConvertException: Invalid binary header
         ConvertException: Binary string too short
+        ConvertException: Invalid character in binary string
 
     Returns:
         Tuple[Enum, str]: Scheme and truncated binary
@@ -562,7 +564,7 @@ def parse_header_and_truncate_binary(
 
     try:
         scheme = header_to_schemes[header]
-    except ValueError:
+    except KeyError:
         raise ConvertException(message=f"{header} is not a valid header")
 
     _, size = scheme.value.split("-")
@@ -575,4 +577,7 @@ def parse_header_and_truncate_binary(
 
     truncated_binary = binary_string[:size]
 
+    if not BINARY_REGEX.fullmatch(truncated_binary):
+        raise ConvertException(message="Invalid character in binary string")
+
     return scheme, truncated_binary
-- 
2.43.0


From 98cd31ae80853532251c6c4ea6c11f86ee9493f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:57 +0000
Subject: [PATCH 13/21] fix: raise ConvertException for strings that are not
 hex or base64

Malformed input raised ValueError or binascii.Error, and int() also took
underscores, whitespace and signs for hexadecimal digits.
---
 epcpy/utils/common.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index a671c2a..b156410 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -18,6 +18,7 @@ ESCAPE_CHARACTERS = {
 
 
 BINARY_REGEX = re.compile("[01]+")
+HEX_REGEX = re.compile("[0-9a-fA-F]+")
 VERIFY_GS3A3_CHARS_REGEX = re.compile(VERIFY_GS3A3_CHARS)
 
 
@@ -113,11 +114,17 @@ def base64_to_hex(base64_string: str) -> str:
     Args:
         base64_string (str): Base64 string
 
+    Raises:
+        ConvertException: Not a base64 string
+
     Returns:
         str: Hexadecimal representation
     """
-    # Add padding to ensure valid padding
-    return base64.b64decode(f"{base64_string}==").hex()
+    try:
+        # Add padding to ensure valid padding
+        return base64.b64decode(f"{base64_string}==").hex()
+    except ValueError:
+        raise ConvertException(message="Invalid base64 string")
 
 
 def hex_to_base64(hex_string: str) -> str:
@@ -138,9 +145,15 @@ def hex_to_binary(hex_string: str) -> str:
     Args:
         hex_string (str): Hexadecimal string
 
+    Raises:
+        ConvertException: Not a hexadecimal string
+
     Returns:
         str: Binary string
     """
+    if not HEX_REGEX.fullmatch(hex_string):
+        raise ConvertException(message="Invalid hexadecimal string")
+
     return f"{int(hex_string, 16):0{len(hex_string * 4)}b}"
 
 
-- 
2.43.0


From ac3d367da0c5694b448e36dc8868a3c871fbf53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:16 +0000
Subject: [PATCH 14/21] fix: raise ConvertException for URIs with too few
 components

The generic parsers raised IndexError for strings with fewer than three
colons.
---
 epcpy/utils/parsers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epcpy/utils/parsers.py b/epcpy/utils/parsers.py
index 4318b70..bb089fe 100644
--- a/epcpy/utils/parsers.py
+++ b/epcpy/utils/parsers.py
@@ -148,7 +148,7 @@ def epc_pure_identity_to_scheme(epc_pure_identity_uri: str) -> EPCScheme:
     Returns:
         EPCScheme: EPCScheme instance for this URI
     """
-    identifier = epc_pure_identity_uri.split(":")[3]
+    identifier = "".join(epc_pure_identity_uri.split(":")[3:4])
 
     if identifier not in EPC_SCHEME_IDENTIFIERS:
         raise ConvertException(message="Unknown EPC URI")
@@ -317,7 +317,7 @@ def tag_uri_to_tag_encodable(epc_tag_uri: str) -> TagEncodable:
     Returns:
         TagEncodable: TagEncodable class for this tag URI
     """
-    identifier = epc_tag_uri.split(":")[3].split("-")[0]
+    identifier = "".join(epc_tag_uri.split(":")[3:4]).split("-")[0]
 
     if identifier not in TAG_ENCODABLE_SCHEME_IDENTIFIERS:
         raise ConvertException(message="Unknown TagEncodable scheme identifier")
-- 
2.43.0


From fc95320c5a946e0a2d5f2f6b04d18b557bb19dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:59:35 +0000
Subject: [PATCH 15/21] fix: look for ADI terminators on character boundaries

Six zero bits that span two characters were taken for the end of the part
number, so part numbers such as "PA" were decoded to something else.  A tag
cut off inside the serial was decoded instead of refused.
---
 epcpy/epc_schemes/adi.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/epcpy/epc_schemes/adi.py b/epcpy/epc_schemes/adi.py
index 5831370..1c4f744 100644
--- a/epcpy/epc_schemes/adi.py
+++ b/epcpy/epc_schemes/adi.py
@@ -200,21 +200,22 @@ class ADI(TagEncodable):
         filter_binary = truncated_binary[8:14]
         cage_code_binary = truncated_binary[14:50]
 
-        if not re.match(".*([0]{6})+.*", truncated_binary[50:]):
+        segments = re.findall("[0-1]{6}", truncated_binary[50:])
+
+        if segments.count("000000") < 2:
             raise ConvertException(
                 message="Invalid binary for ADI, missing 6-bit terminators"
             )
 
-        part_number_binary, _, *serial_binary = re.split(
-            "([0]{6})", truncated_binary[50:]
-        )
-        serial_binary_trimmed = "".join(serial_binary)[:-6]
+        part_number_end = segments.index("000000")
+        part_number_binary = "".join(segments[:part_number_end])
+        serial_binary = "".join(segments[part_number_end + 1 :])
 
         filter_string = binary_to_int(filter_binary)
         cage_code_string = decode_cage_code_six_bits(cage_code_binary)
         part_number_string = decode_string_six_bits(part_number_binary, 32)
 
-        serial_string = decode_string_six_bits(serial_binary_trimmed, 30)
+        serial_string = decode_string_six_bits(serial_binary, 30)
 
         return cls.from_tag_uri(
             f"{cls.TAG_URI_PREFIX}{binary_coding_scheme.value}:{filter_string}.{cage_code_string}.{part_number_string}.{serial_string}"
-- 
2.43.0


From d2a2842e05e57d55954741d0edba5e908a36744b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:01 +0000
Subject: [PATCH 16/21] fix: refuse CPI-var tags that are cut off

A tag that ended inside the serial was decoded with a different serial, or
serial 0 when nothing was left, and a shorter one raised ValueError.
---
 epcpy/epc_schemes/cpi.py | 5 ++++-
 epcpy/utils/common.py    | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/epcpy/epc_schemes/cpi.py b/epcpy/epc_schemes/cpi.py
index 25e5d2c..259c2d1 100644
--- a/epcpy/epc_schemes/cpi.py
+++ b/epcpy/epc_schemes/cpi.py
@@ -369,7 +369,10 @@ class CPI(GS1Element, TagEncodable):
                 if g == "000000":
                     is_serial = True
 
-            serial_binary = serial_binary[:40] if len(serial_binary) > 0 else "0"
+            serial_binary = serial_binary[:40]
+
+            if len(serial_binary) < 40:
+                raise ConvertException(message="Binary string too short for serial")
 
         filter_string = binary_to_int(filter_binary)
         serial_string = binary_to_int(serial_binary)
diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index b156410..a226bab 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -343,6 +343,7 @@ def decode_partition_table(
 
     Raises:
         ConvertException: Invalid partition header
+        ConvertException: Binary string too short
         ConvertException: Too long company prefix
         ConvertException: Too long item reference
 
@@ -351,9 +352,12 @@ def decode_partition_table(
     """
     try:
         partition = partition_table[binary_to_int(binary_string[:3])]
-    except KeyError:
+    except (KeyError, ValueError):
         raise ConvertException(message=f"Invalid partition header {binary_string[:3]}")
 
+    if len(binary_string) < 3 + partition["M"]:
+        raise ConvertException(message="Binary string too short for company prefix")
+
     C = binary_to_int(binary_string[3 : (3 + partition["M"])])
 
     D_bin = binary_string[(3 + partition["M"]) : (3 + partition["M"] + partition["N"])]
-- 
2.43.0


From 37d6e46a112c84293096953fbdcd8c13549062fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:04 +0000
Subject: [PATCH 17/21] fix: refuse CPI-96 tags whose part reference has too
 many digits

The reference field can hold values with one digit more than the partition
allows.  They were decoded to identities that CPI-96 refuses to encode.
---
 epcpy/utils/common.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index a226bab..07f1cfb 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -369,16 +369,15 @@ def decode_partition_table(
     else:
         D = str(binary_to_int(D_bin)) if partition["K"] != 0 else ""
 
-    compare_D = not (
-        unpadded_partition or string_partition or six_bit_variable_partition
-    )
+    compare_D = not (string_partition or six_bit_variable_partition)
+    pad_D = compare_D and not unpadded_partition
 
     if not C < pow(10, partition["L"]):
         raise ConvertException(message=f"Company prefix length too large")
     if D != "" and compare_D and not int(D) < pow(10, partition["K"]):
         raise ConvertException(message=f"Item reference length too large")
 
-    return f"{C:>0{partition['L']}}.{D:>0{partition['K'] if compare_D else 0}}"
+    return f"{C:>0{partition['L']}}.{D:>0{partition['K'] if pad_D else 0}}"
 
 
 def encode_numeric_string(string: str, bit_count: int) -> str:
-- 
2.43.0


From 7a1a75023674d0d4a9bace64ebef4335d7fc7b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:06 +0000
Subject: [PATCH 18/21] fix: raise ConvertException for very long GID and USDOD
 numbers

int() raises ValueError for numbers with thousands of digits.
---
 epcpy/epc_schemes/gid.py   |  7 ++++---
 epcpy/epc_schemes/usdod.py |  3 ++-
 epcpy/utils/common.py      | 16 ++++++++++++++++
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/epcpy/epc_schemes/gid.py b/epcpy/epc_schemes/gid.py
index c5daa6f..91e2f3a 100644
--- a/epcpy/epc_schemes/gid.py
+++ b/epcpy/epc_schemes/gid.py
@@ -7,6 +7,7 @@ from epcpy.epc_schemes.base_scheme import TagEncodable
 from epcpy.utils.common import (
     ConvertException,
     binary_to_int,
+    fits_in_bits,
     parse_header_and_truncate_binary,
     str_to_binary,
 )
@@ -49,13 +50,13 @@ class GID(TagEncodable):
 
         self._manager, self._object, self._serial = epc_uri.split(":")[4].split(".")
 
-        if int(self._manager) >= pow(2, 28):
+        if not fits_in_bits(self._manager, 28):
             raise ConvertException(message=f"Manager out of range: (max: {pow(2, 28)})")
 
-        if int(self._object) >= pow(2, 24):
+        if not fits_in_bits(self._object, 24):
             raise ConvertException(message=f"Object out of range: (max: {pow(2, 24)})")
 
-        if int(self._serial) >= pow(2, 36) or (
+        if not fits_in_bits(self._serial, 36) or (
             len(self._serial) > 1 and self._serial[0] == "0"
         ):
             raise ConvertException(message=f"Serial out of range: (max: {pow(2, 36)})")
diff --git a/epcpy/epc_schemes/usdod.py b/epcpy/epc_schemes/usdod.py
index 119cd5f..667a541 100644
--- a/epcpy/epc_schemes/usdod.py
+++ b/epcpy/epc_schemes/usdod.py
@@ -9,6 +9,7 @@ from epcpy.utils.common import (
     binary_to_int,
     decode_cage_code,
     encode_cage_code,
+    fits_in_bits,
     parse_header_and_truncate_binary,
     str_to_binary,
 )
@@ -70,7 +71,7 @@ class USDOD(TagEncodable):
 
         self._cage_dodaac, self._serial = epc_uri.split(":")[4].split(".")
 
-        if int(self._serial) >= pow(2, 36) or (
+        if not fits_in_bits(self._serial, 36) or (
             len(self._serial) > 1 and self._serial[0] == "0"
         ):
             raise ConvertException(message=f"Serial out of range: (max: {pow(2, 36)})")
diff --git a/epcpy/utils/common.py b/epcpy/utils/common.py
index 07f1cfb..13ba4da 100644
--- a/epcpy/utils/common.py
+++ b/epcpy/utils/common.py
@@ -95,6 +95,22 @@ def binary_to_int(binary: str) -> int:
     return int(binary, 2)
 
 
+def fits_in_bits(string: str, num_bits: int) -> bool:
+    """Check whether an integer as a string fits in the given amount of bits
+
+    Args:
+        string (str): Integer as a string, without leading zeros
+        num_bits (int): Amount of bits
+
+    Returns:
+        bool: Whether the integer fits
+    """
+    limit = pow(2, num_bits)
+
+    # Compare lengths first, Python refuses to parse very long integers
+    return len(string) <= len(str(limit)) and int(string) < limit
+
+
 def str_to_binary(string: str, num_bits: int) -> str:
     """Convert an integer as a string into a binary string of a given amount of bits.
 
-- 
2.43.0


From 356e2875547ea7dddf8643d593a3cf8de174639f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:15 +0000
Subject: [PATCH 19/21] fix: refuse company prefix lengths that reach past the
 digits in GIAI/GINC element strings

---
 epcpy/epc_schemes/giai.py | 5 +++++
 epcpy/epc_schemes/ginc.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/epcpy/epc_schemes/giai.py b/epcpy/epc_schemes/giai.py
index aa57293..8417be6 100644
--- a/epcpy/epc_schemes/giai.py
+++ b/epcpy/epc_schemes/giai.py
@@ -251,6 +251,11 @@ class GIAI(TagEncodable, GS1Keyed):
             )
 
         digits = gs1_element_string[6 : 6 + company_prefix_length]
+        if not digits.isdigit():
+            raise ConvertException(
+                message=f"Invalid company prefix length {company_prefix_length}"
+            )
+
         chars = gs1_element_string[6 + company_prefix_length :]
         chars = revert_uri_escapes(chars)
 
diff --git a/epcpy/epc_schemes/ginc.py b/epcpy/epc_schemes/ginc.py
index 175ef3d..c8c63ee 100644
--- a/epcpy/epc_schemes/ginc.py
+++ b/epcpy/epc_schemes/ginc.py
@@ -99,6 +99,11 @@ class GINC(GS1Keyed):
             )
 
         digits = gs1_element_string[5 : 5 + company_prefix_length]
+        if not digits.isdigit():
+            raise ConvertException(
+                message=f"Invalid company prefix length {company_prefix_length}"
+            )
+
         chars = gs1_element_string[5 + company_prefix_length :]
         chars = revert_uri_escapes(chars)
 
-- 
2.43.0


From 5285970f171386f404ff9729a9682582a0d1704b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:03 +0000
Subject: [PATCH 20/21] fix: refuse GTINs that are not digits when building an
 SGTIN

---
 epcpy/epc_schemes/sgtin.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/epcpy/epc_schemes/sgtin.py b/epcpy/epc_schemes/sgtin.py
index 0d1591c..73cf42d 100644
--- a/epcpy/epc_schemes/sgtin.py
+++ b/epcpy/epc_schemes/sgtin.py
@@ -184,9 +184,15 @@ class SGTIN(TagEncodable, GS1Keyed):
             serial (str): Serial value
             company_prefix_length (int): Length of company prefix
 
+        Raises:
+            ConvertException: GTIN does not consist of at most 14 digits
+
         Returns:
             SGTIN: Instance of SGTIN class based on the provided data
         """
+        if not re.fullmatch("[0-9]{1,14}", gtin):
+            raise ConvertException(message=f"Invalid GTIN {gtin}")
+
         gtin = gtin.zfill(14)
         return cls(
             f"urn:epc:id:sgtin:{gtin[1:1 + company_prefix_length]}.{gtin[0]}{gtin[1 + company_prefix_length:-1]}.{str(serial)}"
-- 
2.43.0


From 5233f93c11b2d9ac87a090c71c6de7551b5b8e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:42:48 +0000
Subject: [PATCH 21/21] fix: pass positional arguments of hex and base64 on to
 binary

hex() and base64() accepted positional arguments but dropped them. GSRN and
GSRNP then silently used filter value 0; other classes raised TypeError.
---
 epcpy/epc_schemes/base_scheme.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epcpy/epc_schemes/base_scheme.py b/epcpy/epc_schemes/base_scheme.py
index 7171edc..d3249bf 100644
--- a/epcpy/epc_schemes/base_scheme.py
+++ b/epcpy/epc_schemes/base_scheme.py
@@ -109,7 +109,7 @@ class TagEncodable(EPCScheme):
         Returns:
             str: The hexadecimal representation.
         """
-        binary = self.binary(**kwargs)
+        binary = self.binary(*args, **kwargs)
 
         padding = (16 - (len(binary) % 16)) % 16
         padded_binary = f"{binary:<0{len(binary) + padding}}"
@@ -122,7 +122,7 @@ class TagEncodable(EPCScheme):
         Returns:
             str: The base64 representation.
         """
-        hex_string = self.hex(**kwargs)
+        hex_string = self.hex(*args, **kwargs)
 
         return hex_to_base64(hex_string)
 
-- 
2.43.0

