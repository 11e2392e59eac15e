From 22976ea05560ce407fc22f0fb19b8cb76a18e42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:10 +0000
Subject: [PATCH 01/17] fix: IPv4 number parser accepts only ASCII digits of
 its radix

int() also accepts signs, underscores and radix prefixes ("-0", "1_0",
"0x0x1"), and refuses very long digit strings with ValueError.
---
 src/urlstd/parse.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index f15a6df..4ce8a95 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1186,11 +1186,14 @@ class IPv4Address:
         if len(address) == 0:
             return 0, True
 
-        try:
-            return int(address, r), validation_error
-        except ValueError:
-            pass
-        return -1, True
+        digits = {8: string.octdigits, 10: ASCII_DIGITS, 16: ASCII_HEX_DIGITS}
+        if any(c not in digits[r] for c in address):
+            return -1, True
+        # int() refuses very long digit strings
+        address = address.lstrip("0") or "0"
+        if len(address) > 11:
+            return 1 << 32, validation_error
+        return int(address, r), validation_error
 
     @classmethod
     def is_ends_in_a_number(cls, address: str) -> bool:
-- 
2.43.0


From 6680566373d98537b116b1dd788faeae37d4ebaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:10 +0000
Subject: [PATCH 02/17] fix: reject IPv4 addresses with any non-last part above
 255

"256.256" was accepted because the last part was also above 255.
---
 src/urlstd/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 4ce8a95..517d35a 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1268,7 +1268,7 @@ class IPv4Address:
                 numbers,
                 **kwargs,
             )
-        if any(x > 255 for x in numbers[:-1]) and numbers[-1] <= 255:
+        if any(x > 255 for x in numbers[:-1]):
             log.error(
                 "any part but the last part of the IPv4 address is greater than 255: "
                 "%r (%r)",
-- 
2.43.0


From 45a8b723f400d90d593ad46ae64f6b866d629229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:10 +0000
Subject: [PATCH 03/17] fix: IPv6 parser treats "::" at either end of the
 address correctly

"[:::1]" was accepted and "[1:2:3:4:5:6:7::]" was rejected.
---
 src/urlstd/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 517d35a..a86d741 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1335,9 +1335,9 @@ class IPv6Address:
 
         ipv6_address = [0] * 8
         piece = ""
-        previous: Optional[str] = None
+        previous: Optional[str] = None if compress is None else ":"
         for c in cpstream(address[start:]):
-            if piece_index >= 8:
+            if piece_index >= 8 and not iseof(c):
                 log.error(
                     "IPv6-too-many-pieces: "
                     "IPv6 address contains more than 8 pieces: %r",
-- 
2.43.0


From a6e7042ea98470040fdb32615e01c4c86a9e4a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:10 +0000
Subject: [PATCH 04/17] fix: an embedded IPv4 address must be the last part of
 an IPv6 address

"[::1.2.3.4:5]" and "[1.2.3.4::]" were accepted.
---
 src/urlstd/parse.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index a86d741..d9f83cb 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1424,13 +1424,17 @@ class IPv6Address:
                     f"IPv6 address has more than 6 pieces: {address!r}"
                 )
             ipv4_pieces = piece.split(".")
-            if len(ipv4_pieces) > 4 or any(
-                [
-                    len(x) == 0
-                    or any(y not in ASCII_DIGITS for y in x)
-                    or (len(x) >= 2 and x[0] == "0")
-                    for x in ipv4_pieces
-                ]
+            if (
+                not iseof(c)
+                or len(ipv4_pieces) > 4
+                or any(
+                    [
+                        len(x) == 0
+                        or any(y not in ASCII_DIGITS for y in x)
+                        or (len(x) >= 2 and x[0] == "0")
+                        for x in ipv4_pieces
+                    ]
+                )
             ):
                 log.error(
                     "IPv4-in-IPv6-invalid-code-point: "
-- 
2.43.0


From 5aa566b26cbd1175669779d656aece2ca4508194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:10 +0000
Subject: [PATCH 05/17] fix: reject very long IPv4 parts in IPv6 addresses
 without ValueError

---
 src/urlstd/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index d9f83cb..780332d 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1452,7 +1452,7 @@ class IPv6Address:
                     f"IPv4 part contains a leading 0 / "
                     f"there are too many IPv4 parts: {piece!r} in {address!r}"
                 )
-            elif any([int(x) > 255 for x in ipv4_pieces]):
+            elif any([len(x) > 3 or int(x) > 255 for x in ipv4_pieces]):
                 log.error(
                     "IPv4-in-IPv6-out-of-range-part: "
                     "IPv6 address with IPv4 address syntax: "
-- 
2.43.0


From c3cc39aee611c827d9aa43a1cc562077d02d6324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:28 +0000
Subject: [PATCH 06/17] fix: very long port numbers raise URLParseError, not
 ValueError

---
 src/urlstd/parse.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 780332d..29c2db4 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -3689,16 +3689,17 @@ class BasicURLParser:
                 or state_override
             ):
                 if len(buffer) > 0:
-                    port = int(buffer)
+                    # int() refuses very long digit strings
+                    port = int(buffer.lstrip("0")[:6] or "0")
                     if port > 0xFFFF:
                         log.error(
-                            "port-out-of-range: input’s port is too big: %d in %r",
-                            port,
+                            "port-out-of-range: input’s port is too big: %s in %r",
+                            buffer,
                             urlstring,
                             **kwargs,
                         )
                         raise URLParseError(
-                            f"input’s port is too big: {port} in {urlstring!r}"
+                            f"input’s port is too big: {buffer} in {urlstring!r}"
                         )
                     if SPECIAL_SCHEMES.get(url.scheme) == port:
                         url.port = None
-- 
2.43.0


From 1d6e87ae2981d7817849cbb60d312128c81bf625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:28 +0000
Subject: [PATCH 07/17] fix: an empty reference resolved against a file URL
 keeps its path

URL("", base="file:///a/b") gave "file:///a/b/".
---
 src/urlstd/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 29c2db4..9bb704e 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -3193,6 +3193,8 @@ class BasicURLParser:
                     )
                     url.path = []
                 return URLParserState.PATH_STATE, index - 1
+            else:
+                return URLParserState.EOF, index - 1
         return URLParserState.PATH_STATE, index - 1
 
     @classmethod
-- 
2.43.0


From 4aecd5e9b775616e9be7692b87e4f56a22617412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:28 +0000
Subject: [PATCH 08/17] fix: port 0 is a non-null port in the host and protocol
 setters

---
 src/urlstd/parse.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 9bb704e..88e13e9 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -3392,7 +3392,7 @@ class BasicURLParser:
                 elif (
                     state_override
                     and len(buffer) == 0
-                    and (url.includes_credentials() or url.port)
+                    and (url.includes_credentials() or url.port is not None)
                 ):
                     return URLParserState.EOF, index
                 url.host = Host.parse(buffer, url.is_not_special(), **kwargs)
@@ -3913,7 +3913,10 @@ class BasicURLParser:
                         (url.is_special() and buffer not in SPECIAL_SCHEMES)
                         or (url.is_not_special() and buffer in SPECIAL_SCHEMES)
                         or (
-                            (url.includes_credentials() or url.port)
+                            (
+                                url.includes_credentials()
+                                or url.port is not None
+                            )
                             and buffer == "file"
                         )
                         or (
-- 
2.43.0


From af2a129b65d68e16f84e5af25278b9e52dbacfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:42 +0000
Subject: [PATCH 09/17] fix: surrogate pairs in an opaque path are one code
 point

Encoding the path character by character turned each pair into two U+FFFD.
---
 src/urlstd/parse.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 88e13e9..67100d9 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -3463,9 +3463,13 @@ class BasicURLParser:
         del base
         log = get_logger(cls)
         index = start
-        # TODO: Use buffer.
+        buffer = ""
         for c in cpstream(urlstring[index:]):
             index += 1
+            if iseof(c) or iscp(c, "?#"):
+                url.path += utf8_percent_encode(  # type: ignore
+                    buffer, SAFE_C0_CONTROL_PERCENT_ENCODE_SET
+                )
             if c == "?":
                 url.query = ""
                 return URLParserState.QUERY_STATE, index
@@ -3505,9 +3509,7 @@ class BasicURLParser:
                     # return URLParserState.EOF, index - 1
                     break
                 else:
-                    url.path += utf8_percent_encode(  # type: ignore
-                        c, SAFE_C0_CONTROL_PERCENT_ENCODE_SET
-                    )
+                    buffer += c
         return URLParserState.EOF, index - 1
 
     @classmethod
-- 
2.43.0


From c79e5bfe1eab3153411060578398b16cf2d7a99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:42 +0000
Subject: [PATCH 10/17] fix: application/x-www-form-urlencoded serialising
 escapes U+007E (~)

quote() leaves "~" alone even when it is not in the safe set.
---
 src/urlstd/parse.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 67100d9..b64ac12 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -350,8 +350,12 @@ def string_percent_encode(
     """
     s = s.encode("utf-16", "surrogatepass").decode("utf-16", "replace")
     quote_via = quote_plus if space_as_plus else quote
+    # quote() never encodes U+007E (~)
+    tilde = "~" if "~" in safe else "%7E"
     try:
-        return quote_via(s, safe=safe, encoding=encoding, errors="strict")
+        return quote_via(
+            s, safe=safe, encoding=encoding, errors="strict"
+        ).replace("~", tilde)
     except UnicodeEncodeError:
         pass
 
@@ -361,7 +365,7 @@ def string_percent_encode(
             output += quote_via(b)  # "%26%23" ASCII-digits "%3B"
         else:
             output += quote_via(b, safe=safe)
-    return output
+    return output.replace("~", tilde)
 
 
 def u16len(s: str) -> int:
-- 
2.43.0


From aa4bfbc3c03384fd36837f256d00f94b8bbfda2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:42 +0000
Subject: [PATCH 11/17] fix: URLSearchParams methods take names and values
 literally

append("a%20b", "%41") stored ("a b", "A"), and get("%41") found "A".
---
 src/urlstd/parse.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index b64ac12..59e4cca 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -2126,8 +2126,8 @@ class URLSearchParams(Collection):
             >>> list(params)
             [('a', '1'), ('b', '2'), ('a', '3')]
         """
-        name = utf8_decode(string_percent_decode(name))
-        value = utf8_decode(string_percent_decode(str(value)))
+        name = utf8_decode(utf8_encode(name))
+        value = utf8_decode(utf8_encode(str(value)))
         self._list.append((name, value))
         self._update()
 
@@ -2165,7 +2165,7 @@ class URLSearchParams(Collection):
             >>> list(params)
             [('a', '1'), ('b', '2')]
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(name))
         for i, name_value in reversed(list(enumerate(self._list))):
             if name_value[0] == name:
                 if value is not None and name_value[1] != value:
@@ -2200,7 +2200,7 @@ class URLSearchParams(Collection):
             '1'
             >>> params.get('c')  # → None
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(name))
         for name_value in self._list:
             if name_value[0] == name:
                 return name_value[1]
@@ -2223,7 +2223,7 @@ class URLSearchParams(Collection):
             >>> params.get_all('c')
             ()
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(name))
         return tuple(
             [
                 name_value[1]
@@ -2246,7 +2246,7 @@ class URLSearchParams(Collection):
             *True* if a name-value pair with the specified *name* and *value* exists,
             *False* otherwise.
         """
-        name = utf8_decode(string_percent_decode(name))
+        name = utf8_decode(utf8_encode(name))
         for name_value in self._list:
             if name_value[0] == name:
                 if value is not None and name_value[1] != value:
@@ -2279,8 +2279,8 @@ class URLSearchParams(Collection):
             >>> list(params)
             [('a', '4'), ('b', '2')]
         """
-        name = utf8_decode(string_percent_decode(name))
-        value = utf8_decode(string_percent_decode(str(value)))
+        name = utf8_decode(utf8_encode(name))
+        value = utf8_decode(utf8_encode(str(value)))
         items = self._list
         found = -1
         for index, name_value in enumerate(items):
-- 
2.43.0


From 2dd0cec7d2995c962fc914c1524a0902da3a4258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:42 +0000
Subject: [PATCH 12/17] fix: URLSearchParams has and delete compare values by
 their string form

A number never matched, nor did a value with surrogates.
---
 src/urlstd/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 59e4cca..5944b1d 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -2166,6 +2166,8 @@ class URLSearchParams(Collection):
             [('a', '1'), ('b', '2')]
         """
         name = utf8_decode(utf8_encode(name))
+        if value is not None:
+            value = utf8_decode(utf8_encode(str(value)))
         for i, name_value in reversed(list(enumerate(self._list))):
             if name_value[0] == name:
                 if value is not None and name_value[1] != value:
@@ -2247,6 +2249,8 @@ class URLSearchParams(Collection):
             *False* otherwise.
         """
         name = utf8_decode(utf8_encode(name))
+        if value is not None:
+            value = utf8_decode(utf8_encode(str(value)))
         for name_value in self._list:
             if name_value[0] == name:
                 if value is not None and name_value[1] != value:
-- 
2.43.0


From b4c2a4cf52647683d07bff02b11040f468542692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:02 +0000
Subject: [PATCH 13/17] fix: IPv4 validator does not call int() on very long
 digit strings

---
 src/urlstd/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 5944b1d..ed028be 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -868,7 +868,7 @@ more than one spot: '1::1::1'"],
                     )
                 return False
 
-            if not (0 <= int(part) <= 255):
+            if not (0 <= result[0] <= 255):
                 if validity:
                     validity.prepend(
                         "IPv4-out-of-range-part: "
-- 
2.43.0


From 8aebb1c5f6deb554239e083ed182bf20cfc8c949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:40 +0000
Subject: [PATCH 14/17] fix: IDNA processing and host validation accept strings
 with surrogates

HostValidator.is_valid("\\ud800") raised TypeError from the ICU binding.
---
 src/urlstd/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index ed028be..0f0f229 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1042,6 +1042,7 @@ class IDNA:
             urlstd.error.IDNAError: Raised when IDNA processing fails.
         """
         log = get_logger(cls)
+        domain = utf8_decode(utf8_encode(domain))
         info = icu.IDNAInfo()
         try:
             options = (
@@ -1121,6 +1122,7 @@ class IDNA:
             urlstd.error.IDNAError: Raised when IDNA processing fails.
         """
         log = get_logger(cls)
+        domain = utf8_decode(utf8_encode(domain))
         info = icu.IDNAInfo()
         try:
             options = (
-- 
2.43.0


From 8d3caf45e3bc7250a5bcde0c96922cf1bc4f3a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:50 +0000
Subject: [PATCH 15/17] fix: non-ASCII strings are not registered URL schemes

---
 src/urlstd/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 0f0f229..4ee3808 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -2983,7 +2983,7 @@ U+007C (|) in 'file:///C|/demo' at position 9"],
 
         # https://url.spec.whatwg.org/#url-scheme-string
         scheme = value.lower()
-        if len(scheme) > 0 and scheme in REGISTERED_SCHEMES:
+        if value.isascii() and scheme in REGISTERED_SCHEMES:
             return True
         validity.prepend(
             "scheme is not registered in the IANA URI Schemes registry: %r",
-- 
2.43.0


From 6c043981353b0c3f58f0bee7ec7a75029bea3830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:15 +0000
Subject: [PATCH 16/17] fix: queries in UTF-16 are encoded as UTF-8

---
 src/urlstd/parse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 4ee3808..9a11755 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -139,7 +139,9 @@ UTF8_CODECS = frozenset(["utf_8", "u8", "utf", "utf8", "cp65001"])
 
 UTF16BE_CODECS = frozenset(["utf_16_be", "utf-16be", "utf-16-be"])
 
-UTF16LE_CODECS = frozenset(["utf_16_le", "utf-16le", "utf-16-le"])
+UTF16LE_CODECS = frozenset(
+    ["utf_16_le", "utf-16le", "utf-16-le", "utf_16", "utf-16", "u16", "utf16"]
+)
 
 ERROR_TYPE_UNDEFINED = "undefined"
 
-- 
2.43.0


From fc1e777e3f63c7dcf5b95678fc765f36f83e9a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:58 +0000
Subject: [PATCH 17/17] fix: same origin-domain check ignores an empty domain
 that both origins share

---
 src/urlstd/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urlstd/parse.py b/src/urlstd/parse.py
index 9a11755..2d2bf5f 100644
--- a/src/urlstd/parse.py
+++ b/src/urlstd/parse.py
@@ -1629,7 +1629,7 @@ class Origin(NamedTuple):
         """
         if (
             self.scheme == other.scheme
-            and self.domain
+            and self.domain is not None
             and self.domain == other.domain
         ) or (
             self.is_same_origin(other)
-- 
2.43.0

