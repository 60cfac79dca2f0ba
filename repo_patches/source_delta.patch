From 28142c8d1bfbc05f1f47782b1862d062a8758d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:10 +0000
Subject: [PATCH 01/77] fix: string values are unchanged when assigning an
 unencodable value fails

---
 asn1crypto/core.py | 4 +++-
 asn1crypto/x509.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index a07cd97..ef5df75 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1808,8 +1808,10 @@ class AbstractString(Constructable, Primitive):
                 type_name(value)
             ))
 
+        encoded_value = value.encode(self._encoding)
+
         self._unicode = value
-        self.contents = value.encode(self._encoding)
+        self.contents = encoded_value
         self._header = None
         if self._indefinite:
             self._indefinite = False
diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 38aa770..2e2ab97 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -140,8 +140,10 @@ class URI(IA5String):
                 type_name(value)
             ))
 
+        encoded_value = iri_to_uri(value)
+
         self._unicode = value
-        self.contents = iri_to_uri(value)
+        self.contents = encoded_value
         self._header = None
         if self._trailer != b'':
             self._trailer = b''
-- 
2.43.0


From 81fd814acd2fedcd5b95d499c1e96a0e8dd46ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:15 +0000
Subject: [PATCH 02/77] fix: ObjectIdentifier.set() drops the cached dotted
 form and is unchanged on failure

---
 asn1crypto/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index ef5df75..39b6d5f 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3105,13 +3105,13 @@ class ObjectIdentifier(Primitive, ValueMap):
                 type_name(value)
             ))
 
-        self._native = value
+        native = value
 
         if self._map is not None:
             if value in self._reverse_map:
                 value = self._reverse_map[value]
 
-        self.contents = b''
+        contents = b''
         first = None
         for index, part in enumerate(value.split('.')):
             part = int(part)
@@ -3143,8 +3143,11 @@ class ObjectIdentifier(Primitive, ValueMap):
             while part > 0:
                 encoded_part = chr_cls(0x80 | (0x7F & part)) + encoded_part
                 part = part >> 7
-            self.contents += encoded_part
+            contents += encoded_part
 
+        self._native = native
+        self._dotted = None
+        self.contents = contents
         self._header = None
         if self._trailer != b'':
             self._trailer = b''
-- 
2.43.0


From cae7d421e4c9857696b2d2bc83bc494f737ace87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:18 +0000
Subject: [PATCH 03/77] fix: BitString.set() is unchanged on failure and does
 not keep the caller's set

---
 asn1crypto/core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 39b6d5f..94978b9 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2144,7 +2144,7 @@ class BitString(_IntegerBitString, Constructable, Castable, Primitive, ValueMap)
                 ))
 
             bits = [0] * self._size
-            self._native = value
+            native = set(value)
             for index in range(0, self._size):
                 key = self._map.get(index)
                 if key is None:
@@ -2156,13 +2156,13 @@ class BitString(_IntegerBitString, Constructable, Castable, Primitive, ValueMap)
 
         elif value.__class__ == tuple:
             if self._map is None:
-                self._native = value
+                native = value
             else:
-                self._native = set()
+                native = set()
                 for index, bit in enumerate(value):
                     if bit:
                         name = self._map.get(index, index)
-                        self._native.add(name)
+                        native.add(name)
             value = ''.join(map(str_cls, value))
 
         else:
@@ -2213,6 +2213,7 @@ class BitString(_IntegerBitString, Constructable, Castable, Primitive, ValueMap)
         if len(value_bytes) != size_in_bytes:
             value_bytes = (b'\x00' * (size_in_bytes - len(value_bytes))) + value_bytes
 
+        self._native = native
         self.contents = extra_bits_byte + value_bytes
         self._unused_bits = (0,) * extra_bits
         self._header = None
-- 
2.43.0


From 193b95146bf55469906443e684c795fc9cdde115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:45 +0000
Subject: [PATCH 04/77] fix: BitString item assignment is unchanged on failure

---
 asn1crypto/core.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 94978b9..274fc1d 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2312,20 +2312,19 @@ class BitString(_IntegerBitString, Constructable, Castable, Primitive, ValueMap)
             if key > max_key:
                 new_native.extend([0] * (key - max_key))
             new_native[key] = 1 if value else 0
-            self._native = tuple(new_native)
+            new_native = tuple(new_native)
 
         else:
             if is_int:
                 key = self._map.get(key, key)
 
+            new_native = set(self._native)
             if value:
-                if key not in self._native:
-                    self._native.add(key)
+                new_native.add(key)
             else:
-                if key in self._native:
-                    self._native.remove(key)
+                new_native.discard(key)
 
-        self.set(self._native)
+        self.set(new_native)
 
     @property
     def native(self):
-- 
2.43.0


From 10a9c8b107a174832adfabb7e73dc6dc46542862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:20 +0000
Subject: [PATCH 05/77] fix: ParsableOctetString.set() drops the value parsed
 from the old contents

---
 asn1crypto/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 274fc1d..0b0de6e 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2779,6 +2779,7 @@ class ParsableOctetString(Constructable, Castable, Primitive):
             ))
 
         self._bytes = value
+        self._parsed = None
         self.contents = value
         self._header = None
         if self._indefinite:
@@ -2896,12 +2897,14 @@ class ParsableOctetString(Constructable, Castable, Primitive):
             force = True
 
         if force:
-            if self._parsed is not None:
-                native = self.parsed.dump(force=force)
+            parsed = self._parsed
+            if parsed is not None:
+                native = parsed[0].dump(force=force)
             else:
                 native = self.native
             self.contents = None
             self.set(native)
+            self._parsed = parsed
 
         return Asn1Value.dump(self)
 
@@ -2931,6 +2934,7 @@ class ParsableOctetBitString(ParsableOctetString):
             ))
 
         self._bytes = value
+        self._parsed = None
         # Set the unused bits to 0
         self.contents = b'\x00' + value
         self._header = None
-- 
2.43.0


From ed1f6fb33cac62b83ed161dbc7cd3dfe87c5a210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:24 +0000
Subject: [PATCH 06/77] fix: Null.set() drops the header of the old encoding

---
 asn1crypto/core.py | 3 +++
 asn1crypto/ocsp.py | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 0b0de6e..04a084b 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2980,6 +2980,9 @@ class Null(Primitive):
         """
 
         self.contents = b''
+        self._header = None
+        if self._trailer != b'':
+            self._trailer = b''
 
     @property
     def native(self):
diff --git a/asn1crypto/ocsp.py b/asn1crypto/ocsp.py
index 91c7fbf..4f83fea 100644
--- a/asn1crypto/ocsp.py
+++ b/asn1crypto/ocsp.py
@@ -339,6 +339,9 @@ class StatusGood(Null):
             ))
 
         self.contents = b''
+        self._header = None
+        if self._trailer != b'':
+            self._trailer = b''
 
     @property
     def native(self):
@@ -364,6 +367,9 @@ class StatusUnknown(Null):
             ))
 
         self.contents = b''
+        self._header = None
+        if self._trailer != b'':
+            self._trailer = b''
 
     @property
     def native(self):
-- 
2.43.0


From 961f189460829253b23b612859e1d26c8b4d870d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:28 +0000
Subject: [PATCH 07/77] fix: assigning GeneralName strings clears the
 indefinite-length form of the old value

---
 asn1crypto/x509.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 2e2ab97..365b716 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -117,6 +117,9 @@ class DNSName(IA5String):
         self._unicode = value
         self.contents = encoded_value
         self._header = None
+        if self._indefinite:
+            self._indefinite = False
+            self.method = 0
         if self._trailer != b'':
             self._trailer = b''
 
@@ -145,6 +148,9 @@ class URI(IA5String):
         self._unicode = value
         self.contents = encoded_value
         self._header = None
+        if self._indefinite:
+            self._indefinite = False
+            self.method = 0
         if self._trailer != b'':
             self._trailer = b''
 
@@ -236,6 +242,9 @@ class EmailAddress(IA5String):
         self._unicode = value
         self.contents = encoded_value
         self._header = None
+        if self._indefinite:
+            self._indefinite = False
+            self.method = 0
         if self._trailer != b'':
             self._trailer = b''
 
@@ -373,6 +382,9 @@ class IPAddress(OctetString):
         self.contents = inet_pton(family, value) + cidr_bytes
         self._bytes = self.contents
         self._header = None
+        if self._indefinite:
+            self._indefinite = False
+            self.method = 0
         if self._trailer != b'':
             self._trailer = b''
 
-- 
2.43.0


From b7089e285cb7111f9fca771100311b693244d07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:33 +0000
Subject: [PATCH 08/77] fix: EmailAddress.set() marks the value as normalized

---
 asn1crypto/x509.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 365b716..a709672 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -238,9 +238,10 @@ class EmailAddress(IA5String):
         else:
             encoded_value = value.encode('ascii')
 
-        self._normalized = True
         self._unicode = value
         self.contents = encoded_value
+        # Setting .contents resets this flag
+        self._normalized = True
         self._header = None
         if self._indefinite:
             self._indefinite = False
-- 
2.43.0


From fb26bda39f3a2f0813aea94ee636b5c904ba604b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:36 +0000
Subject: [PATCH 09/77] fix: IPAddress.set() is unchanged on failure

---
 asn1crypto/x509.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index a709672..ec53b16 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -379,9 +379,11 @@ class IPAddress(OctetString):
             cidr_bytes = int_to_bytes(int(cidr_mask, 2))
             cidr_bytes = (b'\x00' * ((cidr_size // 8) - len(cidr_bytes))) + cidr_bytes
 
+        encoded_value = inet_pton(family, value) + cidr_bytes
+
         self._native = original_value
-        self.contents = inet_pton(family, value) + cidr_bytes
-        self._bytes = self.contents
+        self.contents = encoded_value
+        self._bytes = encoded_value
         self._header = None
         if self._indefinite:
             self._indefinite = False
-- 
2.43.0


From f27e54a8633e200b326c329ca6fe5378d9dbafff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:25 +0000
Subject: [PATCH 10/77] fix: IntegerOctetString is unchanged when a value does
 not fit the encoded width

---
 asn1crypto/core.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 04a084b..103d2ef 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2689,8 +2689,10 @@ class IntegerOctetString(Constructable, Castable, Primitive):
                 value
             ))
 
+        encoded_value = int_to_bytes(value, signed=False, width=self._encoded_width)
+
         self._native = value
-        self.contents = int_to_bytes(value, signed=False, width=self._encoded_width)
+        self.contents = encoded_value
         self._header = None
         if self._indefinite:
             self._indefinite = False
@@ -2722,10 +2724,15 @@ class IntegerOctetString(Constructable, Castable, Primitive):
             An integer byte width to encode the integer to
         """
 
-        self._encoded_width = width
-        # Make sure the encoded value is up-to-date with the proper width
-        if self.contents is not None and len(self.contents) != width:
-            self.set(self.native)
+        previous_width = self._encoded_width
+        try:
+            self._encoded_width = width
+            # Make sure the encoded value is up-to-date with the proper width
+            if self.contents is not None and len(self.contents) != width:
+                self.set(self.native)
+        except Exception:
+            self._encoded_width = previous_width
+            raise
 
 
 class ParsableOctetString(Constructable, Castable, Primitive):
-- 
2.43.0


From 6c64f8a91d5bf660aa2083619e55f51d5a6551e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:31 +0000
Subject: [PATCH 11/77] fix: Sequence item assignment is unchanged when the
 native value can not be decoded

---
 asn1crypto/core.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 103d2ef..ba54304 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3629,10 +3629,9 @@ class Sequence(Asn1Value):
                 type_name(self)
             ))
 
-        self.children[key] = new_value
-
         if self._native is not None:
-            self._native[self._fields[key][0]] = self.children[key].native
+            self._native[field_name] = new_value.native
+        self.children[key] = new_value
         self._mutated = True
 
     def __delitem__(self, key):
-- 
2.43.0


From d0ce67a9ae07e9a66806f109199cbaf3316123c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:49 +0000
Subject: [PATCH 12/77] fix: SequenceOf item assignment is unchanged when the
 native value can not be decoded

---
 asn1crypto/core.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index ba54304..7157b4b 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4395,6 +4395,7 @@ class SequenceOf(Asn1Value):
             self._parse_children()
 
         new_value = self._make_value(value)
+        new_native = None if self._native is None else new_value.native
 
         # If adding at the end, create a space for the new value
         if key == len(self.children):
@@ -4405,7 +4406,7 @@ class SequenceOf(Asn1Value):
         self.children[key] = new_value
 
         if self._native is not None:
-            self._native[key] = self.children[key].native
+            self._native[key] = new_native
 
         self._mutated = True
 
@@ -4482,10 +4483,13 @@ class SequenceOf(Asn1Value):
         if self.children is None:
             self._parse_children()
 
-        self.children.append(self._make_value(value))
+        new_value = self._make_value(value)
+        new_native = None if self._native is None else new_value.native
+
+        self.children.append(new_value)
 
         if self._native is not None:
-            self._native.append(self.children[-1].native)
+            self._native.append(new_native)
 
         self._mutated = True
 
-- 
2.43.0


From 78ae017570344758570ed5621442c6cc73ad1a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:54 +0000
Subject: [PATCH 13/77] fix: structures edited through a choice are re-encoded

---
 asn1crypto/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 7157b4b..169dadd 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3508,6 +3508,9 @@ class Sequence(Asn1Value):
         mutated = self._mutated
         if self.children is not None:
             for child in self.children:
+                # A choice has no state of its own, only the chosen value does
+                while isinstance(child, Choice):
+                    child = child._parsed
                 if isinstance(child, Sequence) or isinstance(child, SequenceOf):
                     mutated = mutated or child._is_mutated()
 
@@ -4282,6 +4285,9 @@ class SequenceOf(Asn1Value):
         mutated = self._mutated
         if self.children is not None:
             for child in self.children:
+                # A choice has no state of its own, only the chosen value does
+                while isinstance(child, Choice):
+                    child = child._parsed
                 if isinstance(child, Sequence) or isinstance(child, SequenceOf):
                     mutated = mutated or child._is_mutated()
 
-- 
2.43.0


From 994177964e112be481c2dca89b1249a41df1f2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:45 +0000
Subject: [PATCH 14/77] fix: the explicit tag of a choice is re-encoded when
 the chosen value was edited

---
 asn1crypto/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 169dadd..c2fdf54 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1353,8 +1353,10 @@ class Choice(Asn1Value):
         if self._header is not None and self._header[-1:] == b'\x80':
             force = True
 
-        self._contents = self.chosen.dump(force=force)
-        if self._header is None or force:
+        contents = self.chosen.dump(force=force)
+        # The header of an explicit tag includes the length of the contents
+        if self._header is None or force or contents != self._contents:
+            self._contents = contents
             self._header = b''
             if self.explicit is not None:
                 for class_, tag in self.explicit:
-- 
2.43.0


From e396004cc8fcecec5cb67046bb24148c39ebf053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:14 +0000
Subject: [PATCH 15/77] fix: V2Form components of attribute certificates are
 implicitly tagged (RFC 5755)

---
 asn1crypto/cms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/cms.py b/asn1crypto/cms.py
index b104c99..ba51c5a 100644
--- a/asn1crypto/cms.py
+++ b/asn1crypto/cms.py
@@ -268,8 +268,8 @@ class Holder(Sequence):
 class V2Form(Sequence):
     _fields = [
         ('issuer_name', GeneralNames, {'optional': True}),
-        ('base_certificate_id', IssuerSerial, {'explicit': 0, 'optional': True}),
-        ('object_digest_info', ObjectDigestInfo, {'explicit': 1, 'optional': True}),
+        ('base_certificate_id', IssuerSerial, {'implicit': 0, 'optional': True}),
+        ('object_digest_info', ObjectDigestInfo, {'implicit': 1, 'optional': True}),
     ]
 
 
-- 
2.43.0


From 0b5f5ca9f777a78571ebd3ceb9bd49ec09a0e58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:18 +0000
Subject: [PATCH 16/77] fix: the CCM ICV length defaults to 12 (RFC 5084)

---
 asn1crypto/algos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 3a4b18f..35024b9 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -630,7 +630,7 @@ class CcmParams(Sequence):
     # aes_ICVlen: 4 | 6 | 8 | 10 | 12 | 14 | 16
     _fields = [
         ('aes_nonce', OctetString),
-        ('aes_icvlen', Integer),
+        ('aes_icvlen', Integer, {'default': 12}),
     ]
 
 
-- 
2.43.0


From 781b88ff6d1265f8083575f58d3bb8a2035f1afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:23 +0000
Subject: [PATCH 17/77] fix: the value of a CMS other key attribute is optional
 (RFC 5652)

---
 asn1crypto/cms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/cms.py b/asn1crypto/cms.py
index ba51c5a..545e01c 100644
--- a/asn1crypto/cms.py
+++ b/asn1crypto/cms.py
@@ -718,7 +718,7 @@ class OriginatorIdentifierOrKey(Choice):
 class OtherKeyAttribute(Sequence):
     _fields = [
         ('key_attr_id', ObjectIdentifier),
-        ('key_attr', Any),
+        ('key_attr', Any, {'optional': True}),
     ]
 
 
-- 
2.43.0


From 00fe945f38765800c8e32b444900a837c779fa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:27 +0000
Subject: [PATCH 18/77] fix: an S/MIME subject alternative key identifier is an
 octet string (RFC 5751)

---
 asn1crypto/cms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/cms.py b/asn1crypto/cms.py
index 545e01c..40ee987 100644
--- a/asn1crypto/cms.py
+++ b/asn1crypto/cms.py
@@ -939,7 +939,7 @@ class SMIMEEncryptionKeyPreference(Choice):
     _alternatives = [
         ('issuer_and_serial_number', IssuerAndSerialNumber, {'implicit': 0}),
         ('recipient_key_id', RecipientKeyIdentifier, {'implicit': 1}),
-        ('subject_alt_key_identifier', PublicKeyInfo, {'implicit': 2}),
+        ('subject_alt_key_identifier', OctetString, {'implicit': 2}),
     ]
 
     def _setup(self):
-- 
2.43.0


From 727cc50957439dd8ea18b6e6931836b01b7fd421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:31 +0000
Subject: [PATCH 19/77] fix: a time-stamp response may lack a token (RFC 3161)

---
 asn1crypto/tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/tsp.py b/asn1crypto/tsp.py
index f006da9..f078205 100644
--- a/asn1crypto/tsp.py
+++ b/asn1crypto/tsp.py
@@ -156,7 +156,7 @@ class PKIStatusInfo(Sequence):
 class TimeStampResp(Sequence):
     _fields = [
         ('status', PKIStatusInfo),
-        ('time_stamp_token', ContentInfo),
+        ('time_stamp_token', ContentInfo, {'optional': True}),
     ]
 
 
-- 
2.43.0


From 27068d05142a5e7c2deb0993d96bf317849a9b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:32 +0000
Subject: [PATCH 20/77] fix: a time-stamp token in evidence is a signed content
 info (RFC 5544)

---
 asn1crypto/tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/tsp.py b/asn1crypto/tsp.py
index f078205..6e7ace2 100644
--- a/asn1crypto/tsp.py
+++ b/asn1crypto/tsp.py
@@ -171,7 +171,7 @@ class MetaData(Sequence):
 
 class TimeStampAndCRL(Sequence):
     _fields = [
-        ('time_stamp', EncapsulatedContentInfo),
+        ('time_stamp', ContentInfo),
         ('crl', CertificateList, {'optional': True}),
     ]
 
-- 
2.43.0


From 1af695615018bf8cd476f230b25a7beed9374255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:34 +0000
Subject: [PATCH 21/77] fix: an archive time-stamp sequence is a sequence of
 chains (RFC 4998)

---
 asn1crypto/tsp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/tsp.py b/asn1crypto/tsp.py
index 6e7ace2..2187494 100644
--- a/asn1crypto/tsp.py
+++ b/asn1crypto/tsp.py
@@ -208,10 +208,14 @@ class ArchiveTimeStamp(Sequence):
     ]
 
 
-class ArchiveTimeStampSequence(SequenceOf):
+class ArchiveTimeStampChain(SequenceOf):
     _child_spec = ArchiveTimeStamp
 
 
+class ArchiveTimeStampSequence(SequenceOf):
+    _child_spec = ArchiveTimeStampChain
+
+
 class EvidenceRecord(Sequence):
     _fields = [
         ('version', Version),
-- 
2.43.0


From 0a7d6e98440dc4f419d652f6832be5e4dd5d1d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:36 +0000
Subject: [PATCH 22/77] fix: X.400 extension attributes are a set (RFC 5280)

---
 asn1crypto/x509.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index ec53b16..15300d5 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1427,7 +1427,7 @@ class ExtensionAttribute(Sequence):
     }
 
 
-class ExtensionAttributes(SequenceOf):
+class ExtensionAttributes(SetOf):
     _child_spec = ExtensionAttribute
 
 
-- 
2.43.0


From 111db4bf21d1248be64462ad68e37ad2033851de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:37 +0000
Subject: [PATCH 23/77] fix: the choices in an EDI party name are explicitly
 tagged (RFC 5280)

---
 asn1crypto/x509.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 15300d5..9f1c182 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1441,8 +1441,8 @@ class ORAddress(Sequence):
 
 class EDIPartyName(Sequence):
     _fields = [
-        ('name_assigner', DirectoryString, {'implicit': 0, 'optional': True}),
-        ('party_name', DirectoryString, {'implicit': 1}),
+        ('name_assigner', DirectoryString, {'explicit': 0, 'optional': True}),
+        ('party_name', DirectoryString, {'explicit': 1}),
     ]
 
 
-- 
2.43.0


From 6b457d0d5072cdb5efb0fc4ecc362ffc9809f680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:54 +0000
Subject: [PATCH 24/77] fix: the attributes of an extended certificate are a
 set (PKCS#6, RFC 5652)

---
 asn1crypto/cms.py | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/asn1crypto/cms.py b/asn1crypto/cms.py
index 40ee987..57c9a13 100644
--- a/asn1crypto/cms.py
+++ b/asn1crypto/cms.py
@@ -59,25 +59,6 @@ from .ocsp import OCSPResponse
 from .x509 import Attributes, Certificate, Extensions, GeneralName, GeneralNames, Name
 
 
-# These structures are taken from
-# ftp://ftp.rsasecurity.com/pub/pkcs/ascii/pkcs-6.asc
-
-class ExtendedCertificateInfo(Sequence):
-    _fields = [
-        ('version', Integer),
-        ('certificate', Certificate),
-        ('attributes', Attributes),
-    ]
-
-
-class ExtendedCertificate(Sequence):
-    _fields = [
-        ('extended_certificate_info', ExtendedCertificateInfo),
-        ('signature_algorithm', SignedDigestAlgorithm),
-        ('signature', OctetBitString),
-    ]
-
-
 # These structures are taken from https://tools.ietf.org/html/rfc5652,
 # https://tools.ietf.org/html/rfc5083, http://tools.ietf.org/html/rfc2315,
 # https://tools.ietf.org/html/rfc5940, https://tools.ietf.org/html/rfc3274,
@@ -189,6 +170,27 @@ class CMSAttributes(SetOf):
     _child_spec = CMSAttribute
 
 
+# These structures are taken from
+# ftp://ftp.rsasecurity.com/pub/pkcs/ascii/pkcs-6.asc
+
+class ExtendedCertificateInfo(Sequence):
+    _fields = [
+        ('version', Integer),
+        ('certificate', Certificate),
+        ('attributes', CMSAttributes),
+    ]
+
+
+class ExtendedCertificate(Sequence):
+    _fields = [
+        ('extended_certificate_info', ExtendedCertificateInfo),
+        ('signature_algorithm', SignedDigestAlgorithm),
+        ('signature', OctetBitString),
+    ]
+
+
+# These structures are taken from https://tools.ietf.org/html/rfc5652
+
 class IssuerSerial(Sequence):
     _fields = [
         ('issuer', GeneralNames),
-- 
2.43.0


From 8300c2f2def31bea60a6fe4690ce8980cffb7812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:10 +0000
Subject: [PATCH 25/77] fix: time-stamp meta data and archive attributes are
 sets (RFC 5544, RFC 4998)

---
 asn1crypto/tsp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/tsp.py b/asn1crypto/tsp.py
index 2187494..490d7aa 100644
--- a/asn1crypto/tsp.py
+++ b/asn1crypto/tsp.py
@@ -20,6 +20,7 @@ from __future__ import unicode_literals, division, absolute_import, print_functi
 from .algos import DigestAlgorithm
 from .cms import (
     CMSAttribute,
+    CMSAttributes,
     CMSAttributeType,
     ContentInfo,
     ContentType,
@@ -165,7 +166,7 @@ class MetaData(Sequence):
         ('hash_protected', Boolean),
         ('file_name', UTF8String, {'optional': True}),
         ('media_type', IA5String, {'optional': True}),
-        ('other_meta_data', Attributes, {'optional': True}),
+        ('other_meta_data', CMSAttributes, {'optional': True}),
     ]
 
 
@@ -202,7 +203,7 @@ class PartialHashtrees(SequenceOf):
 class ArchiveTimeStamp(Sequence):
     _fields = [
         ('digest_algorithm', DigestAlgorithm, {'implicit': 0, 'optional': True}),
-        ('attributes', Attributes, {'implicit': 1, 'optional': True}),
+        ('attributes', CMSAttributes, {'implicit': 1, 'optional': True}),
         ('reduced_hashtree', PartialHashtrees, {'implicit': 2, 'optional': True}),
         ('time_stamp', ContentInfo),
     ]
-- 
2.43.0


From 04e07d02e67ebdad24586dd24d8cfdd0b123c536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:12 +0000
Subject: [PATCH 26/77] fix: X.400 country and domain names are explicitly
 tagged, and class-level explicit tags identify fields

---
 asn1crypto/core.py | 4 ++++
 asn1crypto/x509.py | 6 ++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index c2fdf54..724e339 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5385,6 +5385,10 @@ def _build_id_tuple(params, spec):
 
     required_class = spec.class_
     required_tag = spec.tag
+    if spec.explicit:
+        # The outermost explicit tag is the one present in the encoded data
+        outer = spec.explicit if isinstance(spec.explicit[0], int_types) else spec.explicit[-1]
+        required_class, required_tag = outer
 
     _tag_type_to_explicit_implicit(params)
 
diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 9f1c182..be7f7d4 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1207,8 +1207,7 @@ class AnotherName(Sequence):
 
 
 class CountryName(Choice):
-    class_ = 1
-    tag = 1
+    explicit = (1, 1)
 
     _alternatives = [
         ('x121_dcc_code', NumericString),
@@ -1217,8 +1216,7 @@ class CountryName(Choice):
 
 
 class AdministrationDomainName(Choice):
-    class_ = 1
-    tag = 2
+    explicit = (1, 2)
 
     _alternatives = [
         ('numeric', NumericString),
-- 
2.43.0


From 1c95bbbc5016960220964b0ca9deabf0ac91fb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:35 +0000
Subject: [PATCH 27/77] fix: three Apple extended key usages were listed under
 a mistyped arc

---
 asn1crypto/x509.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index be7f7d4..7b26a72 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1788,9 +1788,9 @@ class KeyPurposeId(ObjectIdentifier):
         '1.2.840.113635.100.1.27': 'apple_test_mobile_store',
         '1.2.840.113635.100.1.28': 'apple_otapki_signer',
         '1.2.840.113635.100.1.29': 'apple_test_otapki_signer',
-        '1.2.840.113625.100.1.30': 'apple_id_validation_record_signing_policy',
-        '1.2.840.113625.100.1.31': 'apple_smp_encryption',
-        '1.2.840.113625.100.1.32': 'apple_test_smp_encryption',
+        '1.2.840.113635.100.1.30': 'apple_id_validation_record_signing_policy',
+        '1.2.840.113635.100.1.31': 'apple_smp_encryption',
+        '1.2.840.113635.100.1.32': 'apple_test_smp_encryption',
         '1.2.840.113635.100.1.33': 'apple_server_authentication',
         '1.2.840.113635.100.1.34': 'apple_pcs_escrow_service',
         # http://nvlpubs.nist.gov/nistpubs/FIPS/NIST.FIPS.201-2.pdf
-- 
2.43.0


From 38d472db4c356b8a89a4800bbf3c9d367332b54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:36 +0000
Subject: [PATCH 28/77] fix: AnyAlgorithmId accepts the names it produces

---
 asn1crypto/algos.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 35024b9..24da4c3 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -1319,9 +1319,12 @@ class AnyAlgorithmId(ObjectIdentifier):
 
     def _setup(self):
         _map = self.__class__._map
+        _reverse_map = {}
         for other_cls in (EncryptionAlgorithmId, SignedDigestAlgorithmId, DigestAlgorithmId):
             for oid, name in other_cls._map.items():
                 _map[oid] = name
+                _reverse_map[name] = other_cls.unmap(name)
+        self.__class__._reverse_map = _reverse_map
 
 
 class AnyAlgorithmIdentifier(_ForceNullParameters, Sequence):
-- 
2.43.0


From a3fb5fb11858980ff04c6126002ffeeebf5521e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:38 +0000
Subject: [PATCH 29/77] fix: registries extended after their first use accept
 the new names, subclasses do not share a reverse map

---
 asn1crypto/core.py | 32 +++++++++++++++++++++++++++++---
 asn1crypto/keys.py |  4 +---
 asn1crypto/pdf.py  | 10 +++++-----
 asn1crypto/tsp.py  |  8 ++++----
 4 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 724e339..d40fb3f 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -682,11 +682,37 @@ class ValueMap():
         Generates _reverse_map from _map
         """
 
-        cls = self.__class__
-        if cls._map is None or cls._reverse_map is not None:
+        if self._map is None:
             return
-        cls._reverse_map = {}
+
+        # The reverse map is kept on the class that defines _map, so that it is
+        # neither shared with a subclass that has a _map of its own, nor
+        # duplicated by a subclass that does not
+        for cls in self.__class__.__mro__:
+            if cls.__dict__.get('_reverse_map') is not None:
+                return
+            if cls.__dict__.get('_map') is not None:
+                break
+
+        reverse_map = {}
         for key, value in cls._map.items():
+            reverse_map[value] = key
+        cls._reverse_map = reverse_map
+
+    @classmethod
+    def _add_to_map(cls, key, value):
+        """
+        Adds an entry to _map, and to _reverse_map if it was already generated
+
+        :param key:
+            An int or dotted unicode string OID
+
+        :param value:
+            A unicode string
+        """
+
+        cls._map[key] = value
+        if cls._reverse_map is not None:
             cls._reverse_map[value] = key
 
 
diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 92716e1..5fb2c52 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -505,9 +505,7 @@ class NamedCurve(ObjectIdentifier):
             encoded to
         """
 
-        cls._map[oid] = name
-        if cls._reverse_map is not None:
-            cls._reverse_map[name] = oid
+        cls._add_to_map(oid, name)
         cls._key_sizes[oid] = key_size
 
 
diff --git a/asn1crypto/pdf.py b/asn1crypto/pdf.py
index b72c886..51caedc 100644
--- a/asn1crypto/pdf.py
+++ b/asn1crypto/pdf.py
@@ -73,12 +73,12 @@ class SetOfRevocationInfoArchival(SetOf):
     _child_spec = RevocationInfoArchival
 
 
-ExtensionId._map['1.2.840.113583.1.1.9.2'] = 'adobe_archive_rev_info'
-ExtensionId._map['1.2.840.113583.1.1.9.1'] = 'adobe_timestamp'
-ExtensionId._map['1.2.840.113583.1.1.10'] = 'adobe_ppklite_credential'
+ExtensionId._add_to_map('1.2.840.113583.1.1.9.2', 'adobe_archive_rev_info')
+ExtensionId._add_to_map('1.2.840.113583.1.1.9.1', 'adobe_timestamp')
+ExtensionId._add_to_map('1.2.840.113583.1.1.10', 'adobe_ppklite_credential')
 Extension._oid_specs['adobe_archive_rev_info'] = AdobeArchiveRevInfo
 Extension._oid_specs['adobe_timestamp'] = AdobeTimestamp
 Extension._oid_specs['adobe_ppklite_credential'] = Null
-KeyPurposeId._map['1.2.840.113583.1.1.5'] = 'pdf_signing'
-CMSAttributeType._map['1.2.840.113583.1.1.8'] = 'adobe_revocation_info_archival'
+KeyPurposeId._add_to_map('1.2.840.113583.1.1.5', 'pdf_signing')
+CMSAttributeType._add_to_map('1.2.840.113583.1.1.8', 'adobe_revocation_info_archival')
 CMSAttribute._oid_specs['adobe_revocation_info_archival'] = SetOfRevocationInfoArchival
diff --git a/asn1crypto/tsp.py b/asn1crypto/tsp.py
index 490d7aa..8226ba9 100644
--- a/asn1crypto/tsp.py
+++ b/asn1crypto/tsp.py
@@ -307,9 +307,9 @@ class SetOfSigningCertificatesV2(SetOf):
 EncapsulatedContentInfo._oid_specs['tst_info'] = TSTInfo
 EncapsulatedContentInfo._oid_specs['timestamped_data'] = TimeStampedData
 ContentInfo._oid_specs['timestamped_data'] = TimeStampedData
-ContentType._map['1.2.840.113549.1.9.16.1.4'] = 'tst_info'
-ContentType._map['1.2.840.113549.1.9.16.1.31'] = 'timestamped_data'
-CMSAttributeType._map['1.2.840.113549.1.9.16.2.12'] = 'signing_certificate'
+ContentType._add_to_map('1.2.840.113549.1.9.16.1.4', 'tst_info')
+ContentType._add_to_map('1.2.840.113549.1.9.16.1.31', 'timestamped_data')
+CMSAttributeType._add_to_map('1.2.840.113549.1.9.16.2.12', 'signing_certificate')
 CMSAttribute._oid_specs['signing_certificate'] = SetOfSigningCertificates
-CMSAttributeType._map['1.2.840.113549.1.9.16.2.47'] = 'signing_certificate_v2'
+CMSAttributeType._add_to_map('1.2.840.113549.1.9.16.2.47', 'signing_certificate_v2')
 CMSAttribute._oid_specs['signing_certificate_v2'] = SetOfSigningCertificatesV2
-- 
2.43.0


From 6e5beaebf68637aee75368d553d9980ccfe86a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:17 +0000
Subject: [PATCH 30/77] fix: the PKCS#12 attribute 1.3.6.1.4.1.311.17.1 is the
 CSP name, not the local machine keyset flag

---
 asn1crypto/pkcs12.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/pkcs12.py b/asn1crypto/pkcs12.py
index 7ebcefe..6702c58 100644
--- a/asn1crypto/pkcs12.py
+++ b/asn1crypto/pkcs12.py
@@ -53,7 +53,8 @@ class AttributeType(ObjectIdentifier):
         '1.2.840.113549.1.9.20': 'friendly_name',
         '1.2.840.113549.1.9.21': 'local_key_id',
         # https://support.microsoft.com/en-us/kb/287547
-        '1.3.6.1.4.1.311.17.1': 'microsoft_local_machine_keyset',
+        '1.3.6.1.4.1.311.17.1': 'microsoft_csp_name',
+        '1.3.6.1.4.1.311.17.2': 'microsoft_local_machine_keyset',
         # https://github.com/frohoff/jdk8u-dev-jdk/blob/master/src/share/classes/sun/security/pkcs12/PKCS12KeyStore.java
         # this is a set of OIDs, representing key usage, the usual value is a SET of one element OID 2.5.29.37.0
         '2.16.840.1.113894.746875.1.1': 'trusted_key_usage',
-- 
2.43.0


From 1f0abe40f4ca9989b67a1e8d4718fb2d7f3cb094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:45 +0000
Subject: [PATCH 31/77] fix: keys of an unrecognised algorithm decode as opaque
 data instead of failing with KeyError

---
 asn1crypto/keys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 5fb2c52..957a154 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -728,7 +728,7 @@ class PrivateKeyInfo(Sequence):
             'x448': OctetString,
             'ed25519': OctetString,
             'ed448': OctetString,
-        }[algorithm]
+        }.get(algorithm)
 
     _spec_callbacks = {
         'private_key': _private_key_spec
@@ -1095,7 +1095,7 @@ class PublicKeyInfo(Sequence):
             'x448': (OctetBitString, None),
             'ed25519': (OctetBitString, None),
             'ed448': (OctetBitString, None),
-        }[algorithm]
+        }.get(algorithm)
 
     _spec_callbacks = {
         'public_key': _public_key_spec
-- 
2.43.0


From c548a3608be6748ee7b7bf84010b7d20bae53776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:21 +0000
Subject: [PATCH 32/77] fix: a set in which a member is repeated is refused
 instead of losing a value

---
 asn1crypto/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index d40fb3f..6fbf75f 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4765,6 +4765,14 @@ class Set(Sequence):
                         parts[2],
                     ))
 
+                if field in child_map:
+                    raise ValueError(unwrap(
+                        '''
+                        Field "%s" is present more than once
+                        ''',
+                        self._fields[field][0]
+                    ))
+
                 _, field_spec, value_spec, field_params, spec_override = (
                     cls._precomputed_specs[field] or self._determine_spec(field))
 
-- 
2.43.0


From f48c4992c805d944047d970d867a000227c45d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:52 +0000
Subject: [PATCH 33/77] fix: leaving a nested strict_teletex() block restores
 the setting of the enclosing one

---
 asn1crypto/x509.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 7b26a72..b06ca0a 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -499,11 +499,12 @@ class NotReallyTeletexString(TeletexString):
 
 @contextmanager
 def strict_teletex():
+    previous_encoding = NotReallyTeletexString._decoding_encoding
     try:
         NotReallyTeletexString._decoding_encoding = 'teletex'
         yield
     finally:
-        NotReallyTeletexString._decoding_encoding = 'cp1252'
+        NotReallyTeletexString._decoding_encoding = previous_encoding
 
 
 class DirectoryString(Choice):
-- 
2.43.0


From 594f1c4684aa162f95e87306a86bf3860d131df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:17 +0000
Subject: [PATCH 34/77] fix: do not take a definite length ending in 0x80 for
 an indefinite length in dump()

---
 asn1crypto/core.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 6fbf75f..23165ab 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -644,7 +644,7 @@ class Asn1Value(object):
         contents = self.contents
 
         # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
+        if self._header is not None and self._header[-1:] == b'\x80' and self._trailer != b'':
             force = True
 
         if self._header is None or force:
@@ -1376,7 +1376,7 @@ class Choice(Asn1Value):
         """
 
         # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
+        if self._header is not None and self._header[-1:] == b'\x80' and self._trailer != b'':
             force = True
 
         contents = self.chosen.dump(force=force)
@@ -1755,7 +1755,7 @@ class Primitive(Asn1Value):
         """
 
         # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
+        if self._header is not None and self._header[-1:] == b'\x80' and self._trailer != b'':
             force = True
 
         if force:
@@ -4186,7 +4186,7 @@ class Sequence(Asn1Value):
         """
 
         # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
+        if self._header is not None and self._header[-1:] == b'\x80' and self._trailer != b'':
             force = True
 
         # We can't force encoding if we don't have a spec
@@ -4666,7 +4666,7 @@ class SequenceOf(Asn1Value):
         """
 
         # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
+        if self._header is not None and self._header[-1:] == b'\x80' and self._trailer != b'':
             force = True
 
         if force:
-- 
2.43.0


From 609b40336561b30c87f169a0ebb9d4824e8c04c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:22 +0000
Subject: [PATCH 35/77] fix: decode a choice whose alternative has an
 indefinite length

---
 asn1crypto/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 23165ab..bdd2f0f 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5626,8 +5626,9 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
                 value.validate(class_, tag, contents)
                 try:
                     # Force parsing the Choice now
-                    value.contents = header + value.contents
+                    value.contents = header + value.contents + (trailer or b'')
                     header = b''
+                    trailer = b''
                     value.parse()
                 except (ValueError, TypeError) as e:
                     args = e.args[1:]
-- 
2.43.0


From c82154d338b58fce85e4b23f57987a0d644df1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:43 +0000
Subject: [PATCH 36/77] fix: refuse extra data inside an explicit tag instead
 of dropping it

---
 asn1crypto/core.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index bdd2f0f..5680e93 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5601,7 +5601,16 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
                         expected_tag,
                         parsed_tag
                     ))
-                info, _ = _parse(to_parse, len(to_parse))
+                info, consumed = _parse(to_parse, len(to_parse))
+                if consumed != len(to_parse):
+                    raise ValueError(unwrap(
+                        '''
+                        Error parsing %s - %s bytes of extra data found after
+                        the explicitly-tagged value
+                        ''',
+                        type_name(value),
+                        len(to_parse) - consumed
+                    ))
                 parsed_class, parsed_method, parsed_tag, parsed_header, to_parse, parsed_trailer = info
 
                 if not isinstance(value, Choice):
-- 
2.43.0


From eb62f6efc729dede1a4c6b2635c17f6108f2bd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:47 +0000
Subject: [PATCH 37/77] fix: keep every explicit tag of a choice tagged more
 than once

---
 asn1crypto/core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 5680e93..6a18568 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1376,7 +1376,7 @@ class Choice(Asn1Value):
         """
 
         # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80' and self._trailer != b'':
+        if self._trailer != b'':
             force = True
 
         contents = self.chosen.dump(force=force)
@@ -1387,6 +1387,7 @@ class Choice(Asn1Value):
             if self.explicit is not None:
                 for class_, tag in self.explicit:
                     self._header = _dump_header(class_, 1, tag, self._header + self._contents) + self._header
+            self._trailer = b''
         return self._header + self._contents
 
 
@@ -5570,7 +5571,7 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
             to_parse = contents
             explicit_header = header
             explicit_trailer = trailer or b''
-            for expected_class, expected_tag in explicit_info:
+            for layer, (expected_class, expected_tag) in enumerate(explicit_info, 1):
                 if parsed_class != expected_class:
                     raise ValueError(unwrap(
                         '''
@@ -5613,7 +5614,8 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
                     ))
                 parsed_class, parsed_method, parsed_tag, parsed_header, to_parse, parsed_trailer = info
 
-                if not isinstance(value, Choice):
+                # The header of the chosen alternative is part of the contents of a Choice
+                if not isinstance(value, Choice) or layer < len(original_explicit):
                     explicit_header += parsed_header
                     explicit_trailer = parsed_trailer + explicit_trailer
 
-- 
2.43.0


From e72f8e7b6526184ffedac68bae436c0d89c89927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:07 +0000
Subject: [PATCH 38/77] fix: keep every explicit tag of a value decoded without
 a spec

---
 asn1crypto/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 6a18568..0ac8b64 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5704,8 +5704,8 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
             explicit_header += parsed_header
             explicit_trailer = parsed_trailer + explicit_trailer
         value = _build(*info, spec=spec, spec_params={'no_explicit': True})
-        value._header = header + value._header
-        value._trailer += trailer or b''
+        value._header = explicit_header
+        value._trailer = explicit_trailer
         value.explicit = original_explicit
         header_set = True
 
-- 
2.43.0


From 34715af6b848a8f6941f7905480474e7964396bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:10 +0000
Subject: [PATCH 39/77] fix: check the explicit tagging of a value decoded
 without a spec

---
 asn1crypto/core.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 0ac8b64..43700fc 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5698,9 +5698,33 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
         to_parse = contents
         explicit_header = header
         explicit_trailer = trailer or b''
+        parsed_class, parsed_method, parsed_tag = class_, method, tag
         for expected_class, expected_tag in reversed(original_explicit):
-            info, _ = _parse(to_parse, len(to_parse))
-            _, _, _, parsed_header, to_parse, parsed_trailer = info
+            if parsed_class != expected_class or parsed_method != 1 or parsed_tag != expected_tag:
+                raise ValueError(unwrap(
+                    '''
+                    Error parsing %s - explicit tagging should have been %s class,
+                    %s method, tag %s, but %s class, %s method, tag %s was found
+                    ''',
+                    type_name(original_value),
+                    CLASS_NUM_TO_NAME_MAP.get(expected_class),
+                    METHOD_NUM_TO_NAME_MAP.get(1),
+                    expected_tag,
+                    CLASS_NUM_TO_NAME_MAP.get(parsed_class, parsed_class),
+                    METHOD_NUM_TO_NAME_MAP.get(parsed_method, parsed_method),
+                    parsed_tag
+                ))
+            info, consumed = _parse(to_parse, len(to_parse))
+            if consumed != len(to_parse):
+                raise ValueError(unwrap(
+                    '''
+                    Error parsing %s - %s bytes of extra data found after
+                    the explicitly-tagged value
+                    ''',
+                    type_name(original_value),
+                    len(to_parse) - consumed
+                ))
+            parsed_class, parsed_method, parsed_tag, parsed_header, to_parse, parsed_trailer = info
             explicit_header += parsed_header
             explicit_trailer = parsed_trailer + explicit_trailer
         value = _build(*info, spec=spec, spec_params={'no_explicit': True})
-- 
2.43.0


From f07259e8a7e12b8f768956a0467b80b56968de2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:28 +0000
Subject: [PATCH 40/77] fix: Any.parse() of an explicitly tagged value a second
 time, do not modify the passed params

---
 asn1crypto/core.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 43700fc..bf57435 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -909,6 +909,10 @@ class Any(Asn1Value):
     # The parsed value object
     _parsed = None
 
+    # The explicit tagging of the encoded value. Once the value has been parsed,
+    # the tagging is present on the parsed value, and .explicit is cleared.
+    _encoded_explicit = None
+
     def __init__(self, value=None, **kwargs):
         """
         Sets the value of the object before passing to Asn1Value.__init__()
@@ -985,13 +989,17 @@ class Any(Asn1Value):
 
         if self._parsed is None or self._parsed[1:3] != (spec, spec_params):
             try:
-                passed_params = spec_params or {}
+                # The dict belongs to the caller, so the tagging is added to a copy
+                passed_params = dict(spec_params) if spec_params else {}
                 _tag_type_to_explicit_implicit(passed_params)
-                if self.explicit is not None:
+                explicit = self.explicit
+                if explicit is None:
+                    explicit = self._encoded_explicit
+                if explicit is not None:
                     if 'explicit' in passed_params:
-                        passed_params['explicit'] = self.explicit + passed_params['explicit']
+                        passed_params['explicit'] = explicit + passed_params['explicit']
                     else:
-                        passed_params['explicit'] = self.explicit
+                        passed_params['explicit'] = explicit
                 contents = self._header + self.contents + self._trailer
                 parsed_value, _ = _parse_build(
                     contents,
@@ -1003,6 +1011,7 @@ class Any(Asn1Value):
                 # Once we've parsed the Any value, clear any attributes from this object
                 # since they are now duplicate
                 self.tag = None
+                self._encoded_explicit = explicit
                 self.explicit = None
                 self.implicit = False
                 self._header = b''
-- 
2.43.0


From 601cadd27a6dd4f9fe4e02804ea36c6d26f3a62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:31 +0000
Subject: [PATCH 41/77] fix: copying an Any that has not been parsed lost part
 of the encoding

---
 asn1crypto/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index bf57435..7800498 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1037,6 +1037,11 @@ class Any(Asn1Value):
         """
 
         super(Any, self)._copy(other, copy_func)
+        # The encoded value may not have been parsed yet, in which case parsing
+        # it requires more than just the contents
+        self._header = other._header
+        self._trailer = other._trailer
+        self._encoded_explicit = other._encoded_explicit
         self._parsed = copy_func(other._parsed)
 
     def dump(self, force=False):
-- 
2.43.0


From de362ff0730d90b7d1724ce8d186fe40feb46ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:17 +0000
Subject: [PATCH 42/77] fix: explicit tagging given to an Any, or applied by
 retagging one, was not encoded

---
 asn1crypto/core.py | 66 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 65 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 7800498..6c383f4 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -934,7 +934,10 @@ class Any(Asn1Value):
                     ))
 
                 self._parsed = (value, value.__class__, None)
-                self.contents = value.dump()
+                if self.explicit is not None:
+                    self._tag_parsed(self)
+                else:
+                    self.contents = value.dump()
 
         except (ValueError, TypeError) as e:
             args = e.args[1:]
@@ -1024,6 +1027,67 @@ class Any(Asn1Value):
                 raise e
         return self._parsed[0]
 
+    def retag(self, tagging, tag=None):
+        """
+        Copies the object, applying a new tagging to it
+
+        :param tagging:
+            A dict containing the keys "explicit" and "implicit". Legacy
+            API allows a unicode string of "implicit" or "explicit".
+
+        :param tag:
+            A integer tag number. Only used when tagging is a unicode string.
+
+        :return:
+            An Any object
+        """
+
+        # This is required to preserve the old API
+        if not isinstance(tagging, dict):
+            tagging = {tagging: tag}
+        new_obj = self.__class__(explicit=tagging.get('explicit'), implicit=tagging.get('implicit'))
+        new_obj._tag_parsed(self)
+        return new_obj
+
+    def untag(self):
+        """
+        Copies the object, removing any special tagging from it
+
+        :return:
+            An Any object
+        """
+
+        new_obj = self.__class__()
+        new_obj._tag_parsed(self)
+        return new_obj
+
+    def _tag_parsed(self, other):
+        """
+        Sets the parsed value to a copy of the parsed value of an Any object,
+        moving the explicit tagging of this object to it
+
+        :param other:
+            An Any object
+        """
+
+        value = other.parsed.copy()
+        spec, spec_params = other._parsed[1:3]
+
+        # The parsed value includes the explicit tagging of the other object,
+        # followed by any that is part of the value itself
+        explicit = value.explicit or ()
+        if other._encoded_explicit is not None:
+            explicit = explicit[len(other._encoded_explicit):]
+        if self.explicit is not None:
+            explicit = self.explicit + explicit
+        value.explicit = explicit or None
+
+        self._parsed = (value, spec, spec_params)
+        self._encoded_explicit = self.explicit
+        self.explicit = None
+        self._header = b''
+        self.contents = value.dump()
+
     def _copy(self, other, copy_func):
         """
         Copies the contents of another Any object to itself
-- 
2.43.0


From b24a86ff49021be0e7abb3679ae15969ace6a774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:46 +0000
Subject: [PATCH 43/77] fix: Any.parse() combined explicit tags in the wrong
 order

---
 asn1crypto/core.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 6c383f4..7357f35 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -999,10 +999,15 @@ class Any(Asn1Value):
                 if explicit is None:
                     explicit = self._encoded_explicit
                 if explicit is not None:
-                    if 'explicit' in passed_params:
-                        passed_params['explicit'] = explicit + passed_params['explicit']
-                    else:
-                        passed_params['explicit'] = explicit
+                    # The outermost tag is the last one
+                    inner = passed_params.get('explicit')
+                    if inner is None:
+                        inner = ()
+                    elif isinstance(inner, int_types):
+                        inner = ((2, inner), )
+                    elif len(inner) == 2 and isinstance(inner[1], int_types):
+                        inner = (inner, )
+                    passed_params['explicit'] = inner + explicit
                 contents = self._header + self.contents + self._trailer
                 parsed_value, _ = _parse_build(
                     contents,
@@ -1073,13 +1078,13 @@ class Any(Asn1Value):
         value = other.parsed.copy()
         spec, spec_params = other._parsed[1:3]
 
-        # The parsed value includes the explicit tagging of the other object,
-        # followed by any that is part of the value itself
+        # The parsed value includes any explicit tagging of its own, followed by
+        # the tagging of the other object, which encloses it
         explicit = value.explicit or ()
         if other._encoded_explicit is not None:
-            explicit = explicit[len(other._encoded_explicit):]
+            explicit = explicit[:len(explicit) - len(other._encoded_explicit)]
         if self.explicit is not None:
-            explicit = self.explicit + explicit
+            explicit = explicit + self.explicit
         value.explicit = explicit or None
 
         self._parsed = (value, spec, spec_params)
-- 
2.43.0


From 9a28db9d8dd6a49fb0b5ad20344efac35bd11b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:11 +0000
Subject: [PATCH 44/77] fix: copies of a SequenceOf() or SetOf() constructed
 with a spec lost it

---
 asn1crypto/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 7357f35..29a67c3 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4716,6 +4716,8 @@ class SequenceOf(Asn1Value):
         """
 
         super(SequenceOf, self)._copy(other, copy_func)
+        # The spec may have been passed to the constructor
+        self._child_spec = other._child_spec
         if self.children is not None:
             self.children = []
             for child in other.children:
-- 
2.43.0


From b75ef7f99e99ddd339d60ba96f25805cedf29b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:15 +0000
Subject: [PATCH 45/77] fix: copies of IntegerOctetString and ECPrivateKey lost
 the width they are encoded to

---
 asn1crypto/core.py | 15 +++++++++++++++
 asn1crypto/keys.py | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 29a67c3..a89f4ea 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2812,6 +2812,21 @@ class IntegerOctetString(Constructable, Castable, Primitive):
         if self._trailer != b'':
             self._trailer = b''
 
+    def _copy(self, other, copy_func):
+        """
+        Copies the contents of another IntegerOctetString object to itself
+
+        :param object:
+            Another instance of the same class
+
+        :param copy_func:
+            An reference of copy.copy() or copy.deepcopy() to use when copying
+            lists, dicts and objects
+        """
+
+        self._encoded_width = other._encoded_width
+        super(IntegerOctetString, self)._copy(other, copy_func)
+
     @property
     def native(self):
         """
diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 957a154..25a8f6c 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -592,6 +592,21 @@ class ECPrivateKey(Sequence):
 
         return res
 
+    def _copy(self, other, copy_func):
+        """
+        Copies the contents of another ECPrivateKey object to itself
+
+        :param object:
+            Another instance of the same class
+
+        :param copy_func:
+            An reference of copy.copy() or copy.deepcopy() to use when copying
+            lists, dicts and objects
+        """
+
+        super(ECPrivateKey, self)._copy(other, copy_func)
+        self._key_size = other._key_size
+
     def set_key_size(self, key_size):
         """
         Sets the key_size to ensure the private key is encoded to the proper length
-- 
2.43.0


From b1a43c85b3796ecb8a7fcc8f784d3fd17cb95bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:19 +0000
Subject: [PATCH 46/77] fix: cast() of an implicitly tagged value lost the tag

---
 asn1crypto/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index a89f4ea..9ce4c4f 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -749,6 +749,7 @@ class Castable(object):
 
         new_obj = other_class()
         new_obj.class_ = self.class_
+        new_obj.tag = self.tag
         new_obj.implicit = self.implicit
         new_obj.explicit = self.explicit
         new_obj._header = self._header
-- 
2.43.0


From 4b24c115b778214342dc793bb823bb5df37f4d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:00 +0000
Subject: [PATCH 47/77] fix: comparing e-mail addresses re-encoded both of them

---
 asn1crypto/x509.py | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index b06ca0a..2237577 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -232,11 +232,7 @@ class EmailAddress(IA5String):
                 type_name(value)
             ))
 
-        if value.find('@') != -1:
-            mailbox, hostname = value.rsplit('@', 1)
-            encoded_value = mailbox.encode('ascii') + b'@' + hostname.encode('idna')
-        else:
-            encoded_value = value.encode('ascii')
+        encoded_value = self._encode(value)
 
         self._unicode = value
         self.contents = encoded_value
@@ -249,6 +245,22 @@ class EmailAddress(IA5String):
         if self._trailer != b'':
             self._trailer = b''
 
+    def _encode(self, value):
+        """
+        Encodes a unicode string to the normalized form
+
+        :param value:
+            A unicode string
+
+        :return:
+            A byte string
+        """
+
+        if value.find('@') != -1:
+            mailbox, hostname = value.rsplit('@', 1)
+            return mailbox.encode('ascii') + b'@' + hostname.encode('idna')
+        return value.encode('ascii')
+
     def __unicode__(self):
         """
         :return:
@@ -283,16 +295,15 @@ class EmailAddress(IA5String):
         if not isinstance(other, EmailAddress):
             return False
 
-        if not self._normalized:
-            self.set(self.native)
-        if not other._normalized:
-            other.set(other.native)
+        # Neither operand is modified, since that would change its encoding
+        contents = self._contents if self._normalized else self._encode(self.native)
+        other_contents = other._contents if other._normalized else self._encode(other.native)
 
-        if self._contents.find(b'@') == -1 or other._contents.find(b'@') == -1:
-            return self._contents == other._contents
+        if contents.find(b'@') == -1 or other_contents.find(b'@') == -1:
+            return contents == other_contents
 
-        other_mailbox, other_hostname = other._contents.rsplit(b'@', 1)
-        mailbox, hostname = self._contents.rsplit(b'@', 1)
+        other_mailbox, other_hostname = other_contents.rsplit(b'@', 1)
+        mailbox, hostname = contents.rsplit(b'@', 1)
 
         if mailbox != other_mailbox:
             return False
-- 
2.43.0


From 498eec161fe923db6d1c6a539306510e6945cdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:55 +0000
Subject: [PATCH 48/77] fix: the native value of a name that can not be decoded
 read as empty the second time

---
 asn1crypto/x509.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 2237577..03eebab 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1119,17 +1119,18 @@ class Name(Choice):
     @property
     def native(self):
         if self._native is None:
-            self._native = OrderedDict()
+            native = OrderedDict()
             for rdn in self.chosen.native:
                 for type_val in rdn:
                     field_name = type_val['type']
-                    if field_name in self._native:
-                        existing = self._native[field_name]
+                    if field_name in native:
+                        existing = native[field_name]
                         if not isinstance(existing, list):
-                            existing = self._native[field_name] = [existing]
+                            existing = native[field_name] = [existing]
                         existing.append(type_val['value'])
                     else:
-                        self._native[field_name] = type_val['value']
+                        native[field_name] = type_val['value']
+            self._native = native
         return self._native
 
     @property
-- 
2.43.0


From 83d78757a2f7cdc654a40e64dbfb5a3124717f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:58 +0000
Subject: [PATCH 49/77] fix: the native value of a sequence was left
 half-filled when reading a field failed

---
 asn1crypto/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 9ce4c4f..ca38f1d 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4219,7 +4219,7 @@ class Sequence(Asn1Value):
             if self.children is None:
                 self._parse_children(recurse=True)
             try:
-                self._native = OrderedDict()
+                native = OrderedDict()
                 for index, child in enumerate(self.children):
                     if child.__class__ == tuple:
                         child = _build(*child)
@@ -4228,9 +4228,9 @@ class Sequence(Asn1Value):
                         name = self._fields[index][0]
                     except (IndexError):
                         name = str_cls(index)
-                    self._native[name] = child.native
+                    native[name] = child.native
+                self._native = native
             except (ValueError, TypeError) as e:
-                self._native = None
                 args = e.args[1:]
                 e.args = (e.args[0] + '\n    while parsing %s' % type_name(self),) + args
                 raise e
-- 
2.43.0


From 98092d61414802b15cca4248939c663e11e4ea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:16 +0000
Subject: [PATCH 50/77] fix: do not keep a partial list of children when
 parsing fails with another exception

---
 asn1crypto/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index ca38f1d..de29939 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4162,6 +4162,9 @@ class Sequence(Asn1Value):
             args = e.args[1:]
             e.args = (e.args[0] + '\n    while parsing %s' % type_name(self),) + args
             raise e
+        except Exception:
+            self.children = None
+            raise
 
     def spec(self, field_name):
         """
@@ -4683,6 +4686,9 @@ class SequenceOf(Asn1Value):
             args = e.args[1:]
             e.args = (e.args[0] + '\n    while parsing %s' % type_name(self),) + args
             raise e
+        except Exception:
+            self.children = None
+            raise
 
     def spec(self):
         """
-- 
2.43.0


From ea8c79a69d19be719c7a9fa1d59e0ec9af03dca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:20 +0000
Subject: [PATCH 51/77] fix: the valid domains and IPs of a certificate were
 truncated after a failure

---
 asn1crypto/x509.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 03eebab..25c3100 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2775,15 +2775,15 @@ class Certificate(Sequence):
         """
 
         if self._valid_domains is None:
-            self._valid_domains = []
+            valid_domains = []
 
             # For the subject alt name extension, we can look at the name of
             # the choice selected since it distinguishes between domain names,
             # email addresses, IPs, etc
             if self.subject_alt_name_value:
                 for general_name in self.subject_alt_name_value:
-                    if general_name.name == 'dns_name' and general_name.native not in self._valid_domains:
-                        self._valid_domains.append(general_name.native)
+                    if general_name.name == 'dns_name' and general_name.native not in valid_domains:
+                        valid_domains.append(general_name.native)
 
             # If there was no subject alt name extension, and the common name
             # in the subject looks like a domain, that is considered the valid
@@ -2797,7 +2797,9 @@ class Certificate(Sequence):
                         if name_type_value['type'].native == 'common_name':
                             value = name_type_value['value'].native
                             if pattern.match(value):
-                                self._valid_domains.append(value)
+                                valid_domains.append(value)
+
+            self._valid_domains = valid_domains
 
         return self._valid_domains
 
@@ -2809,12 +2811,14 @@ class Certificate(Sequence):
         """
 
         if self._valid_ips is None:
-            self._valid_ips = []
+            valid_ips = []
 
             if self.subject_alt_name_value:
                 for general_name in self.subject_alt_name_value:
                     if general_name.name == 'ip_address':
-                        self._valid_ips.append(general_name.native)
+                        valid_ips.append(general_name.native)
+
+            self._valid_ips = valid_ips
 
         return self._valid_ips
 
-- 
2.43.0


From 64529af75749485c5aba30e23f1c446f5b11f26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:23 +0000
Subject: [PATCH 52/77] fix: the URLs read from a CRL were truncated after a
 failure

---
 asn1crypto/crl.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/crl.py b/asn1crypto/crl.py
index bf30196..84d95d8 100644
--- a/asn1crypto/crl.py
+++ b/asn1crypto/crl.py
@@ -466,7 +466,7 @@ class CertificateList(Sequence):
         """
 
         if self._issuer_cert_urls is None:
-            self._issuer_cert_urls = []
+            issuer_cert_urls = []
             if self.authority_information_access_value:
                 for entry in self.authority_information_access_value:
                     if entry['access_method'].native == 'ca_issuers':
@@ -475,7 +475,8 @@ class CertificateList(Sequence):
                             continue
                         url = location.native
                         if url.lower()[0:7] == 'http://':
-                            self._issuer_cert_urls.append(url)
+                            issuer_cert_urls.append(url)
+            self._issuer_cert_urls = issuer_cert_urls
         return self._issuer_cert_urls
 
     @property
@@ -488,7 +489,7 @@ class CertificateList(Sequence):
         """
 
         if self._delta_crl_distribution_points is None:
-            self._delta_crl_distribution_points = []
+            delta_crl_distribution_points = []
 
             if self.freshest_crl_value is not None:
                 for distribution_point in self.freshest_crl_value:
@@ -499,7 +500,9 @@ class CertificateList(Sequence):
                     # This library is currently only concerned with HTTP-based CRLs
                     for general_name in distribution_point_name.chosen:
                         if general_name.name == 'uniform_resource_identifier':
-                            self._delta_crl_distribution_points.append(distribution_point)
+                            delta_crl_distribution_points.append(distribution_point)
+
+            self._delta_crl_distribution_points = delta_crl_distribution_points
 
         return self._delta_crl_distribution_points
 
-- 
2.43.0


From 2a35baf86eeb986c0abd35ed8ab48753652a9b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:45 +0000
Subject: [PATCH 53/77] fix: a certificate was reported as not self-signed
 after a failure to decode an extension

---
 asn1crypto/x509.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 25c3100..39a1dec 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2869,15 +2869,16 @@ class Certificate(Sequence):
         """
 
         if self._self_signed is None:
-            self._self_signed = 'no'
+            self_signed = 'no'
             if self.self_issued:
                 if self.key_identifier:
                     if not self.authority_key_identifier:
-                        self._self_signed = 'maybe'
+                        self_signed = 'maybe'
                     elif self.authority_key_identifier == self.key_identifier:
-                        self._self_signed = 'maybe'
+                        self_signed = 'maybe'
                 else:
-                    self._self_signed = 'maybe'
+                    self_signed = 'maybe'
+            self._self_signed = self_signed
         return self._self_signed
 
     @property
-- 
2.43.0


From 9e691ab9600c35ea51d1d247cb61f322000866c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:00 +0000
Subject: [PATCH 54/77] fix: do not keep a partial list of children when a
 default value is invalid

---
 asn1crypto/core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index de29939..fed173f 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4043,14 +4043,15 @@ class Sequence(Asn1Value):
         cls = self.__class__
         if self._contents is None:
             if self._fields:
-                self.children = [VOID] * len(self._fields)
+                children = [VOID] * len(self._fields)
                 for index, (_, _, params) in enumerate(self._fields):
                     if 'default' in params:
                         if cls._precomputed_specs[index]:
                             field_name, field_spec, value_spec, field_params, _ = cls._precomputed_specs[index]
                         else:
                             field_name, field_spec, value_spec, field_params, _ = self._determine_spec(index)
-                        self.children[index] = self._make_value(field_name, field_spec, value_spec, field_params, None)
+                        children[index] = self._make_value(field_name, field_spec, value_spec, field_params, None)
+                self.children = children
             return
 
         try:
@@ -4840,14 +4841,15 @@ class Set(Sequence):
         cls = self.__class__
         if self._contents is None:
             if self._fields:
-                self.children = [VOID] * len(self._fields)
+                children = [VOID] * len(self._fields)
                 for index, (_, _, params) in enumerate(self._fields):
                     if 'default' in params:
                         if cls._precomputed_specs[index]:
                             field_name, field_spec, value_spec, field_params, _ = cls._precomputed_specs[index]
                         else:
                             field_name, field_spec, value_spec, field_params, _ = self._determine_spec(index)
-                        self.children[index] = self._make_value(field_name, field_spec, value_spec, field_params, None)
+                        children[index] = self._make_value(field_name, field_spec, value_spec, field_params, None)
+                self.children = children
             return
 
         try:
-- 
2.43.0


From b930aec5f8cbcaab1827d27f1298900f5ba0f3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:09 +0000
Subject: [PATCH 55/77] fix: the issuer of a revoked certificate was reported
 as absent after a failure to decode an extension

---
 asn1crypto/crl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/crl.py b/asn1crypto/crl.py
index 84d95d8..8f4b5d7 100644
--- a/asn1crypto/crl.py
+++ b/asn1crypto/crl.py
@@ -258,12 +258,13 @@ class RevokedCertificate(Sequence):
         """
 
         if self._issuer_name is False:
-            self._issuer_name = None
+            issuer_name = None
             if self.certificate_issuer_value:
                 for general_name in self.certificate_issuer_value:
                     if general_name.name == 'directory_name':
-                        self._issuer_name = general_name.chosen
+                        issuer_name = general_name.chosen
                         break
+            self._issuer_name = issuer_name
         return self._issuer_name
 
 
-- 
2.43.0


From 3619fd29552468abfce5fb036eb1369203f83e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:49 +0000
Subject: [PATCH 56/77] fix: the URL of a distribution point was reported as
 absent after a failure to determine it

---
 asn1crypto/x509.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 39a1dec..5aa9dc1 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1597,7 +1597,7 @@ class DistributionPoint(Sequence):
         """
 
         if self._url is False:
-            self._url = None
+            distribution_url = None
             name = self['distribution_point']
             if name.name != 'full_name':
                 raise ValueError(unwrap(
@@ -1611,9 +1611,11 @@ class DistributionPoint(Sequence):
                 if general_name.name == 'uniform_resource_identifier':
                     url = general_name.native
                     if url.lower().startswith(('http://', 'https://', 'ldap://', 'ldaps://')):
-                        self._url = url
+                        distribution_url = url
                         break
 
+            self._url = distribution_url
+
         return self._url
 
 
-- 
2.43.0


From d1f3cf360be7fdf8b837a236b907a8d6c6257688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:53 +0000
Subject: [PATCH 57/77] fix: AttributeError from distribution points that do
 not have a name

---
 asn1crypto/crl.py  | 3 +++
 asn1crypto/x509.py | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/asn1crypto/crl.py b/asn1crypto/crl.py
index 8f4b5d7..04eed4e 100644
--- a/asn1crypto/crl.py
+++ b/asn1crypto/crl.py
@@ -24,6 +24,7 @@ from .core import (
     ParsableOctetString,
     Sequence,
     SequenceOf,
+    VOID,
 )
 from .x509 import (
     AuthorityInfoAccessSyntax,
@@ -495,6 +496,8 @@ class CertificateList(Sequence):
             if self.freshest_crl_value is not None:
                 for distribution_point in self.freshest_crl_value:
                     distribution_point_name = distribution_point['distribution_point']
+                    if distribution_point_name is VOID:
+                        continue
                     # RFC 5280 indicates conforming CA should not use the relative form
                     if distribution_point_name.name == 'name_relative_to_crl_issuer':
                         continue
diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 5aa9dc1..10d136a 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1599,6 +1599,10 @@ class DistributionPoint(Sequence):
         if self._url is False:
             distribution_url = None
             name = self['distribution_point']
+            if name is VOID:
+                self._url = None
+                return self._url
+
             if name.name != 'full_name':
                 raise ValueError(unwrap(
                     '''
-- 
2.43.0


From d58d34f1c8e387c208f75a28a7b05dc01899ea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:57 +0000
Subject: [PATCH 58/77] fix: TypeError from the accessors of an OCSP response
 without response bytes

---
 asn1crypto/ocsp.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/ocsp.py b/asn1crypto/ocsp.py
index 4f83fea..e4c222f 100644
--- a/asn1crypto/ocsp.py
+++ b/asn1crypto/ocsp.py
@@ -28,6 +28,7 @@ from .core import (
     ParsableOctetString,
     Sequence,
     SequenceOf,
+    VOID,
 )
 from .crl import AuthorityInfoAccessSyntax, CRLReason
 from .keys import PublicKeyAlgorithm
@@ -634,7 +635,13 @@ class OCSPResponse(Sequence):
 
         self._critical_extensions = set()
 
-        for extension in self['response_bytes']['response'].parsed['tbs_response_data']['response_extensions']:
+        response_data = self.response_data
+        if response_data is None:
+            extensions = []
+        else:
+            extensions = response_data['response_extensions']
+
+        for extension in extensions:
             name = extension['extn_id'].native
             attribute_name = '_%s_value' % name
             if hasattr(self, attribute_name):
@@ -695,7 +702,11 @@ class OCSPResponse(Sequence):
             None or an asn1crypto.ocsp.BasicOCSPResponse object
         """
 
-        return self['response_bytes']['response'].parsed
+        response_bytes = self['response_bytes']
+        if response_bytes is VOID:
+            return None
+
+        return response_bytes['response'].parsed
 
     @property
     def response_data(self):
@@ -706,4 +717,8 @@ class OCSPResponse(Sequence):
             None or an asn1crypto.ocsp.ResponseData object
         """
 
-        return self['response_bytes']['response'].parsed['tbs_response_data']
+        basic_ocsp_response = self.basic_ocsp_response
+        if basic_ocsp_response is None:
+            return None
+
+        return basic_ocsp_response['tbs_response_data']
-- 
2.43.0


From db898e36394405b6e4cf3fc73dacde6673c3ae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:01 +0000
Subject: [PATCH 59/77] fix: AttributeError and TypeError from keys without
 algorithm parameters

---
 asn1crypto/keys.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 25a8f6c..1fc2c9d 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -38,6 +38,7 @@ from .core import (
     Sequence,
     SequenceOf,
     SetOf,
+    VOID,
 )
 from .util import int_from_bytes, int_to_bytes
 
@@ -879,6 +880,9 @@ class PrivateKeyInfo(Sequence):
             ))
 
         params = self['private_key_algorithm']['parameters']
+        if params is VOID:
+            raise ValueError('The parameters of the EC key are not present')
+
         chosen = params.chosen
 
         if params.name == 'implicit_ca':
@@ -898,7 +902,8 @@ class PrivateKeyInfo(Sequence):
             ValueError - when the key is not a DSA key
 
         :return:
-            A unicode string of "sha1" or "sha2"
+            A unicode string of "sha1" or "sha2" or None if no parameters are
+            present
         """
 
         if self.algorithm != 'dsa':
@@ -910,7 +915,11 @@ class PrivateKeyInfo(Sequence):
                 self.algorithm.upper()
             ))
 
-        byte_len = math.log(self['private_key_algorithm']['parameters']['q'].native, 2) / 8
+        parameters = self['private_key_algorithm']['parameters']
+        if parameters.native is None:
+            return None
+
+        byte_len = math.log(parameters['q'].native, 2) / 8
 
         return 'sha1' if byte_len <= 20 else 'sha2'
 
@@ -936,7 +945,10 @@ class PrivateKeyInfo(Sequence):
             if self.algorithm == 'rsa' or self.algorithm == 'rsassa_pss':
                 prime = self['private_key'].parsed['modulus'].native
             elif self.algorithm == 'dsa':
-                prime = self['private_key_algorithm']['parameters']['p'].native
+                params = self['private_key_algorithm']['parameters']
+                if params is VOID:
+                    raise ValueError('The parameters of the DSA key are not present')
+                prime = params['p'].native
             elif self.algorithm == 'ec':
                 prime = self['private_key'].parsed['private_key'].native
             self._bit_size = int(math.ceil(math.log(prime, 2)))
@@ -1203,6 +1215,9 @@ class PublicKeyInfo(Sequence):
             ))
 
         params = self['algorithm']['parameters']
+        if params is VOID:
+            raise ValueError('The parameters of the EC key are not present')
+
         chosen = params.chosen
 
         if params.name == 'implicit_ca':
@@ -1268,7 +1283,10 @@ class PublicKeyInfo(Sequence):
                 if self.algorithm == 'rsa' or self.algorithm == 'rsassa_pss':
                     prime = self['public_key'].parsed['modulus'].native
                 elif self.algorithm == 'dsa':
-                    prime = self['algorithm']['parameters']['p'].native
+                    params = self['algorithm']['parameters']
+                    if params is VOID:
+                        raise ValueError('The parameters of the DSA key are not present')
+                    prime = params['p'].native
                 self._bit_size = int(math.ceil(math.log(prime, 2)))
                 modulus = self._bit_size % 8
                 if modulus != 0:
-- 
2.43.0


From 7fe88ef09a04bc15382ebc242f0ae3dfcf5767ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:05 +0000
Subject: [PATCH 60/77] fix: UnboundLocalError from the bit size of a key that
 is not an RSA, DSA or EC key

---
 asn1crypto/keys.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 1fc2c9d..0b4d921 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -951,6 +951,14 @@ class PrivateKeyInfo(Sequence):
                 prime = params['p'].native
             elif self.algorithm == 'ec':
                 prime = self['private_key'].parsed['private_key'].native
+            else:
+                raise ValueError(unwrap(
+                    '''
+                    Can not determine the bit size of a key that uses the
+                    algorithm %s
+                    ''',
+                    self.algorithm
+                ))
             self._bit_size = int(math.ceil(math.log(prime, 2)))
             modulus = self._bit_size % 8
             if modulus != 0:
@@ -1287,6 +1295,14 @@ class PublicKeyInfo(Sequence):
                     if params is VOID:
                         raise ValueError('The parameters of the DSA key are not present')
                     prime = params['p'].native
+                else:
+                    raise ValueError(unwrap(
+                        '''
+                        Can not determine the bit size of a key that uses the
+                        algorithm %s
+                        ''',
+                        self.algorithm
+                    ))
                 self._bit_size = int(math.ceil(math.log(prime, 2)))
                 modulus = self._bit_size % 8
                 if modulus != 0:
-- 
2.43.0


From cc82bbafcc998283f3dc433082affb1db2bde020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:09 +0000
Subject: [PATCH 61/77] fix: errors from the authenticated safe of a signed
 Pfx, or of one without content

---
 asn1crypto/pkcs12.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/pkcs12.py b/asn1crypto/pkcs12.py
index 6702c58..b144d06 100644
--- a/asn1crypto/pkcs12.py
+++ b/asn1crypto/pkcs12.py
@@ -116,7 +116,9 @@ class Pfx(Sequence):
         if self._authenticated_safe is None:
             content = self['auth_safe']['content']
             if isinstance(content, SignedData):
-                content = content['content_info']['content']
+                content = content['encap_content_info']['content']
+            if content.native is None:
+                raise ValueError('The authenticated safe content is not present')
             self._authenticated_safe = AuthenticatedSafe.load(content.native)
         return self._authenticated_safe
 
-- 
2.43.0


From 148e9ce31ec7bc491e327deb2e37e4b2ec03fa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:13 +0000
Subject: [PATCH 62/77] fix: TypeError from the decompressed content of
 compressed data without content

---
 asn1crypto/cms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/cms.py b/asn1crypto/cms.py
index 57c9a13..b1f4591 100644
--- a/asn1crypto/cms.py
+++ b/asn1crypto/cms.py
@@ -933,7 +933,10 @@ class CompressedData(Sequence):
         if self._decompressed is None:
             if zlib is None:
                 raise SystemError('The zlib module is not available')
-            self._decompressed = zlib.decompress(self['encap_content_info']['content'].native)
+            content = self['encap_content_info']['content'].native
+            if content is None:
+                return None
+            self._decompressed = zlib.decompress(content)
         return self._decompressed
 
 
-- 
2.43.0


From 1a233faccf36d7015e85255f7270deb7ccb90199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:17 +0000
Subject: [PATCH 63/77] fix: AttributeError from an authority key identifier
 whose issuer is not a directory name

---
 asn1crypto/x509.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 10d136a..67ce4b4 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2683,14 +2683,18 @@ class Certificate(Sequence):
 
         if self._authority_issuer_serial is False:
             akiv = self.authority_key_identifier_value
+            authority_issuer_serial = None
             if akiv and akiv['authority_cert_issuer'].native:
-                issuer = self.authority_key_identifier_value['authority_cert_issuer'][0].chosen
-                # We untag the element since it is tagged via being a choice from GeneralName
-                issuer = issuer.untag()
-                authority_serial = self.authority_key_identifier_value['authority_cert_serial_number'].native
-                self._authority_issuer_serial = issuer.sha256 + b':' + str_cls(authority_serial).encode('ascii')
-            else:
-                self._authority_issuer_serial = None
+                for general_name in akiv['authority_cert_issuer']:
+                    # Only a directory name can be compared with the name of an issuer
+                    if general_name.name != 'directory_name':
+                        continue
+                    # We untag the element since it is tagged via being a choice from GeneralName
+                    issuer = general_name.chosen.untag()
+                    authority_serial = akiv['authority_cert_serial_number'].native
+                    authority_issuer_serial = issuer.sha256 + b':' + str_cls(authority_serial).encode('ascii')
+                    break
+            self._authority_issuer_serial = authority_issuer_serial
         return self._authority_issuer_serial
 
     @property
-- 
2.43.0


From d7624b7dab9fcf9705f108bdd59ecaeef070b955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:51 +0000
Subject: [PATCH 64/77] fix: TypeError from the accessors of an algorithm
 identifier without parameters

---
 asn1crypto/algos.py | 78 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 61 insertions(+), 17 deletions(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 24da4c3..85f3d69 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -47,6 +47,29 @@ class AlgorithmIdentifier(Sequence):
     ]
 
 
+def _require_parameters(algorithm):
+    """
+    :param algorithm:
+        An object with the fields "algorithm" and "parameters"
+
+    :raises:
+        ValueError - when the parameters are not present
+
+    :return:
+        The value of the "parameters" field
+    """
+
+    parameters = algorithm['parameters']
+    if isinstance(parameters, Void):
+        raise ValueError(unwrap(
+            '''
+            The parameters of the algorithm %s are not present
+            ''',
+            algorithm['algorithm'].native
+        ))
+    return parameters
+
+
 class _ForceNullParameters(object):
     """
     Various structures based on AlgorithmIdentifier require that the parameters
@@ -468,7 +491,7 @@ class SignedDigestAlgorithm(_ForceNullParameters, Sequence):
             return self._algo_map[algorithm]
 
         if algorithm == 'rsassa_pss':
-            return self['parameters']['hash_algorithm']['algorithm'].native
+            return _require_parameters(self)['hash_algorithm']['algorithm'].native
 
         if algorithm == 'ed25519' or algorithm == 'ed448':
             raise ValueError(unwrap(
@@ -503,7 +526,7 @@ class SignedDigestAlgorithm(_ForceNullParameters, Sequence):
             return self._algo_map[algorithm]
 
         if algorithm == 'rsassa_pss':
-            return self['parameters']['hash_algorithm']['algorithm'].native
+            return _require_parameters(self)['hash_algorithm']['algorithm'].native
 
         cms_algo_map = {
             'ed25519': 'sha512',
@@ -853,7 +876,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         encryption_algo = self['algorithm'].native
 
         if encryption_algo == 'pbes2':
-            return self['parameters']['key_derivation_func']['algorithm'].native
+            return _require_parameters(self)['key_derivation_func']['algorithm'].native
 
         if encryption_algo.find('.') == -1:
             if encryption_algo.find('_') != -1:
@@ -881,6 +904,27 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             encryption_algo
         ))
 
+    @property
+    def _kdf_parameters(self):
+        """
+        :raises:
+            ValueError - when the key derivation function is not recognized,
+            or its parameters are not present
+
+        :return:
+            A Pbkdf2Params or ScryptParams object
+        """
+
+        key_derivation_func = _require_parameters(self)['key_derivation_func']
+        if key_derivation_func['algorithm'].native not in set(['pbkdf2', 'scrypt']):
+            raise ValueError(unwrap(
+                '''
+                Unrecognized key derivation function "%s"
+                ''',
+                key_derivation_func['algorithm'].native
+            ))
+        return _require_parameters(key_derivation_func)
+
     @property
     def kdf_hmac(self):
         """
@@ -897,7 +941,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         if encryption_algo == 'pbes2':
             if self.kdf == 'scrypt':
                 return None
-            return self['parameters']['key_derivation_func']['parameters']['prf']['algorithm'].native
+            return self._kdf_parameters['prf']['algorithm'].native
 
         if encryption_algo.find('.') == -1:
             if encryption_algo.find('_') != -1:
@@ -932,7 +976,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         encryption_algo = self['algorithm'].native
 
         if encryption_algo == 'pbes2':
-            salt = self['parameters']['key_derivation_func']['parameters']['salt']
+            salt = self._kdf_parameters['salt']
 
             if salt.name == 'other_source':
                 raise ValueError(unwrap(
@@ -947,7 +991,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
 
         if encryption_algo.find('.') == -1:
             if encryption_algo.find('_') != -1:
-                return self['parameters']['salt'].native
+                return _require_parameters(self)['salt'].native
 
             raise ValueError(unwrap(
                 '''
@@ -979,11 +1023,11 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         if encryption_algo == 'pbes2':
             if self.kdf == 'scrypt':
                 return None
-            return self['parameters']['key_derivation_func']['parameters']['iteration_count'].native
+            return self._kdf_parameters['iteration_count'].native
 
         if encryption_algo.find('.') == -1:
             if encryption_algo.find('_') != -1:
-                return self['parameters']['iterations'].native
+                return _require_parameters(self)['iterations'].native
 
             raise ValueError(unwrap(
                 '''
@@ -1035,7 +1079,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return cipher_lengths[encryption_algo]
 
         if encryption_algo == 'rc2':
-            rc2_parameter_version = self['parameters']['rc2_parameter_version'].native
+            rc2_parameter_version = _require_parameters(self)['rc2_parameter_version'].native
 
             # See page 24 of
             # http://www.emc.com/collateral/white-papers/h11302-pkcs5v2-1-password-based-cryptography-standard-wp.pdf
@@ -1062,7 +1106,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             ))
 
         if encryption_algo == 'pbes2':
-            key_length = self['parameters']['key_derivation_func']['parameters']['key_length'].native
+            key_length = self._kdf_parameters['key_length'].native
             if key_length is not None:
                 return key_length
 
@@ -1071,7 +1115,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             # practical terms, neither OpenSSL or OS X support RC5 for PKCS#8
             # so it is unlikely to be an issue that is run into.
 
-            return self['parameters']['encryption_scheme'].key_length
+            return _require_parameters(self)['encryption_scheme'].key_length
 
         if encryption_algo.find('.') == -1:
             return {
@@ -1121,7 +1165,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return 'cbc'
 
         if encryption_algo == 'pbes2':
-            return self['parameters']['encryption_scheme'].encryption_mode
+            return _require_parameters(self)['encryption_scheme'].encryption_mode
 
         raise ValueError(unwrap(
             '''
@@ -1154,7 +1198,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return 'tripledes'
 
         if encryption_algo == 'pbes2':
-            return self['parameters']['encryption_scheme'].encryption_cipher
+            return _require_parameters(self)['encryption_scheme'].encryption_cipher
 
         if encryption_algo.find('.') == -1:
             return {
@@ -1202,10 +1246,10 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return cipher_map[encryption_algo]
 
         if encryption_algo == 'rc5':
-            return self['parameters']['block_size_in_bits'].native // 8
+            return _require_parameters(self)['block_size_in_bits'].native // 8
 
         if encryption_algo == 'pbes2':
-            return self['parameters']['encryption_scheme'].encryption_block_size
+            return _require_parameters(self)['encryption_scheme'].encryption_block_size
 
         if encryption_algo.find('.') == -1:
             return {
@@ -1244,7 +1288,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         encryption_algo = self['algorithm'].native
 
         if encryption_algo in set(['rc2', 'rc5']):
-            return self['parameters']['iv'].native
+            return _require_parameters(self)['iv'].native
 
         # For DES/Triple DES and AES the IV is the entirety of the parameters
         octet_string_iv_oids = set([
@@ -1261,7 +1305,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return self['parameters'].native
 
         if encryption_algo == 'pbes2':
-            return self['parameters']['encryption_scheme'].encryption_iv
+            return _require_parameters(self)['encryption_scheme'].encryption_iv
 
         # All of the PBES1 algos use their KDF to create the IV. For the pbkdf1,
         # the KDF is told to generate a key that is an extra 8 bytes long, and
-- 
2.43.0


From 49e9c8837ad39f4e4601ef08348fbae23e9f9e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:56 +0000
Subject: [PATCH 65/77] fix: AttributeError from the salt of scrypt

---
 asn1crypto/algos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 85f3d69..ec0f78f 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -978,7 +978,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         if encryption_algo == 'pbes2':
             salt = self._kdf_parameters['salt']
 
-            if salt.name == 'other_source':
+            if isinstance(salt, Pbkdf2Salt) and salt.name == 'other_source':
                 raise ValueError(unwrap(
                     '''
                     Can not determine key derivation salt - the
-- 
2.43.0


From 7b857ff66274fe1fd0678a3c8fb687710bc32daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:59 +0000
Subject: [PATCH 66/77] fix: key derivation properties of algorithms that are
 not password based

---
 asn1crypto/algos.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index ec0f78f..55b7da7 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -944,7 +944,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return self._kdf_parameters['prf']['algorithm'].native
 
         if encryption_algo.find('.') == -1:
-            if encryption_algo.find('_') != -1:
+            if encryption_algo.startswith(('pbes1_', 'pkcs12_')):
                 _, hmac_algo, _ = encryption_algo.split('_', 2)
                 return hmac_algo
 
@@ -990,7 +990,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return salt.native
 
         if encryption_algo.find('.') == -1:
-            if encryption_algo.find('_') != -1:
+            if encryption_algo.startswith(('pbes1_', 'pkcs12_')):
                 return _require_parameters(self)['salt'].native
 
             raise ValueError(unwrap(
@@ -1026,7 +1026,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return self._kdf_parameters['iteration_count'].native
 
         if encryption_algo.find('.') == -1:
-            if encryption_algo.find('_') != -1:
+            if encryption_algo.startswith(('pbes1_', 'pkcs12_')):
                 return _require_parameters(self)['iterations'].native
 
             raise ValueError(unwrap(
-- 
2.43.0


From deee833db5169c84077cf28df8aef608b7d58957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:03 +0000
Subject: [PATCH 67/77] fix: key length of RC2 without a parameter version, or
 with one that is the number of bits

---
 asn1crypto/algos.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 55b7da7..79de177 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -1092,12 +1092,12 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             if rc2_parameter_version in encoded_key_bits_map:
                 return encoded_key_bits_map[rc2_parameter_version]
 
-            if rc2_parameter_version >= 256:
-                return rc2_parameter_version
-
             if rc2_parameter_version is None:
                 return 4  # 32-bit default
 
+            if rc2_parameter_version >= 256:
+                return rc2_parameter_version // 8  # The number of bits
+
             raise ValueError(unwrap(
                 '''
                 Invalid RC2 parameter version found in EncryptionAlgorithm
-- 
2.43.0


From e2653b607f3edf104732579e0fecfaadd4d4668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:55 +0000
Subject: [PATCH 68/77] fix: KeyError from the key length, cipher and block
 size of RC4, RC5 and RSA

---
 asn1crypto/algos.py | 96 +++++++++++++++++++++++----------------------
 1 file changed, 50 insertions(+), 46 deletions(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 79de177..b2a40b4 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -1117,21 +1117,22 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
 
             return _require_parameters(self)['encryption_scheme'].key_length
 
-        if encryption_algo.find('.') == -1:
-            return {
-                'pbes1_md2_des': 8,
-                'pbes1_md5_des': 8,
-                'pbes1_md2_rc2': 8,
-                'pbes1_md5_rc2': 8,
-                'pbes1_sha1_des': 8,
-                'pbes1_sha1_rc2': 8,
-                'pkcs12_sha1_rc4_128': 16,
-                'pkcs12_sha1_rc4_40': 5,
-                'pkcs12_sha1_tripledes_3key': 24,
-                'pkcs12_sha1_tripledes_2key': 16,
-                'pkcs12_sha1_rc2_128': 16,
-                'pkcs12_sha1_rc2_40': 5,
-            }[encryption_algo]
+        pbe_map = {
+            'pbes1_md2_des': 8,
+            'pbes1_md5_des': 8,
+            'pbes1_md2_rc2': 8,
+            'pbes1_md5_rc2': 8,
+            'pbes1_sha1_des': 8,
+            'pbes1_sha1_rc2': 8,
+            'pkcs12_sha1_rc4_128': 16,
+            'pkcs12_sha1_rc4_40': 5,
+            'pkcs12_sha1_tripledes_3key': 24,
+            'pkcs12_sha1_tripledes_2key': 16,
+            'pkcs12_sha1_rc2_128': 16,
+            'pkcs12_sha1_rc2_40': 5,
+        }
+        if encryption_algo in pbe_map:
+            return pbe_map[encryption_algo]
 
         raise ValueError(unwrap(
             '''
@@ -1191,7 +1192,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         if encryption_algo[0:7] in set(['aes128_', 'aes192_', 'aes256_']):
             return 'aes'
 
-        if encryption_algo in set(['des', 'rc2', 'rc5']):
+        if encryption_algo in set(['des', 'rc2', 'rc4', 'rc5']):
             return encryption_algo
 
         if encryption_algo == 'tripledes_3key':
@@ -1200,21 +1201,22 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         if encryption_algo == 'pbes2':
             return _require_parameters(self)['encryption_scheme'].encryption_cipher
 
-        if encryption_algo.find('.') == -1:
-            return {
-                'pbes1_md2_des': 'des',
-                'pbes1_md5_des': 'des',
-                'pbes1_md2_rc2': 'rc2',
-                'pbes1_md5_rc2': 'rc2',
-                'pbes1_sha1_des': 'des',
-                'pbes1_sha1_rc2': 'rc2',
-                'pkcs12_sha1_rc4_128': 'rc4',
-                'pkcs12_sha1_rc4_40': 'rc4',
-                'pkcs12_sha1_tripledes_3key': 'tripledes',
-                'pkcs12_sha1_tripledes_2key': 'tripledes',
-                'pkcs12_sha1_rc2_128': 'rc2',
-                'pkcs12_sha1_rc2_40': 'rc2',
-            }[encryption_algo]
+        pbe_map = {
+            'pbes1_md2_des': 'des',
+            'pbes1_md5_des': 'des',
+            'pbes1_md2_rc2': 'rc2',
+            'pbes1_md5_rc2': 'rc2',
+            'pbes1_sha1_des': 'des',
+            'pbes1_sha1_rc2': 'rc2',
+            'pkcs12_sha1_rc4_128': 'rc4',
+            'pkcs12_sha1_rc4_40': 'rc4',
+            'pkcs12_sha1_tripledes_3key': 'tripledes',
+            'pkcs12_sha1_tripledes_2key': 'tripledes',
+            'pkcs12_sha1_rc2_128': 'rc2',
+            'pkcs12_sha1_rc2_40': 'rc2',
+        }
+        if encryption_algo in pbe_map:
+            return pbe_map[encryption_algo]
 
         raise ValueError(unwrap(
             '''
@@ -1241,6 +1243,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             'des': 8,
             'tripledes_3key': 8,
             'rc2': 8,
+            'rc4': 0,
         }
         if encryption_algo in cipher_map:
             return cipher_map[encryption_algo]
@@ -1251,21 +1254,22 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         if encryption_algo == 'pbes2':
             return _require_parameters(self)['encryption_scheme'].encryption_block_size
 
-        if encryption_algo.find('.') == -1:
-            return {
-                'pbes1_md2_des': 8,
-                'pbes1_md5_des': 8,
-                'pbes1_md2_rc2': 8,
-                'pbes1_md5_rc2': 8,
-                'pbes1_sha1_des': 8,
-                'pbes1_sha1_rc2': 8,
-                'pkcs12_sha1_rc4_128': 0,
-                'pkcs12_sha1_rc4_40': 0,
-                'pkcs12_sha1_tripledes_3key': 8,
-                'pkcs12_sha1_tripledes_2key': 8,
-                'pkcs12_sha1_rc2_128': 8,
-                'pkcs12_sha1_rc2_40': 8,
-            }[encryption_algo]
+        pbe_map = {
+            'pbes1_md2_des': 8,
+            'pbes1_md5_des': 8,
+            'pbes1_md2_rc2': 8,
+            'pbes1_md5_rc2': 8,
+            'pbes1_sha1_des': 8,
+            'pbes1_sha1_rc2': 8,
+            'pkcs12_sha1_rc4_128': 0,
+            'pkcs12_sha1_rc4_40': 0,
+            'pkcs12_sha1_tripledes_3key': 8,
+            'pkcs12_sha1_tripledes_2key': 8,
+            'pkcs12_sha1_rc2_128': 8,
+            'pkcs12_sha1_rc2_40': 8,
+        }
+        if encryption_algo in pbe_map:
+            return pbe_map[encryption_algo]
 
         raise ValueError(unwrap(
             '''
-- 
2.43.0


From b994a79ff8c885deab0209729390b3c1526248fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:00 +0000
Subject: [PATCH 69/77] fix: the bit size of an RSAES-OAEP public key could not
 be determined

---
 asn1crypto/keys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 0b4d921..4abd2b3 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -1288,7 +1288,7 @@ class PublicKeyInfo(Sequence):
             if self.algorithm == 'ec':
                 self._bit_size = int(((len(self['public_key'].native) - 1) / 2) * 8)
             else:
-                if self.algorithm == 'rsa' or self.algorithm == 'rsassa_pss':
+                if self.algorithm in set(['rsa', 'rsaes_oaep', 'rsassa_pss']):
                     prime = self['public_key'].parsed['modulus'].native
                 elif self.algorithm == 'dsa':
                     params = self['algorithm']['parameters']
-- 
2.43.0


From 696ca2e71bb529fc6d4d8f541e01270835700f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:04 +0000
Subject: [PATCH 70/77] fix: the bit size of an EC private key depended on the
 magnitude of the private value

---
 asn1crypto/keys.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 4abd2b3..7b1499f 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -950,6 +950,10 @@ class PrivateKeyInfo(Sequence):
                     raise ValueError('The parameters of the DSA key are not present')
                 prime = params['p'].native
             elif self.algorithm == 'ec':
+                params = self['private_key_algorithm']['parameters']
+                if params is not VOID and params.name == 'named' and params.chosen.dotted in NamedCurve._key_sizes:
+                    self._bit_size = params.key_size * 8
+                    return self._bit_size
                 prime = self['private_key'].parsed['private_key'].native
             else:
                 raise ValueError(unwrap(
-- 
2.43.0


From 3edec42a5163296e738eaeb3e7a39948b773c6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:26 +0000
Subject: [PATCH 71/77] fix: comparing a GeneralName with an object of another
 type raised AttributeError

---
 asn1crypto/x509.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 67ce4b4..8999e92 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1484,6 +1484,9 @@ class GeneralName(Choice):
             A boolean
         """
 
+        if not isinstance(other, GeneralName):
+            return False
+
         if self.name in ('other_name', 'x400_address', 'edi_party_name'):
             raise ValueError(unwrap(
                 '''
-- 
2.43.0


From 89e6f377f186076b9edd6f3e8fe3d460b448c453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:01 +0000
Subject: [PATCH 72/77] fix: members of a Set were ordered by the wrong tag,
 and absent or undecoded ones could not be encoded

---
 asn1crypto/core.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index fed173f..6bfd048 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4961,8 +4961,12 @@ class Set(Sequence):
             self._parse_children()
 
         child_tag_encodings = []
-        for index, child in enumerate(self.children):
-            child_encoding = child.dump(force=force)
+        for index in range(0, len(self.children)):
+            child_encoding = self._lazy_child(index).dump(force=force)
+
+            # Skip children that are absent
+            if child_encoding == b'':
+                continue
 
             # Skip encoding defaulted children
             name, spec, field_params = self._fields[index]
@@ -4970,7 +4974,10 @@ class Set(Sequence):
                 if spec(**field_params).dump() == child_encoding:
                     continue
 
-            child_tag_encodings.append((child.tag, child_encoding))
+            # The order is that of the outermost tag, which may be an explicit
+            # one or that of a chosen alternative
+            class_, _, tag = _parse(child_encoding, len(child_encoding))[0][0:3]
+            child_tag_encodings.append(((class_, tag), child_encoding))
         child_tag_encodings.sort(key=lambda ct: ct[0])
 
         self._contents = b''.join([ct[1] for ct in child_tag_encodings])
-- 
2.43.0


From be87e066d617e7b4aa162c4904b73086f0fd60b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:30 +0000
Subject: [PATCH 73/77] fix: a Sequence or Set constructed from an empty dict
 could not be encoded

---
 asn1crypto/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 6bfd048..40f4980 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3597,6 +3597,11 @@ class Sequence(Asn1Value):
                         ', '.join(sorted(list(unused_keys)))
                     ))
 
+                # A value without any components still has an encoding
+                if self.children is None and self._contents is None:
+                    self._parse_children()
+                    self._mutated = True
+
             except (ValueError, TypeError) as e:
                 args = e.args[1:]
                 e.args = (e.args[0] + '\n    while constructing %s' % type_name(self),) + args
-- 
2.43.0


From 10544270f822911a9c21bfc7505bb63c5bd72e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:32 +0000
Subject: [PATCH 74/77] fix: parse() kept, and could modify, the dict of
 parameters it was passed

---
 asn1crypto/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 40f4980..026105e 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1015,7 +1015,7 @@ class Any(Asn1Value):
                     spec=spec,
                     spec_params=passed_params
                 )
-                self._parsed = (parsed_value, spec, spec_params)
+                self._parsed = (parsed_value, spec, dict(spec_params) if spec_params is not None else None)
 
                 # Once we've parsed the Any value, clear any attributes from this object
                 # since they are now duplicate
@@ -2942,8 +2942,11 @@ class ParsableOctetString(Constructable, Castable, Primitive):
         """
 
         if self._parsed is None or self._parsed[1:3] != (spec, spec_params):
-            parsed_value, _ = _parse_build(self.__bytes__(), spec=spec, spec_params=spec_params)
-            self._parsed = (parsed_value, spec, spec_params)
+            # The dict belongs to the caller, and decoding may normalize the one it is passed
+            kept_params = dict(spec_params) if spec_params is not None else None
+            passed_params = dict(spec_params) if spec_params is not None else None
+            parsed_value, _ = _parse_build(self.__bytes__(), spec=spec, spec_params=passed_params)
+            self._parsed = (parsed_value, spec, kept_params)
         return self._parsed[0]
 
     def __bytes__(self):
-- 
2.43.0


From 47272960840437ae5f706dd428519a3ee60d9a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:47 +0000
Subject: [PATCH 75/77] fix: Concat.load() accepted text and failed on other
 types with unrelated errors

---
 asn1crypto/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 026105e..5031dd2 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1504,6 +1504,9 @@ class Concat(object):
             A Concat object
         """
 
+        if not isinstance(encoded_data, byte_cls):
+            raise TypeError('encoded_data must be a byte string, not %s' % type_name(encoded_data))
+
         return cls(contents=encoded_data, strict=strict)
 
     def __init__(self, value=None, contents=None, strict=False):
-- 
2.43.0


From aae300d5866f39c6c2d8da562850821fb3e27541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:05 +0000
Subject: [PATCH 76/77] fix: set_encoded_width() and set_key_size() kept values
 that are not integers

---
 asn1crypto/core.py | 11 +++++++++++
 asn1crypto/keys.py | 13 ++++++++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 5031dd2..b168ea1 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2853,8 +2853,19 @@ class IntegerOctetString(Constructable, Castable, Primitive):
 
         :param width:
             An integer byte width to encode the integer to
+
+        :raises:
+            TypeError - when the width is not an integer
         """
 
+        if not isinstance(width, int_types):
+            raise TypeError(unwrap(
+                '''
+                width must be an integer, not %s
+                ''',
+                type_name(width)
+            ))
+
         previous_width = self._encoded_width
         try:
             self._encoded_width = width
diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 7b1499f..4014d88 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -20,7 +20,7 @@ import hashlib
 import math
 
 from ._errors import unwrap, APIException
-from ._types import type_name, byte_cls
+from ._types import type_name, byte_cls, int_types
 from .algos import _ForceNullParameters, DigestAlgorithm, EncryptionAlgorithm, RSAESOAEPParams, RSASSAPSSParams
 from .core import (
     Any,
@@ -614,8 +614,19 @@ class ECPrivateKey(Sequence):
 
         :param key_size:
             An integer byte length to encode the private_key to
+
+        :raises:
+            TypeError - when the key_size is not an integer
         """
 
+        if not isinstance(key_size, int_types):
+            raise TypeError(unwrap(
+                '''
+                key_size must be an integer, not %s
+                ''',
+                type_name(key_size)
+            ))
+
         self._key_size = key_size
         self._update_key_size()
 
-- 
2.43.0


From 48bfc2a04fc7ac29ac2870c89b276697ccceba8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:15 +0000
Subject: [PATCH 77/77] fix: wrap keys of the rsassa_pss algorithm without
 parameters instead of failing

---
 asn1crypto/keys.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 4014d88..2d12ebd 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -792,7 +792,7 @@ class PrivateKeyInfo(Sequence):
         if algorithm == 'rsa' or algorithm == 'rsassa_pss':
             if not isinstance(private_key, RSAPrivateKey):
                 private_key = RSAPrivateKey.load(private_key)
-            params = Null()
+            params = Null() if algorithm == 'rsa' else None
         elif algorithm == 'dsa':
             if not isinstance(private_key, DSAPrivateKey):
                 private_key = DSAPrivateKey.load(private_key)
@@ -1190,7 +1190,8 @@ class PublicKeyInfo(Sequence):
 
         algo = PublicKeyAlgorithm()
         algo['algorithm'] = PublicKeyAlgorithmId(algorithm)
-        algo['parameters'] = Null()
+        if algorithm == 'rsa':
+            algo['parameters'] = Null()
 
         container = cls()
         container['algorithm'] = algo
-- 
2.43.0

