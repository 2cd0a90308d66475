From 093a0fc66582406ce62b2da76cd6d4a45488b07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 01/74] fix: JSON numbers with a fraction can be part of
 headers and claims

---
 src/jwkest/jwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwt.py b/src/jwkest/jwt.py
index 3240cf8..df93472 100644
--- a/src/jwkest/jwt.py
+++ b/src/jwkest/jwt.py
@@ -21,7 +21,7 @@ def split_token(token):
 def b2s_conv(item):
     if isinstance(item, bytes):
         return item.decode("utf-8")
-    elif item is None or isinstance(item, (six.string_types, int, bool)):
+    elif item is None or isinstance(item, (six.string_types, int, float, bool)):
         return item
     elif isinstance(item, list):
         return [b2s_conv(i) for i in item]
-- 
2.43.0


From 842c652deaf2c4e64f0f971e9d626dca1f9e8eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:11 +0000
Subject: [PATCH 02/74] fix: ECDSA signatures must have exactly the length of
 the curve

---
 src/jwkest/ecc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index 2504ced..6390521 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -101,6 +101,9 @@ class NISTEllipticCurve(object):
     def verify(self, h, sig, pub):
         while h > self.N:
             h >>= 1
+        # both values are encoded with exactly the width of the curve
+        if len(sig) != 2 * self.bytes:
+            return False
         r = self.bytes2int(sig[:self.bytes])
         s = self.bytes2int(sig[self.bytes:])
         if 0 < r < self.N and 0 < s < self.N:
-- 
2.43.0


From 985f86d9beb947538e2d1f042434d495edb86c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:18 +0000
Subject: [PATCH 03/74] fix: ECDSA hash values between the order and its bit
 length are not shifted

---
 src/jwkest/ecc.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index 6390521..0b2f24f 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -87,10 +87,13 @@ class NISTEllipticCurve(object):
             s = (kinv * (h + r * priv)) % self.N
         return r, s
 
+    # Only as many bits of the hash as the order has are used
+    def _truncate(self, h):
+        return h >> max(0, h.bit_length() - self.N.bit_length())
+
     # ECDSA (adapted from ecdsa.py)
     def sign(self, h, priv, k=None):
-        while h > self.N:
-            h >>= 1
+        h = self._truncate(h)
 
         r = s = 0
 
@@ -99,8 +102,7 @@ class NISTEllipticCurve(object):
         return self.int2bytes(r) + self.int2bytes(s)
 
     def verify(self, h, sig, pub):
-        while h > self.N:
-            h >>= 1
+        h = self._truncate(h)
         # both values are encoded with exactly the width of the curve
         if len(sig) != 2 * self.bytes:
             return False
-- 
2.43.0


From 5e680bbe19b0903277cb9b75bc392a37f9a3636e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:23 +0000
Subject: [PATCH 04/74] fix: EC private keys and ECDSA nonces come from the OS
 random source

---
 src/jwkest/ecc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index 0b2f24f..3060949 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -14,9 +14,12 @@ from jwkest.elliptic import sign_bit
 from jwkest.elliptic import muladdp
 from jwkest.elliptic import y_from_x
 from jwkest.curves import get_curve
-from random import getrandbits
+from random import SystemRandom
 from math import ceil
 
+# private keys and signature nonces must not be predictable
+getrandbits = SystemRandom().getrandbits
+
 
 class ECCException(Exception):
     pass
-- 
2.43.0


From a65404c769499a67a4a8482c83166642700f1a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:30 +0000
Subject: [PATCH 05/74] fix: degenerate ECDSA values neither loop forever nor
 raise TypeError

---
 src/jwkest/ecc.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index 3060949..60d84b0 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -85,9 +85,9 @@ class NISTEllipticCurve(object):
             kinv = inv(k, self.N)
             kg = mulp(self.a, self.b, self.p, self.G, k)
             r = kg[0] % self.N
-            if r == 0:
-                continue
             s = (kinv * (h + r * priv)) % self.N
+            # should another round be needed it has to be with another nonce
+            k = None
         return r, s
 
     # Only as many bits of the hash as the order has are used
@@ -115,8 +115,10 @@ class NISTEllipticCurve(object):
             w = inv(s, self.N)
             u1 = (h * w) % self.N
             u2 = (r * w) % self.N
-            x, y = muladdp(self.a, self.b, self.p, self.G, u1, pub, u2)
-            return r % self.N == x % self.N
+            point = muladdp(self.a, self.b, self.p, self.G, u1, pub, u2)
+            if point is None:  # the neutral element
+                return False
+            return r % self.N == point[0] % self.N
         return False
 
 
-- 
2.43.0


From 91f3752c3ee8bab317202b230990e027ac5ff3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 06/74] fix: b64d rejects a final line break and bad padding
 with BadSyntax

---
 src/jwkest/__init__.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/jwkest/__init__.py b/src/jwkest/__init__.py
index 97f197b..acf3daa 100644
--- a/src/jwkest/__init__.py
+++ b/src/jwkest/__init__.py
@@ -145,7 +145,7 @@ def b64e(b):
     return base64.urlsafe_b64encode(b).rstrip(b"=")
 
 
-_b64_re = re.compile(b"^[A-Za-z0-9_-]*$")
+_b64_re = re.compile(b"^[A-Za-z0-9_-]*\\Z")
 
 
 def add_padding(b):
@@ -177,10 +177,7 @@ def b64d(b):
     if not _b64_re.match(cb):
         raise BadSyntax(cb, "base64-encoded data contains illegal characters")
 
-    if cb == b:
-        b = add_padding(b)
-
-    return base64.urlsafe_b64decode(b)
+    return base64.urlsafe_b64decode(add_padding(cb))
 
 
 def b64e_enc_dec(str, encode="utf-8", decode="ascii"):
-- 
2.43.0


From 7db53d18584ee328316ac075133363b9b9ed91b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 07/74] fix: an EC key without coordinates is not deserialized

---
 src/jwkest/jwk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 32891c7..ee4aaad 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -590,8 +590,8 @@ class ECKey(Key):
         Starting with information gathered from the on-the-wire representation
         of an elliptic curve key initiate an Elliptic Curve.
         """
-        if not (self.x and self.y and self.crv):
-            DeSerializationNotPossible()
+        if not self.crv or self.x in ("", b"", None) or self.y in ("", b"", None):
+            raise DeSerializationNotPossible()
 
         try:
             if not isinstance(self.x, six.integer_types):
-- 
2.43.0


From 75382ee875d931c0cb63e757ca8a82b9b4d50cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 08/74] fix: integer conversions handle zero, odd-length
 hexadecimal and text input

---
 src/jwkest/__init__.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/jwkest/__init__.py b/src/jwkest/__init__.py
index acf3daa..3db5f70 100644
--- a/src/jwkest/__init__.py
+++ b/src/jwkest/__init__.py
@@ -84,14 +84,12 @@ def intarr2bin(arr):
 
 
 def long2hexseq(l):
-    try:
-        return unhexlify(hex(l)[2:])
-    except TypeError:
-        return unhexlify(hex(l)[2:-1])
+    h = "%x" % l
+    return unhexlify("0" * (len(h) % 2) + h)
 
 
 def intarr2long(arr):
-    return int(''.join(["%02x" % byte for byte in arr]), 16)
+    return int(''.join(["%02x" % byte for byte in arr]) or "0", 16)
 
 
 def long2intarr(long_int):
@@ -106,7 +104,7 @@ def long_to_base64(n):
     bys = long2intarr(n)
     data = struct.pack('%sB' % len(bys), *bys)
     if not len(data):
-        data = '\x00'
+        data = b'\x00'
     s = base64.urlsafe_b64encode(data).rstrip(b'=')
     return s.decode("ascii")
 
@@ -128,11 +126,14 @@ def base64url_to_long(data):
     :param data: The base64 string
     :return:
     """
-    _d = base64.urlsafe_b64decode(bytes(data) + b'==')
+    if isinstance(data, six.text_type):
+        data = data.encode("ascii")
+
     # verify that it's base64url encoded and not just base64
     # that is no '+' and '/' characters and not trailing "="s.
-    if [e for e in [b'+', b'/', b'='] if e in data]:
+    if not _b64_re.match(bytes(data)):
         raise ValueError("Not base64url encoded")
+    _d = base64.urlsafe_b64decode(bytes(data) + b'==')
     return intarr2long(struct.unpack('%sB' % len(_d), _d))
 
 
-- 
2.43.0


From a6d9e7fe9752ce6287255c8b5d303f29109a02b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 09/74] fix: JWK integers that are not base64url are rejected

---
 src/jwkest/jwk.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index ee4aaad..c2aed3f 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -19,6 +19,8 @@ from requests import request
 from jwkest import as_bytes
 from jwkest import as_unicode
 from jwkest import base64_to_long
+from jwkest import intarr2long
+from jwkest import BadSyntax
 from jwkest import base64url_to_long
 from jwkest import long_to_base64
 from jwkest import JWKESTException
@@ -405,7 +407,15 @@ def deser(val):
     else:
         _val = val
 
-    return base64_to_long(_val)
+    # member values have to be base64url encoded integers
+    try:
+        _octets = b64d(bytes(_val))
+    except BadSyntax as err:
+        raise ValueError("%s" % err)
+    if not _octets:
+        raise ValueError("Not an integer")
+
+    return intarr2long(bytearray(_octets))
 
 
 class RSAKey(Key):
-- 
2.43.0


From 0913af7dd51d378e916b7ffbcd822e0aadc8db56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 10/74] fix: EC keys loaded from a JWK have a usable private
 value and a text curve name

---
 src/jwkest/jwk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index c2aed3f..7186f2e 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -580,7 +580,7 @@ class ECKey(Key):
     def __init__(self, kty="EC", alg="", use="", kid="", key=None,
             crv="", x="", y="", d="", curve=None, **kwargs):
         Key.__init__(self, kty, alg, use, kid, key, **kwargs)
-        self.crv = crv
+        self.crv = as_unicode(crv)
         self.x = x
         self.y = y
         self.d = d
@@ -616,7 +616,7 @@ class ECKey(Key):
         self.curve = NISTEllipticCurve.by_name(self.crv)
         if self.d:
             try:
-                if isinstance(self.d, six.string_types):
+                if not isinstance(self.d, six.integer_types):
                     self.d = deser(self.d)
             except ValueError as err:
                 raise DeSerializationNotPossible(str(err))
-- 
2.43.0


From 91e01b07fcc2792ad6ebcd073a96558f3e40c3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:50 +0000
Subject: [PATCH 11/74] fix: a generated EC key knows the name of its curve

---
 src/jwkest/jwk.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 7186f2e..1e02e3d 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -651,6 +651,7 @@ class ECKey(Key):
 
     def load_key(self, key):
         self.curve = key
+        self.crv = key.name()
         self.d, (self.x, self.y) = key.key_pair()
         return self
 
-- 
2.43.0


From c8f870ebebac2fbee6b82cad4ac8ca932b0984c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 12/74] fix: EC coordinates and private values are exported
 with the full width of the curve

---
 src/jwkest/jwk.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 1e02e3d..305fda7 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -640,15 +640,19 @@ class ECKey(Key):
         res = self.common()
         res.update({
             "crv": self.curve.name(),
-            "x": long_to_base64(self.x),
-            "y": long_to_base64(self.y)
+            "x": self._coordinate(self.x),
+            "y": self._coordinate(self.y)
         })
 
         if private and self.d:
-            res["d"] = long_to_base64(self.d)
+            res["d"] = self._coordinate(self.d)
 
         return res
 
+    def _coordinate(self, val):
+        # always the full width of the curve, RFC 7518 section 6.2
+        return as_unicode(b64e(self.curve.int2bytes(val)))
+
     def load_key(self, key):
         self.curve = key
         self.crv = key.name()
-- 
2.43.0


From a00d2e580c33c1827338b241d7732de6df5f9503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 13/74] fix: an EC key whose point is not on its curve is
 rejected

---
 src/jwkest/ecc.py | 6 ++++++
 src/jwkest/jwk.py | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index 60d84b0..2f314c6 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -8,6 +8,7 @@ from __future__ import division
 
 from Cryptodome.Util.number import long_to_bytes
 from Cryptodome.Util.number import bytes_to_long
+from jwkest.elliptic import element
 from jwkest.elliptic import inv
 from jwkest.elliptic import mulp
 from jwkest.elliptic import sign_bit
@@ -64,6 +65,11 @@ class NISTEllipticCurve(object):
     def uncompress(self, p):
         return p[0], y_from_x(p[0], self.a, self.b, self.p, p[1])
 
+    # Is this the (x, y) of a point on the curve ?
+    def on_curve(self, p):
+        return (0 <= p[0] < self.p and 0 <= p[1] < self.p and
+                element(p, self.a, self.b, self.p))
+
     # Return a new key pair for this curve
     def key_pair(self):
         priv = (getrandbits(self.bits) % (self.N - 1)) + 1
diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 305fda7..cb631f7 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -614,6 +614,8 @@ class ECKey(Key):
             raise DeSerializationNotPossible("%s" % err)
 
         self.curve = NISTEllipticCurve.by_name(self.crv)
+        if not self.curve.on_curve((self.x, self.y)):
+            raise DeSerializationNotPossible("Not a point on the curve")
         if self.d:
             try:
                 if not isinstance(self.d, six.integer_types):
-- 
2.43.0


From 78a146c57578c2a1dbf25c792445acf2c25abb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 14/74] fix: an EC public key may have a coordinate that is
 zero

---
 src/jwkest/jwk.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index cb631f7..c18071a 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -630,10 +630,10 @@ class ECKey(Key):
             else:
                 raise ValueError()
         else:
-            if self.x and self.y:
-                return self.x, self.y
-            else:
+            if self.x in ("", None) or self.y in ("", None):
                 raise ValueError()
+            else:
+                return self.x, self.y
 
     def serialize(self, private=False):
         if not self.crv and not self.curve:
-- 
2.43.0


From 36a420837888d7e7dc798a5600c85b1fd637c792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 15/74] fix: comparing keys of unknown type does not raise
 AttributeError

---
 src/jwkest/jwk.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index c18071a..c69bf6c 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -422,11 +422,9 @@ class RSAKey(Key):
     """
     JSON Web key representation of a RSA key
     """
-    members = Key.members
-    members.extend(["n", "e", "d", "p", "q"])
+    members = Key.members + ["n", "e", "d", "p", "q"]
     longs = ["n", "e", "d", "p", "q", "dp", "dq", "di", "qi"]
-    public_members = Key.public_members
-    public_members.extend(["n", "e"])
+    public_members = Key.public_members + ["n", "e"]
     required = ['kty', 'n', 'e']
 
     def __init__(self, kty="RSA", alg="", use="", kid="", key=None,
-- 
2.43.0


From f0e729491a37bfa2f4f720d7ef263aaf7bea8998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 16/74] fix: symmetric keys with different key material are not
 equal

---
 src/jwkest/jwk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index c69bf6c..bed555e 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -691,6 +691,9 @@ class SYMKey(Key):
             if isinstance(self.k, str):
                 self.k = self.k.encode("utf-8")
             self.key = b64d(bytes(self.k))
+        if self.key:
+            # the same whether the key was given as octets or as a JWK
+            self.k = b64e(bytes(self.key))
 
     def deserialize(self):
         if self.k:
-- 
2.43.0


From ed22256d519a3947c772eae0dec9ce10c32b17ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:17 +0000
Subject: [PATCH 17/74] fix: hashing a key does not give it a key id

---
 src/jwkest/jwk.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index bed555e..ecad50f 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -394,10 +394,7 @@ class Key(object):
 
     def __hash__(self):
         if not self._hash:
-            if self.kid:
-                self.get_hash()
-            else:
-                self.add_kid()
+            self.get_hash()
         return self._hash
 
 
-- 
2.43.0


From 24cefc90517964f9ed2fc5e725e3b9b5e8157b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 18/74] fix: keys of unknown type can be exported, printed and
 hashed

---
 src/jwkest/jwk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index ecad50f..77e6656 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -313,7 +313,7 @@ class Key(object):
         map key characteristics into attribute values that can be used
         to create an on-the-wire representation of the key
         """
-        pass
+        return self.common()
 
     def get_key(self, **kwargs):
         return self.key
-- 
2.43.0


From e1c5aaf1d3cf1ceecab678afa0ec3e7ea323c29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:00 +0000
Subject: [PATCH 19/74] fix: public copies of keys are working keys

---
 src/jwkest/jwk.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 77e6656..c97b656 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -953,4 +953,13 @@ def make_public_copy(key):
         else:
             setattr(c, attr, v)
 
+    # make it a working key
+    if isinstance(key, RSAKey):
+        if c.n and c.e:
+            c.deserialize()
+    elif isinstance(key, ECKey):
+        c.curve = key.curve
+    elif isinstance(key, SYMKey):
+        c.key = key.key
+
     return c
-- 
2.43.0


From c5386e2f6d59e64b95fa322f4c61b9b443b8568d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 20/74] fix: computing a thumbprint does not reorder the list
 of members

---
 src/jwkest/jwk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index c97b656..326dd55 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -367,7 +367,7 @@ class Key(object):
         if members is None:
             members = self.required
 
-        members.sort()
+        members = sorted(members)
         ser = self.serialize()
         _se = []
         for elem in members:
-- 
2.43.0


From 78fcd39a58c558dac64a070e720534e6e0ff4be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:12 +0000
Subject: [PATCH 21/74] fix: JWKs with a certificate thumbprint can be loaded
 from a key set

---
 src/jwkest/jwk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 326dd55..d591324 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -273,8 +273,8 @@ class Key(object):
             self.kid = as_unicode(kid)
 
         self.x5c = x5c or []
-        self.x5t = x5t
-        self.x5u = x5u
+        self.x5t = as_unicode(x5t)
+        self.x5u = as_unicode(x5u)
         self.inactive_since = 0
         self._hash = None
 
-- 
2.43.0


From 6afc9cddfa12dd40b852e273c2761a7a48aaeb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 22/74] fix: RSA keys from integers, or with only one of the
 prime factors, are built correctly

---
 src/jwkest/jwk.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index d591324..3a1a11d 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -438,7 +438,7 @@ class RSAKey(Key):
         self.di = di
         self.qi = qi
 
-        has_public_key_parts = len(self.n) > 0 and len(self.e)
+        has_public_key_parts = bool(self.n and self.e)
         has_x509_cert_chain = len(self.x5c) > 0
 
         if not self.key and (has_public_key_parts or has_x509_cert_chain):
@@ -464,13 +464,9 @@ class RSAKey(Key):
                 lst = [self.n, self.e]
                 if self.d:
                     lst.append(self.d)
-                if self.p:
-                    lst.append(self.p)
-                    if self.q:
-                        lst.append(self.q)
-                    self.key = RSA.construct(tuple(lst))
-                else:
-                    self.key = RSA.construct(lst)
+                    if self.p and self.q:
+                        lst.extend([self.p, self.q])
+                self.key = RSA.construct(tuple(lst))
             except ValueError as err:
                 raise DeSerializationNotPossible("%s" % err)
         elif self.x5c:
-- 
2.43.0


From 8a4520329fb938c6fce2725dcda82a11b3846264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 23/74] fix: ECDSA algorithms only use keys on their curve

---
 src/jwkest/jws.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 87e3038..cbf5f37 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -210,6 +210,14 @@ SIGNER_ALGS = {
 }
 
 
+# RFC 7518 section 3.4
+ALG2CURVE = {
+    'ES256': P256.name(),
+    'ES384': P384.name(),
+    'ES512': P521.name()
+}
+
+
 def alg2keytype(alg):
     if not alg or alg.lower() == "none":
         return "none"
@@ -385,6 +393,10 @@ class JWx(object):
         _kty = [_k.lower(), _k.upper(), _k.lower().encode("utf-8"),
                 _k.upper().encode("utf-8")]
         _keys = [k for k in keys if k.kty in _kty]
+        if alg in ALG2CURVE:
+            _keys = [k for k in _keys if
+                     getattr(k, "curve", None) is not None and
+                     k.curve.name() == ALG2CURVE[alg]]
         try:
             _kid = self["kid"]
         except KeyError:
-- 
2.43.0


From 2b105b05dfaf1383d168127a0fed4cb77fd035c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 24/74] fix: byte messages can be encrypted with AES key wrap
 algorithms

---
 src/jwkest/jwe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index a2e5885..4ce9dcd 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -437,7 +437,7 @@ class JWE_SYM(JWe):
 
         _enc = self["enc"]
 
-        ctxt, tag, cek = self.enc_setup(_enc, _msg.encode(),
+        ctxt, tag, cek = self.enc_setup(_enc, as_bytes(_msg),
                                         jwe.b64_encode_header(),
                                         cek, iv=iv)
         return jwe.pack(parts=[jek, iv, ctxt, tag])
-- 
2.43.0


From 957f926d9f178a111cf74638301acce65cf5b75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 25/74] fix: a public EC key is enough for encrypting

---
 src/jwkest/jwe.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 4ce9dcd..824eaf9 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -814,13 +814,7 @@ class JWE(JWx):
             kwargs["iv"] = iv
 
         for key in keys:
-            if isinstance(encrypter, JWE_EC):
-                if self.enc:
-                    _key = key.encryption_key(alg=self.enc, private=True)
-                else:
-                    _key = key.encryption_key(alg=_alg, private=True)
-            else:
-                _key = key.encryption_key(alg=_alg, private=True)
+            _key = key.encryption_key(alg=_alg, private=False)
 
             if key.kid:
                 encrypter["kid"] = key.kid
-- 
2.43.0


From 8409e17956a7b12f142dc5120620b2373e2892b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 26/74] fix: AES-GCM with 192-bit keys and keys with leading
 zero bits

---
 src/jwkest/aes_gcm.py | 8 +++++++-
 src/jwkest/jwe.py     | 4 ++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/aes_gcm.py b/src/jwkest/aes_gcm.py
index bb158c7..6383cc1 100755
--- a/src/jwkest/aes_gcm.py
+++ b/src/jwkest/aes_gcm.py
@@ -80,7 +80,13 @@ class AES_GCM(object):
         # if master_key >= (1 << 128):
         #    raise InvalidInputException('Master key should be 128-bit')
 
-        self._master_key = long_to_bytes(master_key, 16)
+        if isinstance(master_key, bytes):
+            self._master_key = master_key
+        else:
+            # an integer: the shortest AES key it fits in
+            self._master_key = long_to_bytes(master_key, 8)
+            if len(self._master_key) < 16:
+                self._master_key = long_to_bytes(master_key, 16)
         self._aes_ecb = AES.new(self._master_key, AES.MODE_ECB)
         self._auth_key = bytes_to_long(self._aes_ecb.encrypt(b'\x00' * 16))
 
diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 824eaf9..08c13f5 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -359,7 +359,7 @@ class JWe(JWx):
         key, iv = self._generate_key_and_iv(enc_alg, key, iv)
 
         if enc_alg in ["A192GCM", "A128GCM", "A256GCM"]:
-            gcm = AES_GCM(bytes_to_long(key))
+            gcm = AES_GCM(key)
             ctxt, tag = gcm.encrypt(bytes_to_long(iv), msg, auth_data)
             tag = long_to_bytes(tag)
         elif enc_alg in ["A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512"]:
@@ -383,7 +383,7 @@ class JWe(JWx):
         :return: plain text message or None if decryption failed
         """
         if enc in ["A128GCM", "A192GCM", "A256GCM"]:
-            gcm = AES_GCM(bytes_to_long(key))
+            gcm = AES_GCM(key)
             try:
                 text = gcm.decrypt(bytes_to_long(iv), ctxt, bytes_to_long(tag),
                                    auth_data)
-- 
2.43.0


From 7dc6b12336c265ba5657ecf6ae57041a167c3888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 27/74] fix: GCM authentication tags with leading zero octets
 keep their length

---
 src/jwkest/jwe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 08c13f5..3c7e23f 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -361,7 +361,7 @@ class JWe(JWx):
         if enc_alg in ["A192GCM", "A128GCM", "A256GCM"]:
             gcm = AES_GCM(key)
             ctxt, tag = gcm.encrypt(bytes_to_long(iv), msg, auth_data)
-            tag = long_to_bytes(tag)
+            tag = long_to_bytes(tag, 16)
         elif enc_alg in ["A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512"]:
             assert enc_alg in SUPPORTED["enc"]
             ctxt, tag = aes_cbc_hmac_encrypt(key, iv, auth_data, msg)
-- 
2.43.0


From 8955a7c732fd6016e2fb8642d1eac4c75dd1852c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 28/74] fix: content keys, GCM nonces and GCM tags of the wrong
 length are rejected

---
 src/jwkest/jwe.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 3c7e23f..3ed851f 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -382,7 +382,14 @@ class JWe(JWx):
         :param tag: Authentication tag
         :return: plain text message or None if decryption failed
         """
+        if enc in SUPPORTED["enc"] and len(key) * 8 != KEYLEN[enc]:
+            raise DecryptionFailed("Wrong length of the encryption key")
+
         if enc in ["A128GCM", "A192GCM", "A256GCM"]:
+            # the integers used below don't tell the number of octets
+            if len(iv) != 12 or len(tag) != 16:
+                raise DecryptionFailed("Wrong length of the initialization "
+                                       "vector or the authentication tag")
             gcm = AES_GCM(key)
             try:
                 text = gcm.decrypt(bytes_to_long(iv), ctxt, bytes_to_long(tag),
-- 
2.43.0


From 744f9ea84037a5c1261fc174276b6541997fa0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 29/74] fix: AES key wrap refuses data of a length RFC 3394
 does not permit

---
 src/jwkest/aes_key_wrap.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jwkest/aes_key_wrap.py b/src/jwkest/aes_key_wrap.py
index 0e09c09..fccdd86 100644
--- a/src/jwkest/aes_key_wrap.py
+++ b/src/jwkest/aes_key_wrap.py
@@ -31,6 +31,9 @@ QUAD = struct.Struct('>Q')
 
 
 def aes_unwrap_key_and_iv(kek, wrapped, mode=MODE_ECB):
+    # at least two 64-bit blocks of key data and the integrity check block
+    if len(wrapped) < 24 or len(wrapped) % 8:
+        raise ValueError("Wrong length of the wrapped key: %d" % len(wrapped))
     n = (len(wrapped) // 8) - 1
     #NOTE: R[0] is never accessed, left in for consistency with RFC indices
     r = [None] + [wrapped[i * 8:i * 8 + 8] for i in range(1, n + 1)]
@@ -65,6 +68,8 @@ def aes_unwrap_key_withpad(kek, wrapped):
 
 
 def aes_wrap_key(kek, plaintext, iv=0xa6a6a6a6a6a6a6a6, mode=MODE_ECB):
+    if len(plaintext) < 16 or len(plaintext) % 8:
+        raise ValueError("Wrong length of the key data: %d" % len(plaintext))
     n = len(plaintext) // 8
     r = [None] + [plaintext[i * 8:i * 8 + 8] for i in range(0, n)]
     a = iv
-- 
2.43.0


From 6c09d29f5956236c7fb4714546a02ef874874dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 30/74] fix: AES key wrap with padding works and conforms to
 RFC 5649

---
 src/jwkest/aes_key_wrap.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/aes_key_wrap.py b/src/jwkest/aes_key_wrap.py
index fccdd86..2d29ebe 100644
--- a/src/jwkest/aes_key_wrap.py
+++ b/src/jwkest/aes_key_wrap.py
@@ -58,12 +58,19 @@ def aes_unwrap_key(kek, wrapped, iv=0xa6a6a6a6a6a6a6a6):
 
 
 def aes_unwrap_key_withpad(kek, wrapped):
-    key, key_iv = aes_unwrap_key_and_iv(kek, wrapped)
+    if len(wrapped) == 16:
+        # a single block of key data, RFC 5649 section 4.2
+        block = AES.new(kek, MODE_ECB).decrypt(wrapped)
+        key, key_iv = block[8:], QUAD.unpack(block[:8])[0]
+    else:
+        key, key_iv = aes_unwrap_key_and_iv(kek, wrapped)
     key_iv = "{0:016X}".format(key_iv)
     if key_iv[:8] != "A65959A6":
         raise ValueError(
             "Integrity Check Failed: " + key_iv[:8] + " (expected A65959A6)")
     key_len = int(key_iv[8:], 16)
+    if not len(key) - 8 < key_len <= len(key) or key[key_len:].strip(b"\0"):
+        raise ValueError("Integrity Check Failed: wrong padding")
     return key[:key_len]
 
 
@@ -83,8 +90,13 @@ def aes_wrap_key(kek, plaintext, iv=0xa6a6a6a6a6a6a6a6, mode=MODE_ECB):
 
 
 def aes_wrap_key_withpad(kek, plaintext):
+    if not plaintext:
+        raise ValueError("No key data")
     iv = 0xA65959A600000000 + len(plaintext)
-    plaintext += "\0" * (8 - len(plaintext) % 8)
+    plaintext += b"\0" * (-len(plaintext) % 8)
+    if len(plaintext) == 8:
+        # a single block of key data, RFC 5649 section 4.1
+        return AES.new(kek, MODE_ECB).encrypt(QUAD.pack(iv) + plaintext)
     return aes_wrap_key(kek, plaintext, iv)
 
 
-- 
2.43.0


From c9f0ef6bf506a7ddae2eefd32c4c93d1d80956a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:23 +0000
Subject: [PATCH 31/74] fix: the AlgorithmID in the ECDH-ES key derivation is
 preceded by its length

---
 src/jwkest/extra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/extra.py b/src/jwkest/extra.py
index 9777532..bfa2eab 100644
--- a/src/jwkest/extra.py
+++ b/src/jwkest/extra.py
@@ -176,7 +176,7 @@ def ecdh_derive_key(curve, key, epk, apu, apv, alg, dk_len):
     Z = curve.dh_z(key, epk)
     # Derive the key
     # AlgorithmID || PartyUInfo || PartyVInfo || SuppPubInfo
-    otherInfo = bytes(alg) + \
+    otherInfo = pack("!I", len(alg)) + bytes(alg) + \
         pack("!I", len(apu)) + apu + \
         pack("!I", len(apv)) + apv + \
         pack("!I", dk_len)
-- 
2.43.0


From d334343ebdc788fcd55da0f5bfe0f32f6a834837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 32/74] fix: ECDH-ES tokens without party information can be
 decrypted

---
 src/jwkest/jwe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 3ed851f..ea0a25a 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -660,7 +660,7 @@ class JWE_EC(JWe):
                 "Ephemeral Public Key Missing in ECDH-ES Computation")
 
         epubkey = ECKey(**self.headers["epk"])
-        apu = apv = ""
+        apu = apv = b""
         if "apu" in self.headers:
             apu = b64d(self.headers["apu"].encode())
         if "apv" in self.headers:
-- 
2.43.0


From 18db07afcb7bd328995071d03fdbf40acf090a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 33/74] fix: party information given by the caller is used in
 key agreement

---
 src/jwkest/jwe.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index ea0a25a..7de51e8 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -593,11 +593,11 @@ class JWE_EC(JWe):
 
         # Generate the input parameters
         try:
-            apu = b64d(kwargs["apu"])
+            apu = b64d(as_bytes(kwargs["apu"]))
         except KeyError:
             apu = Random.get_random_bytes(16)
         try:
-            apv = b64d(kwargs["apv"])
+            apv = b64d(as_bytes(kwargs["apv"]))
         except KeyError:
             apv = Random.get_random_bytes(16)
 
@@ -734,7 +734,7 @@ class JWE_EC(JWe):
 
 class JWE(JWx):
     args = ["alg", "enc", "epk", "zip", "jku", "jwk", "x5u", "x5t",
-            "x5c", "kid", "typ", "cty", "apu", "crit"]
+            "x5c", "kid", "typ", "cty", "apu", "apv", "crit"]
 
     """
     :param msg: The message
@@ -761,6 +761,7 @@ class JWE(JWx):
         'JWS+JSON' == JWS JSON Serialization
     :param cty: Content Type
     :param apu: Agreement PartyUInfo
+    :param apv: Agreement PartyVInfo
     :param crit: indicates which extensions that are being used and MUST
         be understood and processed.
     :return: A class instance
-- 
2.43.0


From f8c281c6c760f04e3c5025edf2d820ee1c081dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:45 +0000
Subject: [PATCH 34/74] fix: an ephemeral key can be given as a dictionary

---
 src/jwkest/jwe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 7de51e8..9d13d9b 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -609,7 +609,7 @@ class JWE_EC(JWe):
         curve = NISTEllipticCurve.by_name(key.crv)
         if "epk" in kwargs:
             epk = kwargs["epk"] if isinstance(kwargs["epk"], ECKey) else ECKey(
-                kwargs["epk"])
+                **kwargs["epk"])
         else:
             epk = ECKey().load_key(key=NISTEllipticCurve.by_name(key.crv))
 
-- 
2.43.0


From 430abcc74434666b1ceb30f8348f6e88baee8b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 35/74] fix: decrypting refuses tokens which do not have
 exactly five parts

---
 src/jwkest/jwe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 9d13d9b..07aa91c 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -848,6 +848,9 @@ class JWE(JWx):
         elif self.jwt:
             jwe = self.jwt
 
+        if len(jwe) != 5:
+            raise WrongNumberOfParts(len(jwe))
+
         _alg = jwe.headers["alg"]
         if alg and alg != _alg:
             raise WrongEncryptionAlgorithm()
-- 
2.43.0


From 5ab687116e32a3c2e78baeaf020f059606c53a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 36/74] fix: ephemeral keys on another curve than the
 recipient's are refused

---
 src/jwkest/jwe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 07aa91c..c990c0c 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -660,6 +660,9 @@ class JWE_EC(JWe):
                 "Ephemeral Public Key Missing in ECDH-ES Computation")
 
         epubkey = ECKey(**self.headers["epk"])
+        if epubkey.crv != key.crv:
+            raise DecryptionFailed(
+                "The Ephemeral Public Key is not on the curve of the key")
         apu = apv = b""
         if "apu" in self.headers:
             apu = b64d(self.headers["apu"].encode())
-- 
2.43.0


From c78b95fc67e6b8513bbdceb00b4b5958b0cfa583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 37/74] fix: direct key agreement does not accept an encrypted
 key

---
 src/jwkest/jwe.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index c990c0c..b572743 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -675,6 +675,10 @@ class JWE_EC(JWe):
             except KeyError:
                 raise Exception("Unknown key length for algorithm")
 
+            # RFC 7518 section 4.6: with direct key agreement it's empty
+            if token.encrypted_key():
+                raise DecryptionFailed("Unexpected encrypted key")
+
             self.cek = ecdh_derive_key(epubkey.curve, key.d,
                                        (epubkey.x, epubkey.y), apu, apv,
                                        str(self.headers["enc"]).encode(),
-- 
2.43.0


From ca60663be38e8d76738847ec30479551b9f5fc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:07 +0000
Subject: [PATCH 38/74] fix: decrypting goes on to the next key when one does
 not fit

---
 src/jwkest/jwe.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index b572743..1a7f451 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -25,12 +25,14 @@ from jwkest import WrongNumberOfParts
 from jwkest import JWKESTException
 from jwkest import MissingKey
 from jwkest.aes_gcm import AES_GCM
+from jwkest.aes_gcm import InvalidTagException
 from jwkest.aes_key_wrap import aes_wrap_key
 from jwkest.aes_key_wrap import aes_unwrap_key
 from jwkest.ecc import NISTEllipticCurve
 from jwkest.extra import aes_cbc_hmac_encrypt
 from jwkest.extra import ecdh_derive_key
 from jwkest.extra import aes_cbc_hmac_decrypt
+from jwkest.extra import VerificationFailure
 from jwkest.jwk import intarr2str, SYMKey
 from jwkest.jwk import ECKey
 from jwkest.jws import JWx
@@ -882,7 +884,7 @@ class JWE(JWx):
                 raise NoSuitableECDHKey(_alg)
 
             decrypter = JWE_EC(**self._dict)
-            cek = decrypter.dec_setup(jwe, key=keys[0])
+            cek = None  # derived from the key
         else:
             raise NotSupportedAlgorithm
 
@@ -899,10 +901,15 @@ class JWE(JWx):
         for key in keys:
             _key = key.encryption_key(alg=_alg, private=False)
             try:
+                if isinstance(decrypter, JWE_EC):
+                    decrypter.dec_setup(jwe, key=key)
                 msg = decrypter.decrypt(jwe, _key)
                 self["cek"] = decrypter.cek if 'cek' in decrypter else None
-            except (KeyError, DecryptionFailed):
-                pass
+            except (KeyError, TypeError, ValueError, DecryptionFailed,
+                    VerificationFailure, InvalidTagException) as err:
+                # may be another key fits
+                logger.debug("Could not decrypt using key with kid=%s: %s" % (
+                    key.kid, err))
             else:
                 logger.debug(
                     "Decrypted message using key with kid=%s" % key.kid)
-- 
2.43.0


From fc5b3c6f76ef7384b00992ef7bf9756111ce5534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:38 +0000
Subject: [PATCH 39/74] fix: critical extensions are not a certificate chain

---
 src/jwkest/jws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index cbf5f37..41a854e 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -300,7 +300,7 @@ class JWx(object):
                     else:
                         self._dict["jwk"] = _val
                 elif key == "x5c" or key == "crit":
-                    self._dict["x5c"] = _val or []
+                    self._dict[key] = _val or []
                 else:
                     self._dict[key] = _val
 
-- 
2.43.0


From 94243450307d1aa1252ff7ab64b171a175e43304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 40/74] fix: tokens with critical extensions are rejected

---
 src/jwkest/jwe.py |  1 +
 src/jwkest/jws.py | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 1a7f451..19c2592 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -859,6 +859,7 @@ class JWE(JWx):
 
         if len(jwe) != 5:
             raise WrongNumberOfParts(len(jwe))
+        self.check_critical(jwe.headers)
 
         _alg = jwe.headers["alg"]
         if alg and alg != _alg:
diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 41a854e..2edfc2d 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -78,6 +78,10 @@ class SignerAlgError(JWSException):
     pass
 
 
+class UnsupportedExtension(JWSException):
+    pass
+
+
 def left_hash(msg, func="HS256"):
     """ 128 bits == 16 bytes """
     if func == 'HS256':
@@ -431,6 +435,18 @@ class JWx(object):
 
         return pkey
 
+    @staticmethod
+    def check_critical(headers):
+        """
+        No extensions are supported, hence none can be critical
+        (RFC 7515 section 4.1.11, RFC 7516 section 4.1.13).
+
+        :param headers: The headers of a received token
+        """
+        if "crit" in headers:
+            raise UnsupportedExtension(
+                "Unsupported critical extensions: %s" % (headers["crit"],))
+
     def _pick_alg(self, keys):
         alg = None
         try:
@@ -542,6 +558,7 @@ class JWS(JWx):
         if len(jwt) != 3:
             raise WrongNumberOfParts(len(jwt))
 
+        self.check_critical(jwt.headers)
         self.jwt = jwt
 
         try:
@@ -677,6 +694,7 @@ class JWS(JWx):
             all_headers = unprotected_headers.copy()
             all_headers.update(
                 json.loads(b64d_enc_dec(protected_headers) or {}))
+            self.check_critical(all_headers)
             self.__init__(**all_headers)
 
             _tmp = self.verify_compact(token, keys, allow_none, sigalg)
-- 
2.43.0


From aa13b5bf9812b5dff33d03959d64e1c8a898a2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 41/74] fix: signing does not change the given protected
 headers

---
 src/jwkest/jws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 2edfc2d..abe6506 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -483,7 +483,7 @@ class JWS(JWx):
         else:
             keys = self.pick_keys(self._get_keys(), use=use, alg=_alg)
 
-        xargs = protected or {}
+        xargs = dict(protected or {})
         xargs["alg"] = _alg
 
         if keys:
-- 
2.43.0


From c031a718fe331ade1a19898b981542f28c530bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 42/74] fix: a JSON serialized JWS without signatures is not
 verified

---
 src/jwkest/jws.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index abe6506..797e7f7 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -684,6 +684,9 @@ class JWS(JWx):
                     signature[key] = _jwss[key]
             _signs = [signature]
 
+        if not _signs:
+            raise FormatError("Missing signatures")
+
         _claim = None
         for _sign in _signs:
             protected_headers = _sign.get("protected", "")
-- 
2.43.0


From 22664fae0ec5b6837422f3050870f3febca5b9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 43/74] fix: compressed content is raw DEFLATE

---
 src/jwkest/jwe.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 19c2592..e64e10b 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -267,6 +267,21 @@ ENCALGLEN2 = {
 }
 
 
+def deflate(msg):
+    """ Raw DEFLATE (RFC 1951), that is without the zlib header """
+    _compress = zlib.compressobj(zlib.Z_DEFAULT_COMPRESSION, zlib.DEFLATED,
+                                 -zlib.MAX_WBITS)
+    return _compress.compress(msg) + _compress.flush()
+
+
+def inflate(msg):
+    try:
+        return zlib.decompress(msg, -zlib.MAX_WBITS)
+    except zlib.error:
+        # earlier versions of this library added the zlib header
+        return zlib.decompress(msg)
+
+
 class JWEnc(JWT):
     def b64_protected_header(self):
         return self.b64part[0]
@@ -480,7 +495,7 @@ class JWE_SYM(JWe):
             jwe.initialization_vector(), jwe.authentication_tag())
 
         if "zip" in self and self["zip"] == "DEF":
-            msg = zlib.decompress(msg)
+            msg = inflate(msg)
 
         return msg
 
@@ -503,7 +518,7 @@ class JWE_RSA(JWe):
         _msg = as_bytes(self.msg)
         if "zip" in self:
             if self["zip"] == "DEF":
-                _msg = zlib.compress(_msg)
+                _msg = deflate(_msg)
             else:
                 raise ParameterError("Zip has unknown value: %s" % self["zip"])
 
@@ -578,7 +593,7 @@ class JWE_RSA(JWe):
                             jwe.authentication_tag())
 
         if "zip" in jwe.headers and jwe.headers["zip"] == "DEF":
-            msg = zlib.decompress(msg)
+            msg = inflate(msg)
 
         return msg
 
-- 
2.43.0


From eda49147424ffd65436c3ff9e113fd8ce621f951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 44/74] fix: compression works with all key management
 algorithms

---
 src/jwkest/jwe.py | 48 ++++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index e64e10b..a426744 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -363,6 +363,26 @@ class JWe(JWx):
     def alg2keytype(self, alg):
         return alg2keytype(alg)
 
+    def compress(self, msg):
+        """ Apply the compression that goes into the header, if any """
+        if "zip" in self and self["zip"]:
+            if self["zip"] == "DEF":
+                return deflate(msg)
+            else:
+                raise ParameterError("Zip has unknown value: %s" % self["zip"])
+        return msg
+
+    @staticmethod
+    def decompress(msg, headers):
+        """ Undo the compression the header of a received token tells of """
+        if headers.get("zip"):
+            if headers["zip"] == "DEF":
+                return inflate(msg)
+            else:
+                raise ParameterError(
+                    "Zip has unknown value: %s" % (headers["zip"],))
+        return msg
+
     def enc_setup(self, enc_alg, msg, auth_data, key=None, iv=""):
         """ Encrypt JWE content.
 
@@ -422,7 +442,7 @@ class JWe(JWx):
 
 class JWE_SYM(JWe):
     args = JWe.args[:]
-    args.append("enc")
+    args.extend(["enc", "zip"])
 
     def encrypt(self, key, iv="", cek="", **kwargs):
         """
@@ -433,7 +453,7 @@ class JWE_SYM(JWe):
         :param kwargs: Extra keyword arguments, just ignore for now.
         :return:
         """
-        _msg = self.msg
+        _msg = self.compress(as_bytes(self.msg))
 
         _args = self._dict
         try:
@@ -461,7 +481,7 @@ class JWE_SYM(JWe):
 
         _enc = self["enc"]
 
-        ctxt, tag, cek = self.enc_setup(_enc, as_bytes(_msg),
+        ctxt, tag, cek = self.enc_setup(_enc, _msg,
                                         jwe.b64_encode_header(),
                                         cek, iv=iv)
         return jwe.pack(parts=[jek, iv, ctxt, tag])
@@ -494,10 +514,7 @@ class JWE_SYM(JWe):
             jwe.b64_protected_header(),
             jwe.initialization_vector(), jwe.authentication_tag())
 
-        if "zip" in self and self["zip"] == "DEF":
-            msg = inflate(msg)
-
-        return msg
+        return self.decompress(msg, jwe.headers)
 
 
 class JWE_RSA(JWe):
@@ -515,12 +532,7 @@ class JWE_RSA(JWe):
         :return: A jwe
         """
 
-        _msg = as_bytes(self.msg)
-        if "zip" in self:
-            if self["zip"] == "DEF":
-                _msg = deflate(_msg)
-            else:
-                raise ParameterError("Zip has unknown value: %s" % self["zip"])
+        _msg = self.compress(as_bytes(self.msg))
 
         kwarg_cek = cek or None
 
@@ -592,15 +604,12 @@ class JWE_RSA(JWe):
                             jwe.initialization_vector(),
                             jwe.authentication_tag())
 
-        if "zip" in jwe.headers and jwe.headers["zip"] == "DEF":
-            msg = inflate(msg)
-
-        return msg
+        return self.decompress(msg, jwe.headers)
 
 
 class JWE_EC(JWe):
     args = JWe.args[:]
-    args.append("enc")
+    args.extend(["enc", "zip"])
 
     def enc_setup(self, msg, auth_data, key=None, **kwargs):
 
@@ -714,7 +723,7 @@ class JWE_EC(JWe):
 
     def encrypt(self, key, iv="", cek="", **kwargs):
 
-        _msg = as_bytes(self.msg)
+        _msg = self.compress(as_bytes(self.msg))
         _args = self._dict
         try:
             _args["kid"] = kwargs["kid"]
@@ -751,6 +760,7 @@ class JWE_EC(JWe):
                                            self.ctxt,
                                            jwe.b64part[0],
                                            self.iv, self.tag)
+        msg = self.decompress(msg, self.headers)
         self.msg = msg
         self.msg_valid = True
         return msg
-- 
2.43.0


From 832120ea081fda756e34d96612217e6725fcec5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 45/74] fix: content keys and initialization vectors of wrong
 length are not used

---
 src/jwkest/jwe.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index a426744..ae3d4ff 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -341,9 +341,6 @@ class JWEnc(JWT):
 class JWe(JWx):
     @staticmethod
     def _generate_key_and_iv(encalg, cek="", iv=""):
-        if cek and iv:
-            return cek, iv
-
         try:
             _key = Random.get_random_bytes(ENCALGLEN1[encalg])
             _iv = Random.get_random_bytes(12)
@@ -358,6 +355,11 @@ class JWe(JWx):
         if iv:
             _iv = iv
 
+        if len(_key) * 8 != KEYLEN[encalg]:
+            raise ParameterError("Wrong length of the encryption key")
+        if len(_iv) != (12 if encalg in ENCALGLEN1 else 16):
+            raise ParameterError("Wrong length of the initialization vector")
+
         return _key, _iv
 
     def alg2keytype(self, alg):
-- 
2.43.0


From 84c8c08b5b4f6bfe576b7f1ed10cb796b2214c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 46/74] fix: malformed padding is noticed, length of associated
 data is that of its octets

---
 src/jwkest/extra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/extra.py b/src/jwkest/extra.py
index bfa2eab..3951fb3 100644
--- a/src/jwkest/extra.py
+++ b/src/jwkest/extra.py
@@ -53,7 +53,7 @@ def pkcs5trim(x):
     n = unpack('B', x[-1:])[0]
     # Should never have more than 16 bytes of padding
     # ... since we're only using this with AES
-    if n > 16:
+    if not 1 <= n <= 16 or x[-n:] != pack('B', n) * n:
         raise Exception("Mal-formed PKCS#5 padding")
     return x[:-n]
 
@@ -120,9 +120,9 @@ def aes_cbc_hmac_decrypt(key, iv, aad, ct, tag):
     ka, ke, seclen, dgst = get_keys_seclen_dgst(key, iv)
 
     # Verify A || IV || E || AL
-    al = pack("!Q", 8*len(aad))
     if isinstance(aad, str):
         aad = aad.encode("utf-8")
+    al = pack("!Q", 8*len(aad))
     mac_input = aad + iv + ct + al
     h = HMAC.new(ka, digestmod=dgst)
     h.update(mac_input)
-- 
2.43.0


From 778f876b10705797aa268a157e5206a18fd1eff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 47/74] fix: recognising tokens does not fail on what is no
 token

---
 src/jwkest/jwe.py | 12 ++++++++++--
 src/jwkest/jws.py | 12 +++++++++---
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index ae3d4ff..ed92af6 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -317,7 +317,11 @@ class JWEnc(JWT):
         return b64encode_item(self.headers)
 
     def is_jwe(self):
-        if "typ" in self.headers and self.headers["typ"].lower() == "jwe":
+        if not isinstance(self.headers, dict):
+            return False
+
+        if isinstance(self.headers.get("typ"), six.string_types) and \
+                self.headers["typ"].lower() == "jwe":
             return True
 
         try:
@@ -948,7 +952,11 @@ class JWE(JWx):
 
 
 def factory(token):
-    _jwt = JWEnc().unpack(token)
+    try:
+        _jwt = JWEnc().unpack(token)
+    except Exception:  # not even a JWT
+        return None
+
     if _jwt.is_jwe():
         _jwe = JWE()
         _jwe.jwt = _jwt
diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 797e7f7..7a75cce 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -724,10 +724,13 @@ class JWS(JWx):
                 json_jws = json.loads(jws)
 
             return self._is_json_serialized_jws(json_jws)
-        except ValueError:
+        except (ValueError, RuntimeError):  # not JSON or nested too deep
             return self._is_compact_jws(jws)
 
     def _is_json_serialized_jws(self, json_jws):
+        if not isinstance(json_jws, dict):
+            return False
+
         json_ser_keys = set(["payload", "signatures"])
         flattened_json_ser_keys = set(["payload", "signature"])
         if not json_ser_keys.issubset(
@@ -742,6 +745,9 @@ class JWS(JWx):
         except Exception:
             return False
 
+        if not isinstance(jwt.headers, dict):
+            return False
+
         try:
             assert "alg" in jwt.headers
         except AssertionError:
@@ -751,9 +757,9 @@ class JWS(JWx):
                 jwt.headers["alg"] = "none"
 
             try:
-                assert jwt.headers["alg"] in SIGNER_ALGS
+                assert jwt.headers["alg"] in list(SIGNER_ALGS)
             except AssertionError:
-                logger.debug("UnknownSignerAlg: %s" % jwt.headers["alg"])
+                logger.debug("UnknownSignerAlg: %s" % (jwt.headers["alg"],))
                 return False
             else:
                 self.jwt = jwt
-- 
2.43.0


From 28781164041468aed70337f780f8d52f832fd2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 48/74] fix: y coordinate of a compressed point

---
 src/jwkest/elliptic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jwkest/elliptic.py b/src/jwkest/elliptic.py
index 4c109db..b8d52ec 100755
--- a/src/jwkest/elliptic.py
+++ b/src/jwkest/elliptic.py
@@ -347,6 +347,12 @@ def y_from_x(x, p, q, n, sign):
     # optimized form of (x**3 - p*x - q) % n
     a = (((x * x) % n - p) * x - q) % n
 
+    # square root, given that n is 3 modulo 4
+    y = pow(a, (n + 1) // 4, n)
+    if (y * y - a) % n:
+        raise ValueError("There is no point with that x coordinate")
+    return y if y % 2 == sign else n - y
+
 
 if __name__ == "__main__":
     from Cryptodome.Random.random import randint
-- 
2.43.0


From 23542c877120d85dd4ec8f2068f9acd7eddac3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 49/74] fix: PBKDF2 with Python 3

---
 src/jwkest/PBKDF2.py | 51 ++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/src/jwkest/PBKDF2.py b/src/jwkest/PBKDF2.py
index 7af531b..d16900b 100755
--- a/src/jwkest/PBKDF2.py
+++ b/src/jwkest/PBKDF2.py
@@ -70,16 +70,17 @@
 
 __version__ = "1.2"
 
-from builtins import chr
 from builtins import zip
 from builtins import range
 from builtins import object
 
-import string
+from base64 import b64encode as _b64encode
 from struct import pack
 from binascii import b2a_hex
 from random import randint
 
+import six
+
 try:
     # Use PyCryptoDome (if available)
     from Cryptodome.Hash import HMAC
@@ -90,11 +91,11 @@ except ImportError:
     import sha as SHA1
 
 def strxor(a, b):
-    return "".join([chr(ord(x) ^ ord(y)) for (x, y) in zip(a, b)])
+    return bytes(bytearray(
+        [x ^ y for (x, y) in zip(bytearray(a), bytearray(b))]))
 
 def b64encode(data, chars="+/"):
-    tt = string.maketrans("+/", chars)
-    return data.encode('base64').replace("\n", "").translate(tt)
+    return _b64encode(data, chars.encode("us-ascii")).decode("us-ascii")
 
 class PBKDF2(object):
     """PBKDF2.py : PKCS#5 v2.0 Password-Based Key Derivation
@@ -143,7 +144,7 @@ class PBKDF2(object):
             block = self.__f(i)
             blocks.append(block)
             size += len(block)
-        buf = "".join(blocks)
+        buf = b"".join(blocks)
         retval = buf[:bytes]
         self.__buf = buf[bytes:]
         self.__blockNum = i
@@ -164,24 +165,24 @@ class PBKDF2(object):
 
         Note that len(obj.hexread(n)) == 2*n.
         """
-        return b2a_hex(self.read(octets))
+        return b2a_hex(self.read(octets)).decode("us-ascii")
 
     def _setup(self, passphrase, salt, iterations, prf):
         # Sanity checks:
         
-        # passphrase and salt must be str or unicode (in the latter
+        # passphrase and salt must be bytes or text (in the latter
         # case, we convert to UTF-8)
-        if isinstance(passphrase, str):
+        if isinstance(passphrase, six.text_type):
             passphrase = passphrase.encode("UTF-8")
-        if not isinstance(passphrase, str):
-            raise TypeError("passphrase must be str or unicode")
-        if isinstance(salt, str):
+        if not isinstance(passphrase, six.binary_type):
+            raise TypeError("passphrase must be bytes or text")
+        if isinstance(salt, six.text_type):
             salt = salt.encode("UTF-8")
-        if not isinstance(salt, str):
-            raise TypeError("salt must be str or unicode")
+        if not isinstance(salt, six.binary_type):
+            raise TypeError("salt must be bytes or text")
 
         # iterations must be an integer >= 1
-        if not isinstance(iterations, (int, int)):
+        if not isinstance(iterations, six.integer_types):
             raise TypeError("iterations must be an integer")
         if iterations < 1:
             raise ValueError("iterations must be at least 1")
@@ -195,7 +196,7 @@ class PBKDF2(object):
         self.__iterations = iterations
         self.__prf = prf
         self.__blockNum = 0
-        self.__buf = ""
+        self.__buf = b""
         self.closed = False
     
     def close(self):
@@ -222,17 +223,17 @@ def crypt(word, salt=None, iterations=None):
     if salt is None:
         salt = _makesalt()
 
-    # salt must be a string or the us-ascii subset of unicode
-    if isinstance(salt, str):
-        salt = salt.encode("us-ascii")
-    if not isinstance(salt, str):
+    # salt must be a string of us-ascii characters
+    if isinstance(salt, six.binary_type):
+        salt = salt.decode("us-ascii")
+    if not isinstance(salt, six.text_type):
         raise TypeError("salt must be a string")
 
-    # word must be a string or unicode (in the latter case, we convert to UTF-8)
-    if isinstance(word, str):
+    # word must be bytes or text (in the latter case, we convert to UTF-8)
+    if isinstance(word, six.text_type):
         word = word.encode("UTF-8")
-    if not isinstance(word, str):
-        raise TypeError("word must be a string or unicode")
+    if not isinstance(word, six.binary_type):
+        raise TypeError("word must be bytes or text")
 
     # Try to extract the real salt and iteration count from the salt
     if salt.startswith("$p5k2$"):
@@ -271,7 +272,7 @@ def _makesalt():
     
     This function is not suitable for generating cryptographic secrets.
     """
-    binarysalt = "".join([pack("@H", randint(0, 0xffff)) for i in range(3)])
+    binarysalt = b"".join([pack("@H", randint(0, 0xffff)) for i in range(3)])
     return b64encode(binarysalt, "./")
 
 def test_pbkdf2():
-- 
2.43.0


From e1295100f65693731f92d95837ad351ccb273b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 50/74] fix: load RSA keys from version 1 certificates

---
 src/jwkest/jwk.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 3a1a11d..ed422e0 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -117,7 +117,9 @@ def der2rsa(der):
     cert.decode(der)
     tbs_certificate = DerSequence()
     tbs_certificate.decode(cert[0])
-    subject_public_key_info = tbs_certificate[6]
+    # version 1 certificates do not have the explicit version element
+    index = 5 if isinstance(tbs_certificate[0], six.integer_types) else 6
+    subject_public_key_info = tbs_certificate[index]
 
     # Initialize RSA key
     return RSA.importKey(subject_public_key_info)
-- 
2.43.0


From ee1dcaac1c0bb01c91f00905d426e0511c568821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 51/74] fix: base64 padding of DER certificates is needed

---
 src/jwkest/jwk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index ed422e0..dc59761 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -143,7 +143,7 @@ def der_cert2rsa(der):
     @param der: DER-encoded certificate
     @return: RSA instance
     """
-    pem = re.sub(r'[^A-Za-z0-9+/]', '', der)
+    pem = re.sub(r'[^A-Za-z0-9+/=]', '', der)
     return der2rsa(base64.b64decode(pem))
 
 
-- 
2.43.0


From 8ae8bf3713d24b68a57d6f0637e126449b6e0fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 52/74] fix: certificate thumbprint is checked also when the
 JWK has the modulus

---
 src/jwkest/jwk.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index dc59761..2b06a35 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -471,23 +471,28 @@ class RSAKey(Key):
                 self.key = RSA.construct(tuple(lst))
             except ValueError as err:
                 raise DeSerializationNotPossible("%s" % err)
+            if self.x5c:
+                self._verified_cert()
         elif self.x5c:
-            der_cert = base64.b64decode(self.x5c[0].encode("ascii"))
-
-            if self.x5t:  # verify the cert
-                if not b64d(self.x5t.encode("ascii")) == hashlib.sha1(
-                        der_cert).digest():
-                    raise DeSerializationNotPossible(
-                        "The thumbprint ('x5t') does not match the "
-                        "certificate.")
-
-            self.key = der2rsa(der_cert)
+            self.key = der2rsa(self._verified_cert())
             self._split()
             if len(self.x5c) > 1:  # verify chain
                 pass
         else:
             raise DeSerializationNotPossible()
 
+    def _verified_cert(self):
+        der_cert = base64.b64decode(self.x5c[0].encode("ascii"))
+
+        if self.x5t:  # verify the cert
+            if not b64d(self.x5t.encode("ascii")) == hashlib.sha1(
+                    der_cert).digest():
+                raise DeSerializationNotPossible(
+                    "The thumbprint ('x5t') does not match the "
+                    "certificate.")
+
+        return der_cert
+
     def serialize(self, private=False):
         if not self.key:
             raise SerializationNotPossible()
-- 
2.43.0


From 630fcd19154b587b829d2059ce380cadb353b09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 53/74] fix: loading another key into a key object replaces all
 of the former one

---
 src/jwkest/jwk.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 2b06a35..2806a34 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -521,6 +521,9 @@ class RSAKey(Key):
 
         self.n = self.key.n
         self.e = self.key.e
+        # nothing must remain of a key that was here before
+        self.d = self.p = self.q = self.dp = self.dq = self.di = self.qi = ""
+        self._hash = None
         try:
             self.d = self.key.d
         except AttributeError:
@@ -655,6 +658,7 @@ class ECKey(Key):
 
     def load_key(self, key):
         self.curve = key
+        self._hash = None
         self.crv = key.name()
         self.d, (self.x, self.y) = key.key_pair()
         return self
-- 
2.43.0


From 08b63778596675bf56821a86c34ca6a1ae98ddb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 54/74] fix: jwk_create with Python 3

---
 script/jwk_create.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/script/jwk_create.py b/script/jwk_create.py
index bd71280..d38fe1b 100755
--- a/script/jwk_create.py
+++ b/script/jwk_create.py
@@ -13,17 +13,17 @@ def create_and_store_rsa_key_pair(name="pyoidc", path=".", size=1024):
 
     keyfile = os.path.join(path, name)
 
-    f = open("%s.key" % keyfile, "w")
+    f = open("%s.key" % keyfile, "wb")
     f.write(key.exportKey("PEM"))
     f.close()
-    f = open("%s.pub" % keyfile, "w")
+    f = open("%s.pub" % keyfile, "wb")
     f.write(key.publickey().exportKey("PEM"))
     f.close()
 
     rsa_key = RSAKey(key=key)
     rsa_key.serialize()
     # This will create JWK from the public RSA key
-    jwk_spec = json.dumps(rsa_key.to_dict(), "enc")
+    jwk_spec = json.dumps(rsa_key.to_dict())
     f = open(keyfile + ".jwk", "w")
     f.write(str(jwk_spec))
     f.close()
-- 
2.43.0


From 9fe5c1606427acf94f8a8f284eb3cf3f57211f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 55/74] fix: jwk_export uses what the library provides

---
 script/jwk_export.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/script/jwk_export.py b/script/jwk_export.py
index 8b49bb6..94ed40e 100755
--- a/script/jwk_export.py
+++ b/script/jwk_export.py
@@ -3,7 +3,7 @@ import os
 import argparse
 from jwkest.jwk import RSAKey
 from jwkest.jwk import rsa_load
-from jwkest.jwk import dump_jwks
+from jwkest.jwk import KEYS
 
 __author__ = 'rolandh'
 
@@ -16,10 +16,11 @@ parser.add_argument('-k', dest="key", help="Key file")
 
 args = parser.parse_args()
 
-rsa_key = RSAKey(key=rsa_load(args.key))
+keys = KEYS()
+keys.append(RSAKey(key=rsa_load(args.key)))
 
 keyfile = os.path.join(args.path, args.name)
 
 f = open(keyfile + ".jwk", "w")
-f.write(dump_jwks([rsa_key]))
+f.write(keys.dump_jwks())
 f.close()
-- 
2.43.0


From a0b97c54d1ea360007512dece47ed6c3d56ca4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 56/74] fix: tools print the decrypted message

---
 script/jwdecrypt.py | 3 ++-
 script/jwkutil.py   | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/script/jwdecrypt.py b/script/jwdecrypt.py
index 499bec1..e43ea6a 100755
--- a/script/jwdecrypt.py
+++ b/script/jwdecrypt.py
@@ -5,6 +5,7 @@ __author__ = 'rohe0002'
 
 import argparse
 import requests
+from jwkest import as_unicode
 from jwkest.jwk import load_jwks_from_url, RSAKey
 from jwkest.jwk import rsa_load
 from jwkest.jwk import load_x509_cert
@@ -75,4 +76,4 @@ if __name__ == "__main__":
         msg = args.message
 
     jwe = JWE()
-    print(jwe.decrypt(msg, keys))
+    print(as_unicode(jwe.decrypt(msg, keys)))
diff --git a/script/jwkutil.py b/script/jwkutil.py
index c428686..75ad21d 100755
--- a/script/jwkutil.py
+++ b/script/jwkutil.py
@@ -2,6 +2,7 @@
 import json
 import logging
 import sys
+from jwkest import as_unicode
 from jwkest.jwe import JWE
 
 __author__ = 'rohe0002'
@@ -143,12 +144,14 @@ if __name__ == "__main__":
         print(encrypt(message, keys, args.encalg, args.encenc))
     else:
         if args.decrypt:
-            _msg, _res = decrypt(message, keys)
+            _msg = decrypt(message, keys)
         else:
             _msg = message
 
         if args.verify:
             print(verify(_msg, keys))
+        elif args.decrypt:
+            print(as_unicode(_msg))
 
 # -e -J edmund.jwks -f text.json -E "A128CBC-HS256" -A "RSA1_5" -l ju.log
 # -d -r op.key -f edmund.jwe -i a0
-- 
2.43.0


From 3c665129053201c354a24f06e759c33ecf111212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 57/74] fix: tools use keys of certificates

---
 script/jwdecrypt.py | 4 ++--
 script/jwenc.py     | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/script/jwdecrypt.py b/script/jwdecrypt.py
index e43ea6a..ab98bc8 100755
--- a/script/jwdecrypt.py
+++ b/script/jwdecrypt.py
@@ -57,9 +57,9 @@ if __name__ == "__main__":
     elif args.jwk_file:
         keys = load_jwks(open(args.jwk_file).read())
     elif args.x509_url:
-        keys = load_x509_cert(args.x509_url, {})
+        keys = [RSAKey(key=y) for x, y in load_x509_cert(args.x509_url, {})]
     elif args.x509_file:
-        keys = [import_rsa_key_from_file(args.x509_file)]
+        keys = [RSAKey(key=import_rsa_key_from_file(args.x509_file))]
     elif args.rsa_file:
         key = rsa_load(args.rsa_file)
         rsa_key = RSAKey(key=key)
diff --git a/script/jwenc.py b/script/jwenc.py
index 5235258..0f3fce3 100755
--- a/script/jwenc.py
+++ b/script/jwenc.py
@@ -68,8 +68,7 @@ if __name__ == "__main__":
         keys = load_jwks(open(args.jwk_file).read())
     elif args.x509_url:
         # load_x509_cert returns list of 2-tuples
-        keys = [RSAKey(key=x) for x, y in load_x509_cert(lrequest,
-                                                         args.x509_url)]
+        keys = [RSAKey(key=y) for x, y in load_x509_cert(args.x509_url, {})]
         for key in keys:
             key.serialize()
     elif args.x509_file:
-- 
2.43.0


From 09235bc429d25e1cafe900827b3ef08bc1958b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:55 +0000
Subject: [PATCH 58/74] fix: generated symmetric keys come from the OS random
 source

---
 script/gen_symkey.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/script/gen_symkey.py b/script/gen_symkey.py
index 4a2cbb4..9b3fbad 100755
--- a/script/gen_symkey.py
+++ b/script/gen_symkey.py
@@ -9,9 +9,12 @@ from jwkest.jwk import SYMKey
 
 __author__ = 'regu0004'
 
+# keys must not be predictable
+_random = random.SystemRandom()
+
 
 def rndstr(size=6, chars=string.ascii_uppercase + string.digits):
-    return ''.join(random.choice(chars) for _ in range(size))
+    return ''.join(_random.choice(chars) for _ in range(size))
 
 
 def main():
-- 
2.43.0


From 95cdfe5af9c91dd69fed4ebd892e8ba1d7745a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 59/74] fix: only the AES key wrap algorithms there are get
 accepted, also with a content key at hand

---
 src/jwkest/jwe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index ed92af6..e4dcd61 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -838,7 +838,7 @@ class JWE(JWx):
         # Determine Encryption Class by Algorithm
         if _alg in ["RSA-OAEP", "RSA-OAEP-256", "RSA1_5"]:
             encrypter = JWE_RSA(self.msg, **self._dict)
-        elif _alg.startswith("A") and _alg.endswith("KW"):
+        elif _alg in ["A128KW", "A192KW", "A256KW"]:
             encrypter = JWE_SYM(self.msg, **self._dict)
         elif _alg.startswith("ECDH-ES"):
 
@@ -907,7 +907,7 @@ class JWE(JWx):
 
         if _alg in ["RSA-OAEP", "RSA-OAEP-256", "RSA1_5"]:
             decrypter = JWE_RSA(**self._dict)
-        elif _alg.startswith("A") and _alg.endswith("KW"):
+        elif _alg in ["A128KW", "A192KW", "A256KW"]:
             decrypter = JWE_SYM(self.msg, **self._dict)
         elif _alg.startswith("ECDH-ES"):
 
-- 
2.43.0


From 324c5b7dd7f6ea6a9cd07529a2c90a4f4734c9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:15 +0000
Subject: [PATCH 60/74] fix: malformed ephemeral public keys are refused

---
 src/jwkest/jwe.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index e4dcd61..c82f12f 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -691,7 +691,12 @@ class JWE_EC(JWe):
             raise Exception(
                 "Ephemeral Public Key Missing in ECDH-ES Computation")
 
-        epubkey = ECKey(**self.headers["epk"])
+        _epk = self.headers["epk"]
+        if _epk.get("kty") != "EC" or not all(
+                isinstance(_epk.get(c), six.string_types) for c in ["x", "y"]):
+            raise DecryptionFailed("Malformed Ephemeral Public Key")
+
+        epubkey = ECKey(**_epk)
         if epubkey.crv != key.crv:
             raise DecryptionFailed(
                 "The Ephemeral Public Key is not on the curve of the key")
-- 
2.43.0


From fae659876623f6606c27cfd037835500dff5cce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:20 +0000
Subject: [PATCH 61/74] fix: symmetric keys are not made of JWK values that are
 not text or empty

---
 src/jwkest/jwk.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 2806a34..0676cea 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -692,9 +692,13 @@ class SYMKey(Key):
                      **kwargs)
         self.k = k
         if not self.key and self.k:
-            if isinstance(self.k, str):
+            if isinstance(self.k, six.text_type):
                 self.k = self.k.encode("utf-8")
-            self.key = b64d(bytes(self.k))
+            if not isinstance(self.k, bytes):
+                raise DeSerializationNotPossible("Not base64url encoded")
+            self.key = b64d(self.k)
+            if not self.key:
+                raise DeSerializationNotPossible("No key material")
         if self.key:
             # the same whether the key was given as octets or as a JWK
             self.k = b64e(bytes(self.key))
-- 
2.43.0


From 631835b1ae8ccbb2a762543e7c3a34bc7436bf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:08 +0000
Subject: [PATCH 62/74] fix: hash of a key doesn't depend on earlier get_hash
 calls

---
 src/jwkest/jwk.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 0676cea..5f2848e 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -386,8 +386,10 @@ class Key(object):
     def get_hash(self, hash_function=None):
         if not hash_function:
             hash_function = 'SHA-256'
-        self._hash = int(binascii.hexlify(self.thumbprint(hash_function)), 16)
-        return self._hash
+        _val = int(binascii.hexlify(self.thumbprint(hash_function)), 16)
+        if hash_function == 'SHA-256':  # what __hash__ returns
+            self._hash = _val
+        return _val
 
     def add_kid(self):
         _tp = self.thumbprint('SHA-256')
-- 
2.43.0


From 723da5d2183b8eef4f33beb73379b18fea26eb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:13 +0000
Subject: [PATCH 63/74] fix: jwkutil accepts tokens from stdin that end with a
 newline

---
 script/jwkutil.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/script/jwkutil.py b/script/jwkutil.py
index 75ad21d..99946e7 100755
--- a/script/jwkutil.py
+++ b/script/jwkutil.py
@@ -132,6 +132,8 @@ if __name__ == "__main__":
         message = open(args.msg_file).read().strip("\n")
     elif args.message == "-":
         message = sys.stdin.read()
+        if not (args.sign or args.encrypt):
+            message = message.strip("\n")
     else:
         message = args.message
 
-- 
2.43.0


From 28eb6ccce6234e318dcf58675d3a14dfcd81663e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:35 +0000
Subject: [PATCH 64/74] fix: key sets from URLs are read as UTF-8 when no
 charset is given

---
 src/jwkest/jwk.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 5f2848e..f7de207 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -877,6 +877,8 @@ class KEYS(object):
             kwargs['verify'] = True
         r = request("GET", url, allow_redirects=True, **kwargs)
         if r.status_code == 200:
+            if 'charset' not in r.headers.get('content-type', '').lower():
+                r.encoding = 'utf-8'  # JSON text, nothing to guess
             return self.load_jwks(r.text)
         else:
             raise Exception("HTTP Get error: %s" % r.status_code)
-- 
2.43.0


From dca0e249124cf2929f841eb85c8885ce8bb40669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 65/74] fix: doubling a point of order two in projective
 coordinates gives the neutral element

---
 src/jwkest/elliptic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/elliptic.py b/src/jwkest/elliptic.py
index b8d52ec..e7776d4 100755
--- a/src/jwkest/elliptic.py
+++ b/src/jwkest/elliptic.py
@@ -205,7 +205,7 @@ def addf(p, q, n, jp1, jp2):
 # explicit point doubling using redundant coordinates
 def doublef(p, q, n, jp):
     """Double jp in projective (jacobian) coordinates"""
-    if not jp:
+    if not jp or not jp[1] % n:     # twice a point of order two is neutral
         return None
     x1, y1, z1, z1p2, z1p3 = jp
 
-- 
2.43.0


From 3f950aa309b452e1ca8bbf59c9aea2c05a53c769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 66/74] fix: sums of points that are points of order two have
 coordinates within the field

---
 src/jwkest/elliptic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/elliptic.py b/src/jwkest/elliptic.py
index e7776d4..e3315c4 100755
--- a/src/jwkest/elliptic.py
+++ b/src/jwkest/elliptic.py
@@ -150,12 +150,12 @@ def add(p, q, n, p1, p2):
         if (x1 - x2) % n:
             s = ((y1 - y2) * inv(x1 - x2, n)) % n   # slope
             x = (s * s - x1 - x2) % n               # intersection with curve
-            return x, n - (y1 + s * (x - x1)) % n
+            return x, -(y1 + s * (x - x1)) % n
         else:
             if (y1 + y2) % n:       # slope s calculated by derivation
                 s = ((3 * x1 * x1 - p) * inv(2 * y1, n)) % n
                 x = (s * s - 2 * x1) % n            # intersection with curve
-                return x, n - (y1 + s * (x - x1)) % n
+                return x, -(y1 + s * (x - x1)) % n
             else:
                 return None
     else:   # either p1 is not none -> ret. p1, otherwiese p2, which may be
-- 
2.43.0


From 09edf6926801ad0d3e71484a634c71f5fd79b9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:39 +0000
Subject: [PATCH 67/74] fix: comparing RSA keys with key_eq does not fail

---
 src/jwkest/jwk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index f7de207..6e4f8a9 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -192,7 +192,7 @@ def key_eq(key1, key2):
     if type(key1) == type(key2):
         if isinstance(key1, str):
             return key1 == key2
-        elif isinstance(key1, RSA):
+        elif isinstance(key1, RsaKey):
             return rsa_eq(key1, key2)
 
     return False
-- 
2.43.0


From f0abdbb365af16aecc41e2d5e79e3d3ee427af8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:05 +0000
Subject: [PATCH 68/74] fix: don't depend on assert statements, which python -O
 leaves out

---
 src/jwkest/jwe.py | 22 ++++++++--------------
 src/jwkest/jwk.py | 21 ++++++++++-----------
 src/jwkest/jws.py | 37 +++++++++++++------------------------
 3 files changed, 31 insertions(+), 49 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index c82f12f..74e0d23 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -324,18 +324,14 @@ class JWEnc(JWT):
                 self.headers["typ"].lower() == "jwe":
             return True
 
-        try:
-            assert "alg" in self.headers and "enc" in self.headers
-        except AssertionError:
+        if "alg" not in self.headers or "enc" not in self.headers:
             return False
-        else:
-            for typ in ["alg", "enc"]:
-                try:
-                    assert self.headers[typ] in SUPPORTED[typ]
-                except AssertionError:
-                    logger.debug("Not supported %s algorithm: %s" % (
-                        typ, self.headers[typ]))
-                    return False
+
+        for typ in ["alg", "enc"]:
+            if self.headers[typ] not in SUPPORTED[typ]:
+                logger.debug("Not supported %s algorithm: %s" % (
+                    typ, self.headers[typ]))
+                return False
         return True
 
     def __len__(self):
@@ -600,9 +596,7 @@ class JWE_RSA(JWe):
 
         self["cek"] = cek
         enc = jwe.headers["enc"]
-        try:
-            assert enc in SUPPORTED["enc"]
-        except AssertionError:
+        if enc not in SUPPORTED["enc"]:
             raise NotSupportedAlgorithm(enc)
 
         msg = self._decrypt(enc, cek, jwe.ciphertext(),
diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 6e4f8a9..3807ca4 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -344,23 +344,22 @@ class Key(object):
                     return False
 
         if self.kid:
-            try:
-                assert isinstance(self.kid, six.string_types)
-            except AssertionError:
+            if not isinstance(self.kid, six.string_types):
                 raise HeaderError("kid of wrong value type")
         return True
 
     def __eq__(self, other):
-        try:
-            assert isinstance(other, Key)
-            assert set(self.__dict__.keys()) == set(other.__dict__.keys())
+        if not isinstance(other, Key):
+            return False
 
-            for key in self.public_members:
-                assert getattr(other, key) == getattr(self, key)
-        except AssertionError:
+        if set(self.__dict__.keys()) != set(other.__dict__.keys()):
             return False
-        else:
-            return True
+
+        for key in self.public_members:
+            if getattr(other, key) != getattr(self, key):
+                return False
+
+        return True
 
     def keys(self):
         return list(self.to_dict().keys())
diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 7a75cce..134761f 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -345,9 +345,7 @@ class JWx(object):
             _header["jwk"] = extra["jwk"].serialize()
 
         if "kid" in self:
-            try:
-                assert isinstance(self["kid"], six.string_types)
-            except AssertionError:
+            if not isinstance(self["kid"], six.string_types):
                 raise HeaderError("kid of wrong value type")
 
         return _header
@@ -417,13 +415,8 @@ class JWx(object):
             logger.debug(
                 "Picked: kid:{}, use:{}, kty:{}".format(
                     _key.kid, _key.use, _key.kty))
-            if _kid:
-                try:
-                    assert _kid == _key.kid
-                except (KeyError, AttributeError):
-                    pass
-                except AssertionError:
-                    continue
+            if _kid and _kid != _key.kid:
+                continue
 
             if use and _key.use and _key.use != use:
                 continue
@@ -748,22 +741,18 @@ class JWS(JWx):
         if not isinstance(jwt.headers, dict):
             return False
 
-        try:
-            assert "alg" in jwt.headers
-        except AssertionError:
+        if "alg" not in jwt.headers:
             return False
-        else:
-            if jwt.headers["alg"] is None:
-                jwt.headers["alg"] = "none"
 
-            try:
-                assert jwt.headers["alg"] in list(SIGNER_ALGS)
-            except AssertionError:
-                logger.debug("UnknownSignerAlg: %s" % (jwt.headers["alg"],))
-                return False
-            else:
-                self.jwt = jwt
-                return True
+        if jwt.headers["alg"] is None:
+            jwt.headers["alg"] = "none"
+
+        if jwt.headers["alg"] not in list(SIGNER_ALGS):
+            logger.debug("UnknownSignerAlg: %s" % (jwt.headers["alg"],))
+            return False
+
+        self.jwt = jwt
+        return True
 
 
 def factory(token):
-- 
2.43.0


From 4c0f6c8e24b13f163ffb0dfa82e67e5b91e708da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:13 +0000
Subject: [PATCH 69/74] fix: verify JSON serialized JWS with several signatures
 over a payload that doesn't equal itself (NaN)

---
 src/jwkest/jws.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 134761f..082191c 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -693,11 +693,8 @@ class JWS(JWx):
             self.check_critical(all_headers)
             self.__init__(**all_headers)
 
-            _tmp = self.verify_compact(token, keys, allow_none, sigalg)
-            if _claim is None:
-                _claim = _tmp
-            else:
-                assert _claim == _tmp
+            # the payload is the same for every signature
+            _claim = self.verify_compact(token, keys, allow_none, sigalg)
 
         return _claim
 
-- 
2.43.0


From b6c438e5022427fde753699b89f56b023338093b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:35 +0000
Subject: [PATCH 70/74] fix: points are uncompressed also on curves whose prime
 is 1 modulo 4

---
 src/jwkest/elliptic.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/elliptic.py b/src/jwkest/elliptic.py
index e3315c4..5a244c7 100755
--- a/src/jwkest/elliptic.py
+++ b/src/jwkest/elliptic.py
@@ -341,14 +341,37 @@ def sign_bit(p1):
 
 # Reconstruct the y-coordinate when curve parameters, x and the sign-bit of
 # the y coordinate are given:
+def sqrt(a, n):
+    """Find a square root of a modulo the prime n, given that there is one"""
+    if n % 4 == 3:
+        return pow(a, (n + 1) // 4, n)
+    # Tonelli-Shanks algorithm
+    m, s = n - 1, 0
+    while m % 2 == 0:
+        m, s = m // 2, s + 1
+    z = 2
+    while pow(z, (n - 1) // 2, n) != n - 1:
+        z += 1
+    c, t, r = pow(z, m, n), pow(a, m, n), pow(a, (m + 1) // 2, n)
+    while t != 1:
+        i, u = 0, t
+        while u != 1 and i < s:
+            i, u = i + 1, (u * u) % n
+        if i == s:
+            break       # a is no square, or zero
+        b = pow(c, 1 << (s - i - 1), n)
+        s, c, r = i, (b * b) % n, (r * b) % n
+        t = (t * c) % n
+    return r
+
+
 def y_from_x(x, p, q, n, sign):
     """Return the y coordinate over curve (p, q, n) for given (x, sign)"""
 
     # optimized form of (x**3 - p*x - q) % n
     a = (((x * x) % n - p) * x - q) % n
 
-    # square root, given that n is 3 modulo 4
-    y = pow(a, (n + 1) // 4, n)
+    y = sqrt(a, n)
     if (y * y - a) % n:
         raise ValueError("There is no point with that x coordinate")
     return y if y % 2 == sign else n - y
-- 
2.43.0


From 770bfa4c16ef6d56089e4f9f6119e163cb4acf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:31 +0000
Subject: [PATCH 71/74] fix: members of a JWK named like Python arguments are
 ignored like other unknown ones

---
 src/jwkest/jwk.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 3807ca4..9f1a05e 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -782,7 +782,14 @@ def keyrep(kspec, enc="utf-8"):
             else:
                 _kwargs[key] = val
     else:
-        _kwargs = kspec
+        _kwargs = dict(kspec)
+
+    # unknown members of a JWK have to be ignored (RFC 7517 section 4), don't
+    # mistake them for the other arguments
+    _kwargs.pop("self", None)
+    _kwargs.pop("curve", None)
+    if any(m in _kwargs for m in ["n", "x5c", "k", "crv"]):
+        _kwargs.pop("key", None)
 
     if kspec["kty"] == "RSA":
         item = RSAKey(**_kwargs)
-- 
2.43.0


From 4b93d8576a5c207a87b735a6cee90fb716326743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:36 +0000
Subject: [PATCH 72/74] fix: only the point of a received ephemeral key is used

---
 src/jwkest/jwe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 74e0d23..0c888c7 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -690,7 +690,7 @@ class JWE_EC(JWe):
                 isinstance(_epk.get(c), six.string_types) for c in ["x", "y"]):
             raise DecryptionFailed("Malformed Ephemeral Public Key")
 
-        epubkey = ECKey(**_epk)
+        epubkey = ECKey(crv=_epk["crv"], x=_epk["x"], y=_epk["y"])
         if epubkey.crv != key.crv:
             raise DecryptionFailed(
                 "The Ephemeral Public Key is not on the curve of the key")
-- 
2.43.0


From 2607cbfb9603129a73c6a7530465b9be82831a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:41 +0000
Subject: [PATCH 73/74] fix: header parameters of any name in JSON serialized
 signatures

---
 src/jwkest/jws.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 082191c..cbe2167 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -623,7 +623,9 @@ class JWS(JWx):
             protected_headers = protected or {}
             # always protect the signing alg header
             protected_headers.setdefault("alg", self.alg)
-            _jws = JWS(self.msg, **protected_headers)
+            _jws = JWS(self.msg,
+                       **dict((k, v) for k, v in protected_headers.items()
+                              if k in self.args))
             encoded_header, payload, signature = _jws.sign_compact(
                 protected=protected,
                 keys=keys).split(".")
@@ -691,7 +693,8 @@ class JWS(JWx):
             all_headers.update(
                 json.loads(b64d_enc_dec(protected_headers) or {}))
             self.check_critical(all_headers)
-            self.__init__(**all_headers)
+            self.__init__(**dict((k, v) for k, v in all_headers.items()
+                                 if k in self.args))
 
             # the payload is the same for every signature
             _claim = self.verify_compact(token, keys, allow_none, sigalg)
-- 
2.43.0


From 6e814a2bc6b98bbb533998a4f1daa3fcc020a340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:09 +0000
Subject: [PATCH 74/74] fix: don't encrypt with the content key of a token
 decrypted before

---
 src/jwkest/jwe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 0c888c7..165bbdc 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -846,8 +846,10 @@ class JWE(JWx):
                 raise NoSuitableECDHKey(_alg)
 
             encrypter = JWE_EC(**self._dict)
+            # the content key of a token decrypted before isn't used again
+            _args = dict([(k, v) for k, v in self._dict.items() if k != "cek"])
             cek, encrypted_key, iv, params, eprivk = encrypter.enc_setup(
-                self.msg, self._dict, key=keys[0], **self._dict)
+                self.msg, self._dict, key=keys[0], **_args)
             kwargs["encrypted_key"] = encrypted_key
             kwargs["params"] = params
         else:
-- 
2.43.0

