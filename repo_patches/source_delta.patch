From ca2dbf3879f749896120f9da9141e173df7db48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 01/32] fix: compare hash values on all bytes, not all but the
 first

---
 neocore/UIntBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/UIntBase.py b/neocore/UIntBase.py
index 42d60b0..49fbbc9 100644
--- a/neocore/UIntBase.py
+++ b/neocore/UIntBase.py
@@ -92,7 +92,7 @@ class UIntBase(SerializableMixin):
 
         length = len(x)
 
-        for i in range(length - 1, 0, -1):
+        for i in range(length - 1, -1, -1):
             if x[i] > y[i]:
                 return 1
             if x[i] < y[i]:
-- 
2.43.0


From 4f8e15bda827a566ffaba14cbe3e937a2cd64f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 02/32] fix: never unhexlify text and hash payloads while
 writing them

---
 neocore/IO/BinaryWriter.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index 1904eec..5473f51 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -367,12 +367,8 @@ class BinaryWriter(object):
         if type(value) is str:
             value = value.encode(encoding)
 
-        length = len(value)
-        ba = bytearray(value)
-        byts = binascii.hexlify(ba)
-        string = byts.decode(encoding)
-        self.WriteVarInt(length)
-        self.WriteBytes(string)
+        self.WriteVarInt(len(value))
+        self.WriteBytes(value, unhex=False)
 
     def WriteFixedString(self, value, length):
         """
@@ -386,7 +382,7 @@ class BinaryWriter(object):
         slen = len(towrite)
         if slen > length:
             raise Exception("string longer than fixed length: %s " % length)
-        self.WriteBytes(towrite)
+        self.WriteBytes(towrite, unhex=False)
         diff = length - slen
 
         while diff > 0:
@@ -417,7 +413,7 @@ class BinaryWriter(object):
         for item in arr:
             ba = bytearray(binascii.unhexlify(item))
             ba.reverse()
-            self.WriteBytes(ba)
+            self.WriteBytes(ba, unhex=False)
 
     def WriteHashes(self, arr):
         """
@@ -432,7 +428,7 @@ class BinaryWriter(object):
             ba = bytearray(binascii.unhexlify(item))
             ba.reverse()
             #            logger.info("WRITING HASH %s " % ba)
-            self.WriteBytes(ba)
+            self.WriteBytes(ba, unhex=False)
 
     def WriteFixed8(self, value, unsigned=False):
         """
-- 
2.43.0


From 04c97987a1ad168074e349184fe8d3e0400d460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 03/32] fix: write byte values of subclasses instead of
 silently dropping them

---
 neocore/IO/BinaryWriter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index 5473f51..e712959 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -78,11 +78,11 @@ class BinaryWriter(object):
         Args:
             value (bytes, str or int): value to write to the stream.
         """
-        if type(value) is bytes:
+        if isinstance(value, (bytes, bytearray)):
             self.stream.write(value)
-        elif type(value) is str:
+        elif isinstance(value, str):
             self.stream.write(value.encode('utf-8'))
-        elif type(value) is int:
+        elif isinstance(value, int):
             self.stream.write(bytes([value]))
 
     def WriteBytes(self, value, unhex=True):
-- 
2.43.0


From e35265a7d58f8f385ec91b22ae650b6d6c89b3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 04/32] fix: variable length writes refuse too large values
 untouched and report all bytes written

---
 neocore/IO/BinaryWriter.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index e712959..7689a79 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -312,7 +312,7 @@ class BinaryWriter(object):
 
         Raises:
             TypeError: if `value` is not of type int.
-            Exception: if `value` is < 0.
+            Exception: if `value` is < 0 or does not fit in 64 bits.
 
         Returns:
             int: the number of bytes written.
@@ -324,19 +324,23 @@ class BinaryWriter(object):
             raise Exception('%d too small.' % value)
 
         elif value < 0xfd:
-            return self.WriteByte(value)
+            self.WriteByte(value)
+            return 1
 
         elif value <= 0xffff:
             self.WriteByte(0xfd)
-            return self.WriteUInt16(value, endian)
+            return 1 + self.WriteUInt16(value, endian)
 
         elif value <= 0xFFFFFFFF:
             self.WriteByte(0xfe)
-            return self.WriteUInt32(value, endian)
+            return 1 + self.WriteUInt32(value, endian)
 
-        else:
+        elif value <= 0xFFFFFFFFFFFFFFFF:
             self.WriteByte(0xff)
-            return self.WriteUInt64(value, endian)
+            return 1 + self.WriteUInt64(value, endian)
+
+        else:
+            raise Exception('%d too large.' % value)
 
     def WriteVarBytes(self, value, endian="<"):
         """
@@ -351,9 +355,9 @@ class BinaryWriter(object):
             int: the number of bytes written.
         """
         length = len(value)
-        self.WriteVarInt(length, endian)
+        written = self.WriteVarInt(length, endian)
 
-        return self.WriteBytes(value, unhex=False)
+        return written + self.WriteBytes(value, unhex=False)
 
     def WriteVarString(self, value, encoding="utf-8"):
         """
-- 
2.43.0


From aba35271e833bc44f80de22f87959bfdb99ba3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 05/32] fix: hash values are never deserialized from a
 truncated stream

---
 neocore/UIntBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/UIntBase.py b/neocore/UIntBase.py
index 49fbbc9..7c2b3c4 100644
--- a/neocore/UIntBase.py
+++ b/neocore/UIntBase.py
@@ -39,7 +39,7 @@ class UIntBase(SerializableMixin):
         writer.WriteBytes(self.Data)
 
     def Deserialize(self, reader):
-        self.Data = reader.ReadBytes(self.Size)
+        self.Data = bytearray(reader.SafeReadBytes(self.Size))
         self.__hash = self.GetHashCode()
 
     def ToArray(self):
-- 
2.43.0


From 5f260f997e1d6c4a8b75ddd26663099bc8314b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 06/32] fix: hash values own a copy of the buffer they are
 built from

---
 neocore/UIntBase.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/neocore/UIntBase.py b/neocore/UIntBase.py
index 7c2b3c4..3b6eb0c 100644
--- a/neocore/UIntBase.py
+++ b/neocore/UIntBase.py
@@ -17,10 +17,8 @@ class UIntBase(SerializableMixin):
             if len(data) != num_bytes:
                 raise Exception("Invalid UInt: data length {} != specified num_bytes {}".format(len(data), num_bytes))
 
-            if type(data) is bytes:
+            if type(data) in (bytes, bytearray):
                 self.Data = bytearray(data)
-            elif type(data) is bytearray:
-                self.Data = data
             else:
                 raise Exception("Invalid format")
 
-- 
2.43.0


From a2c24ba38b74038838d05b30ef6652d4b88bce43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 07/32] fix: divide and round fixed-point amounts with exact
 integer arithmetic

---
 neocore/Fixed8.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/neocore/Fixed8.py b/neocore/Fixed8.py
index cab8d25..295fe66 100644
--- a/neocore/Fixed8.py
+++ b/neocore/Fixed8.py
@@ -7,8 +7,6 @@ Usage:
     from neocore.Fixed8 import Fixed8
 """
 
-import math
-
 
 class Fixed8:
     value = 0
@@ -88,7 +86,8 @@ class Fixed8:
         return self.__mul__(other)
 
     def __truediv__(self, other):
-        return Fixed8(int(self.value / other.value))
+        quotient = abs(self.value) // abs(other.value)
+        return Fixed8(-quotient if (self.value < 0) != (other.value < 0) else quotient)
 
     def __floordiv__(self, other):
         return Fixed8(self.value // other.value)
@@ -124,13 +123,13 @@ class Fixed8:
         return self.value <= other.value
 
     def Ceil(self):
-        return Fixed8(math.ceil(self.value / Fixed8.D) * Fixed8.D)
+        return Fixed8(-(-self.value // Fixed8.D) * Fixed8.D)
 
     def Floor(self):
-        return Fixed8(math.floor(self.value / Fixed8.D) * Fixed8.D)
+        return Fixed8(self.value // Fixed8.D * Fixed8.D)
 
     def ToInt(self):
-        return int(self.value / Fixed8.D)
+        return self.value // Fixed8.D if self.value >= 0 else -(-self.value // Fixed8.D)
 
     def ToString(self):
         return str(self.value / Fixed8.D)
-- 
2.43.0


From eb84b34f7c96dcb4e25aee65d3e9cd68e5e850e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 08/32] fix: convert decimals to fixed-point amounts exactly
 and refuse non-finite text

---
 neocore/Fixed8.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/neocore/Fixed8.py b/neocore/Fixed8.py
index 295fe66..a9694d5 100644
--- a/neocore/Fixed8.py
+++ b/neocore/Fixed8.py
@@ -6,6 +6,7 @@ Description:
 Usage:
     from neocore.Fixed8 import Fixed8
 """
+from decimal import Context, Decimal
 
 
 class Fixed8:
@@ -27,7 +28,14 @@ class Fixed8:
 
     @staticmethod
     def FromDecimal(number):
-        out = int(number * Fixed8.D)
+        # binary floats stand for the decimal number they display as
+        if isinstance(number, (float, str)):
+            number = Decimal(str(number))
+        if isinstance(number, Decimal):
+            exact = Context(prec=len(number.as_tuple().digits) + 9)
+            out = int(exact.multiply(number, Decimal(Fixed8.D)))
+        else:
+            out = int(number * Fixed8.D)
         return Fixed8(out)
 
     @staticmethod
@@ -49,23 +57,28 @@ class Fixed8:
     @staticmethod
     def TryParse(value, require_positive=False):
         val = None
+        out = None
         try:
             val = float(value)
+            if isinstance(value, (bytes, bytearray)):
+                val = Decimal(value.decode('utf-8'))
+            elif isinstance(value, (str, int, Decimal)):
+                val = Decimal(value)
+            out = Fixed8.FromDecimal(val)
         except Exception as e:
             pass
-        if not val:
+        if out is None:
             try:
                 val = int(value)
+                out = Fixed8.FromDecimal(val)
             except Exception as e:
                 pass
-        if val is not None:
+        if out is not None:
 
             if require_positive and val < 0:
                 return None
 
-            return Fixed8(int(val * Fixed8.D))
-
-        return None
+        return out
 
     def __add__(self, other):
         return Fixed8(self.value + other.value)
-- 
2.43.0


From 7f6b6928d1ec9a5df43f1dd31ba5c12a7074770e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 09/32] fix: sign and verify on the NEO curve whatever curve
 was set up before

---
 neocore/Cryptography/Crypto.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neocore/Cryptography/Crypto.py b/neocore/Cryptography/Crypto.py
index 131f146..ebbb0a8 100644
--- a/neocore/Cryptography/Crypto.py
+++ b/neocore/Cryptography/Crypto.py
@@ -114,6 +114,8 @@ class Crypto(object):
             bytearray: the signature of the message.
         """
 
+        Crypto.SetupSignatureCurve()
+
         hash = hashlib.sha256(binascii.unhexlify(message)).hexdigest()
 
         v, r, s = bitcoin.ecdsa_raw_sign(hash, private_key)
@@ -155,6 +157,7 @@ class Crypto(object):
             message = message.encode('utf-8')
 
         if len(public_key) == 33:
+            Crypto.SetupSignatureCurve()
             public_key = bitcoin.decompress(public_key)
             public_key = public_key[1:]
 
-- 
2.43.0


From 511425822b0751ba660292c067553767e51a8838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:55 +0000
Subject: [PATCH 10/32] fix: a malformed compressed key does not verify instead
 of raising

---
 neocore/Cryptography/Crypto.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neocore/Cryptography/Crypto.py b/neocore/Cryptography/Crypto.py
index ebbb0a8..8dabec3 100644
--- a/neocore/Cryptography/Crypto.py
+++ b/neocore/Cryptography/Crypto.py
@@ -156,12 +156,12 @@ class Crypto(object):
         elif isinstance(message, str):
             message = message.encode('utf-8')
 
-        if len(public_key) == 33:
-            Crypto.SetupSignatureCurve()
-            public_key = bitcoin.decompress(public_key)
-            public_key = public_key[1:]
-
         try:
+            if len(public_key) == 33:
+                Crypto.SetupSignatureCurve()
+                public_key = bitcoin.decompress(public_key)
+                public_key = public_key[1:]
+
             vk = VerifyingKey.from_string(public_key, curve=NIST256p, hashfunc=hashlib.sha256)
             res = vk.verify(signature, message, hashfunc=hashlib.sha256)
             return res
-- 
2.43.0


From ec8d50c3a73d7e36d3f5ac93f9d5a51c5be5593d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 11/32] fix: multiply points with integer arithmetic, also by
 negative scalars

---
 neocore/Cryptography/ECCurve.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 238050d..0531b15 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -517,13 +517,16 @@ class EllipticCurve:
         scalar = self.field.integer(scalar)
         accumulator = self.zero()
         shifter = pt
+        if scalar < 0:
+            scalar = -scalar
+            shifter = -pt
 
         while scalar != 0:
             bit = scalar % 2
             if bit:
                 accumulator += shifter
             shifter += shifter
-            scalar /= 2
+            scalar //= 2
 
         return accumulator
 
-- 
2.43.0


From 76dd0691aee929d02b4c99d09ecd32a79a54ab94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 12/32] fix: negating zero in a field gives zero

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 0531b15..78aa84c 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -282,7 +282,7 @@ class FiniteField:
         return (lhs.value - rhs.value) % self.p == 0
 
     def neg(self, val):
-        return self.value(self.p - val.value)
+        return self.value(-val.value % self.p)
 
     def sqrt(self, val, flag):
         """
-- 
2.43.0


From d8ba3f5fbd81918cf50511603a8c27f7cd940dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 13/32] fix: divide an integer by a field value

---
 neocore/Cryptography/ECCurve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 78aa84c..fb2ba55 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -229,6 +229,9 @@ class FiniteField:
         def __rdiv__(self, rhs):
             return self.field.div(self.field.value(rhs), self)
 
+        def __rtruediv__(self, rhs):
+            return self.field.div(self.field.value(rhs), self)
+
         def __rpow__(self, rhs):
             return self.field.pow(self.field.value(rhs), self)
 
-- 
2.43.0


From f995cdce2ad88137a51080168adefb6ff3720095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 14/32] fix: compute square roots with integer exponents and
 refuse non-squares

---
 neocore/Cryptography/ECCurve.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index fb2ba55..bd25f32 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -295,16 +295,19 @@ class FiniteField:
             return val
         sw = self.p % 8
         if sw == 3 or sw == 7:
-            res = val ** ((self.p + 1) / 4)
+            res = val ** ((self.p + 1) // 4)
         elif sw == 5:
-            x = val ** ((self.p + 1) / 4)
+            x = val ** ((self.p - 1) // 4)
             if x == 1:
-                res = val ** ((self.p + 3) / 8)
+                res = val ** ((self.p + 3) // 8)
             else:
-                res = (4 * val) ** ((self.p - 5) / 8) * 2 * val
+                res = (4 * val) ** ((self.p - 5) // 8) * 2 * val
         else:
             raise Exception("modsqrt non supported for (p%8)==1")
 
+        if res * res != val:
+            raise Exception("not a square: %s" % val)
+
         if res.value % 2 == flag:
             return res
         else:
-- 
2.43.0


From 068784611192827984eee4ee929aedc7fa7ed57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 15/32] fix: give secp256r1 its group order

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index bd25f32..a7ccf28 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -820,7 +820,7 @@ class ECDSA:
         # return ECDSA(GFp, ec.point(0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296,0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5),int("FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFC", 16))
         return ECDSA(ec,
                      ec.point(0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296, 0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5),
-                     GFp)
+                     int("FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551", 16))
 
     @staticmethod
     def decode_secp256r1(str, unhex=True, check_on_curve=True):
-- 
2.43.0


From d3412688d5ab64cd541b720305d84c773f489e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 16/32] fix: order points with equal x by y

---
 neocore/Cryptography/ECCurve.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index a7ccf28..bf90621 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -394,8 +394,6 @@ class EllipticCurve:
                 return True
             elif self.x.value > other.x.value:
                 return False
-            elif self.x.value == other.x.value:
-                return False
 
             return self.y.value < other.y.value
 
@@ -406,8 +404,6 @@ class EllipticCurve:
                 return True
             elif self.x.value < other.x.value:
                 return False
-            elif self.x.value == other.x.value:
-                return False
 
             return self.y.value > other.y.value
 
-- 
2.43.0


From 2392ff960fd770d17bcd0e07dec8b52bfa129f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 17/32] fix: find square roots modulo primes congruent to 1
 modulo 4

---
 neocore/Cryptography/ECCurve.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index bf90621..2ecfd4a 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -61,7 +61,7 @@ def next_random_integer(size_in_bits):
         ba[balen - 1] = 0
     else:
         ba[balen - 1] &= (1 << size_in_bits % 8) - 1
-    return int.from_bytes(ba, 'big')
+    return int.from_bytes(ba, 'little')
 
 
 def _lucas_sequence(n, P, Q, k):
@@ -145,6 +145,8 @@ def _lucas_sequence(n, P, Q, k):
 
 
 def sqrtCQ(val, CQ):
+    if val == 0:
+        return 0
     if test_bit(CQ, 1):
         z = modpow(val, (CQ >> 2) + 1, CQ)
         zsquare = (z * z) % CQ
@@ -163,7 +165,7 @@ def sqrtCQ(val, CQ):
     k = (u << 1) + 1
     Q = val
     fourQ = (Q << 2) % CQ
-    U = None
+    U = 1
     V = None
 
     while U == 1 or U == qMinusOne:
-- 
2.43.0


From 750585c69d7d0767152798ef33703c2278883616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 18/32] fix: never decode a point from a truncated stream

---
 neocore/Cryptography/ECCurve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 2ecfd4a..e90f652 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -578,7 +578,7 @@ class EllipticCurve:
 
     def decode_from_reader(self, reader):
 
-        f = reader.ReadByte()
+        f = reader.SafeReadBytes(1)[0]
 
         if f == 0:
             return self.Infinity
@@ -586,7 +586,7 @@ class EllipticCurve:
         # these are compressed
         if f == 2 or f == 3:
             yTilde = f & 1
-            data = bytearray(reader.ReadBytes(32))
+            data = bytearray(reader.SafeReadBytes(32))
             data.reverse()
             data.append(0)
             X1 = int.from_bytes(data, 'little')
-- 
2.43.0


From 0ff20af4ab5b73fd1136a8292c5e7fb1075e402f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:25 +0000
Subject: [PATCH 19/32] fix: build points from raw public key bytes

---
 neocore/Cryptography/ECCurve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index e90f652..bf86802 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -853,12 +853,12 @@ class ECDSA:
         length = len(pubkey)
 
         if length == 33 or length == 65:
-            return ECDSA.decode_secp256r1(pubkey)
+            return ECDSA.decode_secp256r1(pubkey, unhex=False)
 
         elif length == 64 or length == 72:
             skip = length - 64
-            out = bytearray(b'04').hex() + pubkey[skip:]
-            return ECDSA.decode_secp256r1(out)
+            out = bytearray(b'\x04') + bytearray(pubkey[skip:])
+            return ECDSA.decode_secp256r1(out, unhex=False)
 
         elif length == 96 or length == 104:
             skip = length - 96
-- 
2.43.0


From da2e57a0fa78a51e8b3a30d6a37ff488b4e0f924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 20/32] fix: refuse point encodings with coordinates out of
 range or trailing bytes

---
 neocore/Cryptography/ECCurve.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index bf86802..6f2d3eb 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -613,6 +613,8 @@ class EllipticCurve:
         f = ba[0]
 
         if f == 0:
+            if len(ba) != 1:
+                raise Exception("Incorrect length for encoding of infinity")
             return self.Infinity
 
         # these are compressed
@@ -643,6 +645,9 @@ class EllipticCurve:
             x = int.from_bytes(x_data, 'little')
             y = int.from_bytes(y_data, 'little')
 
+            if x >= cq or y >= cq or (x == 0 and y == 0):
+                raise Exception("Coordinates out of range")
+
             pnt = self.point(x, y)
             return pnt
 
@@ -660,6 +665,8 @@ class EllipticCurve:
 
         cq = self.field.p
         x = self.field.value(x)
+        if x.value >= cq:
+            raise Exception("Coordinate out of range")
 
         ysquare = x ** 3 + self.a * x + self.b
 
-- 
2.43.0


From c8594c63f7cfdbac8f0ba2831f46a6b6cfb1efc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 21/32] fix: refuse public key bytes that are off the curve or
 of unknown length

---
 neocore/Cryptography/ECCurve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 6f2d3eb..05e05f3 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -872,7 +872,9 @@ class ECDSA:
 
             out = bytearray(b'\x04') + bytearray(pubkey[skip:skip + 64])
 
-            return ECDSA.decode_secp256r1(out, unhex=False, check_on_curve=False)
+            return ECDSA.decode_secp256r1(out, unhex=False)
+
+        raise ValueError("Invalid public key length: %s" % length)
 
     @staticmethod
     def secp256k1():
-- 
2.43.0


From 7dbadbb8f6a59537ecf8ea4dd453ff3579249694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 22/32] fix: deserialize the uncompressed points that Serialize
 writes

---
 neocore/Cryptography/ECCurve.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 05e05f3..f366eb1 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -592,8 +592,15 @@ class EllipticCurve:
             X1 = int.from_bytes(data, 'little')
             return self.decompress_from_curve(X1, yTilde)
 
-        # uncompressed or hybrid
-        elif f == 4 or f == 6 or f == 7:
+        elif f == 4:
+            data = bytearray(reader.SafeReadBytes(64))
+            pnt = self.decode_from_hex(bytearray([f]) + data, unhex=False)
+            if not pnt.isoncurve():
+                raise Exception("Point is not on the curve")
+            return pnt
+
+        # hybrid
+        elif f == 6 or f == 7:
             raise NotImplementedError()
 
         raise Exception("Invalid point incoding: %s " % f)
-- 
2.43.0


From c18463a8cd7829b71e1b71727b02370b82fe5e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:48 +0000
Subject: [PATCH 23/32] fix: only NEO addresses pass the address validator

---
 neocore/Utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neocore/Utils.py b/neocore/Utils.py
index 04bfde9..4111ad5 100644
--- a/neocore/Utils.py
+++ b/neocore/Utils.py
@@ -1,5 +1,7 @@
 import base58
 
+from neocore.Cryptography.Helper import ADDRESS_VERSION
+
 
 def isValidPublicAddress(address: str) -> bool:
     """Check if address is a valid NEO address"""
@@ -7,8 +9,8 @@ def isValidPublicAddress(address: str) -> bool:
 
     if len(address) == 34 and address[0] == 'A':
         try:
-            base58.b58decode_check(address.encode())
-            valid = True
+            data = base58.b58decode_check(address.encode())
+            valid = len(data) == 21 and data[0] == ADDRESS_VERSION
         except ValueError:
             # checksum mismatch
             valid = False
-- 
2.43.0


From b3a03a7224a1ac87f8681a97ec81f8f557edf703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 24/32] fix: convert only NEO addresses on the command line and
 report others cleanly

---
 neocore/bin/cli.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/neocore/bin/cli.py b/neocore/bin/cli.py
index 4564786..738f246 100755
--- a/neocore/bin/cli.py
+++ b/neocore/bin/cli.py
@@ -22,12 +22,16 @@ class ConversionError(Exception):
 
 
 def address_to_scripthash(address):
-    data = bytes(base58.b58decode(address))
+    try:
+        data = bytes(base58.b58decode(address))
+    except ValueError:
+        raise ConversionError("Invalid address: not a base58 string")
+
+    if len(data) != 25:
+        raise ConversionError("Invalid address: wrong length")
 
-    # Make sure signature byte is correct. In python 3, data[0] is bytes, and in 2 it's str.
-    # We use this isinstance checke to make it work with both Python 2 and 3.
-    is_correct_signature = data[0] != 0x17 if isinstance(data[0], bytes) else b'\x17'
-    if not is_correct_signature:
+    # Make sure the address version byte is correct
+    if data[0] != 0x17:
         raise ConversionError("Invalid address: wrong signature byte")
 
     # Make sure the checksum is correct
-- 
2.43.0


From d7eb58a9c4fe24394c1fd5303ccc76ac74157e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:44 +0000
Subject: [PATCH 25/32] fix: refuse private keys that are zero or not below the
 curve order in every form

---
 neocore/KeyPair.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/neocore/KeyPair.py b/neocore/KeyPair.py
index 62a99ef..79b4341 100644
--- a/neocore/KeyPair.py
+++ b/neocore/KeyPair.py
@@ -18,6 +18,9 @@ SCRYPT_KEY_LEN_BYTES = 64
 NEP_HEADER = bytearray([0x01, 0x42])
 NEP_FLAG = bytearray([0xe0])
 
+# number of points of the secp256r1 curve, private keys lie below it
+CURVE_ORDER = 115792089210356248762697446949407573529996955224135760342422259061068512044369
+
 
 class KeyPair(object):
     PublicKeyHash = None
@@ -55,6 +58,9 @@ class KeyPair(object):
 
         self.PrivateKey = bytearray(priv_key[-32:])
 
+        if not 0 < int.from_bytes(self.PrivateKey, 'big') < CURVE_ORDER:
+            raise ValueError("Invalid private key")
+
         pubkey_encoded_not_compressed = None
 
         if length == 32:
-- 
2.43.0


From 5c28a27a7f01c3254f342104fd822db8a60576c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 26/32] fix: refuse texts without the NEP-2 header and flag on
 import

---
 neocore/KeyPair.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neocore/KeyPair.py b/neocore/KeyPair.py
index 79b4341..8af6456 100644
--- a/neocore/KeyPair.py
+++ b/neocore/KeyPair.py
@@ -134,6 +134,9 @@ class KeyPair(object):
         except Exception as e:
             raise ValueError("Invalid nep2_key")
 
+        if len(decoded_key) != 39 or decoded_key[:ADDRESS_HASH_OFFSET] != bytes(NEP_HEADER + NEP_FLAG):
+            raise ValueError("Invalid nep2_key")
+
         address_hash = decoded_key[ADDRESS_HASH_OFFSET:ADDRESS_HASH_OFFSET + ADDRESS_HASH_SIZE]
         encrypted = decoded_key[-32:]
 
-- 
2.43.0


From 168b1e9adcfa999359bfbfb223a4fe73f021f1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 27/32] fix: trim the right half of a Merkle tree by its own
 flags

---
 neocore/Cryptography/MerkleTree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neocore/Cryptography/MerkleTree.py b/neocore/Cryptography/MerkleTree.py
index e18fa1a..c6939a7 100644
--- a/neocore/Cryptography/MerkleTree.py
+++ b/neocore/Cryptography/MerkleTree.py
@@ -181,14 +181,15 @@ class MerkleTree(object):
             return
 
         if depth == 2:
-            if not flags[index * 2] and not flags[index * 2 + 1]:
+            if not any(flags[index * 2:index * 2 + 2]):
                 node.LeftChild = None
                 node.RightChild = None
 
         else:
 
             MerkleTree._TrimNode(node.LeftChild, index * 2, depth - 1, flags)
-            MerkleTree._TrimNode(node.RightChild, index * 2, depth - 1, flags)
+            if node.RightChild is not node.LeftChild:
+                MerkleTree._TrimNode(node.RightChild, index * 2 + 1, depth - 1, flags)
 
             if node.LeftChild.LeftChild is None and node.RightChild.RightChild is None:
                 node.LeftChild = None
-- 
2.43.0


From e5a0dfb8347060e20cadf1173a7b93ceb28ea842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:40 +0000
Subject: [PATCH 28/32] fix: hash values hand out a copy of their bytes

---
 neocore/UIntBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/UIntBase.py b/neocore/UIntBase.py
index 3b6eb0c..40c07e1 100644
--- a/neocore/UIntBase.py
+++ b/neocore/UIntBase.py
@@ -41,7 +41,7 @@ class UIntBase(SerializableMixin):
         self.__hash = self.GetHashCode()
 
     def ToArray(self):
-        return self.Data
+        return bytearray(self.Data)
 
     def ToString(self):
         db = bytearray(self.Data)
-- 
2.43.0


From b101d88cd4d01374ec64c452ed5465a147c39e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 29/32] fix: convert decimals with large exponents quickly

---
 neocore/Fixed8.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neocore/Fixed8.py b/neocore/Fixed8.py
index a9694d5..d6d924f 100644
--- a/neocore/Fixed8.py
+++ b/neocore/Fixed8.py
@@ -33,7 +33,9 @@ class Fixed8:
             number = Decimal(str(number))
         if isinstance(number, Decimal):
             exact = Context(prec=len(number.as_tuple().digits) + 9)
-            out = int(exact.multiply(number, Decimal(Fixed8.D)))
+            units = exact.multiply(number, Decimal(Fixed8.D))
+            exponent = max(0, int(units.as_tuple().exponent))
+            out = int(units.scaleb(-exponent, exact)) * 10 ** exponent
         else:
             out = int(number * Fixed8.D)
         return Fixed8(out)
-- 
2.43.0


From ae559bb12f0afdbb6d5ba68c0c881a99be2e5fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:00 +0000
Subject: [PATCH 30/32] fix: no signature with a zero component verifies

---
 neocore/Cryptography/ECCurve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index f366eb1..17789fa 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -749,6 +749,10 @@ class ECDSA:
         r = self.GFn.value(rnum)
         s = self.GFn.value(snum)
 
+        # zero is never part of a signature
+        if r.iszero() or s.iszero():
+            return False
+
         R = self.G * (m / s) + pubkey * (r / s)
 
         # alternative methods of verifying
-- 
2.43.0


From 3edc34d02264244d838a60a43b50136a408df85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 31/32] fix: divide field values by negative integers

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 17789fa..dbe2492 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -319,7 +319,7 @@ class FiniteField:
         """
         calculate the multiplicative inverse
         """
-        return modinv(value.value, self.p)
+        return modinv(value.value % self.p, self.p)
 
     def value(self, x):
         """
-- 
2.43.0


From f23936ab49b76feda1180090457b0643ec49bd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:17 +0000
Subject: [PATCH 32/32] fix: VerifySignature returns False for text and points
 that cannot be encoded

---
 neocore/Cryptography/Crypto.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/neocore/Cryptography/Crypto.py b/neocore/Cryptography/Crypto.py
index 8dabec3..f3d004f 100644
--- a/neocore/Cryptography/Crypto.py
+++ b/neocore/Cryptography/Crypto.py
@@ -142,21 +142,22 @@ class Crypto(object):
             bool: True if verification passes. False otherwise.
         """
 
-        if type(public_key) is EllipticCurve.ECPoint:
-            pubkey_x = public_key.x.value.to_bytes(32, 'big')
-            pubkey_y = public_key.y.value.to_bytes(32, 'big')
-
-            public_key = pubkey_x + pubkey_y
-
         if unhex:
             try:
                 message = binascii.unhexlify(message)
             except Exception as e:
                 logger.error("could not get m: %s" % e)
-        elif isinstance(message, str):
-            message = message.encode('utf-8')
 
         try:
+            if type(public_key) is EllipticCurve.ECPoint:
+                pubkey_x = public_key.x.value.to_bytes(32, 'big')
+                pubkey_y = public_key.y.value.to_bytes(32, 'big')
+
+                public_key = pubkey_x + pubkey_y
+
+            if not unhex and isinstance(message, str):
+                message = message.encode('utf-8')
+
             if len(public_key) == 33:
                 Crypto.SetupSignatureCurve()
                 public_key = bitcoin.decompress(public_key)
-- 
2.43.0

