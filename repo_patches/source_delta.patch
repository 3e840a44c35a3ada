From 9ac9abd756f3f4b411b1699b5fb2a5d4ff96a9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 01/45] fix: compare the least significant byte of a UInt too

---
 neocore/UIntBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/UIntBase.py b/neocore/UIntBase.py
index 42d60b0..49fbbc9 100644
--- a/neocore/UIntBase.py
+++ b/neocore/UIntBase.py
@@ -92,7 +92,7 @@ class UIntBase(SerializableMixin):
 
         length = len(x)
 
-        for i in range(length - 1, 0, -1):
+        for i in range(length - 1, -1, -1):
             if x[i] > y[i]:
                 return 1
             if x[i] < y[i]:
-- 
2.43.0


From 28f7665a3ffcfba31f6f4e17b5b9b7a6532fe0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 02/45] fix: do not let a UInt share the caller's buffer

---
 neocore/UIntBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/UIntBase.py b/neocore/UIntBase.py
index 49fbbc9..eb87c60 100644
--- a/neocore/UIntBase.py
+++ b/neocore/UIntBase.py
@@ -20,7 +20,7 @@ class UIntBase(SerializableMixin):
             if type(data) is bytes:
                 self.Data = bytearray(data)
             elif type(data) is bytearray:
-                self.Data = data
+                self.Data = bytearray(data)
             else:
                 raise Exception("Invalid format")
 
-- 
2.43.0


From 3c9cea857ae6f40651e0ff3b63c238602c1485e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 03/45] fix: refuse to deserialize a UInt from too few bytes

---
 neocore/UIntBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/UIntBase.py b/neocore/UIntBase.py
index eb87c60..f742bd4 100644
--- a/neocore/UIntBase.py
+++ b/neocore/UIntBase.py
@@ -39,7 +39,7 @@ class UIntBase(SerializableMixin):
         writer.WriteBytes(self.Data)
 
     def Deserialize(self, reader):
-        self.Data = reader.ReadBytes(self.Size)
+        self.Data = bytearray(reader.SafeReadBytes(self.Size))
         self.__hash = self.GetHashCode()
 
     def ToArray(self):
-- 
2.43.0


From aebac73aa3a0a28554f6e9a07394b3c3a30a715c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 04/45] fix: keep every digit of a float in Fixed8.FromDecimal

---
 neocore/Fixed8.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neocore/Fixed8.py b/neocore/Fixed8.py
index cab8d25..3b8ffe4 100644
--- a/neocore/Fixed8.py
+++ b/neocore/Fixed8.py
@@ -8,6 +8,7 @@ Usage:
 """
 
 import math
+from decimal import Decimal
 
 
 class Fixed8:
@@ -29,6 +30,9 @@ class Fixed8:
 
     @staticmethod
     def FromDecimal(number):
+        if isinstance(number, float):
+            # take the digits the float stands for: 0.29 * D is 28999999.999999996
+            number = Decimal(str(number))
         out = int(number * Fixed8.D)
         return Fixed8(out)
 
-- 
2.43.0


From de4b06c1bb81ea5cf2d585a11a6be013c62b4aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 05/45] fix: parse Fixed8 amounts exactly, and reject nan and
 infinity

---
 neocore/Fixed8.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/neocore/Fixed8.py b/neocore/Fixed8.py
index 3b8ffe4..3a8fe16 100644
--- a/neocore/Fixed8.py
+++ b/neocore/Fixed8.py
@@ -57,6 +57,11 @@ class Fixed8:
         val = None
         try:
             val = float(value)
+            if not math.isfinite(val):
+                return None
+            if isinstance(value, (str, int, Decimal)):
+                # a float cannot hold the digits of every amount
+                val = Decimal(value)
         except Exception as e:
             pass
         if not val:
@@ -69,7 +74,7 @@ class Fixed8:
             if require_positive and val < 0:
                 return None
 
-            return Fixed8(int(val * Fixed8.D))
+            return Fixed8.FromDecimal(val)
 
         return None
 
-- 
2.43.0


From b7a04a5cb37480162f0b99af65a460bff12162de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 06/45] fix: round Fixed8 amounts without going through a float

---
 neocore/Fixed8.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/neocore/Fixed8.py b/neocore/Fixed8.py
index 3a8fe16..b16c4ea 100644
--- a/neocore/Fixed8.py
+++ b/neocore/Fixed8.py
@@ -133,13 +133,14 @@ class Fixed8:
         return self.value <= other.value
 
     def Ceil(self):
-        return Fixed8(math.ceil(self.value / Fixed8.D) * Fixed8.D)
+        return Fixed8(-(-self.value // Fixed8.D) * Fixed8.D)
 
     def Floor(self):
-        return Fixed8(math.floor(self.value / Fixed8.D) * Fixed8.D)
+        return Fixed8(self.value // Fixed8.D * Fixed8.D)
 
     def ToInt(self):
-        return int(self.value / Fixed8.D)
+        whole = abs(self.value) // Fixed8.D
+        return int(whole if self.value >= 0 else -whole)
 
     def ToString(self):
         return str(self.value / Fixed8.D)
-- 
2.43.0


From 95002fd0b4399cf8202ac2869da8c4e5aab71063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 07/45] fix: divide Fixed8 values without going through a float

---
 neocore/Fixed8.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neocore/Fixed8.py b/neocore/Fixed8.py
index b16c4ea..098a15f 100644
--- a/neocore/Fixed8.py
+++ b/neocore/Fixed8.py
@@ -97,7 +97,8 @@ class Fixed8:
         return self.__mul__(other)
 
     def __truediv__(self, other):
-        return Fixed8(int(self.value / other.value))
+        quotient = abs(self.value) // abs(other.value)
+        return Fixed8(quotient if (self.value < 0) == (other.value < 0) else -quotient)
 
     def __floordiv__(self, other):
         return Fixed8(self.value // other.value)
-- 
2.43.0


From c29b1e579eef15b2aa0e6a3c89d80ae1dc69468f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 08/45] fix: do not print small Fixed8 amounts with an exponent

---
 neocore/Fixed8.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Fixed8.py b/neocore/Fixed8.py
index 098a15f..bca1ce1 100644
--- a/neocore/Fixed8.py
+++ b/neocore/Fixed8.py
@@ -144,7 +144,7 @@ class Fixed8:
         return int(whole if self.value >= 0 else -whole)
 
     def ToString(self):
-        return str(self.value / Fixed8.D)
+        return format(Decimal(str(self.value / Fixed8.D)), 'f')
 
     def ToNeoJsonString(self):
         strval = self.ToString()
-- 
2.43.0


From 42fb86a29d26fba0f25797b79e2f70d35f4cbadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 09/45] fix: do not unhexlify fixed strings that look like hex

---
 neocore/IO/BinaryWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index 1904eec..25eaa97 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -386,7 +386,7 @@ class BinaryWriter(object):
         slen = len(towrite)
         if slen > length:
             raise Exception("string longer than fixed length: %s " % length)
-        self.WriteBytes(towrite)
+        self.WriteBytes(towrite, unhex=False)
         diff = length - slen
 
         while diff > 0:
-- 
2.43.0


From 4af04b0a5563e1b155a8559ccffc9876deb9afb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 10/45] fix: do not unhexlify hashes whose bytes look like hex
 in WriteHashes

---
 neocore/IO/BinaryWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index 25eaa97..4177e23 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -432,7 +432,7 @@ class BinaryWriter(object):
             ba = bytearray(binascii.unhexlify(item))
             ba.reverse()
             #            logger.info("WRITING HASH %s " % ba)
-            self.WriteBytes(ba)
+            self.WriteBytes(ba, unhex=False)
 
     def WriteFixed8(self, value, unsigned=False):
         """
-- 
2.43.0


From 29101892f96931278bca6f53213e4308dddc2aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 11/45] fix: do not unhexlify hashes whose bytes look like hex
 in Write2000256List

---
 neocore/IO/BinaryWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index 4177e23..0657817 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -417,7 +417,7 @@ class BinaryWriter(object):
         for item in arr:
             ba = bytearray(binascii.unhexlify(item))
             ba.reverse()
-            self.WriteBytes(ba)
+            self.WriteBytes(ba, unhex=False)
 
     def WriteHashes(self, arr):
         """
-- 
2.43.0


From d70175dfb32e4c85f1f511fd778e8cf9de06491e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 12/45] fix: write var strings in encodings that are not ASCII
 supersets

---
 neocore/IO/BinaryWriter.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index 0657817..d0ed72c 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -368,11 +368,8 @@ class BinaryWriter(object):
             value = value.encode(encoding)
 
         length = len(value)
-        ba = bytearray(value)
-        byts = binascii.hexlify(ba)
-        string = byts.decode(encoding)
         self.WriteVarInt(length)
-        self.WriteBytes(string)
+        self.WriteBytes(value, unhex=False)
 
     def WriteFixedString(self, value, length):
         """
-- 
2.43.0


From 1f44ff89e9a0d853267b49e7e11a94e0da16065e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 13/45] fix: do not drop a byte given as a bool or BigInteger

---
 neocore/IO/BinaryWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index d0ed72c..b86210d 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -82,7 +82,7 @@ class BinaryWriter(object):
             self.stream.write(value)
         elif type(value) is str:
             self.stream.write(value.encode('utf-8'))
-        elif type(value) is int:
+        elif isinstance(value, int):
             self.stream.write(bytes([value]))
 
     def WriteBytes(self, value, unhex=True):
-- 
2.43.0


From 36d2bb6025644b18cea972ea834f7a230ca6530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 14/45] fix: write nothing for a var int that does not fit in
 64 bits

---
 neocore/IO/BinaryWriter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index b86210d..d673fc3 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -334,10 +334,13 @@ class BinaryWriter(object):
             self.WriteByte(0xfe)
             return self.WriteUInt32(value, endian)
 
-        else:
+        elif value <= 0xFFFFFFFFFFFFFFFF:
             self.WriteByte(0xff)
             return self.WriteUInt64(value, endian)
 
+        else:
+            raise Exception('%d too big.' % value)
+
     def WriteVarBytes(self, value, endian="<"):
         """
         Write an integer value in a space saving way to the stream.
-- 
2.43.0


From 14ce44c75ed8128027dd76ebec80f2b37a3ee7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 15/45] fix: return the number of bytes written by WriteVarInt
 and WriteVarBytes

---
 neocore/IO/BinaryWriter.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index d673fc3..bb451a6 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -324,19 +324,20 @@ class BinaryWriter(object):
             raise Exception('%d too small.' % value)
 
         elif value < 0xfd:
-            return self.WriteByte(value)
+            self.WriteByte(value)
+            return 1
 
         elif value <= 0xffff:
             self.WriteByte(0xfd)
-            return self.WriteUInt16(value, endian)
+            return 1 + self.WriteUInt16(value, endian)
 
         elif value <= 0xFFFFFFFF:
             self.WriteByte(0xfe)
-            return self.WriteUInt32(value, endian)
+            return 1 + self.WriteUInt32(value, endian)
 
         elif value <= 0xFFFFFFFFFFFFFFFF:
             self.WriteByte(0xff)
-            return self.WriteUInt64(value, endian)
+            return 1 + self.WriteUInt64(value, endian)
 
         else:
             raise Exception('%d too big.' % value)
@@ -354,9 +355,7 @@ class BinaryWriter(object):
             int: the number of bytes written.
         """
         length = len(value)
-        self.WriteVarInt(length, endian)
-
-        return self.WriteBytes(value, unhex=False)
+        return self.WriteVarInt(length, endian) + self.WriteBytes(value, unhex=False)
 
     def WriteVarString(self, value, encoding="utf-8"):
         """
-- 
2.43.0


From 3c2cda3ecb29335f795eb5375f75f28a1ceff51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 16/45] fix: order points with the same x coordinate by y

---
 neocore/Cryptography/ECCurve.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 238050d..f772b06 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -388,8 +388,6 @@ class EllipticCurve:
                 return True
             elif self.x.value > other.x.value:
                 return False
-            elif self.x.value == other.x.value:
-                return False
 
             return self.y.value < other.y.value
 
@@ -400,8 +398,6 @@ class EllipticCurve:
                 return True
             elif self.x.value < other.x.value:
                 return False
-            elif self.x.value == other.x.value:
-                return False
 
             return self.y.value > other.y.value
 
-- 
2.43.0


From 0b2c8dcb414607f7fd09e9bef6bdc9efabe68aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 17/45] fix: refuse to decode a truncated point

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index f772b06..c8a7c39 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -575,7 +575,7 @@ class EllipticCurve:
         # these are compressed
         if f == 2 or f == 3:
             yTilde = f & 1
-            data = bytearray(reader.ReadBytes(32))
+            data = bytearray(reader.SafeReadBytes(32))
             data.reverse()
             data.append(0)
             X1 = int.from_bytes(data, 'little')
-- 
2.43.0


From 8c1db8ea252fe1b87d86b368e10e592f5d9b8958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 18/45] fix: refuse to decode points with coordinates outside
 the field

---
 neocore/Cryptography/ECCurve.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index c8a7c39..237ce7d 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -632,6 +632,9 @@ class EllipticCurve:
             x = int.from_bytes(x_data, 'little')
             y = int.from_bytes(y_data, 'little')
 
+            if x >= cq or y >= cq:
+                raise Exception("Coordinate is not in the field")
+
             pnt = self.point(x, y)
             return pnt
 
@@ -648,6 +651,9 @@ class EllipticCurve:
         """
 
         cq = self.field.p
+        if self.field.integer(x) >= cq:
+            raise Exception("Coordinate is not in the field")
+
         x = self.field.value(x)
 
         ysquare = x ** 3 + self.a * x + self.b
-- 
2.43.0


From 02c23ab62a63231bc2a824fb8148f6141fd193a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 19/45] fix: refuse trailing bytes after the encoded point at
 infinity

---
 neocore/Cryptography/ECCurve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 237ce7d..0a24664 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -602,6 +602,8 @@ class EllipticCurve:
         f = ba[0]
 
         if f == 0:
+            if len(ba) != 1:
+                raise Exception("Incorrect length for the point at infinity")
             return self.Infinity
 
         # these are compressed
-- 
2.43.0


From 5b9743c6530b7968e57b3c3d1de6af6c9424a591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 20/45] fix: decode raw public keys in FromBytes_Secp256r1

---
 neocore/Cryptography/ECCurve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 0a24664..b67bbff 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -850,12 +850,12 @@ class ECDSA:
         length = len(pubkey)
 
         if length == 33 or length == 65:
-            return ECDSA.decode_secp256r1(pubkey)
+            return ECDSA.decode_secp256r1(pubkey, unhex=False)
 
         elif length == 64 or length == 72:
             skip = length - 64
-            out = bytearray(b'04').hex() + pubkey[skip:]
-            return ECDSA.decode_secp256r1(out)
+            out = bytearray(b'\x04') + bytearray(pubkey[skip:])
+            return ECDSA.decode_secp256r1(out, unhex=False)
 
         elif length == 96 or length == 104:
             skip = length - 96
-- 
2.43.0


From 22fa513ba01ddba6fd7d17b0f9ae257e49b1d776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 21/45] fix: halve the scalar with integer division in point
 multiplication

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index b67bbff..640cc89 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -519,7 +519,7 @@ class EllipticCurve:
             if bit:
                 accumulator += shifter
             shifter += shifter
-            scalar /= 2
+            scalar //= 2
 
         return accumulator
 
-- 
2.43.0


From 752177638fb414bcb7d1d58fd7e452581649c821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 22/45] fix: support int / field value in Python 3

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 640cc89..2a16e56 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -226,7 +226,7 @@ class FiniteField:
         def __rmul__(self, rhs):
             return self.field.mul(self.field.value(rhs), self)
 
-        def __rdiv__(self, rhs):
+        def __rtruediv__(self, rhs):
             return self.field.div(self.field.value(rhs), self)
 
         def __rpow__(self, rhs):
-- 
2.43.0


From c56e2fc02fde799bdbe0eabdc2a2b2bf028c798e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 23/45] fix: reduce the negation of zero in a finite field

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 2a16e56..7c6d0c3 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -282,7 +282,7 @@ class FiniteField:
         return (lhs.value - rhs.value) % self.p == 0
 
     def neg(self, val):
-        return self.value(self.p - val.value)
+        return self.value((self.p - val.value) % self.p)
 
     def sqrt(self, val, flag):
         """
-- 
2.43.0


From 70e86c083ac3744cab7538fc1111a81604d1d982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 24/45] fix: compute square root exponents with integer
 division

---
 neocore/Cryptography/ECCurve.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 7c6d0c3..ee92c68 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -292,13 +292,13 @@ class FiniteField:
             return val
         sw = self.p % 8
         if sw == 3 or sw == 7:
-            res = val ** ((self.p + 1) / 4)
+            res = val ** ((self.p + 1) // 4)
         elif sw == 5:
-            x = val ** ((self.p + 1) / 4)
+            x = val ** ((self.p - 1) // 4)
             if x == 1:
-                res = val ** ((self.p + 3) / 8)
+                res = val ** ((self.p + 3) // 8)
             else:
-                res = (4 * val) ** ((self.p - 5) / 8) * 2 * val
+                res = (4 * val) ** ((self.p - 5) // 8) * 2 * val
         else:
             raise Exception("modsqrt non supported for (p%8)==1")
 
-- 
2.43.0


From b2102d70fe3ce5c15ff7a27eb204c9a017dba5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 25/45] fix: give secp256r1 its group order

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index ee92c68..8c9b7ec 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -815,7 +815,7 @@ class ECDSA:
         # return ECDSA(GFp, ec.point(0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296,0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5),int("FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFC", 16))
         return ECDSA(ec,
                      ec.point(0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296, 0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5),
-                     GFp)
+                     int("FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551", 16))
 
     @staticmethod
     def decode_secp256r1(str, unhex=True, check_on_curve=True):
-- 
2.43.0


From 998e112464d25803abe060e94397a1e6b0c9156a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 26/45] fix: keep random integers within the requested number
 of bits

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 8c9b7ec..551e423 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -61,7 +61,7 @@ def next_random_integer(size_in_bits):
         ba[balen - 1] = 0
     else:
         ba[balen - 1] &= (1 << size_in_bits % 8) - 1
-    return int.from_bytes(ba, 'big')
+    return int.from_bytes(ba, 'little')
 
 
 def _lucas_sequence(n, P, Q, k):
-- 
2.43.0


From 1c0b83fe48074990c07b791e76774a404cf1e0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 27/45] fix: enter the search loop of sqrtCQ

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 551e423..4a4de73 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -166,7 +166,7 @@ def sqrtCQ(val, CQ):
     U = None
     V = None
 
-    while U == 1 or U == qMinusOne:
+    while U is None or U == 1 or U == qMinusOne:
 
         P = next_random_integer(CQ.bit_length())
         while P >= CQ or modpow(P * P - fourQ, legendreExponent, CQ) != qMinusOne:
-- 
2.43.0


From b515c3f2c3776533343e46bf3a69117b9070d307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 28/45] fix: sign on the NEO curve whatever was called before

---
 neocore/Cryptography/Crypto.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neocore/Cryptography/Crypto.py b/neocore/Cryptography/Crypto.py
index 131f146..970bd83 100644
--- a/neocore/Cryptography/Crypto.py
+++ b/neocore/Cryptography/Crypto.py
@@ -114,6 +114,8 @@ class Crypto(object):
             bytearray: the signature of the message.
         """
 
+        Crypto.SetupSignatureCurve()
+
         hash = hashlib.sha256(binascii.unhexlify(message)).hexdigest()
 
         v, r, s = bitcoin.ecdsa_raw_sign(hash, private_key)
-- 
2.43.0


From b8c15f19d8c83721d21a54bd263236f0c7344b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 29/45] fix: decompress public keys on the NEO curve whatever
 was called before

---
 neocore/Cryptography/Crypto.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neocore/Cryptography/Crypto.py b/neocore/Cryptography/Crypto.py
index 970bd83..ebbb0a8 100644
--- a/neocore/Cryptography/Crypto.py
+++ b/neocore/Cryptography/Crypto.py
@@ -157,6 +157,7 @@ class Crypto(object):
             message = message.encode('utf-8')
 
         if len(public_key) == 33:
+            Crypto.SetupSignatureCurve()
             public_key = bitcoin.decompress(public_key)
             public_key = public_key[1:]
 
-- 
2.43.0


From 9b730b16c92279d337398fdd77c37b42bb3412d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 30/45] fix: fail verification instead of raising on a
 malformed public key

---
 neocore/Cryptography/Crypto.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neocore/Cryptography/Crypto.py b/neocore/Cryptography/Crypto.py
index ebbb0a8..8dabec3 100644
--- a/neocore/Cryptography/Crypto.py
+++ b/neocore/Cryptography/Crypto.py
@@ -156,12 +156,12 @@ class Crypto(object):
         elif isinstance(message, str):
             message = message.encode('utf-8')
 
-        if len(public_key) == 33:
-            Crypto.SetupSignatureCurve()
-            public_key = bitcoin.decompress(public_key)
-            public_key = public_key[1:]
-
         try:
+            if len(public_key) == 33:
+                Crypto.SetupSignatureCurve()
+                public_key = bitcoin.decompress(public_key)
+                public_key = public_key[1:]
+
             vk = VerifyingKey.from_string(public_key, curve=NIST256p, hashfunc=hashlib.sha256)
             res = vk.verify(signature, message, hashfunc=hashlib.sha256)
             return res
-- 
2.43.0


From f9f057fe64993f02db43fdcc12dbeb1e3413a315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 31/45] fix: trim the right subtree of a merkle tree by its own
 flags

---
 neocore/Cryptography/MerkleTree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neocore/Cryptography/MerkleTree.py b/neocore/Cryptography/MerkleTree.py
index e18fa1a..c6939a7 100644
--- a/neocore/Cryptography/MerkleTree.py
+++ b/neocore/Cryptography/MerkleTree.py
@@ -181,14 +181,15 @@ class MerkleTree(object):
             return
 
         if depth == 2:
-            if not flags[index * 2] and not flags[index * 2 + 1]:
+            if not any(flags[index * 2:index * 2 + 2]):
                 node.LeftChild = None
                 node.RightChild = None
 
         else:
 
             MerkleTree._TrimNode(node.LeftChild, index * 2, depth - 1, flags)
-            MerkleTree._TrimNode(node.RightChild, index * 2, depth - 1, flags)
+            if node.RightChild is not node.LeftChild:
+                MerkleTree._TrimNode(node.RightChild, index * 2 + 1, depth - 1, flags)
 
             if node.LeftChild.LeftChild is None and node.RightChild.RightChild is None:
                 node.LeftChild = None
-- 
2.43.0


From 223076dc3406fb55e02887df3db1d6313bdd0edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 32/45] fix: check the version and length of public addresses

---
 neocore/Utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neocore/Utils.py b/neocore/Utils.py
index 04bfde9..36fdf34 100644
--- a/neocore/Utils.py
+++ b/neocore/Utils.py
@@ -1,4 +1,5 @@
 import base58
+from neocore.Cryptography.Helper import ADDRESS_VERSION
 
 
 def isValidPublicAddress(address: str) -> bool:
@@ -7,8 +8,8 @@ def isValidPublicAddress(address: str) -> bool:
 
     if len(address) == 34 and address[0] == 'A':
         try:
-            base58.b58decode_check(address.encode())
-            valid = True
+            data = base58.b58decode_check(address.encode())
+            valid = len(data) == 21 and data[0] == ADDRESS_VERSION
         except ValueError:
             # checksum mismatch
             valid = False
-- 
2.43.0


From c5b438729a67fc4457316fa3f4ec2e742ccc8848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 33/45] fix: reject addresses of the wrong format in
 address_to_scripthash

---
 neocore/bin/cli.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/neocore/bin/cli.py b/neocore/bin/cli.py
index 4564786..d44385d 100755
--- a/neocore/bin/cli.py
+++ b/neocore/bin/cli.py
@@ -22,12 +22,16 @@ class ConversionError(Exception):
 
 
 def address_to_scripthash(address):
-    data = bytes(base58.b58decode(address))
+    try:
+        data = bytes(base58.b58decode(address))
+    except ValueError:
+        raise ConversionError("Invalid address: not base58")
+
+    if len(data) != 25:
+        raise ConversionError("Invalid address: wrong length")
 
-    # Make sure signature byte is correct. In python 3, data[0] is bytes, and in 2 it's str.
-    # We use this isinstance checke to make it work with both Python 2 and 3.
-    is_correct_signature = data[0] != 0x17 if isinstance(data[0], bytes) else b'\x17'
-    if not is_correct_signature:
+    # Make sure signature byte is correct.
+    if data[0] != 0x17:
         raise ConversionError("Invalid address: wrong signature byte")
 
     # Make sure the checksum is correct
-- 
2.43.0


From e10c4ea30332b13c17347417f04d2585d8f0ee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 34/45] fix: check the NEP-2 header and length

---
 neocore/KeyPair.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neocore/KeyPair.py b/neocore/KeyPair.py
index 62a99ef..a1615ba 100644
--- a/neocore/KeyPair.py
+++ b/neocore/KeyPair.py
@@ -128,6 +128,9 @@ class KeyPair(object):
         except Exception as e:
             raise ValueError("Invalid nep2_key")
 
+        if len(decoded_key) != 39 or decoded_key[:ADDRESS_HASH_OFFSET] != NEP_HEADER + NEP_FLAG:
+            raise ValueError("Invalid nep2_key")
+
         address_hash = decoded_key[ADDRESS_HASH_OFFSET:ADDRESS_HASH_OFFSET + ADDRESS_HASH_SIZE]
         encrypted = decoded_key[-32:]
 
-- 
2.43.0


From 1667461ac078ee3eeeadba82f6c365ed410926d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 35/45] fix: refuse the private key zero

---
 neocore/KeyPair.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neocore/KeyPair.py b/neocore/KeyPair.py
index a1615ba..773b038 100644
--- a/neocore/KeyPair.py
+++ b/neocore/KeyPair.py
@@ -58,6 +58,9 @@ class KeyPair(object):
         pubkey_encoded_not_compressed = None
 
         if length == 32:
+            if not any(priv_key):
+                raise ValueError("Invalid private key")
+
             try:
                 pubkey_encoded_not_compressed = bitcoin.privkey_to_pubkey(priv_key)
             except Exception as e:
-- 
2.43.0


From 717030df53bfdd47d0a0a1cccdce92f92eae09b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 36/45] fix: modular inverse of negative numbers

modinv(x, m) answered the inverse of -x for a negative x, so dividing a
field value by a negative integer gave the negated quotient and crack2
recovered a wrong nonce and key from plain integers with s1 < s2.
---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 4a4de73..e77f04c 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -24,7 +24,7 @@ def GCD(a, b):
 
 
 def modinv(x, m):
-    (gcd, c, d) = GCD(x, m)
+    (gcd, c, d) = GCD(x % m, m)
     return c
 
 
-- 
2.43.0


From 37781dd8012c00207096efaa6934a3616e45f4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 37/45] fix: multiplication of a point by a negative integer
 never ended

---
 neocore/Cryptography/ECCurve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index e77f04c..d4092ee 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -511,6 +511,9 @@ class EllipticCurve:
     # scalar multiplication is implemented like repeated addition
     def mul(self, pt, scalar):
         scalar = self.field.integer(scalar)
+        if scalar < 0:
+            return self.mul(-pt, -scalar)
+
         accumulator = self.zero()
         shifter = pt
 
-- 
2.43.0


From 9acab96bc1e40d6bfe3c2025a96780d5c80b4399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 38/45] fix: compare modulo the group order when verifying

The toolkit compared r with the x coordinate modulo the field prime: a
valid signature whose point has x >= n was refused on curves with n < p,
and r + p was accepted for r on curves with n > p.
---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index d4092ee..758ae7e 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -744,7 +744,7 @@ class ECDSA:
         # print "#2: %s .. %s"  % (RR*(1/s), r)
         # print "#3: %s .. %s"  % (R, r)
 
-        return R.x == r
+        return self.GFn.value(R.x) == r
 
     def findpk(self, message, rnum, snum, flag):
         """
-- 
2.43.0


From 9180739fbfcedb6ed68b0a643cab62fad23d22fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 39/45] fix: refuse zero signatures in the ECDSA toolkit

verify(m, Y, 0, 0) was true for every message and every public key, since
dividing by zero gives zero and the point at infinity has x = 0.
---
 neocore/Cryptography/ECCurve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 758ae7e..29150b7 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -735,6 +735,9 @@ class ECDSA:
         r = self.GFn.value(rnum)
         s = self.GFn.value(snum)
 
+        if r == 0 or s == 0:
+            return False
+
         R = self.G * (m / s) + pubkey * (r / s)
 
         # alternative methods of verifying
-- 
2.43.0


From bb23709a88ba1632a64db346212f327a491c4986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:30 +0000
Subject: [PATCH 40/45] fix: do not round long amounts to the digits of the
 decimal context

---
 neocore/Fixed8.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/neocore/Fixed8.py b/neocore/Fixed8.py
index bca1ce1..65b3462 100644
--- a/neocore/Fixed8.py
+++ b/neocore/Fixed8.py
@@ -8,7 +8,7 @@ Usage:
 """
 
 import math
-from decimal import Decimal
+from decimal import Context, Decimal
 
 
 class Fixed8:
@@ -33,7 +33,11 @@ class Fixed8:
         if isinstance(number, float):
             # take the digits the float stands for: 0.29 * D is 28999999.999999996
             number = Decimal(str(number))
-        out = int(number * Fixed8.D)
+        if isinstance(number, Decimal):
+            # the current context would round a long number before its extra digits are cut off
+            out = int(Context(prec=len(number.as_tuple().digits) + 9).multiply(number, Fixed8.D))
+        else:
+            out = int(number * Fixed8.D)
         return Fixed8(out)
 
     @staticmethod
-- 
2.43.0


From 2bb6b1ad008bcfee3747879022a0281631ff82a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:54 +0000
Subject: [PATCH 41/45] fix: texts of amounts held as BigInteger lost their
 decimals

---
 neocore/Fixed8.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Fixed8.py b/neocore/Fixed8.py
index 65b3462..4fb1535 100644
--- a/neocore/Fixed8.py
+++ b/neocore/Fixed8.py
@@ -148,7 +148,7 @@ class Fixed8:
         return int(whole if self.value >= 0 else -whole)
 
     def ToString(self):
-        return format(Decimal(str(self.value / Fixed8.D)), 'f')
+        return format(Decimal(str(int(self.value) / Fixed8.D)), 'f')
 
     def ToNeoJsonString(self):
         strval = self.ToString()
-- 
2.43.0


From b5cad96f32d01c207aec347cae523c4844761dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:11 +0000
Subject: [PATCH 42/45] fix: numbers were compared by identity, which fails to
 import when warnings are errors

---
 neocore/Cryptography/ECCurve.py | 2 +-
 neocore/IO/BinaryReader.py      | 2 +-
 neocore/KeyPair.py              | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 29150b7..a9a97cb 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -666,7 +666,7 @@ class EllipticCurve:
         ysquare_root = sqrtCQ(ysquare.value, cq)
 
         bit0 = 0
-        if ysquare_root % 2 is not 0:
+        if ysquare_root % 2 != 0:
             bit0 = 1
 
         if bit0 != flag:
diff --git a/neocore/IO/BinaryReader.py b/neocore/IO/BinaryReader.py
index 2749825..6fcb28a 100644
--- a/neocore/IO/BinaryReader.py
+++ b/neocore/IO/BinaryReader.py
@@ -240,7 +240,7 @@ class BinaryReader(object):
             int:
         """
         fb = self.ReadByte()
-        if fb is 0:
+        if fb == 0:
             return fb
         value = 0
         if hex(fb) == '0xfd':
diff --git a/neocore/KeyPair.py b/neocore/KeyPair.py
index 773b038..9045fde 100644
--- a/neocore/KeyPair.py
+++ b/neocore/KeyPair.py
@@ -91,14 +91,14 @@ class KeyPair(object):
         Returns:
             bytes: The private key
         """
-        if wif is None or len(wif) is not 52:
+        if wif is None or len(wif) != 52:
             raise ValueError('Please provide a wif with a length of 52 bytes (LEN: {0:d})'.format(len(wif)))
 
         data = base58.b58decode(wif)
 
         length = len(data)
 
-        if length is not 38 or data[0] is not 0x80 or data[33] is not 0x01:
+        if length != 38 or data[0] != 0x80 or data[33] != 0x01:
             raise ValueError("Invalid format!")
 
         checksum = Crypto.Hash256(data[0:34])[0:4]
-- 
2.43.0


From fb276d4a5a123f2d247c58904060a553f434468f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:20 +0000
Subject: [PATCH 43/45] fix: xor_bytes took bytes of different kinds and
 lengths when Python ran with -O

---
 neocore/Cryptography/Helper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neocore/Cryptography/Helper.py b/neocore/Cryptography/Helper.py
index 95e26cc..d098a1f 100644
--- a/neocore/Cryptography/Helper.py
+++ b/neocore/Cryptography/Helper.py
@@ -182,9 +182,9 @@ def xor_bytes(a, b):
     Returns:
         bytes: The XOR result
     """
-    assert isinstance(a, bytes)
-    assert isinstance(b, bytes)
-    assert len(a) == len(b)
+    # not an assert statement: those are gone when Python runs with -O
+    if not isinstance(a, bytes) or not isinstance(b, bytes) or len(a) != len(b):
+        raise AssertionError("xor_bytes expects two bytes objects of the same length")
     res = bytearray()
     for i in range(len(a)):
         res.append(a[i] ^ b[i])
-- 
2.43.0


From 69907ae83d817ff186905f3af5322d1526a85261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:03 +0000
Subject: [PATCH 44/45] fix: reading a list of hashes looped as often as its
 count prefix claimed, however little data there was

---
 neocore/IO/BinaryReader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neocore/IO/BinaryReader.py b/neocore/IO/BinaryReader.py
index 6fcb28a..680b7ae 100644
--- a/neocore/IO/BinaryReader.py
+++ b/neocore/IO/BinaryReader.py
@@ -376,9 +376,13 @@ class BinaryReader(object):
         len = self.ReadVarInt()
         items = []
         for i in range(0, len):
-            ba = bytearray(self.ReadBytes(32))
+            data = self.ReadBytes(32)
+            ba = bytearray(data)
             ba.reverse()
             items.append(ba.hex())
+            if not data:
+                # the stream has ended, however many hashes it claimed to hold
+                break
         return items
 
     def ReadFixed8(self):
-- 
2.43.0


From cd79339a3d2ebe92c7b8419f7ca195eb9e1a0024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:33 +0000
Subject: [PATCH 45/45] fix: amounts depended on the exponent limits of the
 default decimal context

---
 neocore/Fixed8.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neocore/Fixed8.py b/neocore/Fixed8.py
index 4fb1535..ac57608 100644
--- a/neocore/Fixed8.py
+++ b/neocore/Fixed8.py
@@ -8,7 +8,7 @@ Usage:
 """
 
 import math
-from decimal import Context, Decimal
+from decimal import Context, Decimal, MAX_EMAX, MIN_EMIN
 
 
 class Fixed8:
@@ -35,7 +35,7 @@ class Fixed8:
             number = Decimal(str(number))
         if isinstance(number, Decimal):
             # the current context would round a long number before its extra digits are cut off
-            out = int(Context(prec=len(number.as_tuple().digits) + 9).multiply(number, Fixed8.D))
+            out = int(Context(prec=len(number.as_tuple().digits) + 9, Emin=MIN_EMIN, Emax=MAX_EMAX).multiply(number, Fixed8.D))
         else:
             out = int(number * Fixed8.D)
         return Fixed8(out)
-- 
2.43.0

