"""Independent reference functions. None of them uses code from /repo (nor the packages /repo uses for the same job,
except the AES block cipher and hashlib's primitives)."""
import hashlib, struct, unicodedata
from functools import lru_cache
from Crypto.Hash import RIPEMD160
from Crypto.Cipher import AES

# ---------------------------------------------------------------- hashes
def sha256(b): return hashlib.sha256(bytes(b)).digest()
def hash256(b): return sha256(sha256(b))
def hash160(b): return RIPEMD160.new(sha256(b)).digest()

# ---------------------------------------------------------------- base58
B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
B58I = {c: i for i, c in enumerate(B58)}

def b58enc(b):
    b = bytes(b)
    n = int.from_bytes(b, 'big')
    out = ''
    while n:
        n, r = divmod(n, 58)
        out = B58[r] + out
    return '1' * (len(b) - len(b.lstrip(b'\0'))) + out

def b58dec(s):
    """bytes or None"""
    n = 0
    for c in s:
        i = B58I.get(c)
        if i is None:
            return None
        n = n * 58 + i
    pad = len(s) - len(s.lstrip('1'))
    return b'\0' * pad + n.to_bytes((n.bit_length() + 7) // 8, 'big')

def b58check(b): return b58enc(bytes(b) + hash256(b)[:4])

def unb58check(s):
    d = b58dec(s)
    if d is None or len(d) < 4 or hash256(d[:-4])[:4] != d[-4:]:
        return None
    return d[:-4]

def address(h): return b58check(b'\x17' + bytes(h))

def address_hash(s):
    """20 bytes, or None when s is not a valid address"""
    d = unb58check(s)
    return d[1:] if d is not None and len(d) == 21 and d[0] == 0x17 else None

def wif(key): return b58check(b'\x80' + bytes(key) + b'\x01')

def unwif(s):
    if len(s) != 52:
        return None
    d = unb58check(s)
    return d[1:33] if d is not None and len(d) == 34 and d[0] == 0x80 and d[33] == 1 else None

# ---------------------------------------------------------------- wire format
def varint(n):
    if n < 0xfd: return bytes([n])
    if n <= 0xffff: return b'\xfd' + n.to_bytes(2, 'little')
    if n <= 0xffffffff: return b'\xfe' + n.to_bytes(4, 'little')
    assert n < 1 << 64
    return b'\xff' + n.to_bytes(8, 'little')

# ---------------------------------------------------------------- P-256 and friends (Jacobian coordinates)
class Curve:
    def __init__(self, p, a, b, gx, gy, n):
        self.p, self.a, self.b, self.G, self.n = p, a, b, (gx, gy), n
        self._tab = None

    def on(self, P):
        return P is None or (P[1] * P[1] - P[0] ** 3 - self.a * P[0] - self.b) % self.p == 0

    def _dbl(self, X, Y, Z):
        p = self.p
        if not Y or not Z:
            return 1, 1, 0
        S = 4 * X * Y * Y % p
        M = (3 * X * X + self.a * pow(Z, 4, p)) % p
        X3 = (M * M - 2 * S) % p
        return X3, (M * (S - X3) - 8 * pow(Y, 4, p)) % p, 2 * Y * Z % p

    def _addj(self, A, B):
        p = self.p
        if not A[2]: return B
        if not B[2]: return A
        z1, z2 = A[2] * A[2] % p, B[2] * B[2] % p
        u1, u2 = A[0] * z2 % p, B[0] * z1 % p
        s1, s2 = A[1] * z2 * B[2] % p, B[1] * z1 * A[2] % p
        if u1 == u2:
            return self._dbl(*A) if s1 == s2 else (1, 1, 0)
        h, r = (u2 - u1) % p, (s2 - s1) % p
        h2 = h * h % p; h3 = h2 * h % p; v = u1 * h2 % p
        x = (r * r - h3 - 2 * v) % p
        return x, (r * (v - x) - s1 * h3) % p, h * A[2] * B[2] % p

    def _aff(self, A):
        if not A[2]: return None
        zi = pow(A[2], -1, self.p); z2 = zi * zi % self.p
        return A[0] * z2 % self.p, A[1] * z2 * zi % self.p

    @staticmethod
    def _jac(P): return (1, 1, 0) if P is None else (P[0], P[1], 1)

    def add(self, P, Q): return self._aff(self._addj(self._jac(P), self._jac(Q)))
    def neg(self, P): return None if P is None else (P[0], -P[1] % self.p)

    def _mulj(self, k, P):
        if P == self.G:
            if self._tab is None:
                t, self._tab = self._jac(P), []
                for _ in range(self.n.bit_length() + 1):
                    self._tab.append(self._jac(self._aff(t)))
                    t = self._dbl(*t)
            k %= self.n
            acc = (1, 1, 0)
            i = 0
            while k:
                if k & 1:
                    acc = self._addj(acc, self._tab[i])
                k >>= 1; i += 1
            return acc
        acc, B = (1, 1, 0), self._jac(P)
        for bit in bin(k)[2:] if k else '':
            acc = self._dbl(*acc)
            if bit == '1':
                acc = self._addj(acc, B)
        return acc

    def mul(self, k, P):
        return self._aff(self._mulj(k, P))

    def lift(self, x, parity):
        """y with that parity, for p % 4 == 3"""
        if x >= self.p: return None
        y2 = (pow(x, 3, self.p) + self.a * x + self.b) % self.p
        y = pow(y2, (self.p + 1) // 4, self.p)
        if y * y % self.p != y2: return None
        return x, (y if y % 2 == parity else self.p - y)

    def verify(self, e, Q, r, s):
        if Q is None or not (0 < r < self.n and 0 < s < self.n): return False
        w = pow(s, -1, self.n)
        R = self._aff(self._addj(self._mulj(e * w % self.n, self.G), self._mulj(r * w % self.n, Q)))
        return R is not None and R[0] % self.n == r


P256 = Curve(0xFFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF, -3 % 0xFFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF,
             0x5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B,
             0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296,
             0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5,
             0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551)
K256 = Curve(2 ** 256 - 2 ** 32 - 977, 0, 7,
             0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
             0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8,
             0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141)


def compressed(Q): return bytes([2 + (Q[1] & 1)]) + Q[0].to_bytes(32, 'big')
def uncompressed(Q): return b'\x04' + Q[0].to_bytes(32, 'big') + Q[1].to_bytes(32, 'big')

# small private keys with a 0 or 0xff byte at an edge of a coordinate, script hash, checksum, address hash or derived value
EDGE_KEYS = [2, 9, 27, 35, 43, 50, 51, 70, 72, 74, 94, 96, 104, 119, 126, 132, 143, 144, 147, 150, 151, 162, 166, 169, 171, 172, 184, 195, 217, 225, 232, 234, 258, 273, 275, 284, 287, 288, 290,
             293, 310, 316, 333, 354, 359, 376, 379, 390, 392, 400, 436, 444, 465, 467, 471, 472, 500, 508, 521, 532, 552, 560, 565, 567, 584, 623, 628, 657, 658, 692, 709, 714, 744, 748, 769,
             834, 859, 860, 1075, 1416, 1458, 1603]


@lru_cache(maxsize=None)
def pub(d): return P256.mul(d, P256.G)

def key_script(Q): return b'\x21' + compressed(Q) + b'\xac'
def key_address(Q): return address(hash160(key_script(Q)))

def verify_sig(msg, sig, Q):
    """ECDSA / P-256 / SHA-256 over the message bytes; sig = r || s"""
    if len(sig) != 64 or Q is None: return False
    return P256.verify(int.from_bytes(sha256(msg), 'big'), Q, int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big'))

# ---------------------------------------------------------------- NEP-2
def kdf_real(pw, salt): return hashlib.scrypt(pw, salt=bytes(salt), n=16384, r=8, p=8, dklen=64, maxmem=1 << 26)

def nep2(d, phrase, kdf=None):
    kdf = kdf or kdf_real
    salt = hash256(key_address(pub(d)).encode())[:4]
    k = kdf(unicodedata.normalize('NFC', phrase).encode('utf-8'), salt)
    x = bytes(a ^ b for a, b in zip(d.to_bytes(32, 'big'), k[:32]))
    return b58check(b'\x01\x42\xe0' + salt + AES.new(k[32:], AES.MODE_ECB).encrypt(x))

def unnep2(text, phrase, kdf=None):
    """key bytes or None"""
    kdf = kdf or kdf_real
    if len(text) != 58: return None
    d = unb58check(text)
    if d is None or len(d) != 39 or d[:3] != b'\x01\x42\xe0': return None
    k = kdf(unicodedata.normalize('NFC', phrase).encode('utf-8'), d[3:7])
    key = bytes(a ^ b for a, b in zip(AES.new(k[32:], AES.MODE_ECB).decrypt(d[7:]), k[:32]))
    n = int.from_bytes(key, 'big')
    if not 0 < n < P256.n or hash256(key_address(pub(n)).encode())[:4] != d[3:7]: return None
    return key

# ---------------------------------------------------------------- Merkle
def merkle_levels(leaves):
    levels = [list(leaves)]
    while len(levels[-1]) > 1:
        l = levels[-1]
        levels.append([hash256(l[i] + (l[i + 1] if i + 1 < len(l) else l[i])) for i in range(0, len(l), 2)])
    return levels

# ---------------------------------------------------------------- misc
HEXCHARS = set(b'0123456789abcdefABCDEF')
def hexlike(b): return len(b) > 0 and len(b) % 2 == 0 and all(c in HEXCHARS for c in b)


def utf8(b):
    try:
        b.decode('utf-8')
        return True
    except UnicodeDecodeError:
        return False
