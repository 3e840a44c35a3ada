"""the size of a value changes nothing: values of every order of size, up to megabytes, against plain models"""
import hashlib
from mc.common import *
from mc.checks.c30 import point, curve

ASSUMPTIONS = ['sizes are taken around every power of two and of ten, their triples and fivefolds; contents differ at every position']


def data(n, seed=0):
    """bytes that depend on their place"""
    out = bytearray()
    i = 0
    while len(out) < n:
        out += hashlib.sha512(b'%d %d' % (seed, i)).digest()
        i += 1
    return bytes(out[:n])


DATA = {}


def cached(n):
    top = 1 << max(n, 1).bit_length()
    if top not in DATA:
        DATA[top] = data(top)
    return DATA[top][:n]


def sizes(top, low=0):
    out = set()
    for k in range(0, 26):
        for m in (1, 3, 5):
            for e in (-1, 0, 1):
                out.add(m * (1 << k) + e)
    for k in range(1, 8):
        for m in (1, 2, 5):
            for e in (-1, 0, 1):
                out.add(m * 10 ** k + e)
    return sorted(i for i in out if low <= i <= top)


# ---- hashes
def hashers():
    from neocore.Cryptography import Helper as H
    from neocore.Cryptography.Crypto import Crypto
    D = Crypto.Default
    h256, h160 = refs.hash256, refs.hash160
    raw = lambda b: bytes(b)
    text = lambda s: bytes.fromhex(s) if isinstance(s, str) else bytes.fromhex(bytes(s).decode()) if len(s) in (40, 64) else bytes(s)
    return [('double_sha256', H.double_sha256, text, h256), ('bin_dbl_sha256', H.bin_dbl_sha256, raw, h256), ('bin_hash160', H.bin_hash160, text, h160), ('bin_hash160Bytes', H.bin_hash160Bytes, raw, h160),
            ('Hash160', Crypto.Hash160, text, h160), ('Hash160Bytes', Crypto.Hash160Bytes, raw, h160), ('Hash256', Crypto.Hash256, raw, h256), ('instance Hash160', lambda b: D().Hash160(b), text, h160), ('instance Hash256', lambda b: D().Hash256(b), raw, h256),
            ('redeem_to_scripthash', H.redeem_to_scripthash, raw, h160), ('ToScriptHash', lambda b: Crypto.ToScriptHash(b, unhex=False).Data, raw, h160), ('ToScriptHash of hexadecimal', lambda b: Crypto.ToScriptHash(b.hex().encode()).Data, raw, h160)]


def gen_hashes(t):
    for n in sizes(1 << (24 if t == 'thorough' else 22)):
        yield n


def run_hashes(n, ctx):
    for name, f, view, ref in hashers():
        b = cached(n)
        want = ref(b)
        for c in (bytes, bytearray):
            ctx.eq(view(f(c(b))), want, name, 'of %d bytes' % n)


# ---- fields of a stream
def gen_fields(t):
    for n in sizes(1 << (24 if t == 'thorough' else 21)):
        yield n


def run_fields(n, ctx):
    b = cached(n)
    head = refs.varint(n)
    for name, op, want in (('WriteBytes', lambda w: w.WriteBytes(b, unhex=False), b), ('WriteVarBytes', lambda w: w.WriteVarBytes(b), head + b), ('WriteBytes of hexadecimal', lambda w: w.WriteBytes(b.hex().encode()), b)):
        count = written(ctx, op, want, name, n, count='count')
    for name, op, wire, want in (('ReadBytes', lambda r: r.ReadBytes(n), b, b), ('SafeReadBytes', lambda r: r.SafeReadBytes(n), b, b), ('ReadVarBytes', lambda r: r.ReadVarBytes(), head + b, b), ('ReadVarBytes of a limit', lambda r: r.ReadVarBytes(n), head + b, b)):
        read_back(ctx, op, wire, want, name, n)
    for alphabet in ('abcdefghijklmnopqrstuvwxyz ', 'aäß€𐍈é'):
        text = ''.join(alphabet[i % len(alphabet)] for i in b[:min(n, 1 << 18)])
        u = text.encode()
        wire = refs.varint(len(u)) + u
        written(ctx, lambda w: w.WriteVarString(text), wire, 'WriteVarString', n)
        read_back(ctx, lambda r: bytes(r.ReadVarString()) if not isinstance(r, str) else r, wire, u, 'ReadVarString', n)
        for more in (0, 1, 100) + ((n & 0x1ffff, 4096 - n % 4096) if n % 2 else ()):
            written(ctx, lambda w: w.WriteFixedString(text, len(u) + more), u + bytes(more), 'WriteFixedString', n, more)
            read_back(ctx, lambda r: r.ReadFixedString(len(u) + more), u + bytes(more), u, 'ReadFixedString', n, more, key=lambda x: bytes(x).rstrip(b'\0'))


def gen_cut(t):
    for n in sizes(1 << (22 if t == 'thorough' else 20), 1):
        yield n


def run_cut(n, ctx):
    """one byte too few"""
    b = cached(n)
    s, r = rd(b[:-1])
    ctx.refused(lambda: r.SafeReadBytes(n), 'SafeReadBytes', n)
    s, r = rd(b[:-1])
    ctx.eq(bytes(r.ReadBytes(n)), b[:-1], 'ReadBytes', n)
    s, r = rd(refs.varint(n) + b[:-1])
    ctx.eq(bytes(r.ReadVarBytes()), b[:-1], 'ReadVarBytes', n)
    s, r = rd(refs.varint(n) + b)
    if n > 1:
        ctx.refused(lambda: r.ReadVarBytes(n - 1), 'ReadVarBytes over its limit', n)


# ---- signing
def gen_signing(t):
    for n in sizes(1 << (22 if t == 'thorough' else 20)):
        yield n


def run_signing(n, ctx):
    from neocore.Cryptography.Crypto import Crypto
    b = cached(n)
    d = 3 ** 150 % refs.P256.n
    Q = refs.pub(d)
    s = bytes(Crypto.Sign(b.hex(), '%064x' % d))
    ctx.check(refs.verify_sig(b, s, Q), 'signature of %d bytes' % n)
    P = point(Q)
    ctx.eq(bool(Crypto.VerifySignature(b.hex(), s, P)), True, 'verify', n)
    ctx.eq(bool(Crypto.VerifySignature(b, s, refs.compressed(Q), unhex=False)), True, 'verify raw', n)
    places = sorted({0, n // 2, n - 65, n - 2, n - 1, 65535, 65536, 1 << 19})
    for i in places if n < 300 or n % 2 else places[-4:]:
        if 0 <= i < n:
            w = b[:i] + bytes([b[i] ^ 1]) + b[i + 1:]
            ctx.eq(bool(Crypto.VerifySignature(w, s, P, unhex=False)), False, 'message changed at', i, n)
    for w in (b + b'\0', b[:-1]) if n else (b + b'\0',):
        ctx.eq(bool(Crypto.VerifySignature(w, s, P, unhex=False)), False, 'message longer or shorter', n)


# ---- numbers
def gen_numbers(t):
    for n in sizes(1 << (17 if t == 'thorough' else 15), 1):
        yield n


def run_numbers(n, ctx):
    """n bits"""
    from neocore.BigInteger import BigInteger
    from neocore.Fixed8 import Fixed8
    from neocore.Cryptography import Helper
    from neocore.Cryptography.ECCurve import FiniteField
    x = int.from_bytes(b'\1' + cached(n // 8 + 1), 'big') % (1 << n) | 1 << n - 1
    y = int.from_bytes(data(n // 16 + 1, 1), 'big') | 1
    for a in (x, -x, (1 << n) - 1, 1 << n, -(1 << n), (1 << n - 1) - 1):
        A = BigInteger(a)
        for name, got, want in (('sum', A + y, a + y), ('difference', A - y, a - y), ('product', A * y, a * y), ('quotient', A // y, a // y), ('remainder', A % y, a % y), ('division', A / y, a // y), ('negative', -A, -a), ('absolute value', abs(A), abs(a)), ('left shift', A << 13, a << 13), ('right shift', A >> 13, a >> 13), ('right shift by all', A >> n, a >> n)):
            if int(got) != want or type(got) is not BigInteger:
                raise Violation('%s of a number of %d bits' % (name, n))
            ctx.step()
        B = A.ToByteArray()
        need = (a.bit_length() if a >= 0 else (a + 1).bit_length()) // 8 + 1
        ctx.check(int.from_bytes(B, 'little', signed=True) == a and need <= len(B) <= need + (a < 0), 'bytes of %d bits' % n)
        ctx.check(BigInteger.FromBytes(B, signed=True) == a, 'bytes and back', n)
        ctx.check(A.Sign == (a > 0) - (a < 0) and A.Equals(a) and not A.Equals(a + 1), 'sign and equality', n)
        if a > 0:
            U = A.ToByteArray(signed=False)
            ctx.check(int.from_bytes(U, 'little') == a and len(U) == (a.bit_length() + 7) // 8 and BigInteger.FromBytes(U) == a, 'unsigned bytes', n)
        f, g = Fixed8(a), Fixed8(y)
        ctx.check(((f + g).value, (f - g).value, (-f).value, (f % g).value, (f // g).value) == (a + y, a - y, -a, a % y, a // y), 'amounts of %d bits' % n)
        ctx.check((f < g, f > g, f == g, f <= g, f >= g) == (a < y, a > y, a == y, a <= y, a >= y), 'order of amounts', n)
        one = 10 ** 8
        ctx.check(f.Ceil().value == -(-a // one) * one and f.Floor().value == a // one * one, 'rounding of amounts', n)
    if n <= 4096:
        ctx.check(bytes(Helper.base256_encode(x)) == x.to_bytes((n + 7) // 8, 'little'), 'base 256', n)
        p = (1 << n) | 1
        F = FiniteField(p)
        X, Y = F.value(x), F.value(y)
        ctx.check(((X + Y).value, (X - Y).value, (X * Y).value, (-X).value, (X ** 5).value) == ((x + y) % p, (x - y) % p, x * y % p, -x % p, pow(x, 5, p)), 'field', n)


def gen_coded(t):
    for n in sizes(1 << (20 if t == 'thorough' else 18)):
        yield n


def run_coded(n, ctx):
    """numbers of n bytes; texts of fixed size of n bytes"""
    from neocore.BigInteger import BigInteger
    for b in (cached(n), cached(n)[::-1], bytes(n), b'\xff' * n):
        for signed in (False, True):
            x = BigInteger.FromBytes(b, signed)
            want = int.from_bytes(b, 'little', signed=signed)
            if x != want or type(x) is not BigInteger:
                raise Violation('the number of %d bytes' % n)
            if want > 0:
                got = x.ToByteArray(signed=signed)
                need = (want.bit_length() + signed + 7) // 8
                if want.bit_length() and got != want.to_bytes(need, 'little'):
                    raise Violation('the bytes of a number of %d bytes' % n)
            elif want < 0 and int.from_bytes(x.ToByteArray(), 'little', signed=True) != want:
                raise Violation('the bytes of a negative number of %d bytes' % n)
            ctx.step()
    if n < 1 << 17:
        for text in ('', 'a', 'abcdefg' * 300):
            if len(text) <= n:
                written(ctx, lambda w: w.WriteFixedString(text, n), text.encode() + bytes(n - len(text)), 'WriteFixedString', n)
    ctx.state(n)


def gen_bytes(t):
    for n in sizes(1 << (20 if t == 'thorough' else 17)):
        yield n


def run_bytes(n, ctx):
    from neocore.Cryptography import Helper
    a, b = cached(n), data(n, 7)
    want = (int.from_bytes(a, 'big') ^ int.from_bytes(b, 'big')).to_bytes(n, 'big')
    ctx.check(bytes(Helper.xor_bytes(a, b)) == want, 'exclusive or of %d bytes' % n)
    if n:
        ctx.refused(lambda: Helper.xor_bytes(a, b[:-1]), 'exclusive or', n)


# ---- lists
def gen_lists(t):
    for n in sizes(1 << (18 if t == 'thorough' else 16) | 1, 1):
        if n < 5000 or n & n - 1 == 0 or n + 1 & n == 0 or n - 1 & n - 2 == 0 or t == 'thorough':
            yield n


def run_lists(n, ctx):
    from neocore.UInt256 import UInt256
    from neocore.Cryptography.MerkleTree import MerkleTree
    raws = [cached(n * 32)[i * 32:i * 32 + 32] for i in range(n)]
    L = [UInt256(data=i) for i in raws]
    levels = refs.merkle_levels(raws)
    ctx.check(bytes(MerkleTree.ComputeRoot(L).Data) == levels[-1][0], 'root of %d' % n)
    tree = MerkleTree(L)
    ctx.check(tree.Depth == len(levels), 'depth', n)
    ctx.check({bytes(i.Data) for i in tree.ToHashArray()} == set(raws), 'hash array', n)
    keep = {0, n // 3, n - 1}
    if n > 1:
        tree.Trim(bytes(i in keep for i in range(n)))
        got = {bytes(i.Data) for i in tree.ToHashArray()}
        pairs = {j for i in keep for j in (i & -2, i | 1) if j < n}
        ctx.check(bytes(tree.Root.Hash.Data) == levels[-1][0] and all(raws[j] in got for j in pairs) and not any(raws[j] in got for j in range(n) if j not in pairs), 'trim of %d' % n)
    wire = refs.varint(n) + b''.join(i[::-1] for i in raws)
    texts = [i.hex() for i in raws]
    written(ctx, lambda w: w.WriteHashes(texts), wire, 'WriteHashes', n)
    read_back(ctx, lambda r: r.ReadHashes(), wire, texts, 'ReadHashes', n, key=lambda l: [i if isinstance(i, str) else bytes(i).decode() for i in l])
    wire = refs.varint(n) + b''.join(raws)
    written(ctx, lambda w: w.WriteSerializableArray(L), wire, 'WriteSerializableArray', n)
    read_back(ctx, lambda r: r.ReadSerializableArray('neocore.UInt256.UInt256'), wire, raws, 'ReadSerializableArray', n, key=lambda l: [bytes(i.Data) for i in l])


# ---- scalars and powers
def gen_scalars(t):
    for n in sizes(1 << (13 if t == 'thorough' else 11), 1):
        yield n


def run_scalars(n, ctx):
    c = curve()
    d = int.from_bytes(cached(n // 8 + 1), 'big') % (1 << n) | 1 << n - 1
    G = point(refs.P256.G)
    for k in (d, -d, 1 << n):
        want = refs.P256.mul(k % refs.P256.n, refs.P256.G)
        got = G * k
        ctx.check((got.x.value % refs.P256.p, got.y.value % refs.P256.p) == (want if want else (0, 0)), 'multiple by %d bits' % n)
    f = c.field.value(d)
    ctx.check((f ** d).value == pow(d, d, refs.P256.p), 'power of %d bits' % n)


FAMILIES = [
    Family('hashes', gen_hashes, run_hashes, '12 functions, two kinds of bytes, sizes up to 4 MiB (thorough: 16)'),
    Family('fields', gen_fields, run_fields, 'bytes, byte strings, texts, fixed-size texts, written and read, sizes up to 2 MiB (thorough: 16)'),
    Family('cut', gen_cut, run_cut, 'one byte too few, or over the limit, sizes up to 1 MiB (thorough: 4)'),
    Family('signing', gen_signing, run_signing, 'messages up to 1 MiB (thorough: 4), signed, verified and changed in up to eight places'),
    Family('numbers', gen_numbers, run_numbers, 'big integers, amounts, fields with numbers up to 32768 bits (thorough: 131072)'),
    Family('coded', gen_coded, run_coded, 'numbers of up to 256 KiB (thorough: 1 MiB) in bytes and back, texts of fixed sizes'),
    Family('byte-strings', gen_bytes, run_bytes, 'exclusive or of up to 128 KiB (thorough: 1 MiB)'),
    Family('lists', gen_lists, run_lists, 'trees and lists of up to 65537 (thorough: 262145) elements'),
    Family('scalars', gen_scalars, run_scalars, 'multiples and powers by numbers of up to 2048 (thorough: 8192) bits'),
]
