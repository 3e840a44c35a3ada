from mc.common import *
from mc.checks import c45

ASSUMPTIONS = ['RIPEMD-160 of pycryptodome and SHA-256 of hashlib are right']


def gen_msgs(tier):
    yield b''
    for a in range(256):
        yield bytes([a])
    hx = b'09afAFxg'
    for a in hx:
        for b in hx:
            yield bytes([a, b])
            yield bytes([a, b, a, b])
    for n in list(range(2, 1101 if tier == 'quick' else 4200)) + [2047, 2048, 2049, 4095, 4096, 4097, 8192, 10000, 65535, 65536, 65537, 1 << 20, (1 << 20) + 1]:
        for pat in range(5):
            yield {'n': n, 'pat': pat}


def msg(m):
    if isinstance(m, bytes):
        return m
    n = m['n']
    return [bytes(n), b'\xff' * n, (b'0123456789abcdefABCDEF' * (n // 22 + 1))[:n], bytes(i * 7 % 256 for i in range(n)), b'A' * n][m['pat']]


def run_msgs(m, ctx):
    from neocore.Cryptography.Crypto import Crypto
    from neocore.Cryptography import Helper
    b = msg(m)
    h160, h256 = refs.hash160(b), refs.hash256(b)
    for arg in (b, bytearray(b)):
        ctx.eq(Crypto.Hash160(arg), h160.hex(), 'Hash160', m)
        ctx.eq(Crypto.Hash160Bytes(arg), h160, 'Hash160Bytes', m)
        ctx.eq(Crypto.Hash256(arg), h256, 'Hash256', m)
        ctx.eq(Crypto.Default().Hash160(arg), h160, 'instance Hash160', m)
        ctx.eq(Crypto.Default().Hash256(arg), h256, 'instance Hash256', m)
        ctx.eq(Helper.double_sha256(arg), h256.hex(), 'double_sha256', m)
        ctx.eq(Helper.bin_dbl_sha256(arg), h256, 'bin_dbl_sha256', m)
        ctx.eq(Helper.bin_hash160Bytes(arg), h160, 'bin_hash160Bytes', m)
        ctx.eq(Helper.bin_hash160(arg), h160.hex(), 'bin_hash160', m)
        ctx.eq(Helper.redeem_to_scripthash(arg), h160, 'redeem_to_scripthash', m)
        ctx.eq(bytes(Crypto.ToScriptHash(arg, unhex=False).Data), h160, 'script hash raw', m)
        if bytes(arg) != b:
            raise Violation('input changed')
    for arg in (b.hex().encode(), b.hex(), b.hex().upper(), bytearray(b.hex().encode())):
        if len(arg):
            ctx.eq(bytes(Crypto.ToScriptHash(arg).Data), h160, 'script hash hex', m)
            ctx.eq(bytes(Crypto.ToScriptHash(arg, unhex=True).Data), h160, 'script hash hex', m)
    if len(b) == 1:
        # one byte cannot be the hexadecimal text of anything: it is taken as it is
        ctx.eq(bytes(Crypto.ToScriptHash(b).Data), h160, 'script hash of one byte', m)
    u = Crypto.ToScriptHash(b, unhex=False)
    ctx.eq(type(u).__name__, 'UInt160', 'type')
    ctx.eq(u.ToString(), h160[::-1].hex(), 'text', m)


def gen_twins(tier):
    for n in (1, 2, 20, 31, 32, 33, 55, 56, 63, 64, 65, 100, 119, 120, 127, 128, 129, 130, 192, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 4096, 4097, 10000, 65537):
        yield n


def run_twins(n, ctx):
    """messages that differ in one byte, in their length or in the order of their halves, one after the other"""
    from neocore.Cryptography.Crypto import Crypto
    from neocore.Cryptography import Helper
    base = bytes((i * 31 + 7) % 256 for i in range(n))
    at = range(n) if n <= 300 else dedup([0, 1, 63, 64, n // 2, n - 65, n - 64, n - 2, n - 1] + list(range(0, n, max(1, n // 40))))
    twins = [base] + [base[:i] + bytes([base[i] ^ 1]) + base[i + 1:] for i in at] + [base + b'\0', base[:-1], b'\0' + base, base[::-1], base[n // 2:] + base[:n // 2], base]
    for m in twins:
        h160, h256 = refs.hash160(m), refs.hash256(m)
        got = (Crypto.Hash160(m), bytes(Crypto.Hash160Bytes(m)), bytes(Crypto.Hash256(m)), bytes(Crypto.Default().Hash160(m)), bytes(Crypto.Default().Hash256(m)), Helper.double_sha256(m),
               bytes(Helper.bin_dbl_sha256(m)), bytes(Helper.bin_hash160Bytes(m)), Helper.bin_hash160(m), bytes(Helper.redeem_to_scripthash(m)), bytes(Crypto.ToScriptHash(m, unhex=False).Data), bytes(Crypto.ToScriptHash(m.hex()).Data) if m else h160)
        ctx.eq(got, (h160.hex(), h160, h256, h160, h256, h256.hex(), h256, h160, h160.hex(), h160, h160, h160), 'twins', n, h160)


def gen_badhex(tier):
    for t in (b'0', b'g0', b'0g'):
        pass
    for t in (b'abc', b'0g', b'zz', b'12 4', b'\x00\x01', b'ab\n', 'xyz', b'\xff\xfe'):
        yield t


def run_badhex(t, ctx):
    from neocore.Cryptography.Crypto import Crypto
    ctx.refused(lambda: Crypto.ToScriptHash(t, unhex=True), 'not hexadecimal', t)
    ctx.refused(lambda: Crypto.ToScriptHash(t), 'not hexadecimal', t)


def gen_redeem(tier):
    for x in byte_walk(33, (0, 0x5a), (0, 1, 0x0a, 0x61, 0x7f, 0x80, 0xff)):
        yield x
        yield b'\x02' + x[1:]
        yield b'\x03' + x[1:]
    for k in range(33):
        for p in (2, 3):
            yield bytes([p]) + b'\xa5' * (32 - k) + bytes(k)
            yield bytes([p]) + bytes(k) + b'\xa5' * (32 - k)
    for d in refs.EDGE_KEYS:
        yield refs.compressed(refs.pub(d))
    for d in range(1, 20):
        yield refs.compressed(refs.pub(d))


def run_redeem(k, ctx):
    from neocore.Cryptography import Helper
    want = b'\x21' + k + b'\xac'
    ctx.eq(Helper.pubkey_to_redeem(k.hex().encode()), want, 'redeem', k)
    ctx.eq(Helper.pubkey_to_pubhash(k.hex().encode()), refs.hash160(want), 'pubhash', k)
    ctx.eq(Helper.redeem_to_scripthash(want), refs.hash160(want), 'redeem hash', k)


def gen_b256(tier):
    yield from chunks(range(0, 70001), 256)
    out = set()
    for k in range(16, 265):
        for d in (-1, 0, 1):
            out.add((1 << k) + d)
    for n in range(3, 33):
        out.add(int.from_bytes(bytes(range(1, n + 1)), 'big'))
        out.add(int.from_bytes(bytes(range(1, n + 1)), 'little'))
    yield from chunks(sorted(out), 64)


def run_b256(ns, ctx):
    from neocore.Cryptography.Helper import base256_encode
    for n in ns:
        need = max(1, (n.bit_length() + 7) // 8)
        r = base256_encode(n)
        ctx.eq(bytes(r), n.to_bytes(need, 'little'), 'base256', n)
        for w in (range(0, 41) if n < 600 or n > 65000 and n % 256 < 3 or n > 70000 else (0, 1, 2, 3, 4)):
            ctx.eq(bytes(base256_encode(n, w)), n.to_bytes(max(need, w), 'little'), 'base256', n, w)
            if w == 7:
                ctx.eq(bytes(base256_encode(n, minwidth=w)), n.to_bytes(max(need, w), 'little'), 'base256', n, w)


def gen_neg(tier):
    for k in range(0, 270, 3):
        yield -(1 << k)
    yield from (-2, -255, -256, -257)


def run_neg(n, ctx):
    from neocore.Cryptography.Helper import base256_encode
    for w in (0, 1, 8, 40):
        ctx.refused(lambda: base256_encode(n, w), 'negative', n, w, only=ValueError)


def gen_xor(tier):
    for a in range(256):
        yield 'byte', a
    for n in range(0, 71):
        yield 'len', n
    for k in range(8):
        yield 'bad', k


def run_xor(case, ctx):
    from neocore.Cryptography.Helper import xor_bytes
    kind, a = case
    if kind == 'byte':
        for b in range(256):
            ctx.eq(xor_bytes(bytes([a]), bytes([b])), bytes([a ^ b]), 'xor', a, b)
            ctx.eq(xor_bytes(bytes([7, a, b]), bytes([b, a, 9])), bytes([7 ^ b, 0, b ^ 9]), 'xor', a, b)
    elif kind == 'len':
        x, y = bytes(i * 5 % 256 for i in range(a)), bytes(i * 11 % 256 for i in range(a))
        ctx.eq(xor_bytes(x, y), bytes(p ^ q for p, q in zip(x, y)), 'xor', a)
        ctx.eq(type(xor_bytes(x, y)) is bytes, True, 'type')
        for b in range(0, 71):
            if a != b:
                ctx.refused(lambda: xor_bytes(bytes(a), bytes(b)), 'lengths', a, b)
    else:
        x, y = [('ab', b'ab'), (b'ab', 'ab'), (None, b''), (b'', None), (3, 3), ([1], [1]), ('', ''), (b'a', 1)][a]
        ctx.refused(lambda: xor_bytes(x, y), 'kinds', a)


FAMILIES = [
    Family('messages', gen_msgs, run_msgs, 'all of length 0 and 1, hexadecimal-looking pairs, lengths 2..1100 and larger x 5 contents x every hash entry point x bytes, bytearray, hexadecimal forms'),
    Family('twins', gen_twins, run_twins, 'messages of 33 lengths that differ from each other in one byte (every position up to 300), length or order, hashed one after the other'),
    Family('not-hexadecimal', gen_badhex, run_badhex, '8 malformed hexadecimal scripts'),
    Family('verification-scripts', gen_redeem, run_redeem, '33-byte keys: every position x 7 values x 2 backgrounds x own, 02 and 03 prefix, runs of zero bytes at either end, 101 real keys'),
    Family('base256', gen_b256, run_b256, 'all numbers to 70000, powers of two +-1 to 2^264, ascending bytes; widths 0..40'),
    Family('base256-negative', gen_neg, run_neg, '94 negative numbers x 4 widths'),
    Family('xor', gen_xor, run_xor, 'all byte pairs, all pairs of lengths 0..70, 8 wrong kinds'),
    Family('sizes', c45.gen_hashes, c45.run_hashes, '12 functions, sizes around every power of two and ten up to 4 MiB (thorough: 16)'),
]
