from mc import kdf
kdf.install()
import sys
import unicodedata
from mc.common import *

ASSUMPTIONS = ['AES and hashlib primitives are trusted; apart from the families "standard" the scrypt derivation is a stand-in '
               'that depends on every parameter, the password and the salt (checked against the real one in "standard")']
N = refs.P256.n
KEYS = [1, 2, 7, N - 1, N - 2, int.from_bytes(bytes(range(1, 33)), 'big'), 1 << 255, 0x80 << 120, 379, (N - 1) // 2,
        int('cbf4b9f70470856bb4f40f80b87edb90865997ffee6df315ab166d713af433a5', 16)]
ACC = unicodedata.normalize('NFC', 'Zoë Ångström ñ')
PHRASES = ['TestingOneTwoThree', 'Satoshi', 'satoshi', 'SATOSHI', 'Satoshi ', ' Satoshi', 'Satoshi\n', 'Satoshi\0', '\0Satoshi', 'Sat oshi', 'Satosh', 'ab', 'aB',
           '  ', '\0\0', ACC, unicodedata.normalize('NFD', ACC), '\u212b\u2126', '\u00c5\u03a9', 'A\u030a\u03a9', '\ufb01n', 'fin', '\uff21\uff22', 'AB', '\u1e69x', 's\u0323\u0307x', 's\u0307\u0323x',
           '\u03d2\u0301\x00\U00010400\U0001f4a9', '\U0001f4a9\U0001f4a9', 'a' * 63, 'a' * 64, 'a' * 65, 'a' * 128, 'a' * 129, 'ab' * 500, '\uac00\uac01', '\u1100\u1161\uac01', 'stra\u00dfe', 'strasse',
           '\u0130i', 'i\u0307i', '616263', 'abc', '0x12', '\u200bab', 'ab\u200b', '\u0958x', 'caf\u00e9', 'cafe\u0301', 'cafe\u0300', 'cafe']


def same(a, b):
    return unicodedata.normalize('NFC', a) == unicodedata.normalize('NFC', b)


def judge(ctx, text, phrase, *what, ref=kdf.ref):
    """importing `text` gives the reference's key or is refused"""
    from neocore.KeyPair import KeyPair
    want = refs.unnep2(text, phrase, ref)
    try:
        got = bytes(KeyPair.PrivateKeyFromNEP2(text, phrase))
    except Exception:
        got = None
    ctx.step()
    ctx.state(want is None, *what)
    if got != want:
        raise Violation('decrypting %r with %r: %r, expected %r (%r)' % (text, phrase, got, want, what))
    return want


# ------------------------------------------------ the real derivation
REAL = [(5, 0), (6, 1), (10, 15), (3, 16), (0, 20), (1, 24), (2, 27), (4, 28), (7, 12), (8, 33), (9, 31), (6, 8), (5, 21), (0, 36), (1, 44), (10, 47)]


def gen_real(tier):
    if tier == 'thorough':
        for i in range(len(PHRASES)):
            yield i % len(KEYS), i
        for k in range(len(KEYS)):
            yield k, 0
    yield from REAL


def run_real(case, ctx):
    from neocore.KeyPair import KeyPair
    d, p = KEYS[case[0]], PHRASES[case[1]]
    want = refs.nep2(d, p)
    kp = KeyPair(d.to_bytes(32, 'big'))
    ctx.eq(kp.ExportNEP2(p), want, 'encrypt', *case)
    q = next((x for x in (unicodedata.normalize('NFD', p), unicodedata.normalize('NFC', p)) if x != p), p)
    ctx.eq(bytes(KeyPair.PrivateKeyFromNEP2(want, q)), d.to_bytes(32, 'big'), 'decrypt', *case)
    ctx.eq(kp.Export(), refs.wif(d.to_bytes(32, 'big')), 'WIF after')


def fast_or_nothing(run):
    """runs a family case with the stand-in; a code base that derives keys by other means is only explored with the real one"""
    def go(case, ctx):
        if not kdf.works():
            ctx.outcome('stand-in not reached: skipped')
            return
        with kdf.fast():
            run(case, ctx)
    return go


def gen_matrix(tier):
    ks = list(range(len(KEYS)))
    for k in ks:
        for i in range(len(PHRASES)):
            if tier == 'thorough' or k < 3 or i % 3 == k % 3:
                yield k, i


def run_matrix(case, ctx):
    from neocore.KeyPair import KeyPair
    d, p = KEYS[case[0]], PHRASES[case[1]]
    b = d.to_bytes(32, 'big')
    kp = KeyPair(b)
    want = refs.nep2(d, p, kdf.ref)
    ctx.eq(kp.ExportNEP2(p), want, 'encrypt', *case)
    ctx.eq(bytes(kp.PrivateKey), b, 'key unchanged')
    for q in (p, unicodedata.normalize('NFC', p), unicodedata.normalize('NFD', p)):
        ctx.eq(bytes(KeyPair.PrivateKeyFromNEP2(want, q)), b, 'decrypt', *case)
    ctx.eq(kp.ExportNEP2(p), want, 'encrypt again', *case)


def gen_keys(tier):
    for i in range(0, 256, 1 if tier == 'thorough' else 3):
        yield 1 << i
    for i in list(range(1, 40)):
        yield N - i
    yield from refs.EDGE_KEYS
    for x in byte_walk(32, (0x5a,), (0, 0xff)):
        yield int.from_bytes(x, 'big')


def run_keys(d, ctx):
    from neocore.KeyPair import KeyPair
    if not 0 < d < N:
        return
    b = d.to_bytes(32, 'big')
    want = refs.nep2(d, 'p\u00e9', kdf.ref)
    ctx.eq(KeyPair(b).ExportNEP2('p\u00e9'), want, 'encrypt', d)
    ctx.eq(bytes(KeyPair.PrivateKeyFromNEP2(want, 'pe\u0301')), b, 'decrypt', d)


def gen_points(tier):
    """every code point that some normal form, case mapping or stripping touches"""
    out = []
    for c in range(0x110000):
        if 0xd800 <= c < 0xe000:
            continue
        s = chr(c)
        if any(unicodedata.normalize(f, s) != s for f in ('NFC', 'NFD', 'NFKC', 'NFKD')) or unicodedata.combining(s) or not s.isprintable() and c < 0x3100 or c < 0x250:
            if 0xac00 <= c < 0xd7a4 and c % 16 and tier != 'thorough':
                continue
            out.append(c)
    yield from chunks(out, 64)


def run_points(cs, ctx):
    from neocore.KeyPair import KeyPair
    kp = KeyPair(bytes(31) + b'\x05')
    for c in cs:
        for p in ('a' + chr(c), chr(c) + 'a', 'x' + chr(c) + 'y'):
            ctx.eq(kp.ExportNEP2(p), refs.nep2(5, p, kdf.ref), 'encrypt', p)


def gen_lengths(tier):
    for n in range(2, 300 if tier == 'thorough' else 140):
        yield n
    for n in (255, 256, 257, 1000, 4096, 70000):
        yield n


def run_lengths(n, ctx):
    from neocore.KeyPair import KeyPair
    kp = KeyPair(bytes(31) + b'\x05')
    for c in ('a', '\u00e9', '\u20ac', '\U0001f600', '\0', ' '):
        p = c * (n - 1) + 'z'
        ctx.eq(kp.ExportNEP2(p), refs.nep2(5, p, kdf.ref), 'encrypt', c, n)


def gen_wrong(tier):
    for i in range(len(PHRASES)):
        yield i


def run_wrong(i, ctx):
    t = refs.nep2(7, PHRASES[i], kdf.ref)
    for j, q in enumerate(PHRASES + ['', 'a']):
        w = judge(ctx, t, q, i, j)
        ctx.check((w is not None) == same(PHRASES[i], q), 'reference')
        ctx.outcome('key' if w else 'refused')


CH = refs.B58 + '0OIl \n\x00+\u00e9'


def gen_subst(tier):
    for k in (0, 1, 2) if tier == 'thorough' else (0,):
        for i in range(58):
            yield k, i


def run_subst(case, ctx):
    k, i = case
    d, p = KEYS[k + 2], PHRASES[k]
    a = refs.nep2(d, p, kdf.ref)
    for c in CH:
        judge(ctx, a[:i] + c + a[i + 1:], p, 'substituted', case, c)
    for j in range(i + 1, 58):
        judge(ctx, a[:i] + a[j] + a[i + 1:j] + a[i] + a[j + 1:], p, 'swapped', case, j)
    judge(ctx, a[:i] + a[i + 1:], p, 'deleted', case)
    judge(ctx, a[:i], p, 'cut', case)
    judge(ctx, a[:i] + '1' + a[i:], p, 'inserted', case)
    judge(ctx, a + a[:i + 1], p, 'longer', case)


def raw(d, p):
    return refs.unb58check(refs.nep2(d, p, kdf.ref))


def gen_parts(tier):
    for i in range(39):
        yield i


def run_parts(i, ctx):
    """every value of one payload byte, with a right checksum"""
    p = PHRASES[0]
    a = bytearray(raw(7, p))
    for v in range(256):
        b = bytearray(a)
        b[i] = v
        judge(ctx, refs.b58check(b), p, 'payload', i, v)
    for j in range(39):
        b = bytearray(a)
        b[i] ^= 1
        b[j] ^= 0x80
        judge(ctx, refs.b58check(b), p, 'payload', i, j)
        b = bytearray(a)
        b[i], b[j] = b[j], b[i]
        judge(ctx, refs.b58check(b), p, 'payload swapped', i, j)


def gen_flags(tier):
    for v in range(256):
        yield v


def run_flags(v, ctx):
    p = PHRASES[0]
    a = raw(7, p)
    for b in (b'\x01\x42' + bytes([v]) + a[3:], b'\x01\x43' + bytes([v]) + a[3:], b'\x01' + bytes([v]) + b'\xc0' + a[3:], bytes([v]) + b'\x42\xe0' + a[3:],
              a + bytes([v]), a[:-1], a[:7] + bytes([v]) + a[7:], a[:v % 40], a[1:], a + bytes(v % 9), a[:3] + a[7:], a[:3] + bytes([v]) * 4 + a[7:],
              a[:7] + bytes([v]) * 32):
        judge(ctx, refs.b58check(b), p, 'flags', v, len(b))
    for k in range(4):
        c = bytearray(refs.hash256(a)[:4])
        c[k] ^= v
        judge(ctx, refs.b58enc(a + c), p, 'checksum', k, v)
    for c in (refs.sha256(a)[:4], refs.hash256(a)[4:8], bytes(4), refs.hash256(a[:-1])[:4], refs.hash256(a)[3::-1]):
        judge(ctx, refs.b58enc(a + c), p, 'other checksum')
    for c in '16Pz':
        judge(ctx, c * (v // 2), p, 'constant')


def flipped(b):
    return tuple((int.from_bytes(b, 'big') ^ (1 << k)).to_bytes(len(b), 'big') for k in range(8 * len(b))) + tuple(x + b[len(x):] for x in (b'\0', b'\0\0', b'\0\0\0')) + tuple(b[:k] + bytes(4 - k) for k in (1, 2, 3))


def gen_salts(tier):
    """texts whose payload is consistent except for how the address hash was made"""
    for d in (1, 2, 7, N - 1):
        yield d


def run_salts(d, ctx):
    from Crypto.Cipher import AES
    p = PHRASES[0]
    key = d.to_bytes(32, 'big')
    addr = refs.key_address(refs.pub(d))
    for salt in (refs.hash256(addr.encode())[:4], refs.sha256(addr.encode())[:4], refs.hash256(addr.encode())[4:8], bytes(4), b'\xff' * 4,
                 refs.hash256(refs.address_hash(addr))[:4], refs.hash256(addr.encode())[3::-1], refs.key_address(refs.pub(d + 1 if d + 1 < N else 1)).encode()[:4],
                 refs.hash256(refs.address(refs.hash160(refs.compressed(refs.pub(d)))).encode())[:4]) + flipped(refs.hash256(addr.encode())[:4]):
        k = kdf.ref(p.encode(), salt)
        for kk in (key,) if salt in flipped(refs.hash256(addr.encode())[:4]) else (key, bytes(32), b'\xff' * 32, N.to_bytes(32, 'big'), (N + d).to_bytes(33, 'big')[-32:]):
            e = AES.new(k[32:], AES.MODE_ECB).encrypt(bytes(x ^ y for x, y in zip(kk, k[:32])))
            judge(ctx, refs.b58check(b'\x01\x42\xe0' + salt + e), p, 'salt', d, salt, kk)
        for e in (AES.new(k[:32], AES.MODE_ECB).encrypt(bytes(x ^ y for x, y in zip(key, k[32:]))),
                  bytes(x ^ y for x, y in zip(AES.new(k[32:], AES.MODE_ECB).encrypt(key), k[:32])),
                  AES.new(k[32:], AES.MODE_CBC, iv=bytes(16)).encrypt(bytes(x ^ y for x, y in zip(key, k[:32])))):
            judge(ctx, refs.b58check(b'\x01\x42\xe0' + salt + e), p, 'cipher', d, salt)


def gen_short(tier):
    yield ''
    for c in list(range(0, 128)) + [0xe9, 0x20ac, 0x1f4a9]:
        yield chr(c)


def run_short(p, ctx):
    from neocore.KeyPair import KeyPair
    for d in (1, 7):
        kp = KeyPair(d.to_bytes(32, 'big'))
        ctx.refused(lambda: kp.ExportNEP2(p), 'short', p)


def gen_kinds(tier):
    for k in range(7):
        yield k


def run_kinds(k, ctx):
    from neocore.KeyPair import KeyPair
    v = [None, '', 5, [], 'x' * 57, '6P' + '1' * 57, {}][k]
    ctx.refused(lambda: KeyPair.PrivateKeyFromNEP2(v, 'abc'), 'kind', k)


FAMILIES = [
    Family('standard', gen_real, run_real, '16 key/passphrase combinations (thorough: every phrase and key) with the real scrypt, against hashlib.scrypt and an independent NEP-2'),
    Family('matrix', gen_matrix, fast_or_nothing(run_matrix), '11 keys x %d passphrases; encrypt, decrypt with NFC and NFD spellings' % len(PHRASES)),
    Family('keys', gen_keys, fast_or_nothing(run_keys), 'powers of two, the top of the range, byte walks, 82 keys whose address hash, encrypted halves, derived key, coordinates or script hash have a 0 or 0xff byte at an edge'),
    Family('code-points', gen_points, fast_or_nothing(run_points), 'every code point that a normal form changes, every combining mark, all below U+0250, in three places of a phrase'),
    Family('phrase-lengths', gen_lengths, fast_or_nothing(run_lengths), 'phrase lengths 2..139 (299) and large ones x 6 characters'),
    Family('wrong-phrases', gen_wrong, fast_or_nothing(run_wrong), 'all pairs of %d passphrases' % len(PHRASES)),
    Family('damaged-texts', gen_subst, fast_or_nothing(run_subst), 'every substitution, swap, deletion, cut at each of 58 positions'),
    Family('payload-bytes', gen_parts, fast_or_nothing(run_parts), 'all 39 payload bytes x 256 values, pairs of changes, with right checksums'),
    Family('formats', gen_flags, fast_or_nothing(run_flags), 'all flag and header values, 13 payload shapes, checksum damage'),
    Family('address-hash', gen_salts, fast_or_nothing(run_salts), '47 other address hashes (every bit changed) with the key encrypted under them, 5 keys in the cipher text, 3 other cipher uses'),
    Family('short-phrases', gen_short, run_short, 'the empty phrase and 131 single characters'),
    Family('kinds', gen_kinds, run_kinds, '7 other kinds of text'),
]
