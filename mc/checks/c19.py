from mc.common import *

ASSUMPTIONS = ['public key bytes given together with a private key in the 96 and 104 byte forms belong to it']
N = refs.P256.n
# multiples of the base point whose x / y begin with one or two zero bytes, or end with two
LEADX = [379, 552, 751, 783, 40393, 116173, 209780, 302630]
LEADY = [43, 444, 742, 997, 2376, 61552, 77299, 120189]
LEADXY = [49350, 112756, 120908, 65526, 134047, 53267, 55213]
SPECIAL = LEADX + LEADY + LEADXY


def keys(tier):
    out = list(range(1, 65)) + refs.EDGE_KEYS + [N - k for k in range(1, 65)] + SPECIAL + [N - k for k in SPECIAL]
    for k in range(0, 256, 1 if tier == 'thorough' else 3):
        out += [1 << k, (1 << k) - 1, (1 << k) + 1]
    for x in byte_walk(32, (0, 0x5a, 0xff), (0, 1, 0x30, 0x61, 0x7f, 0x80, 0xff) if tier == 'thorough' else (0x80, 0)):
        out.append(int.from_bytes(x, 'big'))
    if tier == 'thorough':
        out += list(range(65, 2000))
        out += [int.from_bytes(x, 'big') for x in pair_walk(32, step=3)]
    for b in (b'0123456789abcdef0123456789abcdef', bytes(range(32)), bytes(range(1, 32)) + b'\0', b'\n' + b' ' * 31, b'f' * 32, b'00' * 16):
        out.append(int.from_bytes(b, 'big'))
    out += [(N - 1) // 2, (N + 1) // 2, refs.P256.p % N, 2 ** 128 - 1, 2 ** 255]
    return dedup(k for k in out if 0 < k < N)


def judge(ctx, kp, d, *what):
    Q = refs.pub(d)
    P = kp.PublicKey
    ctx.eq((P.x.value, P.y.value), Q, 'public key', d, *what)
    ctx.eq(bytes(P.encode_point(True)), refs.compressed(Q).hex().encode(), 'compressed', d)
    ctx.eq(bytes(kp.PublicKeyHash.Data), refs.hash160(refs.compressed(Q)), 'script hash', d, *what)
    ctx.eq(kp.GetAddress(), refs.key_address(Q), 'address', d, *what)
    ctx.eq(bytes(kp.PrivateKey), d.to_bytes(32, 'big'), 'private key', d, *what)
    ctx.check(P.isoncurve() is True and P.IsInfinity is False, 'on curve')
    ctx.check(type(kp.PublicKeyHash).__name__ == 'UInt160', 'type')


def gen_keys(tier):
    yield from keys(tier)


def run_keys(d, ctx):
    from neocore.KeyPair import KeyPair
    b = d.to_bytes(32, 'big')
    judge(ctx, KeyPair(b), d, 32)
    judge(ctx, KeyPair(priv_key=bytearray(b)), d, 'bytearray')


def gen_long(tier):
    ks = keys(tier) if tier == 'thorough' else SPECIAL + [N - k for k in SPECIAL] + list(range(1, 33)) + [N - k for k in range(1, 17)] + [1 << (8 * k) for k in range(32)]
    yield from dedup(ks)


PREFIX = [bytes(8), b'\xff' * 8, bytes(range(1, 9)), b'ECS2 \0\0\0', b'\x04' * 8, b'\x02\0\0\0\0\0\0\x04', b'\0\0\0\0\0\0\0\x04', b'\x03' + b'\x45' * 7]


def run_long(d, ctx):
    from neocore.KeyPair import KeyPair
    b = d.to_bytes(32, 'big')
    pub = refs.uncompressed(refs.pub(d))[1:]
    judge(ctx, KeyPair(pub + b), d, 96)
    judge(ctx, KeyPair(bytearray(pub + b)), d, 96, 'bytearray')
    for p in PREFIX:
        judge(ctx, KeyPair(p + pub + b), d, 104)


def gen_lengths(tier):
    for n in range(0, 300 if tier == 'thorough' else 140):
        yield n


def run_lengths(n, ctx):
    from neocore.KeyPair import KeyPair
    if n in (32, 96, 104):
        return
    pub = refs.uncompressed(refs.pub(7))
    full = bytes(8) + pub[1:] + bytes(31) + b'\x07'
    for b in (bytes(n), bytes([1]) * n, b'\x7f' * n, b'0' * n, b'1' * n, b'f' * n, (bytes(n) + full)[len(full):][-n:] if n else b'', full[:n], full[-n:] if n else b'',
              (b'\x80' + bytes(31) + b'\x07\x01' * n)[:n], (pub + bytes(31) + b'\x07' * n)[:n], (bytes(31) + b'\x07' * n)[:n], (b'%064x' % 7 + b'01' * n)[:n]):
        if len(b) != n:
            continue
        ctx.refused(lambda: KeyPair(b), 'length', n)
        ctx.refused(lambda: KeyPair(bytearray(b)), 'length', n)


def gen_range(tier):
    out = [0]
    for k in range(0, 128):
        out += [N + (1 << k), 2 ** 256 - (1 << k)]
    out += [N, N + 1, N + 2, refs.P256.p, 2 ** 256 - 1, refs.K256.n, refs.K256.p, refs.P256.p - 1]
    out += list(range(N, N + 40))
    for k in dedup(x for x in out if x == 0 or N <= x < 2 ** 256):
        yield k


def run_range(v, ctx):
    from neocore.KeyPair import KeyPair
    b = v.to_bytes(32, 'big')
    ctx.refused(lambda: KeyPair(b), 'out of range', v)
    ctx.refused(lambda: KeyPair(bytearray(b)), 'out of range', v)


SOME = [1, 379, 43, N - 1, 49350, int.from_bytes(b'0123456789abcdef0123456789abcdef', 'big')]


def gen_indep(tier):
    for i in range(len(SOME)):
        for j in range(len(SOME)):
            yield i, j


def run_indep(case, ctx):
    """buffers changed and other pairs made after construction; used in every order"""
    from neocore.KeyPair import KeyPair
    d, e = SOME[case[0]], SOME[case[1]]
    pub = refs.uncompressed(refs.pub(d))[1:]
    for buf in (bytearray(d.to_bytes(32, 'big')), bytearray(pub + d.to_bytes(32, 'big')), bytearray(bytes(8) + pub + d.to_bytes(32, 'big'))):
        keep = bytes(buf)
        a = KeyPair(buf)
        ctx.eq(bytes(buf), keep, 'argument unchanged')
        for i in range(len(buf)):
            buf[i] ^= 0xff
        b = KeyPair(e.to_bytes(32, 'big'))
        judge(ctx, a, d, 'first')
        judge(ctx, b, e, 'second')
        try:
            KeyPair(bytes(32))
        except Exception:
            pass
        if isinstance(b.PrivateKey, bytearray):
            b.PrivateKey[0] ^= 0xff
        judge(ctx, a, d, 'first again')
        ctx.eq(a.Export(), refs.wif(d.to_bytes(32, 'big')), 'export')
        a2 = KeyPair(a.PrivateKey)
        if isinstance(a.PrivateKey, bytearray):
            a.PrivateKey[31] ^= 0xff
        judge(ctx, a2, d, 'copy')
        ctx.check((a2.PublicKey == b.PublicKey) == (d == e), 'points compare')
        ctx.check((a2.PublicKeyHash == b.PublicKeyHash) == (d == e), 'hashes compare')


FAMILIES = [
    Family('keys', gen_keys, run_keys, lambda t: '%d private keys: both ends of the range, powers of two and neighbours, byte walks, public coordinates with one or two leading (or trailing) zero bytes' % len(keys(t))),
    Family('long-forms', gen_long, run_long, '96 bytes and 104 bytes with 8 prefixes, for keys with leading zero coordinates and both ends of the range'),
    Family('lengths', gen_lengths, run_lengths, 'every length 0..139 (299) x 13 contents'),
    Family('out-of-range', gen_range, run_range, 'zero and ~290 keys from the group order to 2^256-1'),
    Family('independence', gen_indep, run_indep, 'all pairs of 6 keys, 3 buffer forms: buffers and other pairs changed afterwards'),
]
