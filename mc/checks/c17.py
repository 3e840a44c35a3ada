from mc.common import *

ASSUMPTIONS = []
N = refs.P256.n


def imp(t):
    """key bytes, or None when refused"""
    from neocore.KeyPair import KeyPair
    try:
        k = KeyPair.PrivateKeyFromWIF(t)
    except Exception:
        return None
    return k


def judge(ctx, t, *what):
    want = refs.unwif(t) if isinstance(t, str) else None
    got = imp(t)
    ctx.step()
    if (None if got is None else bytes(got)) != want:
        raise Violation('importing %r: %r, expected %r (%r)' % (t, got, want, what))
    ctx.state(want is None, *what)
    return want


def keys(tier):
    out = list(range(1, 33)) + refs.EDGE_KEYS + [N - k for k in range(1, 33)]
    for k in range(0, 256, 1 if tier == 'thorough' else 5):
        out += [1 << k, (1 << k) - 1]
    for x in byte_walk(32, (0, 0x5a), (1, 0x7f, 0x80, 0xff) if tier == 'thorough' else (0x80, 1)):
        out.append(int.from_bytes(x, 'big'))
    out += [int.from_bytes(b'0123456789abcdef0123456789abcdef', 'big'), int.from_bytes(bytes(range(32)), 'big'), int.from_bytes(bytes(range(1, 32)) + b'\0', 'big')]
    return dedup(k for k in out if 0 < k < N)


def gen_keys(tier):
    yield from keys(tier)


def run_keys(d, ctx):
    from neocore.KeyPair import KeyPair
    b = d.to_bytes(32, 'big')
    kp = KeyPair(b)
    want = refs.wif(b)
    t = kp.Export()
    ctx.eq(t, want, 'export', d)
    ctx.eq(len(t), 52, 'length')
    ctx.eq(bytes(kp.PrivateKey), b, 'key unchanged', d)
    ctx.eq(kp.Export(), want, 'export again', d)
    k = KeyPair.PrivateKeyFromWIF(want)
    ctx.eq(bytes(k), b, 'import', d)
    kp2 = KeyPair(k)
    ctx.eq(kp2.Export(), want, 'round trip', d)
    ctx.eq(KeyPair(bytearray(b)).Export(), want, 'bytearray', d)
    Q = refs.pub(d)
    ctx.eq(KeyPair(refs.uncompressed(Q)[1:] + b).Export(), want, '96 bytes', d)


def gen_import(tier):
    for x in byte_walk(32, (0, 0x5a), range(256)):
        yield x
    for k in range(0, 32):
        yield bytes(k) + bytes(range(1, 33 - k))


def run_import(b, ctx):
    if 0 < int.from_bytes(b, 'big') < N:
        ctx.eq(judge(ctx, refs.wif(b), 'good', b), b, 'import', b)


BASES = [bytes(range(1, 33)), bytes(31) + b'\x01', b'\x7f' * 32, (N - 1).to_bytes(32, 'big')]
CH = ''.join(chr(c) for c in range(0x21, 0x7f)) + ' \n\x00\xe9\u041a'


def gen_subst(tier):
    for k in range(len(BASES)):
        for i in range(52):
            yield k, i


def run_subst(case, ctx):
    k, i = case
    a = refs.wif(BASES[k])
    for c in CH:
        w = judge(ctx, a[:i] + c + a[i + 1:], 'substituted', case, c)
        ctx.outcome('accepted' if w else 'refused')
    for j in range(i + 1, 52):
        judge(ctx, a[:i] + a[j] + a[i + 1:j] + a[i] + a[j + 1:], 'swapped', case, j)
    judge(ctx, a[:i] + a[i + 1:], 'deleted', case)
    judge(ctx, a[:i], 'cut', case)
    for c in refs.B58 + ' 0':
        judge(ctx, a[:i] + c + a[i:], 'inserted', case, c)
    judge(ctx, a + a[:i], 'longer', case)
    judge(ctx, '1' * i + a, 'ones', case)


def gen_format(tier):
    for v in range(256):
        yield v


def run_format(v, ctx):
    for b in BASES:
        judge(ctx, refs.b58check(bytes([v]) + b + b'\x01'), 'header', v)
        judge(ctx, refs.b58check(b'\x80' + b + bytes([v])), 'marker', v)
        judge(ctx, refs.b58check(bytes([v]) + b), 'uncompressed', v)
        judge(ctx, refs.b58check(b'\x80' + b[:31] + bytes([v]) + b'\x01'), 'key', v)
        judge(ctx, refs.b58check(b'\x80' + b + b'\x01' + bytes([v])), 'long', v)
        judge(ctx, refs.b58check(bytes([v, 0x80]) + b + b'\x01'), 'long', v)
        judge(ctx, refs.b58check(b'\x80' + b[:31] + bytes([v])), 'short', v)
        judge(ctx, refs.b58check(bytes([v]) + b[:32] + bytes([v])), 'both', v)
    for i in range(4):
        for b in BASES:
            p = b'\x80' + b + b'\x01'
            c = bytearray(refs.hash256(p)[:4])
            c[i] ^= v or 0x55
            judge(ctx, refs.b58enc(p + bytes(c)), 'checksum', i, v)


def gen_lengths(tier):
    for n in range(0, 61):
        yield n


def run_lengths(n, ctx):
    for fill in (0, 1, 0x80, 0xff):
        for h in (0x80, 0, 1, 0xff):
            p = bytes([h]) + bytes([fill]) * n
            for q in (p, p + b'\x01', p[:n], b'\0' * n + p):
                judge(ctx, refs.b58check(q), 'length', n, fill, h)
                judge(ctx, refs.b58enc(q), 'no checksum', n, fill, h)
    for c in '1Kz5L':
        judge(ctx, c * n, 'constant', n, c)
    p = b'\x80' + BASES[0] + b'\x01'
    for c in (refs.sha256(p)[:4], refs.hash256(p)[4:8], refs.hash256(p)[:4][::-1], bytes(4), refs.hash256(p[1:])[:4], refs.hash256(p[:33])[:4], refs.hash256(BASES[0])[:4]):
        judge(ctx, refs.b58enc(p + c), 'other checksum', n)


def gen_kinds(tier):
    for k in range(5):
        yield k


def run_kinds(k, ctx):
    from neocore.KeyPair import KeyPair
    v = [None, '', 5, [], 'K'][k]
    ctx.refused(lambda: KeyPair.PrivateKeyFromWIF(v), 'kind', k)


FAMILIES = [
    Family('keys', gen_keys, run_keys, lambda t: '%d private keys: both ends of the range, powers of two, byte walks; export, import, round trip' % len(keys(t))),
    Family('imports', gen_import, run_import, 'every key byte position x all 256 values x 2 backgrounds, leading zeros'),
    Family('damaged-texts', gen_subst, run_subst, '4 texts x 52 positions: every substitution, swap, deletion, cut, insertion'),
    Family('formats', gen_format, run_format, 'all header, marker, extra and checksum byte values with right checksum'),
    Family('lengths', gen_lengths, run_lengths, 'payload lengths 0..60 (and leading zeros), constant texts, 7 other checksum functions'),
    Family('kinds', gen_kinds, run_kinds, '5 other kinds'),
]
