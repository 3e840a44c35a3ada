from mc.common import *
from mc.checks import c45
from mc.checks.c19 import SPECIAL, LEADX, LEADY, LEADXY

ASSUMPTIONS = ['with unhex on, messages are hexadecimal text (what verification does with other text is left open)',
               'public keys are given as points, 33 compressed bytes or 64 raw bytes; the 65-byte form is left open']
C = refs.P256
N = C.n
P = C.p


def crypto():
    from neocore.Cryptography.Crypto import Crypto
    return Crypto


def point(Q):
    from neocore.Cryptography.ECCurve import ECDSA
    return ECDSA.secp256r1().Curve.point(Q[0], Q[1])


MSGS = [b'', b'\0', b'a', b'abcd', b'abcde', b'ABCD', b'\xff' * 4, b'00', b'0x12', b'\n', b' ', bytes(range(256)), b'm' * 63, b'm' * 64, b'm' * 65, b'q' * 1000,
        b'caf\xc3\xa9', b'\x80\x81', b'\xc3\xa9\xc3\xa9', b'0123456789abcdef' * 4, bytes(32), b'deadbeef', b'\0\0', b'a\0', b'\0a']
KEYS = [1, 2, 3, 7, N - 1, N - 2, (N - 1) // 2, 379, 43, 49350, 40393, 2376, 1 << 255, 1 << 128, int.from_bytes(bytes(range(1, 33)), 'big')]


def forms(Q):
    yield 'point', point(Q)
    yield 'compressed', refs.compressed(Q)
    yield 'raw', refs.uncompressed(Q)[1:]


def forge(d, msg, k, s):
    """(key, signature): d is ignored, the key is chosen so that (k, s) signs msg"""
    R = C.mul(k, C.G)
    r = R[0] % N
    e = int.from_bytes(refs.sha256(msg), 'big')
    x = (s * k - e) * pow(r, -1, N) % N
    return x, sig(r, s)


def sig(r, s):
    return r.to_bytes(32, 'big') + s.to_bytes(32, 'big')


def good(d, msg, k=5):
    r = C.mul(k, C.G)[0] % N
    s = (int.from_bytes(refs.sha256(msg), 'big') + d * r) * pow(k, -1, N) % N
    return sig(r, s)


def verify(ctx, msg, s, pk, want, *what, **kw):
    """pk: what is handed to the code; want: the reference's answer"""
    got = crypto().VerifySignature(msg, s, pk, **kw)
    ctx.step()
    ctx.state(want, *what)
    ctx.outcome('verifies' if want else 'does not')
    if got is not want:
        raise Violation('VerifySignature(%r, %r, %r, %r) gave %r, expected %r (%r)' % (msg, s, pk, kw, got, want, what))


# --------------------------------------------------------------- signing
def gen_sign(tier):
    ks = list(range(len(KEYS)))
    for k in ks:
        for m in range(len(MSGS)):
            yield KEYS[k], MSGS[m]
    for i in (97369, 117561, 134753, 127074, 75845, 76238, 11335):
        yield 7, i.to_bytes(4, 'big')
    for i in range(200 if tier == 'quick' else 4000):
        yield 7 + i % 5, b'%d' % i
    for d in SPECIAL + [1 << k for k in range(0, 256, 8)]:
        yield d, b'abc'


def run_sign(case, ctx):
    d, m = case
    Cr = crypto()
    hx = m.hex()
    key = '%064x' % d
    Q = refs.pub(d)
    for how, t, k in (('hex', hx, key), ('bytes', hx.encode(), key), ('upper', hx.upper(), key), ('raw key', hx, d.to_bytes(32, 'big'))):
        s = Cr.Sign(t, k)
        ctx.eq(len(s), 64, 'length')
        ctx.check(refs.verify_sig(m, bytes(s), Q), 'signature verifies elsewhere', how, d, m)
        if how == 'hex':
            ctx.eq(type(s) in (bytearray, bytes), True, 'type')
    s = Cr.Default().Sign(hx, key)
    ctx.check(refs.verify_sig(m, bytes(s), Q), 'signature of the default instance', d, m)
    ctx.outcome('leading zero' if s[0] == 0 or s[32] == 0 else 'full width')


def gen_round(tier):
    for k in range(len(KEYS)):
        for m in range(len(MSGS)):
            if tier == 'thorough' or (k + m) % 6 == 0:
                yield k, m


def run_round(case, ctx):
    Cr = crypto()
    d, m = KEYS[case[0]], MSGS[case[1]]
    s = Cr.Sign(m.hex(), '%064x' % d)
    Q = refs.pub(d)
    for f, pk in forms(Q):
        verify(ctx, m.hex(), s, pk, True, 'round', f, *case)
    verify(ctx, m, bytes(s), refs.compressed(Q), True, 'raw', *case, unhex=False)
    other = MSGS[(case[1] + 1) % len(MSGS)]
    verify(ctx, other.hex(), s, refs.compressed(Q), False, 'other message', *case)


# --------------------------------------------------------------- verification
def gen_forged(tier):
    ks = [1, 2, 5, N - 1, 379, 552, 40393, 65526, 1 << 200]
    ss = [1, 2, N - 1, N - 2, N // 2, N // 2 + 1, 1 << 240, (1 << 248) - 1, 1 << 255, 0xff, (1 << 256) % N]
    for i, k in enumerate(ks):
        for j, s in enumerate(ss):
            if tier == 'thorough' or (i + j) % 3 == 0 or i < 2:
                yield k, s


def run_forged(case, ctx):
    """valid signatures with every shape of r and s"""
    k, s = case
    m = b'forged %d' % (k % 1000)
    d, sg = forge(0, m, k, s)
    Q = refs.pub(d)
    ctx.check(refs.verify_sig(m, sg, Q), 'reference')
    verify(ctx, m.hex(), sg, refs.compressed(Q), True, 'forged', *case)
    verify(ctx, m.hex(), bytearray(sg), point(Q), True, 'forged', *case)


def gen_keyforms(tier):
    for d in KEYS + SPECIAL + [N - d for d in SPECIAL[::1 if tier == 'thorough' else 5]]:
        yield d


def run_keyforms(d, ctx):
    m = b'key forms'
    s = good(d, m)
    Q = refs.pub(d)
    for f, pk in forms(Q):
        verify(ctx, m.hex(), s, pk, True, f, d)
    verify(ctx, m.hex(), s, bytearray(refs.uncompressed(Q)[1:]), True, 'bytearray', d)
    Qn = C.neg(Q)
    verify(ctx, m.hex(), s, refs.compressed(Qn), False, 'negated', d)


def gen_modes(tier):
    for m in range(len(MSGS)):
        yield m


def run_modes(i, ctx):
    """the message as hexadecimal text or bytes, or as raw bytes or text"""
    m = MSGS[i]
    d = 7
    Q = refs.pub(d)
    pk = refs.uncompressed(Q)[1:]
    s = good(d, m)
    for how, v, kw in (('hex', m.hex(), {}), ('hex bytes', m.hex().encode(), {}), ('upper', m.hex().upper(), {'unhex': True}), ('raw', m, {'unhex': False})):
        verify(ctx, v, s, pk, True, how, i, **kw)
    try:
        t = m.decode('utf-8')
    except UnicodeDecodeError:
        t = None
    if t is not None:
        verify(ctx, t, s, pk, True, 'text', i, unhex=False)
    if m:
        # a message and its hexadecimal spelling are different messages
        verify(ctx, m.hex(), s, pk, False, 'hex taken raw', i, unhex=False)
        verify(ctx, m.hex().encode().hex(), s, pk, False, 'double', i)
    # text that is no hexadecimal: a plain no, or the answer for its bytes
    for v in (m, b' ' + m, m + b'\n', m + b'\0', m + b' ', b'\t' + m + b'\r\n', m.swapcase(), m[:-1], m[1:], m + m):
        try:
            bytes.fromhex(v.decode('ascii'))
            continue
        except ValueError:
            pass
        for t in [v] + ([v.decode('utf-8')] if refs.utf8(v) else []):
            got = crypto().VerifySignature(t, s, pk)
            ctx.step()
            if got is not False and (got is not True or v != m):
                raise Violation('VerifySignature(%r) gave %r for the signature of %r' % (t, got, m))
    if refs.hexlike(m):
        verify(ctx, m, s, pk, refs.verify_sig(bytes.fromhex(m.decode()), s, Q), 'raw taken as hex', i, unhex=True)


def gen_cross(tier):
    n = 5 if tier == 'thorough' else 3
    for a in range(n):
        for b in range(n):
            for c in range(n):
                yield a, b, c


def run_cross(case, ctx):
    ms = [b'one', b'two', b'', b'on', b'one\0']
    ds = [7, N - 7, 379, 1, 2]
    m, q, s = ms[case[0]], refs.pub(ds[case[1]]), good(ds[case[2]], ms[(case[0] + case[2]) % 2 and case[0] or case[2]], 11)
    want = refs.verify_sig(m, s, q)
    verify(ctx, m.hex(), s, refs.compressed(q), want, 'cross', *case)
    c = crypto().Default().VerifySignature(m.hex(), s, point(q))
    ctx.eq(c, want, 'default instance', *case)


def gen_flips(tier):
    bits = range(8) if tier == 'thorough' else (0, 7)
    for i in range(64):
        for b in bits:
            yield 'sig', i, b
    for i in range(33):
        for b in bits:
            yield 'key', i, b
    for i in range(64):
        for b in bits:
            yield 'raw', i, b
    for i in range(24):
        for b in range(8) if tier == 'thorough' else (i % 8,):
            yield 'msg', i, b


def flip(b, i, bit):
    b = bytearray(b)
    b[i] ^= 1 << bit
    return bytes(b)


def decode_key(b):
    """the point of a 33- or 64-byte key, or None"""
    if len(b) == 33 and b[0] in (2, 3):
        return C.lift(int.from_bytes(b[1:], 'big'), b[0] & 1)
    if len(b) == 64:
        Q = int.from_bytes(b[:32], 'big'), int.from_bytes(b[32:], 'big')
        return Q if max(Q) < P and C.on(Q) else None
    return None


def run_flips(case, ctx):
    part, i, b = case
    m = b'twenty-four byte message'
    d = 43
    Q = refs.pub(d)
    s, pk, mm = good(d, m, 13), refs.compressed(Q), m
    if part == 'sig':
        s = flip(s, i, b)
    elif part == 'key':
        pk = flip(pk, i, b)
    elif part == 'raw':
        pk = flip(refs.uncompressed(Q)[1:], i, b)
    else:
        mm = flip(m, i, b)
    verify(ctx, mm.hex(), s, pk, refs.verify_sig(mm, s, decode_key(pk)), 'flip', *case)


M = b'numbers'


def rs(d):
    g = good(d, M, 17)
    r, s = int.from_bytes(g[:32], 'big'), int.from_bytes(g[32:], 'big')
    other = int.from_bytes(good(d, M, 18)[:32], 'big')
    top = (1 << 256) - 1
    R = [0, 1, r, N - r, N - 1, N, N + 1, P, top, s, other, r + 1, r - 1, r ^ (1 << 255)]
    S = [0, 1, s, N - s, N - 1, N, N + 1, P, top, r, s + 1, s - 1]
    return R, S


def gen_numbers(tier):
    R, S = rs(7)
    for i in range(len(R)):
        for j in range(len(S)):
            if tier == 'thorough' or i in (0, 2, 5) or j in (0, 2, 3, 5) or (i + j) % 4 == 0:
                yield i, j


def run_numbers(case, ctx):
    R, S = rs(7)
    sg = sig(R[case[0]] % 2 ** 256, S[case[1]] % 2 ** 256)
    Q = refs.pub(7)
    verify(ctx, M.hex(), sg, refs.compressed(Q) if sum(case) % 2 else refs.uncompressed(Q)[1:], refs.verify_sig(M, sg, Q), 'numbers', *case)


def gen_lengths(tier):
    for n in range(0, 140 if tier == 'thorough' else 70):
        yield n
    for n in (96, 97, 104, 127, 128, 129, 130):
        yield n


def run_lengths(n, ctx):
    Q = refs.pub(7)
    s = good(7, M, 17)
    pk = refs.uncompressed(Q)[1:]
    if n != 64:
        big = s + s + s
        for v in (big[:n], bytes(n), bytes(max(0, n - 64)) + s[:n], s[:32] + bytes(max(0, n - 64)) + s[32:], s[:31] + s[32:], s + bytes(1), b'\x30\x44\x02\x20' + s[:32] + b'\x02\x20' + s[32:]):
            if len(v) == 64:
                continue
            if n % 2:
                verify(ctx, M.hex(), v, pk, False, 'signature length', n, len(v))
            else:
                verify(ctx, M.hex(), bytearray(v), refs.compressed(Q), False, 'signature length', n, len(v))
    u = refs.uncompressed(Q)
    c = refs.compressed(Q)
    for v in ((u + u + u)[:n], (pk + pk + pk)[:n], (c + c + c + c + c)[:n], bytes(n), b'\x02' * n, b'\x04' * n, b'\xff' * n, bytes(max(0, n - 33)) + c, bytes(max(0, n - 64)) + pk):
        if v in (pk, c) or (len(v) == 65 and v[0] == 4):
            continue
        verify(ctx, M.hex(), s, v, refs.verify_sig(M, s, decode_key(v)), 'key length', n, len(v))


def gen_badkeys(tier):
    for v in range(256):
        yield v


def run_badkeys(v, ctx):
    """wrong prefixes, coordinates outside the field or off the curve, infinity, points of other curves"""
    Q = refs.pub(7)
    s = good(7, M, 17)
    x, y = (c.to_bytes(32, 'big') for c in Q)
    if v not in (2, 3):
        verify(ctx, M.hex(), s, bytes([v]) + x, False, 'prefix', v)
    y2 = flip(y, v % 32, v // 32)
    x2 = flip(x, v % 32, v // 32)
    for b in (x + y2, y + x, x + bytes(32), bytes(32) + y, bytes(64), x2 + y, (P + v).to_bytes(32, 'big') + y, x + (2 ** 256 - 1 - v).to_bytes(32, 'big'), (Q[0] + N).to_bytes(33, 'big')[1:] + y):
        verify(ctx, M.hex(), s, b, refs.verify_sig(M, s, decode_key(b)), 'raw key', v)
    for b in (bytes([2 + v % 2]) + (P + v).to_bytes(32, 'big'), b'\x02' + bytes(32), b'\x03' + b'\xff' * 32):
        verify(ctx, M.hex(), s, b, refs.verify_sig(M, s, decode_key(b)), 'compressed key', v)


def gen_badpoints(tier):
    for k in range(9):
        yield k


def run_badpoints(k, ctx):
    from neocore.Cryptography.ECCurve import ECDSA
    e = ECDSA.secp256r1().Curve
    Q = refs.pub(7)
    s = good(7, M, 17)
    k1 = ECDSA.secp256k1()
    pts = [e.point(0, 0), e.Infinity, e.point(Q[0], Q[1] + 1), e.point(Q[1], Q[0]), e.point(1, 1), k1.G, k1.G * 7, -point(Q), point(C.neg(Q))]
    verify(ctx, M.hex(), s, pts[k], False, 'point', k)


def gen_kinds(tier):
    for k in range(8):
        yield k


def run_kinds(k, ctx):
    v = [None, '', 5, [], {}, 'x' * 33, 'y' * 64, 1.5][k]
    Q = refs.pub(7)
    s = good(7, M, 17)
    verify(ctx, M.hex(), s, v, False, 'key kind', k)
    verify(ctx, M.hex(), v, refs.compressed(Q), False, 'signature kind', k)


FAMILIES = [
    Family('sign', gen_sign, run_sign, '15 keys x 25 messages, 200 (4000) counted messages, keys with leading-zero points, messages with leading-zero r or s; text and key kinds; independent verifier'),
    Family('round-trips', gen_round, run_round, 'sign then verify: keys x messages (quick: every 6th) x 3 key forms'),
    Family('forged', gen_forged, run_forged, 'valid signatures with 9 nonces (small r) x 11 values of s'),
    Family('key-forms', gen_keyforms, run_keyforms, 'keys with leading-zero coordinates in all forms; negated key'),
    Family('message-modes', gen_modes, run_modes, '25 messages x hexadecimal, raw, text; a message against its own spelling'),
    Family('cross', gen_cross, run_cross, 'all combinations of 3 (5) messages, keys and signatures'),
    Family('bit-flips', gen_flips, run_flips, 'bits 0 and 7 (all 8) of every byte of signature, compressed and raw key; one (all) bit of every message byte'),
    Family('numbers', gen_numbers, run_numbers, 'r and s from boundary values (0, 1, n-1, n, n+1, p, 2^256-1, swapped, negated)'),
    Family('lengths', gen_lengths, run_lengths, 'signature and key lengths 0..69 (139)'),
    Family('bad-keys', gen_badkeys, run_badkeys, 'all 256 prefixes, every bit of both coordinates, coordinates outside the field'),
    Family('bad-points', gen_badpoints, run_badpoints, '9 points: infinity, off-curve, other curve, negated'),
    Family('kinds', gen_kinds, run_kinds, '8 other kinds of key and signature'),
    Family('long-messages', c45.gen_signing, c45.run_signing, 'messages of sizes around every power of two and ten up to 1 MiB (thorough: 4), signed, verified, changed in up to eight places'),
]
