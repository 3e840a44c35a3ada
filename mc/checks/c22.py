from mc.common import *
from mc.checks.c19 import SPECIAL

ASSUMPTIONS = ['from a stream only the compressed form (and infinity) is decoded; an empty stream reads as infinity (ReadByte at the end gives 0)']
C = refs.P256
P, N = C.p, C.n


def ecdsa():
    from neocore.Cryptography.ECCurve import ECDSA
    return ECDSA


def mk(Q):
    e = ecdsa().secp256r1().Curve
    return e.point(*(Q or (0, 0)))


def xy(p):
    return p.x.value, p.y.value


def xs(tier):
    out = list(range(1, 65)) + refs.EDGE_KEYS + SPECIAL + [N - 1, N - 2, N - 3]
    out += [1 << k for k in range(0, 256, 1 if tier == 'thorough' else 16)]
    if tier == 'thorough':
        out += list(range(65, 1200))
    return dedup(out)


def gen_points(tier):
    for d in xs(tier):
        for neg in (0, 1):
            yield d, neg


def decoders(c, u, d):
    """every entry point: (name, thunk) for compressed c, uncompressed u bytes"""
    E = ecdsa()
    k = (d % N).to_bytes(32, 'big')
    yield 'hex bytes', lambda: E.decode_secp256r1(c.hex().encode()).G
    yield 'hex text', lambda: E.decode_secp256r1(c.hex()).G
    yield 'hex upper', lambda: E.decode_secp256r1(c.hex().upper(), unhex=True).G
    yield 'raw', lambda: E.decode_secp256r1(c, unhex=False).G
    yield 'raw bytearray', lambda: E.decode_secp256r1(bytearray(c), unhex=False).G
    yield 'unchecked', lambda: E.decode_secp256r1(c, unhex=False, check_on_curve=False).G
    yield 'uncompressed hex', lambda: E.decode_secp256r1(u.hex()).G
    yield 'uncompressed raw', lambda: E.decode_secp256r1(u, unhex=False).G
    yield 'uncompressed unchecked', lambda: E.decode_secp256r1(u, unhex=False, check_on_curve=False).G
    yield 33, lambda: E.FromBytes_Secp256r1(c).G
    yield '33 bytearray', lambda: E.FromBytes_Secp256r1(bytearray(c)).G
    yield 65, lambda: E.FromBytes_Secp256r1(u).G
    yield 64, lambda: E.FromBytes_Secp256r1(u[1:]).G
    yield 96, lambda: E.FromBytes_Secp256r1(u[1:] + k).G
    for pre in (bytes(8), b'\xff' * 8, b'ECS1 \0\0\0', bytes(range(8))):
        yield 72, lambda: E.FromBytes_Secp256r1(pre + u[1:]).G
        yield 104, lambda: E.FromBytes_Secp256r1(pre + u[1:] + k).G
    yield 'curve raw', lambda: E.secp256r1().Curve.decode_from_hex(c, unhex=False)
    yield 'curve hex', lambda: E.secp256r1().Curve.decode_from_hex(u.hex())


def run_points(case, ctx):
    d, neg = case
    Q = refs.pub(d)
    if neg:
        Q = C.neg(Q)
    c, u = refs.compressed(Q), refs.uncompressed(Q)
    p = mk(Q)
    ctx.eq(bytes(p.encode_point(True)), c.hex().encode(), 'compressed', *case)
    ctx.eq(bytes(p.encode_point()), c.hex().encode(), 'default', *case)
    ctx.eq(bytes(p.encode_point(False)), u.hex().encode(), 'uncompressed', *case)
    ctx.eq(bytes(p.encode_point(compressed=True)), c.hex().encode(), 'again', *case)
    ctx.eq(p.Size(), 33, 'size')
    ctx.eq(xy(p), Q, 'point unchanged')
    for name, f in decoders(c, u, d):
        g = f()
        ctx.eq(xy(g), Q, name, *case)
        ctx.check(g == p and p == g and not g != p, 'equal', name, *case)
        ctx.eq(bytes(g.encode_point(True)), c.hex().encode(), 're-encoded', name)
        ctx.eq(g.IsInfinity, False, 'infinity')
    written(ctx, lambda w: p.Serialize(w), c, 'serialize', *case)
    written(ctx, lambda w: p.Serialize(w, compress=True), c, 'serialize', *case)
    written(ctx, lambda w: p.Serialize(w, compress=False), u, 'serialize uncompressed', *case)
    read_back(ctx, lambda r: ecdsa().Deserialize_Secp256r1(r), c, Q, 'deserialize', *case, key=xy)


def gen_inf(tier):
    yield 0


def run_inf(case, ctx):
    E = ecdsa()
    p = E.secp256r1().Curve.Infinity
    ctx.eq(bytes(p.encode_point(True)), b'\0', 'infinity')
    ctx.eq(bytes(p.encode_point(False)), b'\0', 'infinity')
    ctx.eq(p.Size(), 1, 'size')
    ctx.eq(p.IsInfinity, True, 'infinity')
    written(ctx, lambda w: p.Serialize(w), b'\0', 'infinity')
    written(ctx, lambda w: p.Serialize(w, compress=False), b'\0', 'infinity')
    read_back(ctx, lambda r: E.Deserialize_Secp256r1(r), b'\0', (0, 0), 'infinity', key=xy)
    for g in (E.decode_secp256r1('00').G, E.decode_secp256r1(b'\0', unhex=False).G, E.decode_secp256r1(bytearray(1), unhex=False).G):
        ctx.eq(g.IsInfinity, True, 'decoded')
        ctx.eq(xy(g), (0, 0), 'decoded')
        ctx.check(g == p, 'equal')
    for n in range(2, 140):
        ctx.refused(lambda: E.decode_secp256r1(bytes(n), unhex=False), 'zeros', n)
        ctx.refused(lambda: E.decode_secp256r1('00' * n), 'zeros', n)


def ref_decode(b, check=True):
    """point as (x, y), or None when it must be refused"""
    if len(b) == 1 and b[0] == 0:
        return (0, 0)
    if len(b) == 33 and b[0] in (2, 3):
        return C.lift(int.from_bytes(b[1:], 'big'), b[0] & 1)
    if len(b) == 65 and b[0] == 4:
        Q = int.from_bytes(b[1:33], 'big'), int.from_bytes(b[33:], 'big')
        if max(Q) < P and (not check or C.on(Q) or Q == (0, 0)):
            return Q
    return None


def attempt(f):
    """the point, or None when refused"""
    try:
        g = f()
    except Exception:
        return None
    if g is None:
        return None
    return xy(getattr(g, 'G', g))


def judge(ctx, b, *what, check=True):
    """all entry points that take these bytes, against the reference"""
    E = ecdsa()
    b = bytes(b)
    want = ref_decode(b)
    ctx.outcome('point' if want else 'refused')
    tries = [('raw', want, lambda: E.decode_secp256r1(b, unhex=False)),
             ('hex', want, lambda: E.decode_secp256r1(b.hex())),
             ('unchecked', ref_decode(b, False), lambda: E.decode_secp256r1(b, unhex=False, check_on_curve=False))]
    if len(b) in (33, 65):
        tries.append(('FromBytes', want, lambda: E.FromBytes_Secp256r1(b)))
    for how, w, f in tries:
        got = attempt(f)
        ctx.step()
        ctx.state(how, w, *what)
        if got != w:
            raise Violation('decoding %s (%s): %r, expected %r (%r)' % (b.hex(), how, got, w, what))
    if b and b[0] not in (4, 6, 7):
        n = 1 if b[0] == 0 else 33
        w = ref_decode(b[:n])
        s, r = rd(b)
        got = attempt(lambda: E.Deserialize_Secp256r1(r))
        ctx.step()
        if got != w:
            raise Violation('reading %s from a stream: %r, expected %r (%r)' % (b.hex(), got, w, what))
        if w is not None:
            ctx.eq(s.tell(), n, 'consumed')
    return want


BASES = [7, 43, 379, N - 1]


def gen_prefix(tier):
    for v in range(256):
        yield v


def run_prefix(v, ctx):
    for d in BASES:
        Q = refs.pub(d)
        c, u = refs.compressed(Q), refs.uncompressed(Q)
        judge(ctx, bytes([v]) + c[1:], 'prefix', v, d)
        judge(ctx, bytes([v]) + u[1:], 'prefix', v, d)
        judge(ctx, bytes([v]), 'single', v)


def gen_lengths(tier):
    for n in range(0, 300 if tier == 'quick' else 600):
        yield n


def run_lengths(n, ctx):
    Q = refs.pub(7)
    c, u = refs.compressed(Q), refs.uncompressed(Q)
    E = ecdsa()
    for b in ((c * 20)[:n], (u * 10)[:n], (c + bytes(300))[:n], (u + bytes(300))[:n], c[:1] + bytes(max(0, n - 33)) + c[1:], u[:1] + bytes(max(0, n - 65)) + u[1:], c[:n], u[:n],
              b'\x02' * n, b'\x03' * n, b'\x04' * n, u[:1] + u[1:33][:max(0, n - 33)] + u[33:], c + c, u[:33], b'\x04' + c[1:], c[:1] + u[1:]):
        if not b:
            ctx.refused(lambda: E.decode_secp256r1(b, unhex=False), 'empty')
            ctx.refused(lambda: E.decode_secp256r1(b.hex()), 'empty')
            continue
        judge(ctx, b, 'length', n, len(b))
    if n not in (33, 64, 65, 72, 96, 104):
        k = bytes(31) + b'\x07'
        heads = [f + bytes(n) for f in (c, u, u[1:], u[1:] + k, b'ECS1    ' + u[1:] + k, b'ECS1    ' + u[1:])]
        tails = [bytes(n) + f for f in (c, u, u[1:], u[1:] + k, c + k, u + k, u[1:] + c)]
        for b in [(c * 20)[:n], (u * 10)[:n], bytes(n), (u[1:] * 10)[:n]] + [h[:n] for h in heads] + [t[len(t) - n:] for t in tails]:
            ctx.check(attempt(lambda: E.FromBytes_Secp256r1(b)) is None, 'FromBytes length', n)


def gen_field(tier):
    out = [P + k for k in range(0, 64)] + [2 ** 256 - 1 - k for k in range(0, 32)] + [N, N + 1, refs.K256.p, 1 << 255, P - 1, P - 2, P - 3, 0, 1, 2, 3, 4, 5]
    out += [P + (1 << k) for k in range(6, 224, 1 if tier == 'thorough' else 7)]
    # the field prime plus the x of real points below 2^224 (so that it still fits)
    out += [(P + Q) for Q in range(5, 30)]
    for v in dedup(x for x in out if 0 <= x < 2 ** 256):
        yield v


def run_field(v, ctx):
    b = v.to_bytes(32, 'big')
    for pre in (2, 3):
        judge(ctx, bytes([pre]) + b, 'x', v)
    Q = refs.pub(7)
    y = Q[1].to_bytes(32, 'big')
    x = Q[0].to_bytes(32, 'big')
    E = ecdsa()
    k = bytes(31) + b'\x07'
    small = C.lift(v % P, 0)
    ys = [y, bytes(32), b] + ([small[1].to_bytes(32, 'big'), (P - small[1]).to_bytes(32, 'big')] if small else [])
    for q in [b + t for t in ys] + [x + b]:
        judge(ctx, b'\x04' + q, 'coordinate', v)
        for form, w, f in ((64, ref_decode(b'\x04' + q), lambda: E.FromBytes_Secp256r1(q)),
                           (72, ref_decode(b'\x04' + q), lambda: E.FromBytes_Secp256r1(bytes(8) + q)),
                           (96, ref_decode(b'\x04' + q, False), lambda: E.FromBytes_Secp256r1(q + k)),
                           (104, ref_decode(b'\x04' + q, False), lambda: E.FromBytes_Secp256r1(bytes(8) + q + k))):
            ctx.eq(attempt(f), w, form, v, q)


def gen_off(tier):
    for i in range(64):
        for d in BASES:
            yield i, d


def run_off(case, ctx):
    """one coordinate byte changed"""
    i, d = case
    E = ecdsa()
    Q = refs.pub(d)
    k = d.to_bytes(32, 'big')
    u = refs.uncompressed(Q)[1:]
    for bit in (1, 2, 0x80, 0xff, 0x10):
        q = bytearray(u)
        q[i] ^= bit
        q = bytes(q)
        judge(ctx, b'\x04' + q, 'off curve', i, d, bit)
        if i < 32:
            judge(ctx, bytes([2 + bit % 2]) + q[:32], 'another x', i, d, bit)
        w, wu = ref_decode(b'\x04' + q), ref_decode(b'\x04' + q, False)
        ctx.eq(attempt(lambda: E.FromBytes_Secp256r1(q)), w, 64)
        ctx.eq(attempt(lambda: E.FromBytes_Secp256r1(b'\x80' * 8 + q)), w, 72)
        ctx.eq(attempt(lambda: E.FromBytes_Secp256r1(q + k)), wu, 96)
        ctx.eq(attempt(lambda: E.FromBytes_Secp256r1(b'\x80' * 8 + q + k)), wu, 104)


def gen_x(tier):
    n = 4000 if tier == 'thorough' else 600
    yield from chunks(list(range(0, n)) + [P - k for k in range(1, n // 4)] + [1 << k for k in range(256)], 40)


def run_x(vs, ctx):
    """small, large and power-of-two x coordinates, on the curve or not"""
    for v in vs:
        for pre in (2, 3):
            judge(ctx, bytes([pre]) + v.to_bytes(32, 'big'), 'x', v, pre)


def gen_stream(tier):
    for n in range(0, 34):
        yield n


def run_stream(n, ctx):
    """truncated streams, and points followed by other data"""
    E = ecdsa()
    c = [refs.compressed(refs.pub(d)) for d in BASES]
    for x in c:
        if 0 < n < 33:
            s, r = rd(x[:n])
            ctx.check(attempt(lambda: E.Deserialize_Secp256r1(r)) is None, 'truncated', n)
    s, r = rd(b'\xff' * n + b''.join(c) + b'\0' + c[0] + POST, n)
    for q in c + [b'\0', c[0]]:
        ctx.eq(attempt(lambda: E.Deserialize_Secp256r1(r)), ref_decode(q), 'sequence', n)
    ctx.eq(s.tell(), n + 33 * 5 + 1, 'position')


def gen_kinds(tier):
    for k in range(8):
        yield k


def run_kinds(k, ctx):
    E = ecdsa()
    c = refs.compressed(refs.pub(7)).hex()
    v = [None, 5, '', 'zz' * 33, c[:-1], c + '0', ' ' + c, c[:-1] + 'g'][k]
    ctx.refused(lambda: E.decode_secp256r1(v), 'kind', k)


FAMILIES = [
    Family('points', gen_points, run_points, lambda t: '%d points and their negatives x 3 encodings x 24 ways to decode; streams' % len(xs(t))),
    Family('infinity', gen_inf, run_inf, 'infinity in every encoding; runs of 2..139 zero bytes'),
    Family('prefixes', gen_prefix, run_prefix, 'all 256 prefixes x 4 points, 33 and 65 bytes, and alone'),
    Family('lengths', gen_lengths, run_lengths, 'lengths 0..299 (599) x 16 contents, and key forms at the head and at the tail of other lengths'),
    Family('field-bounds', gen_field, run_field, 'about 170 values at and beyond the field prime (and 0..5) as x or y in every form'),
    Family('changed-bytes', gen_off, run_off, 'each of 64 coordinate bytes x 5 changes x 4 points in every form, checked and unchecked'),
    Family('x-sweep', gen_x, run_x, 'every x below 600 (4000), near the prime, powers of two; both parities'),
    Family('streams', gen_stream, run_stream, 'truncations 0..33 and sequences of points'),
    Family('kinds', gen_kinds, run_kinds, '8 texts and kinds that are no hexadecimal'),
]
