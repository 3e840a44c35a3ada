from mc.common import *

ASSUMPTIONS = []


def minimal(v):
    """length of the shortest two's complement form"""
    n = 1
    while not -(1 << 8 * n - 1) <= v < 1 << 8 * n - 1:
        n += 1
    return n


def check(ctx, v):
    from neocore.BigInteger import BigInteger as B
    x = B(v)
    n = minimal(v)
    for name, b in (('default', x.ToByteArray()), ('signed', x.ToByteArray(signed=True)), ('positional', x.ToByteArray(True))):
        ctx.step()
        if type(b) is not bytes:
            raise Violation('not bytes: %r' % (b,))
        if int.from_bytes(b, 'little', signed=True) != v or not (len(b) == n if v >= 0 else n <= len(b) <= n + 1):
            raise Violation('%s bytes of %d: %s (shortest %d bytes)' % (name, v, b.hex(), n))
        r = B.FromBytes(b, signed=True)
        if int(r) != v or type(r) is not B:
            raise Violation('%d read back as %d' % (v, r))
        r = B.FromBytes(bytearray(b), True)
        if int(r) != v:
            raise Violation('%d read back as %d' % (v, r))
    if v >= 0:
        b = x.ToByteArray(signed=False)
        want = v.to_bytes(max(1, (v.bit_length() + 7) // 8), 'little')
        ctx.eq(b, want, 'unsigned', v)
        ctx.eq(int(B.FromBytes(b)), v, 'unsigned back', v)
        ctx.eq(int(B.FromBytes(b, signed=False)), v, 'unsigned back', v)
    if int(x) != v:
        raise Violation('operand changed')
    ctx.state(v)


def gen_small(tier):
    n = 70000 if tier == 'quick' else 1 << 19
    yield from chunks(range(-n, n + 1), 128)


def gen_big(tier):
    for k in range(0, 2100 if tier == 'quick' else 9000):
        vs = []
        for d in range(-2, 3):
            vs += [(1 << k) + d, -(1 << k) + d]
        yield vs
    for n in range(1, 140):
        for bg in (0, 0x55, 0xff):
            for v in (0x7f, 0x80, 0x81, 0xfe, 0xff, 1):
                u = int.from_bytes(bytes([bg]) * n + bytes([v]), 'little')
                w = int.from_bytes(bytes([v]) + bytes([bg]) * n, 'little')
                yield [u, -u, w, -w]


def run_vals(vs, ctx):
    for v in vs:
        check(ctx, v)


def gen_bytes(tier):
    yield [b'']
    for a in range(256):
        yield [bytes([a])] + [bytes([a, b]) for b in range(256)]
    for n in list(range(3, 140)) + [255, 256, 257, 511, 512, 513]:
        for bg in (0, 0x7f, 0x80, 0xff):
            yield [bytes([bg]) * i + bytes([v]) + bytes([bg]) * (n - 1 - i) for i in (range(n) if tier == 'thorough' or n < 36 else (0, 1, n // 2, n - 2, n - 1)) for v in (0, 1, 0x7f, 0x80, 0xff, 0x30)]


def value(b, signed):
    v = 0
    for i, x in enumerate(b):
        v += x << 8 * i
    if signed and b and b[-1] & 0x80:
        v -= 1 << 8 * len(b)
    return v


def run_bytes(bs, ctx):
    from neocore.BigInteger import BigInteger as B
    for b in bs:
        for arg in (b, bytearray(b)):
            for kw, s in (({}, False), ({'signed': False}, False), ({'signed': True}, True)):
                r = B.FromBytes(arg, **kw)
                ctx.eq((int(r), type(r) is B), (value(b, s), True), 'read', b, s)
            ctx.eq(bytes(arg), b, 'input unchanged', b)


FAMILIES = [
    Family('small', gen_small, run_vals, lambda t: 'all integers from -%d to %d' % ((70000, 70000) if t == 'quick' else (1 << 19, 1 << 19))),
    Family('boundaries', gen_big, run_vals, lambda t: '+-(2^k + d), k < %d, |d| <= 2; extreme leading and trailing bytes, 2..140 bytes' % (2100 if t == 'quick' else 9000)),
    Family('byte-strings', gen_bytes, run_bytes, 'all byte strings of length 0..2; one deviating byte over 4 backgrounds, lengths 3..139 and around 256, 512'),
]
