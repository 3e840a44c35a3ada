import math, struct
from mc.common import *

ASSUMPTIONS = ['streams behave like io.BytesIO', 'native IEEE-754 floats']
INTS = {'Int8': (8, 1), 'UInt8': (8, 0), 'Int16': (16, 1), 'UInt16': (16, 0), 'Int32': (32, 1), 'UInt32': (32, 0), 'Int64': (64, 1), 'UInt64': (64, 0)}
ENDS = [None, '<', '>']


def kw(e):
    return {} if e is None else {'endian': e}


def rng(t):
    bits, signed = INTS[t]
    return (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)


def gen_ints(tier):
    for t, (bits, signed) in INTS.items():
        lo, hi = rng(t)
        if bits <= 16:
            vals = range(lo, hi + 1)
        else:
            u = set(int_boundaries(bits))
            if tier == 'thorough':
                u |= {int.from_bytes(x, 'big') for x in byte_walk(bits // 8)}
                u |= {int.from_bytes(x, 'big') for x in pair_walk(bits // 8, (0, 0xff, 0x5a, 0xa5), (0, 1, 2, 0x7f, 0x80, 0x81, 0xfd, 0xfe, 0xff, 0x30))}
            vals = sorted(x - (1 << bits) if signed and x >> bits - 1 else x for x in u)
        for c in chunks(vals, 64):
            for e in ENDS:
                yield t, e, c


def run_ints(case, ctx):
    t, e, vals = case
    bits, signed = INTS[t]
    n = bits // 8
    order = 'big' if e == '>' else 'little'
    for v in vals:
        want = v.to_bytes(n, order, signed=bool(signed))
        written(ctx, lambda w: getattr(w, 'Write' + t)(v, **kw(e)), want, t, e, v, count='count')
        read_back(ctx, lambda r: getattr(r, 'Read' + t)(**kw(e)), want, v, t, e, v)


def gen_ranges(tier):
    for t in INTS:
        for e in ENDS:
            lo, hi = rng(t)
            bits = INTS[t][0]
            for v in sorted({lo - 1, hi + 1, lo - 2, hi + 2, -(1 << bits), 1 << bits, (1 << bits) + 1, -(1 << 64), 1 << 64, 1 << 65, -(1 << 63) - 1, lo - 256, hi + 256, (1 << 200)}):
                if not lo <= v <= hi:
                    yield t, e, v
            for v in ('1', None, 1.0, 1.5, b'\x01', b'12345678'):
                yield t, e, v


def run_ranges(case, ctx):
    t, e, v = case
    refused_write(ctx, lambda w: getattr(w, 'Write' + t)(v, **kw(e)), t, e, v)


def gen_small(tier):
    for v in range(256):
        for k in ('int', 'bytes', 'char', 'big'):
            yield k, v
    for v in range(128):
        yield 'str', v
    for v in (256, 257, -1, -128, -256, 1 << 16, 1 << 64):
        yield 'badbyte', v
    for v in (0, 1, 2, 255, 256, -1):
        yield 'bool', v
    for v in ('', 'ab', 'a', 5, None):
        yield 'badchar', v
    for v in (b'', b'ab', b'\0\0'):
        yield 'badchar', v


def run_small(case, ctx):
    from neocore.BigInteger import BigInteger
    k, v = case
    if k in ('int', 'bytes', 'str', 'big'):
        arg = {'int': lambda: v, 'bytes': lambda: bytes([v]), 'str': lambda: chr(v), 'big': lambda: BigInteger(v)}[k]()
        want = bytes([v])
        written(ctx, lambda w: w.WriteByte(arg), want, k, v)
        read_back(ctx, lambda r: r.ReadByte(), want, v, 'ord', v)
        read_back(ctx, lambda r: r.ReadByte(do_ord=False), want, want, 'raw', v)
        read_back(ctx, lambda r: r.ReadByte(do_ord=True), want, v, 'ord2', v)
        read_back(ctx, lambda r: r.ReadBytes(1), want, want, 'bytes', v)
        if v < 2:
            written(ctx, lambda w: w.WriteByte(bool(v)), want, 'bool byte', v)
    elif k == 'badbyte':
        refused_write(ctx, lambda w: w.WriteByte(v), k, v)
    elif k == 'bool':
        want = b'\1' if v else b'\0'
        written(ctx, lambda w: w.WriteBool(bool(v)), want, k, v, count='count')
        read_back(ctx, lambda r: r.ReadBool(), want, bool(v), k, v)
    elif k == 'char':
        written(ctx, lambda w: w.WriteChar(bytes([v])), bytes([v]), k, v, count='count')
        read_back(ctx, lambda r: r.ReadChar(), bytes([v]), bytes([v]), k, v)
    else:
        refused_write(ctx, lambda w: w.WriteChar(v), k, v)


def gen_floats(tier):
    m = (0, 1, 0x400000, 0x7fffff, 0x123456, 0x2aaaaa) if tier == 'quick' else tuple(1 << i for i in range(23)) + (0, 0x7fffff, 0x123456, 0x555555)
    for c in chunks([s << 31 | x << 23 | y for s in (0, 1) for x in range(256) for y in m], 32):
        yield 'f', c
    m = (0, 1, 1 << 51, (1 << 52) - 1, 0x123456789abcd) if tier == 'quick' else tuple(1 << i for i in range(52)) + (0, (1 << 52) - 1, 0x123456789abcd)
    for c in chunks([s << 63 | x << 52 | y for s in (0, 1) for x in range(0, 2048, 1) for y in m], 32):
        yield 'd', c
    yield 'other', None


def run_floats(case, ctx):
    k, vals = case
    if k == 'other':
        for e in ENDS:
            for v in (3.5e38, -3.5e38, 1e300, 'x', None, b'1234'):
                refused_write(ctx, lambda w: w.WriteFloat(v, **kw(e)), 'float', e, v)
            for v in ('x', None, b'12345678', 1 << 1100):
                refused_write(ctx, lambda w: w.WriteDouble(v, **kw(e)), 'double', e, v)
            for v in (0.1, 1 / 3, 2.5, 100, -7, 16777217.0, 1e-40, 3.4028235e38):
                o = {'>': '>'}.get(e, '<')
                written(ctx, lambda w: w.WriteFloat(v, **kw(e)), struct.pack(o + 'f', v), 'float', e, v, count='count')
                written(ctx, lambda w: w.WriteDouble(v, **kw(e)), struct.pack(o + 'd', v), 'double', e, v, count='count')
        return
    n, name = (4, 'Float') if k == 'f' else (8, 'Double')
    for bits in vals:
        big = bits.to_bytes(n, 'big')
        v = struct.unpack('>' + k, big)[0]
        nan = math.isnan(v)
        for e in ENDS:
            want = big if e == '>' else big[::-1]
            if not nan:
                written(ctx, lambda w: getattr(w, 'Write' + name)(v, **kw(e)), want, name, e, v, count='count')
            # compared through the bit pattern, so that -0.0 differs from 0.0
            read_back(ctx, lambda r: getattr(r, 'Read' + name)(**kw(e)), want, 'nan' if nan else struct.pack('>d', v), name, e, bits,
                      key=lambda x: 'nan' if math.isnan(x) else struct.pack('>d', x))


def gen_fixed8(tier):
    u = int_boundaries(64)
    yield from chunks([x - (1 << 64) if x >> 63 else x for x in u], 64)


def run_fixed8(vals, ctx):
    from neocore.Fixed8 import Fixed8
    for v in vals:
        want = v.to_bytes(8, 'little', signed=True)
        for kwargs in ({}, {'unsigned': False}, {'unsigned': True}):
            f = Fixed8(v)
            written(ctx, lambda w: w.WriteFixed8(f, **kwargs), want, 'fixed8', v, count='count')
            ctx.eq(f.value, v, 'operand', v)
        read_back(ctx, lambda r: r.ReadFixed8(), want, v, 'fixed8', v, key=lambda x: x.value, typ=Fixed8)
    for v in (1 << 63, -(1 << 63) - 1, 1 << 64, -(1 << 64), 1 << 100):
        refused_write(ctx, lambda w: w.WriteFixed8(Fixed8(v)), 'fixed8 range', v)


FAMILIES = [
    Family('bytes-bools-chars', gen_small, run_small, 'all 256 bytes in every accepted kind, both booleans, bad kinds'),
    Family('integers', gen_ints, run_ints, 'all 8 and 16 bit values; 32/64 bit: powers of two +-2, every byte position x boundary bytes x 3 backgrounds, pairs of byte positions; x 3 byte orders'),
    Family('out-of-range', gen_ranges, run_ranges, 'per type and byte order: range limits +-1,+-2, other widths, other kinds'),
    Family('floats', gen_floats, run_floats, 'every sign and exponent of binary32/binary64 x mantissa alphabet x 3 byte orders'),
    Family('amounts', gen_fixed8, run_fixed8, '64 bit boundary alphabet'),
]
