import sys
from mc.common import *
from mc.checks import c45

ASSUMPTIONS = ['streams behave like io.BytesIO']
U64 = (1 << 64) - 1


# ------------------------------------------------------------------ integers
def varint_values(tier):
    yield from range(0, 70001)
    for k in range(15, 65):
        for d in range(-3, 4):
            v = (1 << k) + d
            if 70000 < v <= U64:
                yield v
    for v in int_boundaries(64) if tier == 'thorough' else int_boundaries(32) + int_boundaries(64)[::7]:
        if v > 70000:
            yield v
    for lead in (0xfd, 0xfe, 0xff):
        for n in (2, 4, 8):
            yield int.from_bytes(bytes([lead]) * n, 'little')
            yield int.from_bytes(bytes([lead, 1] * (n // 2)), 'little')


def gen_varint(tier):
    yield from chunks(varint_values(tier), 64)


def run_varint(vals, ctx):
    from neocore.BigInteger import BigInteger
    for v in vals:
        want = refs.varint(v)
        written(ctx, lambda w: w.WriteVarInt(v), want, v, count='count')
        if v <= sys.maxsize:
            read_back(ctx, lambda r: r.ReadVarInt(), want, v, v)
        read_back(ctx, lambda r: r.ReadVarInt(max=v), want, v, v)
        read_back(ctx, lambda r: r.ReadVarInt(max=U64), want, v, v)
        if v:
            ctx.refused(lambda: rd(want + POST)[1].ReadVarInt(max=v - 1), 'limit', v)
        if v < 300 or 65500 < v < 65600 or v > 70000:
            written(ctx, lambda w: w.WriteVarInt(BigInteger(v)), want, v, count='count')
            written(ctx, lambda w: w.WriteVarInt(v, '<'), want, v, count='count')
            big = want[:1] + want[1:][::-1]
            written(ctx, lambda w: w.WriteVarInt(v, '>'), big, v, '>', count='count')
            written(ctx, lambda w: w.WriteVarInt(v, endian='>'), big, v, '>', count='count')


def gen_bad(tier):
    for k in range(0, 80):
        yield -(1 << k)
        yield -(1 << k) - 1
    for v in (U64 + 1, U64 + 2, 1 << 65, 1 << 70, 1 << 128, (1 << 64) + 0xfc, (1 << 72) + 5):
        yield v
    for v in (0.0, 1.0, 1.5, '1', '', b'\x01', b'', None):
        yield v


def run_bad(v, ctx):
    for e in ({}, {'endian': '<'}, {'endian': '>'}):
        refused_write(ctx, lambda w: w.WriteVarInt(v, **e), v, e)


# ------------------------------------------------------------------ byte strings
LENS = [0, 1, 2, 3, 7, 8, 31, 32, 33, 64, 127, 128, 129, 251, 252, 253, 254, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 9999, 10000, 16383, 16384, 16385, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 65538, 70000, 100000, 131071, 131072, 131073]


def contents(n):
    yield bytes(n)
    yield b'\xff' * n
    yield (b'0123456789abcdefABCDEF' * (n // 22 + 1))[:n]
    yield bytes(i * 7 % 256 for i in range(n))
    if n:
        yield b'\xfd' + b'\x03\x00' * n
        yield bytes(n - 1) + b'\x80'
        yield b' ' * n


def gen_varbytes(tier):
    for v in range(256):
        yield bytes([v])
    hexs = b'09afAF'
    for a in hexs:
        for b in hexs:
            yield bytes([a, b])
            yield bytes([a, b, 0])
            yield bytes([a, b, a, b])
    for n in range(0, 2200 if tier == 'thorough' else 620):
        yield from contents(n)
    for n in LENS:
        yield from contents(n)
    if tier == 'thorough':
        yield bytes(range(256)) * 70000        # 17.9 MB


def run_varbytes(b, ctx):
    n = len(b)
    want = refs.varint(n) + b
    written(ctx, lambda w: w.WriteVarBytes(b), want, 'varbytes', n, b[:40], count='count')
    written(ctx, lambda w: w.WriteVarBytes(bytearray(b)), want, 'varbytes', n, b[:40], count='count')
    written(ctx, lambda w: w.WriteVarBytes(b, '<'), want, 'varbytes<', n, b[:40], count='count')
    big = want[:1] + want[1:len(want) - n][::-1] + b
    written(ctx, lambda w: w.WriteVarBytes(b, '>'), big, 'varbytes>', n, b[:40], count='count')
    written(ctx, lambda w: w.WriteVarBytes(b, endian='>'), big, 'varbytes>', n, b[:40], count='count')
    read_back(ctx, lambda r: r.ReadVarBytes(), want, b, 'varbytes', n)
    read_back(ctx, lambda r: r.ReadVarBytes(max=n), want, b, 'varbytes', n)
    read_back(ctx, lambda r: r.ReadVarBytes(n + 1), want, b, 'varbytes', n)
    written(ctx, lambda w: w.WriteVarString(b), want, 'varstring of bytes', n, b[:40])
    read_back(ctx, lambda r: r.ReadVarString(), want, b, 'varstring', n)
    read_back(ctx, lambda r: r.ReadVarString(max=n), want, b, 'varstring', n)
    if n:
        for m in {0, 1, n // 2, n - 1, n & 0xff, n % 253} - {n}:
            if m < n:
                ctx.refused(lambda: rd(want + POST)[1].ReadVarBytes(max=m), 'limit bytes', n, m)
                ctx.refused(lambda: rd(want + POST)[1].ReadVarString(max=m), 'limit string', n, m)
    if n < 256:
        read_back(ctx, lambda r: r.ReadString(), bytes([n]) + b, b, 'string8', n)
    # raw bytes
    written(ctx, lambda w: w.WriteBytes(b, unhex=False), b, 'raw', n, b[:40], count='count')
    written(ctx, lambda w: w.WriteBytes(bytearray(b), unhex=False), b, 'raw', n, b[:40], count='count')
    read_back(ctx, lambda r: r.ReadBytes(n), b, b, 'raw', n)
    read_back(ctx, lambda r: r.SafeReadBytes(n), b, b, 'raw', n)
    want = bytes.fromhex(b.decode()) if refs.hexlike(b) else b
    written(ctx, lambda w: w.WriteBytes(b), want, 'unhex', n, b[:40], count='count')
    written(ctx, lambda w: w.WriteBytes(b.hex().encode()), b, 'hex in', n, b[:40], count='count')
    written(ctx, lambda w: w.WriteBytes(b.hex()), b, 'hex text in', n, b[:40], count='count')


# ------------------------------------------------------------------ texts
ENCODINGS = [None, 'utf-8', 'ascii', 'latin-1', 'cp1252', 'utf-16', 'utf-16-le', 'utf-16-be', 'utf-32', 'utf-32-le', 'shift_jis', 'big5', 'koi8-r', 'utf-7', 'utf-8-sig', 'cp037']
ATOMS = ['', 'a', '0', 'ab', 'deadbeef', 'DEADBEEF', '00', 'A1', 'é', 'ß', '\u20ac', '日本語', 'ЖД', '\U0001f600', '\ud800', 'a\x00b', ' ', '\n', '\x7f', '\xa0', 'e\u0301', 'aé', '\ufeff', 'ab' * 16]


def texts(tier):
    yield from ATOMS
    for n in (63, 64, 125, 126, 127, 128, 251, 252, 253, 254, 255, 256, 257, 32767, 32768, 65535, 65536):
        for c in ('a', 'é', '日'):
            if n > 300 and tier == 'quick' and c == '日':
                continue
            yield c * n
            yield 'x' * (n - 1) + c
    for a in ATOMS:
        for b in ATOMS:
            yield a + b


def gen_text(tier):
    for t in dedup(texts(tier)):
        yield {'cp': [ord(c) for c in t]} if '\ud800' in t else t


def untext(t):
    return ''.join(map(chr, t['cp'])) if isinstance(t, dict) else t


def run_text(t, ctx):
    t = untext(t)
    for e in ENCODINGS:
        args = () if e is None else (e,)
        try:
            b = t.encode(e or 'utf-8')
        except UnicodeEncodeError:
            refused_write(ctx, lambda w: w.WriteVarString(t, *args), 'text', e, ascii(t)[:60])
            continue
        want = refs.varint(len(b)) + b
        written(ctx, lambda w: w.WriteVarString(t, *args), want, 'text', e, ascii(t)[:60], len(t))
        if e:
            written(ctx, lambda w: w.WriteVarString(t, encoding=e), want, 'text', e, ascii(t)[:60], len(t))
        read_back(ctx, lambda r: r.ReadVarString(), want, b, 'text', e, ascii(t)[:60])
        ctx.eq(rd(want)[1].ReadVarString().decode(e or 'utf-8'), b.decode(e or 'utf-8'), 'decoded', e, ascii(t)[:60])


def gen_badtext(tier):
    yield 'a', 'no-such-encoding'
    for v in (None, 5, 1.5):
        yield v, None


def run_badtext(case, ctx):
    v, e = case
    refused_write(ctx, lambda w: w.WriteVarString(v, e) if e else w.WriteVarString(v), v, e)
    if e is None:
        refused_write(ctx, lambda w: w.WriteVarBytes(v), 'bytes', v)


# ------------------------------------------------------------------ fixed size texts
FIXED = ['', 'a', 'ab', 'deadbeef', '00', '0011', 'A' * 7, 'é', 'éé', '日本', 'a日', '\U0001f600', 'a\x00b', '\x00a', '\x00\x00a', '0' * 16, 'f' * 32, 'x' * 39, 'ab' * 16, '\u20ac' * 10, ' ', 'a ', '\n', 'ff\n', 'x' * 255, 'é' * 128, 'a' * 300]


def gen_fixed(tier):
    for t in FIXED:
        n = len(t.encode())
        sizes = set(range(0, 44)) | {n - 2, n - 1, n, n + 1, n + 2, len(t) - 1, len(t), len(t) + 1, 2 * n, 64, 100, 128, 255, 256, 257, 1000}
        if tier == 'thorough':
            sizes |= set(range(0, 530))
        for size in sorted(s for s in sizes if s >= 0):
            yield t, size


def run_fixed(case, ctx):
    t, size = case
    b = t.encode()
    if len(b) > size:
        refused_write(ctx, lambda w: w.WriteFixedString(t, size), 'fixed', ascii(t), size)
        return
    want = b + bytes(size - len(b))
    written(ctx, lambda w: w.WriteFixedString(t, size), want, 'fixed', ascii(t), size)
    read_back(ctx, lambda r: r.ReadFixedString(size), want, b.rstrip(b'\0'), 'fixed', ascii(t), size)


def gen_fixedbad(tier):
    yield from ((None, 4), (5, 4), ({'cp': [0xd800]}, 9), ({'cp': [97, 0xdfff]}, 9), ('a', 0), ('ab', 1), ('a', -1))


def run_fixedbad(case, ctx):
    t, n = case
    t = untext(t)
    refused_write(ctx, lambda w: w.WriteFixedString(t, n), ascii(t), n)


FAMILIES = [
    Family('integers', gen_varint, run_varint, 'all 0..70000, powers of two +-3 to 2^64, 64 bit boundary alphabet, every limit around the value'),
    Family('bad-integers', gen_bad, run_bad, 'negative powers of two to -2^80, 2^64 and above, other kinds'),
    Family('byte-strings', gen_varbytes, run_varbytes, 'all of length 1, hexadecimal alphabets, all lengths to 619 and %d up to 131073 x 7 contents, limits' % len(LENS)),
    Family('texts', gen_text, run_text, 'text alphabet, all pairs, boundary lengths x %d encodings' % len(ENCODINGS)),
    Family('bad-texts', gen_badtext, run_badtext, 'other kinds, unknown encoding'),
    Family('fixed-texts', gen_fixed, run_fixed, '%d texts x sizes 0..43 and around the length' % len(FIXED)),
    Family('bad-fixed-texts', gen_fixedbad, run_fixedbad, 'other kinds, not encodable, too long'),
    Family('sizes', c45.gen_fields, c45.run_fields, 'byte strings and texts of sizes around every power of two and ten up to 2 MiB (thorough: 16)'),
]
