from mc.common import *
from mc.fields import fields

ASSUMPTIONS = ['streams behave like io.BytesIO']


def cls(n):
    from neocore.UInt160 import UInt160
    from neocore.UInt256 import UInt256
    return UInt160 if n == 20 else UInt256


def check_value(ctx, data):
    """serialise through every way; hexadecimal-looking contents are the known finding"""
    n = len(data)
    u = cls(n)(data=data)
    ways = (('Serialize', lambda w: u.Serialize(w)), ('Write', lambda w: (w.WriteUInt160 if n == 20 else w.WriteUInt256)(u)),
            ('Array', lambda w: w.WriteSerializableArray([u])))
    for name, op in ways:
        s, w = wr()
        s.write(PRE)
        op(w)
        got = s.getvalue()[len(PRE):]
        if name == 'Array':
            ctx.eq(got[:1], b'\x01', 'count', data)
            got = got[1:]
        if got != data and refs.hexlike(data) and got == bytes.fromhex(data.decode()):
            ctx.known('C06-hex-looking-identifier', 'an identifier whose bytes are all ASCII hexadecimal digits is written as %d bytes' % (n // 2))
            continue
        ctx.eq(got, data, name, data)
    ctx.eq(bytes(u.Data), data, 'unchanged', data)
    ctx.eq(bytes(u.ToArray()), data, 'ToArray', data)
    ctx.eq(u.Size, n, 'Size', n)

    def des(r):
        v = cls(n)()
        v.Deserialize(r)
        return v
    key = lambda v: (bytes(v.Data), v == u, hash(v) == hash(u))
    read_back(ctx, des, data, (data, True, True), 'deserialize', data, key=key)
    read_back(ctx, lambda r: (r.ReadUInt160 if n == 20 else r.ReadUInt256)(), data, (data, True, True), 'read', data, key=key)
    s, r = rd(b'\x01' + data)
    ctx.eq([bytes(x.Data) for x in r.ReadSerializableArray(cls(n).__module__ + '.' + cls(n).__name__)], [data], 'array', data)


def gen_values(tier):
    for n in (20, 32):
        vals = [bytes([b]) * n for b in range(256)]
        vals += list(byte_walk(n, (0, 0xff, 0x61, 0x5a)))
        vals += list(pair_walk(n, (0, 0x30), (0x00, 0x47, 0x80), 1 if tier == 'thorough' else 3))
        h = b'0123456789abcdefABCDEF0123456789'
        vals += [h[:n], h[::-1][:n], b'f' * n, b'0' * n, b'0x' + b'a' * (n - 2), b'-' + b'1' * (n - 1), b'1' * (n - 1) + b' ', b' ' + b'1' * (n - 1), b'1' * (n - 1) + b'\n', b'aa ' * 7 + b'aa' * 6]
        # one non-digit among digits, every position x neighbours of the digit ranges
        for i in range(n):
            for b in (0x2f, 0x3a, 0x40, 0x47, 0x60, 0x67, 0x20, 0x0a, 0, 0xff, 0x30, 0x41, 0x66):
                vals.append(h[:i] + bytes([b]) + h[i + 1:n])
        for v in dedup(v[:n] for v in vals):
            if len(v) == n:
                yield v


def run_values(v, ctx):
    check_value(ctx, v)


def gen_over(tier):
    for n in (20, 32):
        base = [bytes(n), b'\xff' * n, bytes(range(0x80, 0x80 + n)), bytes(n - 1) + b'\x80', b'\x80' + bytes(n - 1)]
        vals = base + [b'\x91' * k + bytes(n - k) for k in range(1, n)] + [bytes(k) + b'\x92' * (n - k) for k in range(1, n)] + [b'\x61' * k + b'\xff' * (n - k) for k in (1, n // 2, n - 1)]
        for a in vals:
            yield a, vals


def run_over(case, ctx):
    """one object that receives value after value"""
    import io
    from neocore.IO.BinaryReader import BinaryReader
    a, vals = case
    n = len(a)
    u = cls(n)(data=a)
    for b in vals:
        for v in (b, a):
            s = io.BytesIO(v + POST)
            u.Deserialize(BinaryReader(s))
            ctx.eq((bytes(u.Data), s.tell(), bytes(u.ToArray()), len(u.Data)), (v, n, v, n), 'over', a, b)
    t = io.BytesIO()
    from neocore.IO.BinaryWriter import BinaryWriter
    u.Serialize(BinaryWriter(t))
    ctx.eq(t.getvalue(), a, 'serialised', a)


def gen_bad(tier):
    for n in (20, 32):
        for k in range(9):
            yield n, k


def run_bad(case, ctx):
    n, k = case
    from neocore.UIntBase import UIntBase
    bad = [lambda: cls(52 - n)(), lambda: bytes(n), lambda: bytearray(n), lambda: '00' * n, lambda: None, lambda: 0, lambda: [0] * n, lambda: cls(n), lambda: UIntBase(n)][k]()
    refused_write(ctx, lambda w: (w.WriteUInt160 if n == 20 else w.WriteUInt256)(bad), n, k)


def gen_mixed(tier):
    for i in range(len(fields())):
        for n in (20, 32):
            yield i, n


def run_mixed(case, ctx):
    i, n = case
    f = fields()[i]
    from neocore.UInt160 import UInt160
    for data in (bytes(range(0x70, 0x70 + n)), bytes(n), b'\xff' * n):
        u = cls(n)(data=data)

        def op(w):
            u.Serialize(w)
            f[1](w)
            u.Serialize(w)
            (w.WriteUInt160 if n == 20 else w.WriteUInt256)(u)
        written(ctx, op, data + f[2] + data + data, 'mixed', case)
        s, r = rd(data + f[2] + data)
        v = cls(n)()
        v.Deserialize(r)
        ctx.eq(bytes(v.Data), data, 'first', case)
        ctx.eq(f[3](r), f[4], 'field', case)
        ctx.eq(bytes((r.ReadUInt160 if n == 20 else r.ReadUInt256)().Data), data, 'second', case)


FAMILIES = [
    Family('values', gen_values, run_values, 'constant bytes, every byte value at every position over 4 backgrounds, position pairs, hexadecimal-looking contents with one other byte at every position; both widths; every way to write and read'),
    Family('over-each-other', gen_over, run_over, 'all ordered pairs of about 70 contents (zero and non-zero runs of every length) deserialised into one object; both widths'),
    Family('wrong-kinds', gen_bad, run_bad, '9 wrong kinds x both widths'),
    Family('mixed', gen_mixed, run_mixed, 'before, between and after every field of the alphabet'),
]
