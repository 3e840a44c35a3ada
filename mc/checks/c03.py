import io
from mc.common import *
from mc.fields import fields

ASSUMPTIONS = ['streams behave like io.BytesIO', 'identifier contents avoid the known finding recorded under C06']
POINTS = ('Point', 'Infinity')


def n_cheap():
    return [i for i, f in enumerate(fields()) if not f[0].startswith(POINTS)]


def gen_seq(tier):
    n = len(fields())
    cheap = n_cheap()
    yield ()
    for a in range(n):
        yield (a,)
    for a in range(n):
        for b in range(n):
            yield (a, b)
    for a in cheap:
        for b in cheap:
            for c in cheap:
                yield (a, b, c)
    if tier == 'thorough':
        small = [i for i in cheap if i % 3 == 0]
        for a in small:
            for b in small:
                for c in small:
                    for d in small:
                        yield (a, b, c, d)


def run_seq(seq, ctx):
    F = fields()
    from neocore.IO.BinaryWriter import BinaryWriter
    from neocore.IO.BinaryReader import BinaryReader
    s = io.BytesIO()
    w = BinaryWriter(s)
    want = b''
    for i in seq:
        F[i][1](w)
        want += F[i][2]
    ctx.eq(s.getvalue(), want, 'bytes', seq)
    s.seek(0)
    r = BinaryReader(s)
    at = 0
    for k, i in enumerate(seq):
        at += len(F[i][2])
        ctx.eq(F[i][3](r), F[i][4], 'value', k, F[i][0], seq)
        if s.tell() != at:
            raise Violation('after reading %s in %r: position %d, expected %d' % (F[i][0], [F[j][0] for j in seq], s.tell(), at))
    ctx.eq(s.read(), b'', 'nothing left', seq)


def gen_pairs(tier):
    n = len(fields())
    for a in range(n):
        for b in range(n):
            for mode in ('interleaved', 'new objects', 'shared'):
                yield mode, a, b


def run_pairs(case, ctx):
    """writes and reads interleaved on one stream; readers/writers shared or one per operation"""
    mode, a, b = case
    F = fields()
    from neocore.IO.BinaryWriter import BinaryWriter
    from neocore.IO.BinaryReader import BinaryReader
    s = io.BytesIO()
    if mode == 'interleaved':
        w, r = BinaryWriter(s), BinaryReader(s)
        F[a][1](w)
        s.seek(0)
        ctx.eq(F[a][3](r), F[a][4], 'first', case)
        at = s.tell()
        ctx.eq(at, len(F[a][2]), 'position', case)
        F[b][1](w)
        s.seek(at)
        ctx.eq(F[b][3](r), F[b][4], 'second', case)
        s.seek(0)
        ctx.eq(F[a][3](r), F[a][4], 'first again', case)
        ctx.eq(F[b][3](r), F[b][4], 'second again', case)
    elif mode == 'new objects':
        F[a][1](BinaryWriter(s))
        F[b][1](BinaryWriter(s))
        s.seek(0)
        ctx.eq(F[a][3](BinaryReader(s)), F[a][4], 'first', case)
        ctx.eq(F[b][3](BinaryReader(s)), F[b][4], 'second', case)
        # overwriting the first field in place leaves the second alone
        s.seek(0)
        F[a][1](BinaryWriter(s))
        ctx.eq(F[b][3](BinaryReader(s)), F[b][4], 'second after overwrite', case)
    else:
        # two streams at once: each gets its own
        t = io.BytesIO()
        w1, w2 = BinaryWriter(s), BinaryWriter(t)
        F[a][1](w1)
        F[b][1](w2)
        F[b][1](w1)
        F[a][1](w2)
        ctx.eq(t.getvalue(), F[b][2] + F[a][2], 'stream 2', case)
        s.seek(0)
        t.seek(0)
        r1, r2 = BinaryReader(s), BinaryReader(t)
        ctx.eq(F[a][3](r1), F[a][4], 'r1', case)
        ctx.eq(F[b][3](r2), F[b][4], 'r2', case)
        ctx.eq(F[b][3](r1), F[b][4], 'r1', case)
        ctx.eq(F[a][3](r2), F[a][4], 'r2', case)
    ctx.eq(s.getvalue(), F[a][2] + F[b][2], 'bytes', case)


def gen_long(tier):
    n = len(fields())
    for k in range(n):
        for reps in (10, 100, 300):
            if reps > 10 and fields()[k][0].startswith(POINTS):
                continue
            yield [k] * reps
        yield [(k + j) % n for j in range(n)]
        yield [(k - j) % n for j in range(n)]
    for step in range(1, 12):
        yield [(j * step) % n for j in range(3 * n)]


# ------------------------------------------------------------------ refused operations in between
def refusals():
    from neocore.Fixed8 import Fixed8
    from neocore.UInt160 import UInt160
    from neocore.UInt256 import UInt256
    from mc.fixtures import Item
    u160, u256 = UInt160(), UInt256()
    out = []
    for t, bits in (('Int8', 8), ('UInt8', 8), ('Int16', 16), ('UInt16', 16), ('Int32', 32), ('UInt32', 32), ('Int64', 64), ('UInt64', 64)):
        for v in (1 << bits, -(1 << bits)):
            out.append(('%s %d' % (t, v), lambda w, t=t, v=v: getattr(w, 'Write' + t)(v)))
    for v in (-1, 1 << 64, 'x', 1.5):
        out.append(('VarInt %r' % (v,), lambda w, v=v: w.WriteVarInt(v)))
    for t, n in (('abc', 2), ('\u00e9\u00e9', 2), ('\u00e9\u00e9', 3), ('\u20ac', 2), ('x\u20ac', 3), ('', -1), ('\U0001f600\U0001f600', 7)):
        out.append(('FixedString %r %d' % (t, n), lambda w, t=t, n=n: w.WriteFixedString(t, n)))
    out += [('UInt160', lambda w: w.WriteUInt160(u256)), ('UInt256', lambda w: w.WriteUInt256(u160)), ('Char', lambda w: w.WriteChar(b'ab')), ('Byte', lambda w: w.WriteByte(256)),
            ('VarString', lambda w: w.WriteVarString('\u00e9', 'ascii')), ('VarString', lambda w: w.WriteVarString('x', 'no such encoding')),
            ('VarBytes', lambda w: w.WriteVarBytes(5)), ('Fixed8', lambda w: w.WriteFixed8(Fixed8(1 << 63))), ('Double', lambda w: w.WriteDouble('x')), ('Float', lambda w: w.WriteFloat(1e39))]
    return out


def gen_refused(tier):
    for k in range(len(refusals())):
        for a in range(len(fields())):
            yield k, a


def run_refused(case, ctx):
    """a refused write between two others leaves no trace"""
    from neocore.IO.BinaryWriter import BinaryWriter
    from neocore.IO.BinaryReader import BinaryReader
    k, a = case
    F = fields()
    b = (a * 7 + k) % len(F)
    s = io.BytesIO()
    w = BinaryWriter(s)
    F[a][1](w)
    ctx.refused(lambda: refusals()[k][1](w), 'refused', refusals()[k][0], case)
    F[b][1](w)
    ctx.eq(s.getvalue(), F[a][2] + F[b][2], 'bytes', refusals()[k][0], case)
    s.seek(0)
    r = BinaryReader(s)
    ctx.eq((F[a][3](r), F[b][3](r), s.read()), (F[a][4], F[b][4], b''), 'read', refusals()[k][0], case)


def gen_over(tier):
    n = len(fields())
    for a in range(n):
        for pos in (0, 1, 2, 7):
            yield a, pos


def run_over(case, ctx):
    """a write in the middle of a longer stream replaces exactly its own bytes; a read there changes nothing"""
    from neocore.IO.BinaryWriter import BinaryWriter
    from neocore.IO.BinaryReader import BinaryReader
    a, pos = case
    F = fields()
    for fill in (b'\xee', b'\0'):
        for extra in (0, 1, 5, 400):
            s = io.BytesIO(fill * (pos + len(F[a][2]) + extra))
            s.seek(pos)
            F[a][1](BinaryWriter(s))
            want = fill * pos + F[a][2] + fill * extra
            ctx.eq((s.getvalue(), s.tell()), (want, pos + len(F[a][2])), 'overwrite', F[a][0], case, extra)
            s.seek(pos)
            ctx.eq((F[a][3](BinaryReader(s)), s.tell(), s.getvalue()), (F[a][4], pos + len(F[a][2]), want), 'read', F[a][0], case, extra)


FAMILIES = [
    Family('overwrites', gen_over, run_over, 'every field written and read at 4 positions inside streams that end 0, 1, 5 or 400 bytes behind it'),
    Family('refused', gen_refused, run_refused, 'each of 37 refused writes between fields: every field before, a field behind'),
    Family('sequences', gen_seq, run_seq, lambda t: 'all sequences of length <= 2 over %d fields, length 3 over %d fields%s' % (len(fields()), len(n_cheap()), ', length 4 over a third of them' if t == 'thorough' else '')),
    Family('interleavings', gen_pairs, run_pairs, 'all ordered pairs of fields x 3 ways of sharing streams, readers and writers'),
    Family('long-sequences', gen_long, run_seq, 'each field repeated 10/100/300 times, all rotations of the alphabet forwards and backwards, 11 strides'),
]
