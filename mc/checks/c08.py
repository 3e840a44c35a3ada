import itertools
from mc.common import *

ASSUMPTIONS = ['identifiers are changed only through the library (construction, deserialisation) and through the caller\'s own buffers']


def cls(n):
    from neocore.UInt160 import UInt160
    from neocore.UInt256 import UInt256
    return UInt160 if n == 20 else UInt256


def values(n, tier):
    out = [bytes(n), b'\xff' * n, b'\x80' * n, b'\x7f' * n, bytes(range(n)), bytes(range(n))[::-1]]
    for i in range(n):
        for v in (1, 0x80, 0xff):
            x = bytearray(n)
            x[i] = v
            out.append(bytes(x))
        x = bytearray(b'\x55' * n)
        x[i] = 0x54
        out.append(bytes(x))
        if i + 1 < n:
            x = bytearray(b'\x55' * n)
            x[i], x[i + 1] = 0x56, 0x54
            out.append(bytes(x))
        for j in range(i + 1, n):
            x = bytearray(b'\x55' * n)
            x[i], x[j] = 0x56, 0x54
            out.append(bytes(x))
    return dedup(out)


def gen_pairs(tier):
    for n in (20, 32):
        for v in values(n, tier):
            yield n, v


def run_pairs(case, ctx):
    n, a = case
    key = ('objs', n)
    if key not in ctx.scratch:
        import os
        ctx.scratch[key] = [(v, cls(n)(v)) for v in values(n, os.environ.get('VERIF_TIER', 'quick'))]
    x = cls(n)(data=bytearray(a))
    ia = int.from_bytes(a, 'little')
    hx = hash(x)
    for b, y in ctx.scratch[key]:
        ib = int.from_bytes(b, 'little')
        want = (ia > ib) - (ia < ib)
        got = (x.CompareTo(y), x < y, x <= y, x > y, x >= y, x == y, x != y)
        ctx.eq(got, (want, want < 0, want <= 0, want > 0, want >= 0, want == 0, want != 0), 'order', a, b)
        if want == 0 and hash(y) != hx:
            raise Violation('equal identifiers, different hashes: %r' % (a,))
    ctx.eq(x.GetHashCode(), int.from_bytes(a[:4], 'little'), 'hash code', a)
    import io
    from neocore.IO.BinaryReader import BinaryReader
    for b, y in ctx.scratch[key]:
        x.Deserialize(BinaryReader(io.BytesIO(b)))
        if not (x == y and y == x and hash(x) == hash(y) and bytes(x.Data) == b):
            raise Violation('%r deserialised over %r: %r, hash %r' % (b, a, bytes(x.Data), hash(x)))
        x.Deserialize(BinaryReader(io.BytesIO(a)))
        if hash(x) != hx or bytes(x.Data) != a:
            raise Violation('%r deserialised over %r' % (a, b))
    ctx.step(2 * len(ctx.scratch[key]))


def gen_sort(tier):
    for n in (20, 32):
        vs = values(n, 'quick')
        for k in range(0, len(vs), 2 if tier == 'thorough' else 7):
            yield n, vs[k:] + vs[:k]
            yield n, (vs[k:] + vs[:k])[::-1]
        small = [bytes(n), b'\x01' + bytes(n - 1), bytes(n - 1) + b'\x01', b'\xff' * n, b'\x01' + bytes(n - 2) + b'\x01']
        for p in itertools.permutations(small):
            yield n, list(p)


def run_sort(case, ctx):
    n, vs = case
    objs = [cls(n)(v) for v in vs]
    key = lambda v: int.from_bytes(v, 'little')
    ctx.eq([bytes(o.Data) for o in sorted(objs)], sorted(vs, key=key), 'sorted', n, len(vs), vs[0])
    ctx.eq(bytes(min(objs).Data), min(vs, key=key), 'min', n, vs[0])
    ctx.eq(bytes(max(objs).Data), max(vs, key=key), 'max', n, vs[0])
    d = {o: i for i, o in enumerate(objs)}
    ctx.eq([d.get(cls(n)(v)) for v in vs], list(range(len(vs))), 'dict', n, vs[0])
    ctx.eq(len(set(objs + [cls(n)(v) for v in vs])), len(vs), 'set', n, vs[0])
    ctx.eq(all(cls(n)(v) in objs for v in vs), True, 'in list', n, vs[0])


def gen_foreign(tier):
    for n in (20, 32):
        for k in range(12):
            yield n, k


def run_foreign(case, ctx):
    n, k = case
    from neocore.UIntBase import UIntBase
    x = cls(n)(bytes(range(n)))
    other = [lambda: None, lambda: 0, lambda: int.from_bytes(bytes(range(n)), 'little'), lambda: bytes(range(n)), lambda: bytearray(range(n)), lambda: x.ToString(), lambda: 1.5,
             lambda: cls(52 - n)(bytes(range(52 - n))), lambda: cls(52 - n)(), lambda: UIntBase(19, bytes(range(19))), lambda: UIntBase(0), lambda: [1]][k]()
    ctx.eq(x == other, False, 'eq', case)
    ctx.eq(x != other, True, 'ne', case)
    ctx.eq(other == x, False, 'eq', case)
    for name, f in (('cmp', lambda: x.CompareTo(other)), ('<', lambda: x < other), ('<=', lambda: x <= other), ('>', lambda: x > other), ('>=', lambda: x >= other)):
        ctx.refused(f, name, case)
    zero, small = cls(n)(), cls(52 - n)()
    ctx.eq(zero == small, False, 'widths', n)
    ctx.eq({zero: 1}.get(small), None, 'widths', n)
    same = UIntBase(n, bytes(range(n)))
    ctx.eq((x == same, same == x, hash(x) == hash(same), x.CompareTo(same)), (True, True, True, 0), 'same content', n)


# ------------------------------------------------------------------ histories of two identifiers and two caller's buffers
def ops():
    out = []
    for i in (0, 1):
        out += [('new', i, 0), ('new', i, 1), ('copy', i, 1 - i), ('des', i, 0), ('des', i, 1), ('short', i, 1), ('short', i, 0), ('parse', i, 0)]
    return out + [('mut', 0, 0), ('mut', 1, 0)]


VALS = (0xaa, 0xbb)


def gen_hist(tier):
    o = ops()
    depth = 5 if tier == 'thorough' else 4
    for n in (20, 32):
        for h in itertools.product(range(len(o)), repeat=depth):
            yield n, h


def run_hist(case, ctx):
    import io
    n, h = case
    from neocore.IO.BinaryReader import BinaryReader
    C = cls(n)
    O = ops()
    bufs = [bytearray([0x10] * (n - 1) + [1]), bytearray([0x20] * n)]
    mb = [bytes(b) for b in bufs]
    x = [C(), C(bytes(n))]
    m = [bytes(n), bytes(n)]
    for k in h:
        op, i, j = O[k]
        if op == 'new':
            x[i] = C(data=bufs[j])
            m[i] = mb[j]
        elif op == 'copy':
            x[i] = C(data=x[j].Data)
            m[i] = m[j]
        elif op == 'parse':
            m[i] = bytes([0x77]) * (n - 1) + b'\x01'
            x[i] = C.ParseString(m[i][::-1].hex())
        elif op == 'des':
            v = bytes([VALS[j]]) * n
            x[i].Deserialize(BinaryReader(io.BytesIO(v + b'zz')))
            m[i] = v
        elif op == 'short':
            data = bytes([0xcc]) * (n - 1 if j else 0)
            ctx.refused(lambda: x[i].Deserialize(BinaryReader(io.BytesIO(data))), 'short', case)
        else:
            bufs[i][0] ^= 0xff
            bufs[i][n - 1] ^= 0x81
            mb[i] = bytes(bufs[i])
        fresh = [C(v) for v in m]
        e = m[0] == m[1]
        lt = int.from_bytes(m[0], 'little') < int.from_bytes(m[1], 'little')
        got = (bytes(x[0].Data), bytes(x[1].Data), hash(x[0]) == hash(fresh[0]), hash(x[1]) == hash(fresh[1]), x[0] == fresh[0], x[1] == fresh[1],
               x[0] == x[1], x[0] < x[1], len({x[0], x[1]}), {x[0]: 1}.get(fresh[0]), fresh[1] in {x[1]}, x[0].ToString(), x[1].ToString(), bytes(bufs[0]), bytes(bufs[1]))
        ctx.eq(got, (m[0], m[1], True, True, True, True, e, lt, 1 if e else 2, 1, True, m[0][::-1].hex(), m[1][::-1].hex(), mb[0], mb[1]), 'history', n, tuple(O[q] for q in h))
    ctx.state(m[0], m[1], mb[0], mb[1])


ORIGINS = ['default', 'bytes', 'bytearray', 'parsed', 'read', 'deserialised', 'list', 'list again', 'copy', 'array', 'written']


def origin(k, v, n):
    """two objects of value v (or zero for the default) made in the same way, one after the other; and what they were made from"""
    import io
    from neocore.IO.BinaryReader import BinaryReader
    from neocore.IO.BinaryWriter import BinaryWriter
    C = cls(n)
    name = 'neocore.%s.%s' % (C.__name__, C.__name__)

    def once():
        if k == 'default':
            return C()
        if k == 'bytes':
            return C(data=v)
        if k == 'bytearray':
            return C(bytearray(v))
        if k == 'parsed':
            return C.ParseString(v[::-1].hex())
        if k == 'read':
            r = BinaryReader(io.BytesIO(v))
            return r.ReadUInt160() if n == 20 else r.ReadUInt256()
        if k == 'deserialised':
            u = C()
            u.Deserialize(BinaryReader(io.BytesIO(v)))
            return u
        if k == 'list':
            return BinaryReader(io.BytesIO(b'\x01' + v)).ReadSerializableArray(name)[0]
        if k == 'list again':
            return BinaryReader(io.BytesIO(b'\x02' + v * 2)).ReadSerializableArray(name)[1]
        if k == 'copy':
            return C(data=C(data=v).Data)
        if k == 'array':
            return C(data=C(data=v).ToArray())
        s = io.BytesIO()
        C(data=v).Serialize(BinaryWriter(s))
        return C(data=s.getvalue())
    return once


def gen_origins(tier):
    for n in (20, 32):
        for a in ORIGINS:
            for b in ORIGINS:
                yield n, a, b


def run_origins(case, ctx):
    """an identifier changed in place or deserialised changes no other, and none that is made later"""
    import io
    from neocore.IO.BinaryReader import BinaryReader
    n, a, b = case
    for v in (bytes(n), bytes(range(0x80, 0x80 + n)), b'\xff' * n, b'\x01' + bytes(n - 1)):
        for change in ('in place', 'deserialise', 'array'):
            va, vb = (bytes(n) if a == 'default' else v), (bytes(n) if b == 'default' else v)
            A, B = origin(a, v, n), origin(b, v, n)
            x, y, z = A(), B(), A()
            hy = hash(y)
            if change == 'in place':
                for i in range(n):
                    x.Data[i] ^= 0x5a
            elif change == 'deserialise':
                x.Deserialize(BinaryReader(io.BytesIO(b'\x99' * n)))
            else:
                t = x.ToArray()
                if isinstance(t, bytearray) and t is not x.Data:
                    t[0] ^= 1
            ctx.eq((bytes(y.Data), bytes(z.Data), bytes(A().Data), bytes(B().Data)), (vb, va, va, vb), 'others unchanged', case, change, v)
            ctx.eq((hash(y) == hy, hash(B()) == hy, y == B(), z == A()), (True,) * 4, 'hashes', case, change, v)


def gen_shared(tier):
    for n in (20, 32):
        for k in range(4):
            yield n, k


def run_shared(case, ctx):
    """fresh identifiers, and those read from lists, do not share storage"""
    n, k = case
    import io
    from neocore.IO.BinaryReader import BinaryReader
    C = cls(n)
    if k == 0:
        a, b = C(), C()
    elif k == 1:
        d = bytearray(range(n))
        a, b = C(d), C(d)
    elif k == 2:
        a = C(bytes(range(n)))
        b = C(a.ToArray())
    else:
        a, b = BinaryReader(io.BytesIO(b'\x02' + bytes(2 * n))).ReadSerializableArray('neocore.%s.%s' % (C.__name__, C.__name__))
    before = bytes(b.Data)
    a.Deserialize(BinaryReader(io.BytesIO(b'\x99' * n)))
    ctx.eq(bytes(b.Data), before, 'other unchanged by deserialise', case)
    a.Data[3] ^= 0x42
    ctx.eq(bytes(b.Data), before, 'other unchanged by a write into the bytes', case)
    ctx.eq(bytes(C().Data), bytes(n), 'default unchanged', case)


FAMILIES = [
    Family('pairs', gen_pairs, run_pairs, 'all ordered pairs of an alphabet: every byte position alone (3 values, 2 backgrounds), all pairs of positions in opposite directions; both widths; compared, and deserialised over each other'),
    Family('sorting', gen_sort, run_sort, 'rotations of the alphabet forwards and backwards, all permutations of 5 values; sets and dicts'),
    Family('foreign', gen_foreign, run_foreign, '12 foreign objects and other widths'),
    Family('histories', gen_hist, run_hist, lambda t: 'all histories of length %d over %d operations on two identifiers and two caller buffers, both widths' % (5 if t == 'thorough' else 4, len(ops()))),
    Family('origins', gen_origins, run_origins, 'all ordered pairs of 11 ways to obtain an identifier x 4 contents x 3 ways to change the first; both widths'),
    Family('sharing', gen_shared, run_shared, '4 ways to obtain two identifiers'),
]
