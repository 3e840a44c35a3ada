"""shared by the check modules"""
import io, itertools
from mc.engine import Family, Violation
from mc import refs

PRE = b'\xa5\x5a\x01'
POST = b'\xc3\x3c\x7e\x00\xff' * 6


def wr(stream=None):
    from neocore.IO.BinaryWriter import BinaryWriter
    s = stream if stream is not None else io.BytesIO()
    return s, BinaryWriter(s)


def rd(data, at=0):
    from neocore.IO.BinaryReader import BinaryReader
    s = io.BytesIO(bytes(data))
    s.seek(at)
    return s, BinaryReader(s)


def written(ctx, op, expected, *what, count='ignore'):
    """op(writer) appends exactly `expected` behind existing content; optional exact count"""
    s, w = wr()
    s.write(PRE)
    n = op(w)
    ctx.eq(s.getvalue(), PRE + expected, 'written', *what)
    if s.tell() != len(PRE) + len(expected):
        raise Violation('%r: position %d after the write' % (what, s.tell()))
    if count == 'count':
        ctx.eq(n, len(expected), 'count', *what)
    return n


def refused_write(ctx, op, *what):
    """op(writer) raises and leaves the stream as it was"""
    s, w = wr()
    s.write(PRE)
    ctx.refused(lambda: op(w), *what)
    ctx.eq(s.getvalue(), PRE, 'untouched', *what)


def read_back(ctx, op, data, expected, *what, key=lambda x: x, typ=None):
    """op(reader) on data (with other bytes before and behind) gives expected and consumes exactly data"""
    s, r = rd(PRE + data + POST, len(PRE))
    v = op(r)
    if typ is not None:
        ctx.check(type(v) is typ, 'type', type(v).__name__, typ.__name__, *what)
    ctx.eq(key(v), expected, 'read', *what)
    ctx.eq(s.tell() - len(PRE), len(data), 'consumed', *what)
    # and at the very end of a stream
    s, r = rd(data)
    ctx.eq(key(op(r)), expected, 'read at end', *what)
    return v


def chunks(xs, n):
    xs = list(xs)
    for i in range(0, len(xs), n):
        yield xs[i:i + n]


def dedup(xs):
    seen = set()
    out = []
    for x in xs:
        if x not in seen:
            seen.add(x)
            out.append(x)
    return out


def byte_walk(n, backgrounds=(0, 0xff, 0x5a), values=range(256)):
    """every value at every byte position over each background"""
    for b in backgrounds:
        for i in range(n):
            for v in values:
                x = bytearray([b]) * n
                x[i] = v
                yield bytes(x)


def pair_walk(n, backgrounds=(0, 0xff), values=(0x01, 0x7f, 0x80, 0xfe), step=1):
    for b in backgrounds:
        for i in range(0, n, step):
            for j in range(i + 1, n, step):
                for v in values:
                    for w in values:
                        x = bytearray([b]) * n
                        x[i], x[j] = v, w
                        yield bytes(x)


def int_boundaries(bits):
    """powers of two and their neighbours, all-equal and walking bytes; as unsigned values of that many bits"""
    out = set()
    for k in range(bits):
        for d in (-2, -1, 0, 1, 2):
            out.add(((1 << k) + d) % (1 << bits))
            out.add((-(1 << k) + d) % (1 << bits))
    n = bits // 8
    for x in byte_walk(n, values=(0, 1, 2, 0x7f, 0x80, 0xfd, 0xfe, 0xff, 0x30, 0x61)):
        out.add(int.from_bytes(x, 'big'))
    for x in pair_walk(n):
        out.add(int.from_bytes(x, 'big'))
    out.add(int.from_bytes(bytes(range(1, n + 1)), 'big'))
    out.add(int.from_bytes(bytes(range(0xf1, 0xf1 + n)), 'big'))
    return sorted(out)
