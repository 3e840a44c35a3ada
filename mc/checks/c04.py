import io
from mc.common import *
from mc.fields import fields, V32

ASSUMPTIONS = ['streams behave like io.BytesIO', 'a field that has not begun (cut at its first byte) is claimed only for fixed-width fields']


def header(wire):
    return {0xfd: 3, 0xfe: 5, 0xff: 9}.get(wire[0], 1) if wire else 0


def expect(f, cut):
    """('refused',), ('value', v) or None (no claim) for reading field f cut after `cut` bytes"""
    name, _, wire, _, value, kind = f
    if kind == 'fixed':
        return ('refused',)
    if cut == 0 and not name.startswith(('Bytes', 'FixedString')):
        return None
    if kind == 'framed':
        return ('refused',)
    if kind == 'pad':
        return ('value', wire[:cut].rstrip(b'\0'))
    if kind == 'avail':
        if name.startswith('VarBytes'):
            h = header(wire)
            return ('refused',) if cut < h else ('value', wire[h:cut])
        return ('value', wire[:cut])
    if kind == 'list':
        size = (len(wire) - 1) // len(value)
        return ('value', value[:(cut - 1) // size])
    return None


def one(ctx, prefix, f, cut, what):
    data = b''.join(p[2] for p in prefix) + f[2][:cut]
    s, r = rd(data)
    for p in prefix:
        ctx.eq(p[3](r), p[4], 'before', p[0], what)
    e = expect(f, cut)
    if e is None:
        return
    if e[0] == 'refused':
        ctx.refused(lambda: f[3](r), f[0], cut, what)
        ctx.outcome('refused')
    else:
        ctx.eq(f[3](r), e[1], f[0], cut, what)
        ctx.outcome('prefix returned')
    if s.tell() > len(data) or s.getvalue() != data:
        raise Violation('%s cut at %d: the stream was overrun or changed' % (f[0], cut))


def gen_cuts(tier):
    F = fields()
    for i, f in enumerate(F):
        yield (), i
    for j in range(len(F)):
        for i, f in enumerate(F):
            yield (j,), i
    if tier == 'thorough':
        for k in range(0, len(F), 3):
            for j in range(0, len(F), 4):
                for i in range(len(F)):
                    yield (k, j), i


def run_cuts(case, ctx):
    pre, i = case
    F = fields()
    for cut in range(len(F[i][2])):
        one(ctx, [F[j] for j in pre], F[i], cut, pre)


def gen_exact(tier):
    for n in range(0, 301 if tier == 'thorough' else 140):
        yield n


def run_exact(n, ctx):
    data = bytes(i % 251 for i in range(n))
    for have in range(0, n + 1):
        s, r = rd(data[:have])
        if have < n:
            ctx.refused(lambda: r.SafeReadBytes(n), 'exact', n, have)
        else:
            ctx.eq(r.SafeReadBytes(n), data, 'exact', n)
        s, r = rd(data[:have])
        ctx.eq(r.ReadBytes(n), data[:have], 'plain', n, have)
        if n < 128:
            s, r = rd(bytes([n]) + data[:have])
            ctx.eq(r.ReadVarBytes(), data[:have], 'varbytes', n, have)
            for m in ('ReadVarString', 'ReadString'):
                s, r = rd(bytes([n]) + data[:have])
                if have < n:
                    ctx.refused(lambda: getattr(r, m)(), m, n, have)
                else:
                    ctx.eq(getattr(r, m)(), data, m, n)


def gen_lists(tier):
    for cls, size in (('mc.fixtures.Item', 1), ('neocore.UInt160.UInt160', 20), ('neocore.UInt256.UInt256', 32)):
        for n in list(range(1, 12)) + [252, 253, 254, 300]:
            yield cls, size, n


def run_lists(case, ctx):
    cls, size, n = case
    items = [bytes((i * 37 + j * 5) % 200 for j in range(size)) for i in range(n)]
    h = refs.varint(n)
    wire = h + b''.join(items)
    step = 1 if len(wire) < 700 else 13
    for cut in list(range(1, len(wire) + 1, step)) + [len(wire) - 1, len(wire)]:
        s, r = rd(wire[:cut])
        if cut < len(h):
            ctx.refused(lambda: r.ReadSerializableArray(cls), 'count', case, cut)
            continue
        got = r.ReadSerializableArray(cls)
        got = [bytes([x.v]) if size == 1 else bytes(x.Data) for x in got]
        ctx.eq(got, items[:(cut - len(h)) // size], 'list', case, cut)


def gen_varints(tier):
    for v in [0xfd, 0xfe, 0xff, 0x100, 0x101, 0xffff, 0x10000, 0x10001, 0xffffff, 0xffffffff, 1 << 32, (1 << 32) + 1, (1 << 48) - 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1] + [1 << k for k in range(8, 64)]:
        yield v


def run_varints(v, ctx):
    wire = refs.varint(v)
    for cut in range(1, len(wire)):
        for m in ('ReadVarInt', 'ReadVarBytes', 'ReadVarString'):
            s, r = rd(wire[:cut])
            ctx.refused(lambda: getattr(r, m)(max=(1 << 64) - 1), m, v, cut)
        s, r = rd(wire[:cut])
        ctx.refused(lambda: r.ReadSerializableArray('mc.fixtures.Item'), 'array', v, cut)
        s, r = rd(wire[:cut])
        ctx.refused(lambda: r.ReadHashes(), 'hashes', v, cut)


FAMILIES = [
    Family('cuts', gen_cuts, run_cuts, lambda t: 'every field of the alphabet cut at every byte, alone and after every other field' + (' and after pairs of fields' if t == 'thorough' else '')),
    Family('exact-reads', gen_exact, run_exact, lambda t: 'all lengths up to %d with every shorter amount of data' % (300 if t == 'thorough' else 139)),
    Family('lists', gen_lists, run_lists, 'lists of 1..11 and 252..254, 300 elements of 1, 20, 32 bytes cut at every (long lists: every 13th) byte'),
    Family('length-prefixes', gen_varints, run_varints, 'powers of two and boundaries, every cut of the prefix, every reader of a prefix'),
]
