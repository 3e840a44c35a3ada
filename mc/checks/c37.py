"""every kind of binary stream gives and takes the same bytes"""
import contextlib, io, itertools
from mc.common import *
from mc.fields import fields
from mc import streams

ASSUMPTIONS = ['a stream whose read may give fewer bytes than asked for while more are to come (a raw, unbuffered pipe or socket) is outside the claim: io.BufferedReader goes in between',
               'a field cut short is compared with io.BytesIO: the same value, or refused both times']
DIRECT = ('io.BytesIO', 'memory stream', 'scrambling subclass', 'only write', 'file wb unbuffered', 'file w+b unbuffered')


def readers(s):
    from neocore.IO.BinaryReader import BinaryReader
    return BinaryReader(s)


def writers(s):
    from neocore.IO.BinaryWriter import BinaryWriter
    return BinaryWriter(s)


def outcome(f):
    try:
        return 'value', f()
    except Exception as e:
        return 'refused', None


def picks(tier):
    n = len(fields())
    return range(n) if tier == 'thorough' else [i for i in range(n) if i % 3 == 0]


# every field, and every pair of fields, on every kind
def gen_kinds(tier):
    n = len(fields())
    for k in range(len(streams.SINKS)):
        for i in range(n):
            yield 'w', k, i
    for k in range(len(streams.SOURCES)):
        for i in range(n):
            yield 'r', k, i


def gen_kinds_t(tier):
    for d, k, i in gen_kinds(tier):
        yield d, k, i, True


def run_kinds(case, ctx):
    d, k, i, deep = case
    F = fields()
    n = len(F)
    others = range(n) if deep else range(i % 4, n, 4)
    if d == 'w':
        kind, make = streams.SINKS[k]
        with contextlib.ExitStack() as st:
            s, content = make(st)
            w = writers(s)
            want = b''
            for j in others:
                F[i][1](w)
                F[j][1](w)
                want += F[i][2] + F[j][2]
            ctx.eq(content(), want, kind, F[i][0], 'and every other')
        for j in (None,) if not deep else (None, (i * 7 + 3) % n):
            with contextlib.ExitStack() as st:
                s, content = make(st)
                if j is not None:
                    F[j][1](writers(s))
                F[i][1](writers(s))
                ctx.eq(content(), (F[j][2] if j is not None else b'') + F[i][2], kind, F[i][0], j)
    else:
        kind, make = streams.SOURCES[k]
        data = b''.join(F[i][2] + F[j][2] for j in others)
        with contextlib.ExitStack() as st:
            s = make(st, data + POST)
            r = readers(s)
            for j in others:
                ctx.eq(F[i][3](r), F[i][4], kind, F[i][0])
                ctx.eq(F[j][3](r), F[j][4], kind, F[j][0], 'behind', F[i][0])
            ctx.eq(s.read(len(POST) + 9), POST, kind, 'the rest')
    ctx.outcome(kind)
    ctx.state(case)


# a field cut short: the same outcome on every kind as on io.BytesIO
def gen_cuts(tier):
    F = fields()
    for i in range(len(F)):
        wire = F[i][2]
        cuts = range(len(wire)) if tier == 'thorough' or len(wire) <= 70 else dedup([0, 1, 2, 3, len(wire) // 2, len(wire) - 2, len(wire) - 1])
        for cut in cuts:
            if F[i][0].startswith('Array') and len(wire) == 0:
                continue
            yield i, cut


def run_cuts(case, ctx):
    i, cut = case
    F = fields()
    name, write, wire, read, value = F[i][:5]
    data = wire[:cut]
    want = outcome(lambda: read(readers(io.BytesIO(data))))
    for kind, make in streams.SOURCES[1:]:
        with contextlib.ExitStack() as st:
            s = make(st, data)
            got = outcome(lambda: read(readers(s)))
            ctx.eq(got, want, kind, name, cut)
            ctx.eq(s.read(9), b'', kind, name, cut, 'nothing left')
    # and behind another field
    for kind, make in streams.SOURCES[1:]:
        with contextlib.ExitStack() as st:
            s = make(st, F[5][2] + data)
            r = readers(s)
            ctx.eq(F[5][3](r), F[5][4], kind)
            ctx.eq(outcome(lambda: read(r)), want, kind, name, cut, 'behind another')
    ctx.outcome(want[0])
    ctx.state(case)


# nothing is read ahead, nothing is held back
def gen_live(tier):
    n = len(fields())
    for i in range(n):
        for j in range(n):
            yield i, j


def run_live(case, ctx):
    i, j = case
    F = fields()
    s = streams.Live(F[i][2])
    r = readers(s)
    ctx.eq(F[i][3](r), F[i][4], F[i][0], 'live')
    ctx.eq(s.at, len(F[i][2]), F[i][0], 'read exactly')
    s.data += F[j][2]
    ctx.eq(F[j][3](r), F[j][4], F[j][0], 'live, behind', F[i][0])
    ctx.eq(s.at, len(s.data), F[j][0], 'read exactly')
    for kind, make in streams.SINKS:
        if kind not in ('io.BytesIO', 'memory stream', 'scrambling subclass', 'only write'):
            continue
        s, content = make(None)
        w = writers(s)
        F[i][1](w)
        ctx.eq(content(), F[i][2], kind, F[i][0], 'not held back')
        F[j][1](w)
        ctx.eq(content(), F[i][2] + F[j][2], kind, F[j][0], 'not held back')
    ctx.state(case)


# who reads and writes next is free: two readers, two writers and the stream itself, all schedules
def gen_shared(tier):
    F = fields()
    n = len(F)
    depth = 5 if tier == 'thorough' else 4
    step = 1
    for i in range(0, n, step):
        for sched in itertools.product(range(3), repeat=depth):
            yield i, sched


SHARED = ('io.BytesIO', 'memory stream', 'scrambling subclass', 'temporary file', 'spooled file', 'file r+b', 'file w+b unbuffered', 'memory map', 'random buffer of 3')


def run_shared(case, ctx):
    i, sched = case
    F = fields()
    n = len(F)
    seq = [F[(i + 11 * k * k) % n] for k in range(len(sched))]
    whole = b''.join(f[2] for f in seq)
    for kind, make in streams.SINKS:
        if kind not in SHARED:
            continue
        with contextlib.ExitStack() as st:
            s, content = make(st)
            ws = writers(s), writers(s)
            for f, who in zip(seq, sched):
                if who == 2:
                    s.write(f[2])
                else:
                    f[1](ws[who])
            ctx.eq(s.tell(), len(whole), kind, 'position')
            # read through the same object, schedules mirrored
            s.seek(0)
            rs = readers(s), readers(s)
            for f, who in zip(seq, sched):
                if who == 2:
                    ctx.eq(s.read(len(f[2])), f[2], kind, 'raw')
                else:
                    ctx.eq(f[3](rs[1 - who]), f[4], kind, f[0], sched)
            ctx.eq(s.tell(), len(whole), kind, 'position')
            # back to every field, last first: a reader keeps no place of its own
            at = len(whole)
            for f, who in reversed(list(zip(seq, sched))):
                at -= len(f[2])
                s.seek(at)
                ctx.eq(f[3](rs[who % 2]), f[4], kind, f[0], 'sought')
            # overwritten in place, the rest stays
            at = 0
            for f, who in zip(seq, sched):
                if who == 0:
                    s.seek(at)
                    f[1](ws[1])
                    ctx.eq(s.tell(), at + len(f[2]), kind, 'position')
                at += len(f[2])
            s.seek(len(whole))
            ctx.eq(content(), whole, kind, sched)
    ctx.state(case)


# data that arrives in pieces
def gen_pieces(tier):
    F = fields()
    for i in range(len(F)):
        m = len(F[i][2])
        if m > 70 and tier != 'thorough':
            cuts = [(a,) for a in (1, 2, 3, 4, m // 2, m - 1)]
        else:
            cuts = [(a,) for a in range(1, m)] + ([(a, b) for a in range(1, m) for b in range(a + 1, m)] if m <= (70 if tier == 'thorough' else 34) else [])
        for c in chunks(cuts, 60):
            yield i, tuple(c)


def run_pieces(case, ctx):
    i, cuts = case
    F = fields()
    name, write, wire, read, value = F[i][:5]
    for cut in cuts:
        at = (0,) + tuple(cut) + (len(wire),)
        pieces = [wire[a:b] for a, b in zip(at, at[1:])] + [F[3][2] + POST]
        for size in (1, 2, 5, 8192):
            s = io.BufferedReader(streams.Drip(pieces), size)
            r = readers(s)
            ctx.eq(read(r), value, name, 'in pieces', cut, size)
            ctx.eq(F[3][3](r), F[3][4], 'behind it')
            ctx.eq(s.read(), POST, 'the rest')
    ctx.state(case)


# values larger than any buffer on the way
SIZES = (4095, 4096, 4097, 8191, 8192, 8193, 12288, 16384, 32768, 50000)


def gen_large(tier):
    for n in SIZES + ((65535, 65536, 131072, 131073, 200000, 1 << 20) if tier == 'thorough' else (65536, 131073)):
        for k in range(len(streams.SINKS)):
            if n > 60000 and streams.SINKS[k][0] in ('pipe', 'socket', 'memory map'):
                continue
            yield 'w', k, n
        for k in range(len(streams.SOURCES)):
            if n > 60000 and streams.SOURCES[k][0] in ('pipe', 'socket', 'byte by byte'):
                continue
            yield 'r', k, n


def run_large(case, ctx):
    d, k, n = case
    big = (bytes(range(251)) * (n // 251 + 1))[:n]
    F = fields()
    small = [F[3], F[20], F[-3]]
    wire = refs.varint(n) + big
    whole = b''.join(f[2] + wire for f in small)
    if d == 'w':
        kind, make = streams.SINKS[k]
        with contextlib.ExitStack() as st:
            s, content = make(st)
            if kind in ('pipe', 'memory map') and len(whole) > 60000:
                whole = small[0][2] + wire
                small = small[:1]
            if kind == 'socket' and len(whole) > 60000:
                whole = small[0][2] + wire
                small = small[:1]
            w = writers(s)
            for f in small:
                f[1](w)
                w.WriteVarBytes(big)
            ctx.eq(content(), whole, kind, n)
    else:
        kind, make = streams.SOURCES[k]
        if kind in ('pipe', 'socket') and len(whole) > 60000:
            whole = small[0][2] + wire
            small = small[:1]
        with contextlib.ExitStack() as st:
            s = make(st, whole + POST)
            r = readers(s)
            for f in small:
                ctx.eq(f[3](r), f[4], kind, f[0])
                ctx.eq(r.ReadVarBytes(), big, kind, n)
            ctx.eq(s.read(len(POST) + 9), POST, kind, 'the rest')
        # cut short: what is there
        for cut in (1, n // 2, n - 1):
            with contextlib.ExitStack() as st:
                s = make(st, wire[:len(wire) - cut])
                r = readers(s)
                ctx.eq(r.ReadVarBytes(), big[:n - cut], kind, n, cut)
            if kind in ('pipe', 'socket'):
                continue
            with contextlib.ExitStack() as st:
                s = make(st, small[0][2] + big[:n - cut])
                r = readers(s)
                small[0][3](r)
                ctx.refused(lambda: r.SafeReadBytes(n), kind, n, cut)
    ctx.state(case)


FAMILIES = [
    Family('large', gen_large, run_large, 'byte strings of 4 kB to 128 kB (thorough: 1 MB), at and around powers of two, between other fields on every kind of stream; cut short at three places'),
    Family('kinds', gen_kinds_t, run_kinds, 'every field of the alphabet on each of %d kinds of sink and %d kinds of source, alone and before all others' % (len(streams.SINKS), len(streams.SOURCES))),
    Family('cuts', gen_cuts, run_cuts, 'every field cut at every byte (quick: those of more than 70 bytes at 7 places), on every kind of source, alone and behind another field, against io.BytesIO'),
    Family('live', gen_live, run_live, 'all ordered pairs of fields from a stream on which asking for more than the field has would block; all pairs into sinks inspected after every operation'),
    Family('shared', gen_shared, run_shared, 'all schedules of 4 (thorough: 5) fields over two readers/writers and the stream itself, every field first, on 9 kinds of seekable stream; mirrored reads, backward seeks, overwriting in place'),
    Family('pieces', gen_pieces, run_pieces, 'every field arriving in every two pieces (and three, up to 34 or 70 bytes) through buffers of 1, 2, 5 and 8192 bytes'),
]
