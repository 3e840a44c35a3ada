import io
from mc.common import *
from mc.fixtures import Item, Rec, Nested
from mc.fields import V32

ASSUMPTIONS = ['streams behave like io.BytesIO', 'identifier contents avoid the known finding recorded under C06']


def nums(tier):
    return list(range(0, 1100 if tier == 'thorough' else 301)) + [383, 384, 385, 400, 499, 500, 501, 511, 512, 513, 600, 999, 1000, 1001, 1023, 1024, 1025, 1999, 2000, 2001, 2047, 2048, 2049, 4095, 4096, 4097] + \
        ([9999, 10000, 65534, 65535, 65536, 65537] if tier == 'thorough' else [65535, 65536])


def el(kind, n, i, pattern):
    """raw bytes of element i"""
    if kind == 'item':
        return bytes([{'count': i * 3 % 233, 'same': 7, 'zero': 0, 'alt': i % 2}[pattern]])
    size = {'u160': 20, 'u256': 32, 'hash': 32}[kind]
    if pattern == 'zero':
        return bytes(size)
    if pattern == 'same':
        return bytes(range(0x90, 0x90 + size))
    if pattern == 'alt':
        return (bytes(range(0x90, 0x90 + size)), bytes(size - 1) + b'\x01')[i % 2]
    return i.to_bytes(4, 'big') + bytes((i * 13 + j * 7) & 0xff | 0x80 for j in range(size - 4))


CLS = {'item': 'mc.fixtures.Item', 'u160': 'neocore.UInt160.UInt160', 'u256': 'neocore.UInt256.UInt256'}


def gen_arrays(tier):
    for n in nums(tier):
        for kind in CLS:
            if n > 60000 and kind != 'item':
                continue
            for pat in ('count', 'same', 'zero', 'alt'):
                yield kind, n, pat


def make(kind, raw):
    from neocore.UInt160 import UInt160
    from neocore.UInt256 import UInt256
    return Item(raw[0]) if kind == 'item' else (UInt160 if kind == 'u160' else UInt256)(data=raw)


def raw_of(x):
    return bytes([x.v]) if isinstance(x, Item) else bytes(x.Data)


def run_arrays(case, ctx):
    kind, n, pat = case
    raws = [el(kind, n, i, pat) for i in range(n)]
    objs = [make(kind, r) for r in raws]
    want = refs.varint(n) + b''.join(raws)
    written(ctx, lambda w: w.WriteSerializableArray(objs), want, case)
    if n < 300:
        written(ctx, lambda w: w.WriteSerializableArray(tuple(objs)), want, case)
        if n:
            o = make(kind, raws[0])
            written(ctx, lambda w: w.WriteSerializableArray([o] * n), refs.varint(n) + raws[0] * n, case)
    ctx.eq([raw_of(o) for o in objs], raws, 'elements unchanged', case)
    got = read_back(ctx, lambda r: r.ReadSerializableArray(CLS[kind]), want, raws, case, key=lambda l: [raw_of(x) for x in l], typ=list)
    ctx.eq([type(x).__module__ + '.' + type(x).__name__ for x in got], [CLS[kind]] * n, 'classes', case)
    ctx.eq(len({id(x) for x in got}), n, 'distinct objects', case)
    read_back(ctx, lambda r: r.ReadSerializableArray(CLS[kind], max=n), want, raws, case, key=lambda l: [raw_of(x) for x in l])
    read_back(ctx, lambda r: r.ReadSerializableArray(CLS[kind], n + 1), want, raws, case, key=lambda l: [raw_of(x) for x in l])
    for m in {0, 1, n - 1, n // 2, n & 0xff}:
        if 0 <= m < n:
            ctx.refused(lambda: rd(want)[1].ReadSerializableArray(CLS[kind], max=m), 'limit', case, m)
    # independence: changing one element leaves the others and later reads alone
    if 1 < n < 80:
        for x in got[:3]:
            if kind == 'item':
                x.v = 99
                x.notes.append(1)
            else:
                x.Data[0] ^= 0xff
        ctx.eq([raw_of(x) for x in got[3:]], raws[3:], 'independent', case)
        if kind == 'item':
            ctx.eq([x.notes for x in got[3:]], [[]] * (n - 3 if n > 3 else 0), 'independent', case)
        ctx.eq([raw_of(x) for x in rd(want)[1].ReadSerializableArray(CLS[kind])], raws, 'second read', case)


EDGES = [0, 1, 2, 3, 15, 16, 127, 128, 252, 253, 254, 255, 256, 257, 999, 1000, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000, 0x10001, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]


def gen_limits(tier):
    for m in EDGES:
        yield m


def run_limits(m, ctx):
    """a count above the limit is refused, whatever follows; below it the elements that are there are read"""
    for c in EDGES:
        for form in refs.varint(c), b'\xff' + c.to_bytes(8, 'little'):
            s, r = rd(form + bytes(range(5)))
            if c > m:
                ctx.refused(lambda: r.ReadSerializableArray('mc.fixtures.Item', max=m), 'limit', m, c)
                s, r = rd(form + bytes(300) * (c < 1000))
                ctx.refused(lambda: r.ReadSerializableArray('mc.fixtures.Item', m), 'limit', m, c)
            elif c < 300:
                ctx.eq([i.v for i in rd(form + bytes(range(200)) * 3)[1].ReadSerializableArray('mc.fixtures.Item', max=m)], [i % 200 for i in range(c)], 'below', m, c)


def gen_fail(tier):
    for n in list(range(1, 20)) + [252, 253, 254]:
        for i in (range(n) if n < 20 else (0, 1, n // 2, n - 2, n - 1)):
            yield n, i


def run_fail(case, ctx):
    n, i = case
    items = [Item(k % 200) for k in range(n)]
    items[i] = Item(None)
    s, w = wr()
    ctx.refused(lambda: w.WriteSerializableArray(items), 'bad element', case)
    ctx.eq(s.getvalue(), refs.varint(n) + bytes(k % 200 for k in range(i)), 'written before', case)
    data = refs.varint(n) + bytes(0xee if k == i else k % 200 for k in range(n))
    s, r = rd(data)
    ctx.eq([x.v for x in r.ReadSerializableArray('mc.fixtures.Item')], [k % 200 for k in range(i)], 'read before', case)


def gen_shapes(tier):
    for a in range(0, 5):
        for b in range(0, 5):
            for c in range(0, 4):
                yield 'nested', (a, b, c)
    vals = [0, 1, 0xfc, 0xfd, 0xffff, 0x10000, 1 << 32, (1 << 64) - 1]
    blobs = [b'', b'\0', b'abcd', bytes(252), bytes(253), b'f' * 300]
    for v in vals:
        for b in blobs:
            for v2 in vals:
                yield 'rec', (v, b, v2)
    yield 'none', ()


def run_shapes(case, ctx):
    kind, p = case
    if kind == 'none':
        written(ctx, lambda w: w.WriteSerializableArray(None), b'\0', 'none')
        written(ctx, lambda w: w.WriteSerializableArray([]), b'\0', 'empty')
        read_back(ctx, lambda r: r.ReadSerializableArray('mc.fixtures.Item'), b'\0', [], 'empty')
        read_back(ctx, lambda r: r.ReadSerializableArray('mc.fixtures.Item', max=0), b'\0', [], 'empty')
    elif kind == 'nested':
        lists = [[(i * 16 + j) % 200 for j in range(k)] for i, k in enumerate(p)]
        want = bytes([len(p)]) + b''.join(bytes([len(l)] + l) for l in lists)
        written(ctx, lambda w: w.WriteSerializableArray([Nested([Item(v) for v in l]) for l in lists]), want, case)
        read_back(ctx, lambda r: r.ReadSerializableArray('mc.fixtures.Nested'), want, lists, case, key=lambda g: [[x.v for x in n.items] for n in g])
    else:
        v, b, v2 = p
        recs = [(v, b), (v2, b[::-1]), (v, b'')]
        want = b'\x03' + b''.join(refs.varint(n) + refs.varint(len(x)) + x for n, x in recs)
        written(ctx, lambda w: w.WriteSerializableArray([Rec(*x) for x in recs]), want, case)
        read_back(ctx, lambda r: r.ReadSerializableArray('mc.fixtures.Rec'), want, recs, case, key=lambda g: [(x.n, x.b) for x in g])


SORTS = [('mc.fixtures.Item', b'\x02\x07\x08', [7, 8]), ('mc.fixtures2.Item', b'\x02\x01\x02\x03\x04', [0x102, 0x304]),
         ('mc.fixtures.Nested', b'\x01\x02\x05\x06', [[5, 6]]), ('mc.fixtures2.Nested', b'\x01\x01\x05\x06', [[0x506]]),
         ('neocore.UInt160.UInt160', b'\x01' + bytes(range(100, 120)), [bytes(range(100, 120))]), ('mc.fixtures2.UInt160', b'\x02\x01a\x00', [b'a', b''])]


def plain(x):
    return [plain(i) for i in x.items] if hasattr(x, 'items') else x.v if hasattr(x, 'v') else bytes(x.Data)


def gen_names(tier):
    for a in range(len(SORTS)):
        for b in range(len(SORTS)):
            for c in range(len(SORTS)):
                yield a, b, c


def run_names(case, ctx):
    """classes of one name in different modules, by one reader and by one each"""
    from neocore.IO.BinaryReader import BinaryReader
    s, r = rd(b''.join(SORTS[k][1] for k in case))
    for k in case:
        ctx.eq([plain(x) for x in r.ReadSerializableArray(SORTS[k][0])], SORTS[k][2], 'one reader', case)
    ctx.eq(s.read(), b'', 'one reader', case)
    for k in case:
        s, r = rd(SORTS[k][1] + POST)
        got = r.ReadSerializableArray(SORTS[k][0])
        ctx.eq(([plain(x) for x in got], s.tell()), (SORTS[k][2], len(SORTS[k][1])), 'own reader', case)
        ctx.eq({type(x).__module__ + '.' + type(x).__name__ for x in got}, {SORTS[k][0]}, 'class', case)
        written(ctx, lambda w: w.WriteSerializableArray(got), SORTS[k][1], 'again', case)


# ------------------------------------------------------------------ hashes
SPECIAL = [bytes(32), b'\xff' * 32, V32, V32[::-1], bytes(31) + b'\x01', b'\x01' + bytes(31), b'0123456789abcdef' * 2, b'f' * 32, b'00' * 16, b'A' * 31 + b'\x00', bytes(range(32))]


def gen_hashes(tier):
    for n in nums(tier):
        if n > 60000 and tier == 'quick' and n != 65536:
            continue
        for pat in ('count', 'same', 'zero', 'alt'):
            if n < 60000 or pat == 'count':
                yield [n, pat]
    for a in SPECIAL:
        yield [a]
        for b in SPECIAL:
            yield [a, b]
            for c in SPECIAL[:7]:
                yield [a, b, c]
    for x in byte_walk(32, (0, 0x61), (0, 1, 0x30, 0x39, 0x61, 0x66, 0x46, 0xff)):
        yield [x]


def run_hashes(case, ctx):
    raws = case if isinstance(case[0], bytes) else [el('hash', case[0], i, case[1]) for i in range(case[0])]
    n = len(raws)
    what = case if n < 4 else (n, case[1])
    want = refs.varint(n) + b''.join(r[::-1] for r in raws)
    texts = [r.hex() for r in raws]
    written(ctx, lambda w: w.WriteHashes(texts), want, what)
    written(ctx, lambda w: w.WriteHashes([t.encode() for t in texts]), want, what)
    if n < 300:
        written(ctx, lambda w: w.WriteHashes([t.upper() for t in texts]), want, what)
        written(ctx, lambda w: w.WriteHashes([bytearray(t.encode()) for t in texts]), want, what)
    read_back(ctx, lambda r: r.ReadHashes(), want, texts, what)
    if n < 20:
        # each side of a 2000-hash list
        written(ctx, lambda w: w.Write2000256List([t.encode() for t in texts]), b''.join(r[::-1] for r in raws), '2000 list', what)


def gen_repeats(tier):
    for n in range(0, 6 if tier == 'quick' else 8):
        for seq in itertools.product(range(3), repeat=n):
            yield seq


def run_repeats(seq, ctx):
    """one object several times in a list, and equal ones"""
    hs = [bytes([0x90 + i]) * 31 + bytes([i]) for i in range(3)]
    want = refs.varint(len(seq)) + b''.join(hs[i][::-1] for i in seq)
    for conv in (lambda h: h.hex(), lambda h: h.hex().encode(), lambda h: bytearray(h.hex().encode())):
        objs = [conv(h) for h in hs]
        for _ in range(2):
            written(ctx, lambda w: w.WriteHashes([objs[i] for i in seq]), want, 'hashes', seq)
        written(ctx, lambda w: w.WriteHashes([conv(hs[i]) for i in seq]), want, 'equal hashes', seq)
        written(ctx, lambda w: w.WriteHashes(tuple(objs[i] for i in seq)), want, 'tuple of hashes', seq)
    read_back(ctx, lambda r: r.ReadHashes(), want, [hs[i].hex() for i in seq], 'hashes', seq)
    for kind in CLS:
        raws = [el(kind, 3, i, 'count') for i in range(3)]
        objs = [make(kind, r) for r in raws]
        want = refs.varint(len(seq)) + b''.join(raws[i] for i in seq)
        for _ in range(2):
            written(ctx, lambda w: w.WriteSerializableArray([objs[i] for i in seq]), want, kind, seq)
        written(ctx, lambda w: w.WriteSerializableArray([make(kind, raws[i]) for i in seq]), want, 'equal', kind, seq)
        got = read_back(ctx, lambda r: r.ReadSerializableArray(CLS[kind]), want, [raws[i] for i in seq], kind, seq, key=lambda l: [raw_of(x) for x in l])
        ctx.eq(len({id(x) for x in got}), len(seq), 'distinct', kind, seq)


def gen_2000(tier):
    for pat in ('count', 'same', 'zero', 'alt', 'hex'):
        yield pat


def run_2000(pat, ctx):
    raws = [b'0123456789abcdef' * 2 if pat == 'hex' else el('hash', 2000, i, pat) for i in range(2000)]
    texts = [r.hex().encode() for r in raws]
    stored = b''.join(r[::-1] for r in raws)
    s, w = wr()
    w.Write2000256List(texts)
    data = s.getvalue()
    # reading 2000 texts of 64 hexadecimal digits gives each reversed
    read_back(ctx, lambda r: r.Read2000256List(), b''.join(texts), [r[::-1].hex().encode() for r in raws], 'read 2000', pat)
    try:
        got = rd(data)[1].Read2000256List()
    except Exception as e:
        got = type(e).__name__
    ctx.step()
    if got != texts:
        if data == stored and (isinstance(got, str) or pat == 'hex'):
            ctx.known('C05-2000-list-no-round-trip', 'writes 32 raw bytes per hash, reads 64 hexadecimal digits per hash')
        else:
            raise Violation('2000 list (%s): written %d bytes, read back %s' % (pat, len(data), short_(got)))


def short_(x):
    return repr(x)[:200]


FAMILIES = [
    Family('arrays', gen_arrays, run_arrays, 'lengths 0..300, around 384, 500, 512, 1000, 1024, 2000, 2048, 4096, 65536 x 3 element classes x 4 patterns, limits'),
    Family('limits', gen_limits, run_limits, 'all pairs of 31 limits and counts around every power-of-two and prefix edge, shortest and 9-byte counts'),
    Family('failing-elements', gen_fail, run_fail, 'lengths 1..19, 252..254, the failing element at every (long lists: 5) index, writing and reading'),
    Family('shapes', gen_shapes, run_shapes, 'absent, empty, nested 0..4 x 0..4 x 0..3, variable size records'),
    Family('class-names', gen_names, run_names, 'all triples of 6 classes, three names shared by two modules each'),
    Family('hashes', gen_hashes, run_hashes, 'same lengths; all triples of special contents; byte walks with hexadecimal-looking bytes; text, bytes, capital forms'),
    Family('repeats', gen_repeats, run_repeats, 'all sequences of up to 5 (thorough 7) positions over 3 objects, the same objects and equal ones'),
    Family('lists-of-2000', gen_2000, run_2000, '2000 hashes x 5 patterns'),
]
