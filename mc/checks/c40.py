"""an operation broken off at any line leaves nothing behind, and is not swallowed"""
import signal
from mc import kdf
kdf.install()
from mc.common import *
from mc import values, breaks
from mc.checks import c31
from mc.fields import fields

ASSUMPTIONS = ['an operation is broken off by an exception like KeyboardInterrupt, raised before any line, or at the end of any function, of the library and of the pure Python libraries it calls (bitcoin, base58, ecdsa); not inside clean-up blocks and the header lines of with and try statements, which nothing can guard',
               'the value an operation is changing when it is broken off (an identifier read into, a tree being trimmed) is only claimed to be right after the operation has been done again, and a tree to keep its root',
               'MemoryError and other subclasses of Exception are left out: some operations are documented to answer any of them']
T = values.table
SLOW = ('nep2', 'nep2 back')
DEEP = [False]


def deep(tier):
    return tier == 'thorough'


def sentinel():
    from neocore.Fixed8 import Fixed8
    from neocore.UInt160 import UInt160
    from neocore.UInt256 import UInt256
    from neocore.BigInteger import BigInteger
    from neocore.Cryptography.Crypto import Crypto
    from neocore.Cryptography.MerkleTree import MerkleTree
    from neocore.Cryptography.ECCurve import ECDSA
    s, w = wr()
    w.WriteVarString('after')
    w.WriteFixed8(Fixed8.TryParse('-1.00000001'))
    u = UInt160.ParseString('0x' + 'a1' * 19 + '07')
    return [s.getvalue(), str(Fixed8.FromDecimal(2)), u.ToString(), hash(u), Crypto.ToAddress(u), bytes(MerkleTree.ComputeRoot([UInt256(data=bytes([i]) * 32) for i in range(3)]).Data),
            BigInteger(-70000).ToByteArray(), int(BigInteger(-7) // BigInteger(2)), bytes((ECDSA.secp256r1().G * 3).encode_point(True)), rd(b'\xfd\x05\x01')[1].ReadVarInt(), bytes(Crypto.Hash256(b'x'))]


_sentinel = []


def around(ctx, *what):
    s = sentinel()
    if not _sentinel:
        _sentinel.append(s)
    ctx.eq(s, _sentinel[0], 'other operations afterwards', *what)


def each(make, act, tier, shard=0, of=1):
    """break act(x), x = make(), at every place: yields (place, nth, x, hit)"""
    x = make()
    seen = breaks.record(lambda: act(x))
    for key, nth in list(breaks.targets(seen, deep(tier)))[shard::of]:
        x = make()
        t = breaks.Trace(key, nth)
        kind, v = t.run(lambda: act(x))
        if t.hit and kind != 'broken' and key[3] == 'n':
            raise Violation('broken off at %s (time %d), but %s came out' % (breaks.label(key), nth, 'a value' if kind == 'value' else 'a %s' % type(v).__name__))
        yield breaks.label(key), nth, x, t.hit


def tier():
    import os
    return os.environ.get('VERIF_TIER', 'quick')


# ---- every operation of every value
HEAVY = ('KeyPair', 'toolkit', 'crypto', 'point')


def opset(kind, x):
    return [('made', None)] + [o for o in T()[kind][2](x) if o[0] not in SLOW]


def gen_values(t):
    for kind in T():
        for i in range(T()[kind][0]):
            if kind in HEAVY and t != 'thorough' and i != T()[kind][0] - 1:
                continue
            for k in range(len(opset(kind, T()[kind][1](i)))):
                for s in range(12 if kind in HEAVY else 1):
                    yield kind, i, k, s


def run_values(case, ctx):
    kind, i, k, shard = case
    make = T()[kind][1]
    name = opset(kind, make(i))[k][0]
    heavy = kind in HEAVY

    def act(x):
        if k == 0:
            return make(i)
        return opset(kind, x)[k][1]()

    def whole(x):
        return values.describe([o for o in T()[kind][2](x) if not (heavy and o[0] in SLOW + ('signs', 'sign', 'verify', 'address', 'nep2', 'times', 'times minus', 'decoded', 'public', 'point', 'again'))])

    def one(x):
        return values.describe([('it', lambda: act(x))]) if k else whole(act(x))
    base, want = whole(make(i)), one(make(i))
    ctx.eq(one(make(i)), want, case, name)
    for place, nth, x, hit in each(lambda: make(i), act, tier(), shard, 12 if heavy else 1):
        ctx.eq(one(x), want, kind, i, name, place, nth, 'asked again')
        ctx.eq(whole(x), base, kind, i, name, place, nth, 'the value')
        if not heavy:
            ctx.eq(one(make(i)), want, kind, i, name, place, nth, 'a new one')
        ctx.state(kind, name, place, nth)
        ctx.outcome('broken' if hit else 'not reached')
    around(ctx, case, name)


# ---- operations between two values
def gen_pairs(t):
    for kind in T():
        n = T()[kind][0]
        for i in range(n):
            for j in range(n) if t == 'thorough' or n < 4 else sorted({i, (i + 1) % n, 0}):
                for k in range(len(T()[kind][3](T()[kind][1](i), T()[kind][1](j)))):
                    if kind in HEAVY and t != 'thorough' and (i or j != n - 1):
                        continue
                    for s in range(12 if kind in HEAVY else 1):
                        yield kind, i, j, k, s


def run_pairs(case, ctx):
    kind, i, j, k, shard = case
    make, cmp = T()[kind][1], T()[kind][3]
    small = lambda x: values.norm(x) if kind not in ('reader', 'writer', 'crypto', 'toolkit') else 0
    one = lambda x: values.describe([cmp(*x)[k]])
    want, bi, bj = one((make(i), make(j))), small(make(i)), small(make(j))
    name = cmp(make(i), make(j))[k][0]
    for place, nth, x, hit in each(lambda: (make(i), make(j)), lambda x: cmp(*x)[k][1](), tier(), shard, 12 if kind in HEAVY else 1):
        ctx.eq(one(x), want, kind, i, j, name, place, nth, 'asked again')
        ctx.eq((small(x[0]), small(x[1])), (bi, bj), kind, i, j, name, place, nth, 'the values')
        ctx.eq(one((make(i), x[1])), want, kind, i, j, name, place, nth, 'one of them')
        ctx.state(kind, name, place, nth)
        ctx.outcome('broken' if hit else 'not reached')
    around(ctx, case, name)


# ---- changes
def gen_changes(t):
    for kind in T():
        for i in range(T()[kind][0]):
            for c in range(len(T()[kind][4])):
                yield kind, i, c


def run_changes(case, ctx):
    kind, i, c = case
    count, make, ops, pairs, changes = T()[kind]
    name, change, _ = changes[c]
    fresh = make(i)
    try:
        change(fresh)
    except Exception:
        return
    want = values.describe(ops(fresh))
    for place, nth, x, hit in each(lambda: make(i), change, tier()):
        if kind == 'tree':
            ctx.eq(bytes(x.Root.Hash.Data), bytes(make(i).Root.Hash.Data), case, place, 'the root')
        elif kind == 'writer':
            continue
        else:
            change(x)
            if kind not in ('Fixed8', 'field value', 'point', 'small point', 'KeyPair') or hit:
                ctx.eq(values.describe(ops(x)), want, kind, i, name, place, nth, 'changed again')
        ctx.state(kind, name, place, nth)
    around(ctx, case, name)


# ---- readers and writers
def gen_fields(t):
    F = fields()
    for i in range(len(F)):
        for j in [None] + (list(range(0, len(F), 3)) if t == 'thorough' else [3, 30]):
            yield i, j


def run_fields(case, ctx):
    i, j = case
    F = fields()
    name, write, wire, read, value = F[i][:5]
    before = b'' if j is None else F[j][2]

    def writer():
        s, w = wr()
        if j is not None:
            F[j][1](w)
        return s, w
    for place, nth, (s, w), hit in each(writer, lambda x: write(x[1]), tier()):
        got = s.getvalue()
        ctx.check((before + wire).startswith(got) and len(got) >= len(before), name, place, nth, 'left behind', got[:60])
        s.seek(len(before))
        s.truncate()
        write(w)
        F[7][1](w)
        ctx.eq(s.getvalue(), before + wire + F[7][2], name, place, nth, 'written again')
        ctx.state(name, place, nth)

    def reader():
        s, r = rd(before + wire + F[7][2])
        if j is not None:
            F[j][3](r)
        return s, r
    for place, nth, (s, r), hit in each(reader, lambda x: read(x[1]), tier()):
        ctx.check(len(before) <= s.tell() <= len(before + wire), name, place, nth, 'position', s.tell())
        s.seek(len(before))
        ctx.eq(read(r), value, name, place, nth, 'read again')
        ctx.eq(F[7][3](r), F[7][4], name, place, nth, 'the next')
        ctx.state(name, place, nth)
    around(ctx, case)


# ---- the first thing a process does
SHARDS = 6


def gen_first(t):
    import bitcoin, neocore.KeyPair, neocore.Cryptography.Crypto, neocore.Cryptography.ECCurve, neocore.bin.cli, neocore.Utils, neocore.IO.BinaryReader, neocore.IO.BinaryWriter, neocore.Cryptography.MerkleTree, mc.fixtures
    c31.setup()
    from mc.engine import in_child
    ok = in_child(kdf.works)
    for name in sorted(c31.OPS, key=lambda o: o not in c31.SLOW):
        if name == 'NEP-2' and not ok:
            continue
        for p in c31.OPS[name][4][:None if t == 'thorough' else 1]:
            for s in range(SHARDS):
                yield name, p, s


def run_first(case, ctx):
    from mc.engine import in_child
    c31.setup()
    name, p, shard = case
    arg, call, ref, n, _, view = c31.OPS[name]
    seen = in_child(lambda: breaks.record(lambda: call(arg(0, p))))
    if seen is None:
        raise Violation('%s: died' % name)
    todo = [x for x in breaks.targets(seen, deep(tier()))][shard::SHARDS]
    slow = name in c31.SLOW

    def go(key, nth):
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(100)
        a = arg(0, p)
        t = breaks.Trace(key, nth)
        kind, v = t.run(lambda: call(a))
        where = 'broken off at %s (time %d)' % (breaks.label(key), nth)
        if t.hit and kind != 'broken' and key[3] == 'n':
            return '%s: %s, but %s came out' % (name, where, 'a value' if kind == 'value' else 'a %s' % type(v).__name__), 0
        from mc.engine import Ctx
        c = Ctx()
        try:
            c31.check(name, a, view(call(a)), ref(a), c, 'asked again')
            if not slow:
                c31.check(name, arg(1, p), view(call(arg(1, p))), ref(arg(1, p)), c, 'another value')
            c31.check(name, arg(0, p), view(call(arg(0, p))), ref(arg(0, p)), c, 'the same value made again')
            s = sentinel()
        except Violation as e:
            return '%s, %s: %s' % (name, where, e), 0
        except BaseException as e:
            return '%s, %s, then %s: %s' % (name, where, type(e).__name__, e), 0
        return None, s
    plain = in_child(sentinel)
    for key, nth in todo:
        r = in_child(lambda: go(key, nth))
        if r is None:
            raise Violation('%s, broken off at %s (time %d): the process hung or died when it was asked again' % (name, breaks.label(key), nth))
        if r[0]:
            raise Violation(r[0])
        ctx.eq(r[1], plain, name, breaks.label(key), nth, 'other operations afterwards')
        ctx.state(name, breaks.label(key), nth)
        ctx.transitions += 4


FAMILIES = [
    Family('values', gen_values, run_values, 'every operation of every kind of value and its construction, broken off at every line and function end it passes (first, second and last time; thorough: also third, middle and last but one): done again it gives the same, and the value is as it was'),
    Family('pairs', gen_pairs, run_pairs, 'the same for every operation between two values'),
    Family('changes', gen_changes, run_changes, 'the same for every change of a value, which is then done again'),
    Family('fields', gen_fields, run_fields, 'the same for every field written and read, alone and behind other fields'),
    Family('first', gen_first, run_first, 'every conversion as the first thing a process does, broken off at every line and function end; a process each, which then does it again, does another, and others', fresh=True),
]
