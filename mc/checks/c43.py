"""an operation run in the middle of another one (by a signal handler, a finaliser or a callback) disturbs neither"""
import signal
from mc import kdf
kdf.install()
from mc.common import *
from mc import values, breaks
from mc.checks import c31
from mc.fields import fields

ASSUMPTIONS = ['an operation is run within another between any two lines, or at the end of any function, of the library and of the pure Python libraries it calls (bitcoin, base58, ecdsa): as a signal handler or a finaliser would; and from within the reading, writing and conversion of objects handed to the library',
               'operations that change a value are not run within others of the same value']
T = values.table
SLOW = ('nep2', 'nep2 back', 'signs', 'sign', 'verify')
HEAVY = ('KeyPair', 'toolkit', 'crypto', 'point')
SHARDS = 6


class Within(breaks.Trace):
    """calls act() at one place of an operation; tracing is off in there"""

    def __init__(self, target, nth, act):
        super().__init__(target, nth)
        self.act, self.got = act, None

    def local(self, frame, event, arg):
        if event == 'exception':
            return self.local
        code = frame.f_code
        k = breaks.whose(code)
        if event == 'return' and k != 'n':
            return self.local
        key = (code.co_filename, frame.f_lineno if event == 'line' else code.co_firstlineno, event, k)
        n = self.seen[key] = self.seen.get(key, 0) + 1
        if key == self.target and n == self.nth:
            self.hit = True
            try:
                self.got = 'value', self.act()
            except Exception as e:
                self.got = 'raised', e
        return self.local


def places(f, deep):
    t = Within(None, 0, None)
    t.run(f)
    return list(breaks.targets(t.seen, deep))


def deep(tier):
    return tier == 'thorough'


def tier():
    import os
    return os.environ.get('VERIF_TIER', 'quick')


# ---- every conversion within every other
def gen_ops(t):
    import bitcoin, neocore.KeyPair, neocore.Cryptography.Crypto, neocore.Cryptography.ECCurve, neocore.bin.cli, neocore.Utils, neocore.IO.BinaryReader, neocore.IO.BinaryWriter, neocore.Cryptography.MerkleTree, mc.fixtures
    c31.setup()
    from mc.engine import in_child
    ok = in_child(kdf.works)
    for first in (True, False):
        for name in sorted(c31.OPS, key=lambda o: o not in c31.SLOW):
            if name == 'NEP-2' and not ok:
                continue
            for p in c31.OPS[name][4][:None if t == 'thorough' else 1]:
                for s in range(SHARDS):
                    yield name, p, s, first


def outcome(name, i, p, c, what):
    arg, call, ref, n, _, view = c31.OPS[name]
    a = arg(i, p)
    c31.check(name, a, view(call(a)), ref(a), c, what)


def run_ops(case, ctx):
    """first: the outer operation is the first of its process; each place in a process of its own. Otherwise: all in one"""
    from mc.engine import in_child, Ctx
    c31.setup()
    name, p, shard, first = case
    arg, call, ref, n, _, view = c31.OPS[name]
    slow = name in c31.SLOW
    seen = in_child(lambda: places(lambda: call(arg(0, p)), deep(tier())))
    if seen is None:
        raise Violation('%s: died' % name)
    todo = seen[shard::SHARDS]
    cheap = [o for o in c31.OPS if o not in c31.SLOW and o not in ('small fields', 'small roots', name)]
    plain = c31.OPS

    def go(key, nth, others):
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(50)
        where = 'run within %s at %s (time %d)' % (name, breaks.label(key), nth)
        c = Ctx()
        a = arg(0, p)

        def act():
            outcome(name, 1, p, c, '%s, %s' % (name, where))
            if not (slow and name == 'NEP-2'):
                outcome(name, 0, p, c, '%s of the same value, %s' % (name, where))
            for o in others:
                outcome(o, 2, plain[o][4][0], c, '%s, %s' % (o, where))
        t = Within(key, nth, act)
        try:
            kind, v = t.run(lambda: call(a))
            if t.got and t.got[0] == 'raised':
                e = t.got[1]
                return str(e) if isinstance(e, Violation) else '%s %s: %s: %s' % (name, where, type(e).__name__, e)
            if kind == 'raised':
                return '%s, with others %s: %s: %s' % (name, where, type(v).__name__, v)
            c31.check(name, a, view(v), ref(a), c, '%s, with others %s' % (name, where))
            outcome(name, 3, p, c, '%s, after others %s' % (name, where))
        except Violation as e:
            return str(e)
        except Exception as e:
            return '%s, with or after others %s: %s: %s' % (name, where, type(e).__name__, e)
        return None

    for k, (key, nth) in enumerate(todo):
        # all the others where the library itself is the place, some of them elsewhere
        others = cheap if key[3] == 'n' and nth == 1 else cheap[k % 4::4]
        if slow and tier() != 'thorough':
            others = cheap[k % 3::3] if key[3] == 'n' else cheap[k % 8::8]
        r = in_child(lambda: (go(key, nth, others),)) if first else (go(key, nth, others),)
        if r is None:
            raise Violation('%s: another one run within it at %s (time %d) does not end, or kills the process' % (name, breaks.label(key), nth))
        if r[0]:
            raise Violation(r[0])
        ctx.state(name, breaks.label(key), nth, first)
        ctx.transitions += 4 + len(others)


# ---- operations of a value within others of the same value
def reading(kind, x):
    return [('made', None)] + [o for o in T()[kind][2](x) if o[0] not in SLOW]


def gen_values(t):
    for kind in T():
        if kind in ('reader', 'writer'):
            continue
        for i in range(T()[kind][0]):
            if kind in HEAVY and t != 'thorough' and i != T()[kind][0] - 1:
                continue
            for k in range(len(reading(kind, T()[kind][1](i)))):
                for s in range(12 if kind in HEAVY else 1):
                    yield kind, i, k, s


def run_values(case, ctx):
    kind, i, k, shard = case
    make = T()[kind][1]
    heavy = kind in HEAVY
    name = reading(kind, make(i))[k][0]

    def whole(x):
        return values.describe([o for o in T()[kind][2](x) if not (heavy and o[0] in SLOW + ('address', 'nep2', 'times', 'times minus', 'decoded', 'public', 'point', 'again'))])

    def act(x):
        return values.norm(make(i) if k == 0 else reading(kind, x)[k][1]())
    x = make(i)
    try:
        want = 'value', act(x)
    except Exception as e:
        want = 'raised', type(e).__name__
    base = whole(make(i))
    other = (i + 1) % T()[kind][0]
    beside = whole(make(other))
    for key, nth in places(lambda: act(make(i)), deep(tier()))[shard::12 if heavy else 1]:
        x = make(i)
        t = Within(key, nth, lambda: (whole(x), whole(make(other))))
        kind_, v = t.run(lambda: act(x))
        got = (kind_, v) if kind_ == 'value' else (kind_, type(v).__name__)
        place = '%s (time %d)' % (breaks.label(key), nth)
        ctx.eq(got, want, kind, i, name, 'with all others of the value run within it at', place)
        if t.hit:
            if t.got[0] == 'raised':
                raise t.got[1]
            ctx.eq(t.got[1], (base, beside), kind, i, 'the others, run within', name, place)
        ctx.eq(whole(x), base, kind, i, 'afterwards', name, place)
        ctx.state(kind, name, place)


# ---- from within streams and objects handed over
class Nosy(io.BytesIO):
    """runs something whenever it is read, written or asked for its place, before and after"""
    act = None

    def _go(self):
        act, self.act = self.act, None
        if act:
            try:
                act()
            finally:
                self.act = act

    def read(self, *a):
        self._go()
        r = super().read(*a)
        self._go()
        return r

    def write(self, b):
        self._go()
        r = super().write(b)
        self._go()
        return r


def gen_streams(t):
    n = len(fields())
    for i in range(n):
        for j in range(n) if t == 'thorough' else sorted({i, (i + 1) % n, (i * 7 + 3) % n}):
            yield i, j


def run_streams(case, ctx):
    F = fields()
    (name, write, wire, read, value), (name2, write2, wire2, read2, value2) = F[case[0]][:5], F[case[1]][:5]
    from neocore.IO.BinaryReader import BinaryReader
    from neocore.IO.BinaryWriter import BinaryWriter
    what = '%s, with %s on another stream run within' % (name, name2)

    def act():
        s, w = wr()
        write2(w)
        ctx.eq(s.getvalue(), wire2, name2, 'written within', name)
        ctx.eq(read2(rd(wire2 + b'\x99')[1]), value2, name2, 'read within', name)
    s = Nosy()
    s.act = act
    write(BinaryWriter(s))
    ctx.eq(s.getvalue(), wire, what)
    s = Nosy(wire + b'\x99')
    s.act = act
    ctx.eq(read(BinaryReader(s)), value, what)
    ctx.eq(s.tell(), len(wire), what, 'position')
    ctx.state(case)


_act = [None]


def inside():
    act, _act[0] = _act[0], None
    if act:
        try:
            act()
        finally:
            _act[0] = act


def classes():
    from neocore.UInt256 import UInt256
    from neocore.UInt160 import UInt160
    from neocore.IO.Mixins import SerializableMixin

    class Leaf(UInt256):
        def ToArray(self):
            inside()
            return super().ToArray()

        def __hash__(self):
            inside()
            return super().__hash__()

        def __eq__(self, other):
            inside()
            return super().__eq__(other)
    return Leaf


def gen_objects(t):
    for n in range(1, 10 if t == 'thorough' else 6):
        for how in ('root', 'tree', 'list', 'trim', 'arrays', 'nested'):
            yield n, how


def run_objects(case, ctx):
    n, how = case
    from neocore.UInt256 import UInt256
    from neocore.Cryptography.MerkleTree import MerkleTree
    from neocore.IO.BinaryWriter import BinaryWriter
    from neocore.IO.BinaryReader import BinaryReader
    import mc.fixtures_nested as fx
    Leaf = classes()
    a, b = [bytes([i + 1]) * 32 for i in range(n)], [bytes([i + 201]) * 32 for i in range(n + 1)]
    ra, rb = refs.merkle_levels(a)[-1][0], refs.merkle_levels(b)[-1][0]

    def act():
        L = [UInt256(data=x) for x in b]
        ctx.eq(bytes(MerkleTree.ComputeRoot(L).Data), rb, case, 'a root within')
        t = MerkleTree(L)
        ctx.eq(sorted(bytes(x.Data) for x in t.ToHashArray()), sorted(b), case, 'a list within')
        t.Trim(bytes([1] * (2 * n)))
        s, w = wr()
        w.WriteSerializableArray(L)
        ctx.eq(s.getvalue(), refs.varint(n + 1) + b''.join(b), case, 'an array within')
        ctx.eq([bytes(x.Data) for x in rd(s.getvalue())[1].ReadSerializableArray('neocore.UInt256.UInt256')], b, case, 'an array read within')
    if how in ('arrays', 'nested'):
        fx.act[0] = act if how == 'arrays' else None
        items = [fx.tree(i, 3) for i in range(n)]
        s, w = wr()
        w.WriteSerializableArray(items)
        want = refs.varint(n) + b''.join(map(fx.wire, items))
        ctx.eq(s.getvalue(), want, case, 'written')
        r = rd(want + b'\x07')[1]
        ctx.eq([fx.flat(x) for x in r.ReadSerializableArray('mc.fixtures_nested.Tree')], [fx.flat(x) for x in items], case, 'read')
        ctx.eq(r.ReadByte(), 7, case, 'the next')
        fx.act[0] = None
        ctx.state(case)
        return
    L = [Leaf(data=x) for x in a]
    _act[0] = act
    try:
        if how == 'root':
            ctx.eq(bytes(MerkleTree.ComputeRoot(L).Data), ra, case)
        else:
            t = MerkleTree(L)
            ctx.eq(bytes(t.Root.Hash.Data), ra, case)
            if how == 'list':
                ctx.eq(sorted(bytes(x.Data) for x in t.ToHashArray()), sorted(a), case)
            if how == 'trim':
                t.Trim(bytes([1] * (2 * n)))
                ctx.eq(sorted(bytes(x.Data) for x in t.ToHashArray()), sorted(a), case)
                ctx.eq(bytes(t.Root.Hash.Data), ra, case)
    finally:
        _act[0] = None
    ctx.state(case)


FAMILIES = [
    Family('operations', gen_ops, run_ops, 'every conversion with the same one of another and of the same value, and others, run within it at every line and function end it passes (first, second and last time; long ones first and last); as the first thing of a process, each place in a process of its own, and all in one process', fresh=True),
    Family('values', gen_values, run_values, 'every operation of every kind of value, with all operations of the same value and of another run within it at every such place'),
    Family('streams', gen_streams, run_streams, 'every field written and read on streams whose read and write themselves write and read (other streams) before and after'),
    Family('objects', gen_objects, run_objects, 'trees of leaves, and lists of objects, whose conversions build, list and trim other trees and write and read other lists; objects that hold lists of objects, three deep'),
]
