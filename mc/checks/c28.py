from mc import kdf
kdf.install()
import io, struct
from mc.common import *
from mc import sched, small
from mc.fields import fields
from mc.fixtures import Item, Rec, Nested
from mc.checks import c20

ASSUMPTIONS = ['the threads switch at source lines of the library (thorough: also at byte code instructions); code of other packages runs undivided',
               'tasks share nothing but the library']
N = refs.P256.n
TASKS = {}


def task(f):
    """a task is a generator: each step yields (what the library gave, what it must give)"""
    TASKS[f.__name__] = f
    return f


def pick(v, prefix):
    F = [f for f in fields() if any(f[0].startswith(p) for p in prefix)]
    return F[v::2] + F[1 - v::2]


def write_fields(v, prefix, n):
    s, w = wr()
    want = b''
    for name, write, wire, read, value, kind in pick(v, prefix)[:n]:
        write(w)
        want += wire
        yield s.getvalue(), want


def read_fields(v, prefix, n):
    F = pick(v, prefix)[:n]
    s, r = rd(b''.join(f[2] for f in F) + POST)
    at = 0
    for name, write, wire, read, value, kind in F:
        got = read(r)
        at += len(wire)
        yield (got, s.tell()), (value, at)


@task
def write_numbers(v): yield from write_fields(v, ('Int', 'UInt1', 'UInt3', 'UInt64', 'VarInt', 'Bool', 'Double', 'Fixed8'), 5)


@task
def read_numbers(v): yield from read_fields(v, ('Int', 'UInt1', 'UInt3', 'UInt64', 'VarInt', 'Bool', 'Double', 'Fixed8'), 5)


@task
def write_texts(v): yield from write_fields(v, ('Var', 'Bytes', 'Fixed'), 5)


@task
def read_texts(v): yield from read_fields(v, ('Var', 'Bytes', 'Fixed', 'String'), 5)


STRINGS = [(('VarString', 'ab' * 9, ('ascii',)), ('VarString', 'caf\u00e9' * 40, ()), ('FixedString', 'neo', (9,)), ('VarBytes', b'xyz', ()), ('VarInt', 70000, ())),
           (('VarString', 'q', ('utf-16-le',)), ('VarString', 'x' * 300, ()), ('FixedString', 'antshares', (20,)), ('VarBytes', b'\0' * 260, ()), ('VarInt', 3, ()))]


def string_wire(kind, x, args):
    if kind == 'VarInt':
        return refs.varint(x), x
    b = x if isinstance(x, bytes) else x.encode(*(args if kind == 'VarString' else ()))
    if kind == 'FixedString':
        return b.ljust(args[0], b'\0'), b
    return refs.varint(len(b)) + b, b


@task
def write_strings(v):
    """the same methods with other lengths, contents and encodings in each task"""
    s, w = wr()
    want = b''
    for kind, x, args in STRINGS[v]:
        getattr(w, 'Write' + kind)(x, *args)
        want += string_wire(kind, x, args)[0]
        yield s.getvalue(), want


@task
def read_strings(v):
    parts = [string_wire(*t) for t in STRINGS[v]]
    s, r = rd(b''.join(p[0] for p in parts) + bytes([3 + v]) + b'abcd' + bytes(9))
    at = 0
    for (kind, x, args), (wire, val) in zip(STRINGS[v], parts):
        got = getattr(r, 'Read' + kind)(*(args if kind == 'FixedString' else ()))
        at += len(wire)
        yield (got, s.tell()), (val, at)
    yield r.ReadString(), b'abcd'[:3 + v]
    yield (r.ReadBytes(3 - v), r.SafeReadBytes(2 + v)), ((b'd\0\0', b'\0\0') if v == 0 else (b'\0\0', b'\0\0\0'))


SCALARS = (('Int8', -3, 7), ('UInt16', 0x1234, 0xfedc), ('Int32', -70000, 5), ('UInt64', 1 << 40, 3), ('Float', 0.5, -2.75), ('Double', 1e9, -0.125))


@task
def write_scalars(v):
    s, w = wr()
    want = b''
    for i, t in enumerate(SCALARS):
        e = '<>'[(i + v) % 2]
        getattr(w, 'Write' + t[0])(t[1 + v], endian=e)
        want += struct.pack(e + {'Int8': 'b', 'UInt16': 'H', 'Int32': 'i', 'UInt64': 'Q', 'Float': 'f', 'Double': 'd'}[t[0]], t[1 + v])
        yield s.getvalue(), want


@task
def read_scalars(v):
    data = [struct.pack('<>'[(i + v) % 2] + {'Int8': 'b', 'UInt16': 'H', 'Int32': 'i', 'UInt64': 'Q', 'Float': 'f', 'Double': 'd'}[t[0]], t[1 + v]) for i, t in enumerate(SCALARS)]
    s, r = rd(b''.join(data) + POST)
    for i, t in enumerate(SCALARS):
        yield getattr(r, 'Read' + t[0])('<>'[(i + v) % 2]), t[1 + v]


@task
def write_lists(v):
    """the same kinds of lists with other contents in each task"""
    hs = [refs.sha256(b'%d.%d' % (v, i)) for i in range(2 + v)]
    s, w = wr()
    w.WriteHashes([h.hex() for h in hs])
    want = refs.varint(len(hs)) + b''.join(h[::-1] for h in hs)
    yield s.getvalue(), want
    w.Write2000256List([h.hex() for h in hs])
    want += b''.join(h[::-1] for h in hs)
    yield s.getvalue(), want
    w.WriteSerializableArray([Nested([Item(3 + v), Item(4 + v)]), Nested([Item(v)])])
    want += bytes([2, 2, 3 + v, 4 + v, 1, v])
    yield s.getvalue(), want
    w.WriteSerializableArray([Rec(300 + v, b'ab'[v:])])
    want += b'\x01' + refs.varint(300 + v) + refs.varint(2 - v) + b'ab'[v:]
    yield s.getvalue(), want


@task
def read_lists(v):
    hs = [refs.sha256(b'%d.%d' % (v, i)) for i in range(2 + v)]
    parts = [refs.varint(len(hs)) + b''.join(h[::-1] for h in hs), bytes([2, 2, 3 + v, 4 + v, 1, v]), b'\x02' + b''.join(hs[:2])]
    s, r = rd(b''.join(parts) + POST)
    yield r.ReadHashes(), [h.hex() for h in hs]
    yield [[i.v for i in n.items] for n in r.ReadSerializableArray('mc.fixtures.Nested')], [[3 + v, 4 + v], [v]]
    yield [bytes(u.Data) for u in r.ReadSerializableArray('neocore.UInt256.UInt256')], hs[:2]
    yield s.tell(), sum(map(len, parts))


@task
def write_identifiers(v):
    from neocore.UInt160 import UInt160
    from neocore.UInt256 import UInt256
    s, w = wr()
    want = b''
    for i in range(2):
        a, b = refs.sha256(b'%d %d' % (v, i)), refs.sha256(b'%d-%d' % (v, i))[:20]
        w.WriteUInt256(UInt256(a))
        w.WriteUInt160(UInt160(b))
        want += a + b
        yield s.getvalue(), want
    s, r = rd(want)
    yield (bytes(r.ReadUInt256().Data), bytes(r.ReadUInt160().Data)), (want[:32], want[32:52])


@task
def amounts(v):
    from neocore.Fixed8 import Fixed8
    a = Fixed8(150000000 + v)
    b = Fixed8.FromDecimal(2 + v)
    yield (a + b).value, 350000000 + v + v * 10 ** 8
    a += b
    yield a.value, 350000000 + v + v * 10 ** 8
    yield Fixed8.One().value, 10 ** 8
    yield str(Fixed8(5 - 10 * v)), ['0.00000005', '-0.00000005'][v]
    yield Fixed8.TryParse('%d.25' % v).value, v * 10 ** 8 + 25000000
    yield b.value, (2 + v) * 10 ** 8


@task
def identifiers(v):
    from neocore.UInt160 import UInt160
    from neocore.UInt256 import UInt256
    h = bytes(range(v, 20 + v))
    u = UInt160(h)
    yield u.ToString(), h[::-1].hex()
    w = UInt256.ParseString('0x' + bytes(range(32 + v, v, -1)).hex())
    yield bytes(w.Data), bytes(range(v + 1, 33 + v))
    yield (u < UInt160(h[:19] + b'\xff'), u == UInt160(h), bytes(u.ToArray())), (True, True, h)
    yield bytes(UInt160().Data), bytes(20)
    yield bytes(u.Data), h


@task
def big_integers(v):
    from neocore.BigInteger import BigInteger
    a = BigInteger(1000 + v)
    yield bytes(a.ToByteArray()), (1000 + v).to_bytes(2, 'little')
    yield int(BigInteger.FromBytes(bytes([0xff - v, 0xff]), signed=True)), -1 - v
    yield int(a * BigInteger(-3) + BigInteger(v)), -3000 - 2 * v


@task
def merkle(v):
    from neocore.Cryptography.MerkleTree import MerkleTree
    from neocore.UInt256 import UInt256
    ls = [refs.sha256(b'%d %d' % (v, i)) for i in range(3 + v)]
    want = refs.merkle_levels(ls)[-1][0]
    yield bytes(MerkleTree.ComputeRoot([UInt256(l) for l in ls]).Data), want
    t = MerkleTree([UInt256(l) for l in ls])
    yield bytes(t.Root.Hash.Data), want
    yield sorted(bytes(h.Data) for h in t.ToHashArray()), sorted(ls)
    t.Trim([True] + [False] * (len(ls) - 1))
    yield bytes(t.Root.Hash.Data), want
    yield bytes(t.Root.LeftChild.LeftChild.Hash.Data), ls[0]


@task
def keys(v):
    from neocore.KeyPair import KeyPair
    d = [379, N - 43][v]
    k = KeyPair(d.to_bytes(32, 'big'))
    yield (k.PublicKey.x.value, k.PublicKey.y.value), refs.pub(d)
    yield k.GetAddress(), refs.key_address(refs.pub(d))
    yield k.Export(), refs.wif(d.to_bytes(32, 'big'))
    yield bytes(KeyPair.PrivateKeyFromWIF(refs.wif(d.to_bytes(32, 'big')))), d.to_bytes(32, 'big')
    yield bytes(k.PublicKeyHash.Data), refs.hash160(refs.compressed(refs.pub(d)))


@task
def nep2(v):
    from neocore.KeyPair import KeyPair
    d = [7, 49350][v]
    p = ['one phrase', 'two phr\u00e4ses'][v]
    t = refs.nep2(d, p, kdf.ref)
    yield KeyPair(d.to_bytes(32, 'big')).ExportNEP2(p), t
    yield bytes(KeyPair.PrivateKeyFromNEP2(t, p)), d.to_bytes(32, 'big')


@task
def signing(v):
    from neocore.Cryptography.Crypto import Crypto
    d = [379, 43][v]
    m = [b'left', b'right'][v]
    s = Crypto.Sign(m.hex(), d.to_bytes(32, 'big').hex())
    yield refs.verify_sig(m, bytes(s), refs.pub(d)), True
    s = Crypto.Default().Sign(m.hex(), d.to_bytes(32, 'big').hex())
    yield refs.verify_sig(m, bytes(s), refs.pub(d)), True


@task
def verifying(v):
    from neocore.Cryptography.Crypto import Crypto
    d = [379, 43][v]
    m = [b'left', b'right'][v]
    yield Crypto.VerifySignature(m.hex(), c20.good(d, m), refs.compressed(refs.pub(d))), True
    yield Crypto.VerifySignature(m.hex(), c20.good(d, m), refs.compressed(refs.pub(422 - d))), False


@task
def hashing(v):
    from neocore.Cryptography.Crypto import Crypto
    from neocore.Cryptography import Helper
    m = [b'left', b'right'][v]
    yield Crypto.Hash160(m), refs.hash160(m).hex()
    yield bytes(Crypto.Hash256(m)), refs.hash256(m)
    yield bytes(Crypto.Default().Hash160(m)), refs.hash160(m)
    yield bytes(Crypto.ToScriptHash(m, unhex=False).Data), refs.hash160(m)
    yield bytes(Helper.xor_bytes(m, bytes(len(m)))), m


@task
def addresses(v):
    from neocore.Cryptography.Crypto import Crypto
    from neocore.UInt160 import UInt160
    from neocore.Utils import isValidPublicAddress
    from neocore.bin import cli
    h = [bytes(range(20)), bytes(20)][v]
    a = refs.address(h)
    yield Crypto.ToAddress(UInt160(data=h)), a
    yield (isValidPublicAddress(a), isValidPublicAddress(a[:-1])), (True, False)
    yield bytes(cli.address_to_scripthash(a)), h
    yield cli.scripthash_to_address('0x' + h[::-1].hex()), a


@task
def points(v):
    from neocore.Cryptography.ECCurve import ECDSA
    d = [379, N - 43][v]
    c = refs.compressed(refs.pub(d))
    g = ECDSA.decode_secp256r1(c.hex()).G
    yield (g.x.value, g.y.value), refs.pub(d)
    yield bytes(g.encode_point(True)), c.hex().encode()
    h = ECDSA.FromBytes_Secp256r1(refs.uncompressed(refs.pub(d))[1:]).G
    yield (h == g, h < g, bytes(h.encode_point(False))), (True, False, refs.uncompressed(refs.pub(d)).hex().encode())
    e = ECDSA.secp256r1()
    yield small.un(e.G + g), refs.P256.add(refs.P256.G, refs.pub(d))


@task
def arithmetic(v):
    c = [(11, 1, 6), (13, 2, 7)][v]
    ec, ref = small.impl(*c), small.Ref(*c)
    A, B = small.points(*c)[1], small.points(*c)[3]
    P, Q = small.mk(ec, A), small.mk(ec, B)

    def full(R):
        # the coordinates, and that the point belongs to its own curve and field
        return small.un(R), R.curve is P.curve, R.x.field is P.x.field, R.isoncurve()
    S = P + Q
    yield full(S), (ref.add(A, B), True, True, True)
    yield full(S + S), (ref.add(ref.add(A, B), ref.add(A, B)), True, True, True)
    yield full(P * 3), (ref.mul(3, A), True, True, True)
    yield full(Q - P), (ref.add(B, ref.neg(A)), True, True, True)
    yield (3 / ec.field.value(2 + v)).value, 3 * pow(2 + v, -1, c[0]) % c[0]


@task
def refusals(v):
    """operations that fail on the way"""
    from neocore.KeyPair import KeyPair
    from neocore.Cryptography.ECCurve import ECDSA
    from neocore.UInt256 import UInt256

    def no(f):
        try:
            f()
        except Exception:
            return 'refused'
    yield no(lambda: KeyPair(bytes(32))), 'refused'
    yield no(lambda: UInt256.ParseString('12')), 'refused'
    yield no(lambda: ECDSA.decode_secp256r1(b'\x05' * 33, unhex=False)), 'refused'
    s, r = rd(b'\x01')
    yield no(lambda: r.ReadUInt32()), 'refused'


HEAVY = ('verifying',)


def names():
    from mc import engine
    ok = engine.in_child(kdf.works)
    return [t for t in TASKS if t != 'nep2' or ok]


def want(ctx, got, exp, *what):
    if got != exp or isinstance(exp, bool) and got is not exp:
        raise Violation('%r: got %r, expected %r' % (what, got, exp))
    ctx.step()


# ------------------------------------------------------------ operations of two tasks interleaved by one caller
def merges(a, b):
    """every interleaving of a steps and b steps"""
    for pos in itertools.combinations(range(a + b), a):
        yield tuple(0 if i in pos else 1 for i in range(a + b))


def steps(name, v):
    with kdf.fast():
        return sum(1 for _ in TASKS[name](v))


def gen_ops(tier):
    ns = names()
    for i, a in enumerate(ns):
        for b in ns[i:]:
            if a in HEAVY and b in HEAVY and tier == 'quick':
                continue
            yield a, b


def run_ops(case, ctx):
    a, b = case
    na, nb = steps(a, 0), steps(b, 1)
    heavy = a in HEAVY or b in HEAVY
    for k, order in enumerate(merges(na, nb)):
        if heavy and k % 10:
            continue
        with kdf.fast():
            gens = [TASKS[a](0), TASKS[b](1)]
            for i, t in enumerate(order):
                got, exp = next(gens[t])
                want(ctx, got, exp, case, order[:i + 1])
    ctx.state(case)


# ------------------------------------------------------------ two real threads
def body(ctx, name, v, bad):
    def go():
        for i, (got, exp) in enumerate(TASKS[name](v)):
            if got != exp:
                bad.append('%s(%d) step %d gave %r, expected %r' % (name, v, i, got, exp))
                return
    return go


def execute(ctx, a, b, segments, opcodes=False, record=None):
    bad = []
    with kdf.fast():
        points, errors = sched.run([body(ctx, a[0], a[1], bad), body(ctx, b[0], b[1], bad)], segments, opcodes, record)
    for t, e in zip((a, b), errors):
        if e is not None:
            bad.append('%s(%d): %s: %s' % (t[0], t[1], type(e).__name__, e))
    if bad:
        raise Violation('threads %r and %r under schedule %r: %s' % (a, b, segments, '; '.join(bad)))
    ctx.step(2)
    return points


def count(ctx, t, opcodes=False):
    k = (t, opcodes)
    n = ctx.scratch.get(k)
    if n is None:
        for _ in range(2):      # once to settle lazily made things
            trace = []
            n = execute(ctx, t, t, [], opcodes, trace)[0]
        ctx.scratch[k] = n
        # the order in which points are dropped when there are too many: repeated visits of a place go first
        seen, rank = {}, []
        for i, place in enumerate(trace):
            seen[place] = seen.get(place, 0) + 1
            rank.append((seen[place], i + 1))
        ctx.scratch[k, 'rank'] = [i for _, i in sorted(rank)]
    return n


BUDGET = 16000000


def stops(ctx, a, b, opcodes=False, budget=BUDGET):
    """where the first task is stopped: at every point, or, where executions are long, at those that the budget of points
    executed allows, the first visits of every place first"""
    n, m = count(ctx, a, opcodes), count(ctx, b, opcodes)
    room = max(16, budget // max(1, n + m))
    if n <= room:
        return range(1, n + 1)
    return sorted(ctx.scratch[(a, opcodes), 'rank'][:room])


def blocks(tier, bound):
    ns = names()
    same = [(a, a) for a in ns]
    near = [(a, b) for i, a in enumerate(ns) for b in ns if a != b and (tier == 'thorough' or (ns.index(b) - i) % 6 == 1 or b == 'refusals' or a == 'refusals' and b in ('keys', 'points'))]
    return same + near


PART = 8


def gen_one(tier):
    for a, b in blocks(tier, 1):
        if tier == 'quick' and 'verifying' in (a, b):
            if a != b:
                continue
        for part in range(PART):
            yield a, b, part


def run_one(case, ctx):
    """thread 0 is stopped at every scheduling point, the other runs to its end, the first goes on"""
    a, b, part = case
    at = stops(ctx, (a, 0), (b, 1))
    for i in at[part::PART]:
        execute(ctx, (a, 0), (b, 1), [i])
        ctx.state(a, b, i)
    ctx.outcome('schedules' if len(at) == count(ctx, (a, 0)) else '%s: %d of %d points' % (a, len(at), count(ctx, (a, 0))))


def gen_two(tier):
    if tier == 'quick':
        for a in ('write_texts', 'read_numbers', 'amounts', 'identifiers', 'hashing', 'big_integers'):
            for part in range(PART):
                yield a, part, 400
    else:
        for a in names():
            for part in range(PART * 4):
                yield a, part, 40000


def run_two(case, ctx):
    """two preemptions: thread 0 stopped at i, thread 1 at j, thread 0 ends, thread 1 ends"""
    a, part, cap = case
    n, m = count(ctx, (a, 0)), count(ctx, (a, 1))
    # within the cap every pair of points; beyond it the points are thinned evenly
    step = 1
    while (n // step) * (m // step) > min(cap, max(64, BUDGET * 25 // (n + m))):
        step += 1
    parts = PART if cap < 1000 else PART * 4
    for i in range(1 + part * step, n + 1, step * parts):
        for j in range(1, m + 1, step):
            execute(ctx, (a, 0), (a, 1), [i, j])
            ctx.state(a, i, j)
    ctx.outcome('%s: every %d. point' % (a, step))


def gen_opcode(tier):
    if tier == 'thorough':
        for a in names():
            if a not in HEAVY:
                for part in range(PART):
                    yield a, part


def run_opcode(case, ctx):
    a, part = case
    at = stops(ctx, (a, 0), (a, 1), True)
    for i in at[part::PART]:
        execute(ctx, (a, 0), (a, 1), [i], True)
        ctx.state(a, i)
    ctx.outcome('%s: %d of %d instructions' % (a, len(at), count(ctx, (a, 0), True)))


FAMILIES = [
    Family('operations', gen_ops, run_ops, lambda t: 'every interleaving of the steps of every pair of %d tasks (each 2 to 6 library operations on its own objects)' % len(TASKS)),
    Family('threads-1', gen_one, run_one, 'two real threads, one preemption at every library source line: each task with itself on other data and with neighbours; executions so long that all their points exceed a budget of 16 million points executed are stopped at the first visits of every line (thorough: all ordered pairs)'),
    Family('threads-2', gen_two, run_two, 'two preemptions, each task with itself: all pairs of source lines up to a cap of 400 (40000) schedules, thinned evenly beyond'),
    Family('instructions', gen_opcode, run_opcode, 'thorough: one preemption at every byte code instruction (within the same budget), each task with itself'),
]
