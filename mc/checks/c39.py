"""an operation that is refused changes nothing"""
from mc import kdf
kdf.install()
import io
from mc.common import *
from mc import battery, values
from mc.fields import fields
from mc.checks import c31
from mc.checks.c38 import desc, speed, same, T

ASSUMPTIONS = ['the claim is conditional: whether an argument of an unsuitable kind is refused is left open, but when it is, nothing may have changed',
               'the scrypt derivation inside NEP-2 operations is the stand-in of the C18 check',
               'a composite field (byte string, text, list) of an unsuitable kind may leave a beginning of it in the stream, such as its count',
               'calling __init__ of an existing object again is outside the claim; so are floating point numbers as coordinates or factors']
_A = {}


def A():
    if not _A:
        _A.update(values.attempts())
    return _A


def attempt(f, *a):
    """None when it was not refused"""
    try:
        f(*a)
    except Exception as e:
        return type(e).__name__
    return None


# ---- operations on an object
def gen_objects(tier):
    for kind in A():
        if kind == 'writer':
            continue
        n = len(A()[kind])
        for i in range(T()[kind][0]):
            for c in range(0, n, 30):
                yield kind, i, c, min(n, c + 30)


def run_objects(case, ctx):
    kind, i, lo, hi = case
    make = T()[kind][1]
    speed(kind, False)
    want = desc(kind, make(i))
    L = A()[kind]
    n = len(L)
    for k in range(lo, hi):
        name, f = L[k]
        x = make(i)
        alone = attempt(f, x)
        if alone is None:
            ctx.outcome('not refused')
            continue
        ctx.outcome('refused')
        same(ctx, desc(kind, x), want, kind, i, 'after the refused', name)
        ctx.eq(attempt(f, x), alone, kind, i, name, 'refused again')
        same(ctx, desc(kind, x), want, kind, i, 'after the twice refused', name)
        # behind another refusal, and before another
        for step in (1, 7, 40):
            other, g = L[(k + step) % n]
            y = make(i)
            if attempt(g, y) is None:
                continue
            ctx.eq(attempt(f, y), alone, kind, i, name, 'behind the refused', other)
            same(ctx, desc(kind, y), want, kind, i, 'after the refused', other, name)
    ctx.state(case)


# ---- operations on a writer: the stream stays as it was, and what follows is right
def gen_writer(tier):
    n, m = len(A()['writer']), len(fields())
    for k in range(n):
        for j in range(0, m, 1 if tier == 'thorough' else 5):
            yield k, j


def run_writer(case, ctx):
    k, j = case
    name, f = A()['writer'][k]
    F = fields()
    before, after = F[j], F[(j + k) % len(F)]
    s, w = wr()
    before[1](w)
    r = attempt(f, w)
    if r is None:
        ctx.outcome('not refused')
        return
    ctx.outcome('refused')
    ctx.eq(s.getvalue(), before[2], name, 'behind', before[0])
    ctx.eq(s.tell(), len(before[2]), name, 'position')
    ctx.eq(attempt(f, w), r, name, 'again')
    after[1](w)
    ctx.eq(s.getvalue(), before[2] + after[2], after[0], 'after the refused', name)
    # in the middle of a stream, and on a writer that was never used
    s.seek(1)
    here = s.getvalue()
    ctx.eq(attempt(f, w), r, name, 'in the middle')
    ctx.eq((s.getvalue(), s.tell()), (here, 1), name, 'in the middle')
    s, w = wr()
    ctx.eq(attempt(f, w), r, name, 'at first')
    before[1](w)
    ctx.eq(s.getvalue(), before[2], before[0], 'first after the refused', name)
    ctx.state(case)


# ---- a field cut short, then complete
def gen_reader(tier):
    for i, f in enumerate(fields()):
        for cut in range(len(f[2])) if len(f[2]) < 70 or tier == 'thorough' else (0, 1, 2, 3, len(f[2]) - 1):
            yield i, cut


def run_reader(case, ctx):
    i, cut = case
    F = fields()
    name, write, wire, read, value = F[i][:5]
    s, r = rd(F[2][2] + wire[:cut])
    ctx.eq(F[2][3](r), F[2][4], F[2][0])
    at = s.tell()
    first = attempt(read, r)
    ctx.eq(s.getvalue(), F[2][2] + wire[:cut], name, cut, 'stream untouched')
    s.seek(at)
    ctx.eq(attempt(read, r), first, name, cut, 'the same again')
    s.seek(0, 2)
    s.write(wire[cut:] + F[4][2])
    s.seek(at)
    ctx.eq(read(r), value, name, cut, 'complete now')
    ctx.eq(F[4][3](r), F[4][4], F[4][0], 'behind it')
    ctx.outcome('refused' if first else 'not refused')
    # an identifier that was read into keeps its content
    ctx.state(case)


# ---- wrong calls of a reader: nothing but the place in the stream may have changed
def wrong_reads():
    out = []
    W = values.wrong()
    for n in ('ReadBytes', 'SafeReadBytes', 'ReadFixedString', 'ReadVarInt', 'ReadVarBytes', 'ReadVarString', 'ReadUInt16', 'ReadInt16', 'ReadUInt32', 'ReadInt32', 'ReadUInt64', 'ReadInt64', 'ReadFloat', 'ReadDouble', 'ReadInt8', 'ReadUInt8', 'unpack'):
        for i in range(len(W)):
            if i == 9 and n in ('ReadBytes', 'SafeReadBytes', 'ReadFixedString'):
                continue
            out.append(('%s %d' % (n, i), lambda r, n=n, i=i: getattr(r, n)(values.wrong()[i])))
    for c in ('', '.', 'x', 'mc.fixtures', 'mc.fixtures.', 'mc.fixtures.Nothing', 'mc.nothing.Item', 'nothing.Item', 'mc.fixtures.Item.Item', 'neocore.UInt256.UInt160', 'mc..Item', None, 5, b'mc.fixtures.Item'):
        out.append(('list of %r' % (c,), lambda r, c=c: r.ReadSerializableArray(c)))
    for m in (None, 'a', 0):
        out.append(('list of at most %r' % (m,), lambda r, m=m: r.ReadSerializableArray('mc.fixtures.Item', m)))
    return out


def gen_wrong_reads(tier):
    for k in range(-3, len(wrong_reads())):
        yield k,


def missing(k, ctx):
    """a class that is not there yet, its module or itself, and then is"""
    import sys, types
    import mc.fixtures
    name = 'mc_later_%d' % k
    item = b'\2\5\7'
    go = lambda: [i.v for i in rd(item)[1].ReadSerializableArray(name + '.Later')]
    try:
        if k == -2:
            sys.modules[name] = types.ModuleType(name)
            sys.modules[name].Other = mc.fixtures.Item
        ctx.refused(go, 'no such class')
        ctx.refused(go, 'no such class, again')
        if k == -1:
            sys.modules[name] = types.ModuleType(name)
            ctx.refused(go, 'no such class in the module')
        m = sys.modules.setdefault(name, types.ModuleType(name))
        m.Later = mc.fixtures.Item
        ctx.eq(go(), [5, 7], 'there now')
    finally:
        sys.modules.pop(name, None)


def run_wrong_reads(case, ctx):
    k, = case
    if k < 0:
        return missing(k, ctx)
    name, f = wrong_reads()[k]
    F = fields()
    some = False
    for i, fld in enumerate(F):
        data = F[2][2] + fld[2] + F[4][2]
        s, r = rd(data)
        ctx.eq(F[2][3](r), F[2][4], F[2][0])
        at = s.tell()
        e = attempt(f, r)
        if e is None:
            continue
        some = True
        ctx.eq(s.getvalue(), data, name, 'stream untouched')
        s.seek(at)
        ctx.eq(attempt(f, r), e, name, 'refused again')
        s.seek(at)
        ctx.eq(fld[3](r), fld[4], fld[0], 'after the refused', name)
        ctx.eq(F[4][3](r), F[4][4], F[4][0], 'after the refused', name)
    ctx.outcome('refused' if some else 'not refused')
    ctx.state(case)


# ---- functions: wrong arguments of every kind at every place, then everything else
def calls():
    """name -> [thunk]; every argument replaced by every unsuitable one"""
    from neocore.UInt160 import UInt160
    from neocore.UInt256 import UInt256
    from neocore.Fixed8 import Fixed8
    from neocore.BigInteger import BigInteger
    from neocore.KeyPair import KeyPair
    from neocore import Utils
    from neocore.Cryptography import Helper as H
    from neocore.Cryptography.ECCurve import ECDSA
    from neocore.Cryptography.Crypto import Crypto, CryptoInstance
    from neocore.Cryptography.MerkleTree import MerkleTree
    from neocore.bin import cli
    k = b'\x07' * 32
    D = CryptoInstance()
    pub = refs.compressed(refs.pub(379))
    sig = bytes(64)
    q = c31.quiet
    table = {
        'UInt160': (UInt160, bytes(20)), 'UInt256': (UInt256, bytes(32)), 'UInt160.ParseString': (UInt160.ParseString, '00' * 20), 'UInt256.ParseString': (UInt256.ParseString, '00' * 32),
        'TryParse': (Fixed8.TryParse, '1.5', False), 'FromDecimal': (Fixed8.FromDecimal, 1), 'Fixed8': (Fixed8, 5), 'FromBytes': (BigInteger.FromBytes, b'\5', True), 'BigInteger': (BigInteger, 5),
        'KeyPair': (KeyPair, k), 'PrivateKeyFromWIF': (KeyPair.PrivateKeyFromWIF, refs.wif(k)), 'PrivateKeyFromNEP2': (lambda *a: values.kdf_fast(KeyPair.PrivateKeyFromNEP2, *a), refs.nep2(7, 'x', kdf.ref), 'x'),
        'isValidPublicAddress': (Utils.isValidPublicAddress, refs.address(bytes(20))),
        'Hash160': (Crypto.Hash160, b'a'), 'Hash160Bytes': (Crypto.Hash160Bytes, b'a'), 'Hash256': (Crypto.Hash256, b'a'), 'ToScriptHash': (Crypto.ToScriptHash, 'ab', True), 'ToScriptHash raw': (Crypto.ToScriptHash, b'ab', False),
        'ToAddress': (Crypto.ToAddress, UInt160(data=bytes(20))), 'Sign': (Crypto.Sign, 'ab', k.hex()), 'VerifySignature': (Crypto.VerifySignature, 'ab', sig, pub), 'VerifySignature raw': (Crypto.VerifySignature, b'ab', sig, pub, False),
        'D.Hash160': (D.Hash160, b'a'), 'D.Hash256': (D.Hash256, b'a'), 'D.Sign': (D.Sign, 'ab', k.hex()), 'D.VerifySignature': (D.VerifySignature, 'ab', sig, pub),
        'ComputeRoot': (MerkleTree.ComputeRoot, [UInt256(data=bytes(32))]), 'MerkleTree': (MerkleTree, [UInt256(data=bytes(32))]),
        'decode_secp256r1': (ECDSA.decode_secp256r1, pub.hex()), 'FromBytes_Secp256r1': (ECDSA.FromBytes_Secp256r1, pub), 'Deserialize_Secp256r1': (ECDSA.Deserialize_Secp256r1, rd(pub)[1]),
        'double_sha256': (H.double_sha256, b'a'), 'bin_dbl_sha256': (H.bin_dbl_sha256, b'a'), 'bin_hash160': (H.bin_hash160, b'a'), 'scripthash_to_address': (H.scripthash_to_address, bytes(20)), 'base256_encode': (H.base256_encode, 5, 3),
        'xor_bytes': (H.xor_bytes, b'ab', b'cd'), 'pubkey_to_redeem': (H.pubkey_to_redeem, pub.hex().encode()), 'pubkey_to_pubhash': (H.pubkey_to_pubhash, pub.hex().encode()),
        'cli.address_to_scripthash': (lambda a: q(cli.address_to_scripthash, a), refs.address(bytes(20))), 'cli.scripthash_to_address': (lambda a: q(cli.scripthash_to_address, a), '00' * 20),
    }
    out = {}
    for name, (f, *good) in table.items():
        L = []
        for at in range(len(good)):
            for w in range(len(values.wrong())):
                if w == 9 and name == 'base256_encode' and at == 1:
                    continue

                def go(f=f, good=good, at=at, w=w):
                    a = list(good)
                    a[at] = values.wrong()[w]
                    return f(*a)
                L.append(go)
        L.append(lambda f=f: f())
        L.append(lambda f=f, good=good: f(*good, 1, 2, 3))
        out[name] = L
    return out


def gen_then(tier):
    from mc.engine import in_child
    # counted elsewhere: the processes of the cases are to start from an untouched one
    C, R = in_child(lambda: ({n: len(c) for n, c in calls().items()}, len(battery.refusals())))
    if tier == 'thorough':
        for n in C:
            for k in range(C[n]):
                yield 'call', n, k, k + 1
        for k in range(R):
            yield 'refusal', '', k, k + 1
    for n in C:
        yield 'call', n, 0, C[n]
    for k in range(0, R, 9):
        yield 'refusal', '', k, min(R, k + 9)


def run_then(case, ctx):
    """fresh process: refused calls first, then a slice of everything"""
    what, n, lo, hi = case
    L = calls()[n] if what == 'call' else [f for nm, f in battery.refusals()]
    some = 0
    for k in range(lo, hi):
        f = L[k]
        r = attempt(f)
        if r is None:
            if what == 'refusal':
                raise Violation('%s was not refused' % battery.refusals()[k][0])
            continue
        some += 1
        for again in range(2):
            ctx.eq(attempt(f), r, what, n, k, 'again')
    ctx.outcome('refused' if some else 'not refused')
    if not some and what == 'call':
        return
    bad, done = battery.play(1, 0)
    ctx.step(done)
    if bad:
        raise Violation('after the refused calls %r: %s' % (case, '; '.join(bad[:3])))
    for k in range(lo, hi):
        if what == 'refusal':
            ctx.check(attempt(L[k]) is not None, 'still refused', battery.refusals()[k][0])
    ctx.state(case)


# ---- what a refused operation was given stays as it was
def givens():
    """(name, arguments made anew, operation)"""
    from neocore.UInt160 import UInt160
    from neocore.UInt256 import UInt256
    from neocore.Fixed8 import Fixed8
    from neocore.BigInteger import BigInteger
    from neocore.KeyPair import KeyPair
    from neocore.Cryptography import Helper as H
    from neocore.Cryptography.ECCurve import ECDSA
    from neocore.Cryptography.Crypto import Crypto
    from neocore.Cryptography.MerkleTree import MerkleTree
    from mc.fixtures import Item
    out = []

    def add(name, make, f):
        out.append((name, make, f))
    u = lambda: UInt160(data=bytes(range(20)))
    v = lambda: UInt256(data=bytes(range(32)))
    import operator as op
    for n in ('lt', 'le', 'gt', 'ge'):
        add('160 %s 256' % n, lambda: (u(), v()), getattr(op, n))
        add('256 %s 160' % n, lambda: (v(), u()), getattr(op, n))
    add('160 compared with 256', lambda: (u(), v()), lambda a, b: a.CompareTo(b))
    add('256 compared with 160', lambda: (v(), u()), lambda a, b: a.CompareTo(b))
    for n in ('truediv', 'mod', 'floordiv', 'itruediv', 'imod', 'ifloordiv'):
        add('amount %s' % n, lambda: (Fixed8(5), Fixed8(0)), getattr(op, n))
        add('integer %s' % n, lambda: (BigInteger(5), BigInteger(0)), getattr(op, n))
    for n in (0, 1, 19, 21, 32):
        add('identifier of %d bytes' % n, lambda n=n: (bytearray(range(n)),), lambda b: UInt160(data=b))
    for n in (0, 1, 31, 33, 64, 95, 97, 103, 105):
        add('key of %d bytes' % n, lambda n=n: (bytearray(range(n)),), KeyPair)
    P = refs.compressed(refs.pub(379))
    Q = refs.uncompressed(refs.pub(379))
    for n, b in (('short', P[:-1]), ('long', P + b'x'), ('prefix', b'\7' + P[1:]), ('off the curve', b'\2' + b'\xff' * 32), ('long form off the curve', Q[:-1] + b'\0'), ('long form short', Q[:-1]), ('empty', b'')):
        add('point %s' % n, lambda b=b: (bytearray(b),), lambda b: ECDSA.decode_secp256r1(b, unhex=False).G.x.value)
        add('point %s, by length' % n, lambda b=b: (bytearray(b),), lambda b: ECDSA.FromBytes_Secp256r1(b).G.x.value)
        add('key of signature %s' % n, lambda b=b: (bytearray(b'ab'), bytearray(64), bytearray(b)), lambda m, sg, k: Crypto.VerifySignature(m, sg, k, unhex=False))
    for k in (None, 5, 'x'):
        add('tree with %r' % k, lambda k=k: ([v(), v(), k, v()],), MerkleTree)
        add('root with %r' % k, lambda k=k: ([v(), v(), k, v()],), MerkleTree.ComputeRoot)
        add('hashes with %r' % k, lambda k=k: (['ab' * 32, 'cd' * 32, k],), lambda L: wr()[1].WriteHashes(L))
        add('list with %r' % k, lambda k=k: ([Item(5), k],), lambda L: wr()[1].WriteSerializableArray(L))
        add('list with an element that refuses, %r' % k, lambda k=k: ([Item(5), Item(None), Item(7)],), lambda L: wr()[1].WriteSerializableArray(L))
    add('xor', lambda: (bytearray(b'abc'), bytearray(b'ab')), H.xor_bytes)
    add('xor of texts', lambda: (bytearray(b'abc'), 'abc'), H.xor_bytes)
    for n in (0, 19, 21):
        add('address of %d bytes' % n, lambda n=n: (bytearray(range(n)),), lambda b: c31.quiet(__import__('neocore.bin.cli').bin.cli.scripthash_to_address, b))
    add('signature of no hex', lambda: (bytearray(b'xyz'), bytearray(b'\7' * 32)), Crypto.Sign)
    add('signature by a long key', lambda: (bytearray(b'abcd'), bytearray(b'\7' * 33)), Crypto.Sign)
    add('script hash', lambda: (bytearray(b'xyz'),), Crypto.ToScriptHash)
    add('redeem', lambda: (bytearray(b'xyz'),), H.pubkey_to_redeem)
    add('pubhash', lambda: (bytearray(b'xyz'),), H.pubkey_to_pubhash)
    add('flags', lambda: (MerkleTree([v(), u2(), v(), u2()]), [0, 0, 1, 256]), lambda t, L: t.Trim(L))
    add('bytes too long for a fixed text', lambda: (bytearray(b'abc'), 2), lambda b, n: wr()[1].WriteFixedString(b, n))
    return out


def u2():
    from neocore.UInt256 import UInt256
    return UInt256(data=bytes(range(40, 72)))


def gen_given(tier):
    for k in range(len(givens())):
        yield k,


def run_given(case, ctx):
    from mc.checks.c30 import content
    k, = case
    name, make, f = givens()[k]
    args = make()
    want = [content(a) for a in make()]
    r = attempt(f, *args)
    if r is None:
        ctx.outcome('not refused')
        return
    ctx.outcome('refused')
    ctx.eq([content(a) for a in args], want, name)
    ctx.eq(attempt(f, *args), r, name, 'again')
    ctx.eq([content(a) for a in args], want, name, 'again')
    ctx.state(case)


# ---- one refusal behind another
def gen_pairs(tier):
    for k in range(len(battery.refusals())):
        yield k,


def run_pairs(case, ctx):
    k, = case
    R = battery.refusals()
    name, f = R[k]
    alone = ctx.scratch.setdefault('alone', {})
    for other, g in R:
        a = attempt(f)
        b = attempt(g)
        if a is None or b is None:
            raise Violation('%s or %s not refused' % (name, other))
        ctx.eq(alone.setdefault(other, b), b, other, 'behind the refused', name)
        ctx.eq(alone.setdefault(name, a), a, name, 'among others')
    ctx.state(case)


FAMILIES = [
    Family('then', gen_then, run_then, 'in a fresh process each: every function of the interface with every argument replaced by each of 12 unsuitable ones (None, text, bytes, numbers, objects that raise ...), missing and surplus arguments, and the 171 refusals of the C36 battery in nines (thorough: each by itself), twice; then a slice of every operation, answers and all refusals', fresh=True),
    Family('objects', gen_objects, run_objects, 'every value of the C38 table: every operator, comparison, conversion and method with unsuitable arguments, short and closed streams; once, twice and behind 3 others; all operations of the value against a new one'),
    Family('writer', gen_writer, run_writer, 'all refused writes behind, in the middle of and before fields of every kind'),
    Family('reader', gen_reader, run_reader, 'every field cut at every byte, tried twice, then completed'),
    Family('wrong reads', gen_wrong_reads, run_wrong_reads, 'every reader operation with 12 unsuitable arguments, and 18 unsuitable class names and limits, twice in front of every field, then the field; classes and modules that appear only later'),
    Family('given', gen_given, run_given, 'refused operations with mutable arguments (identifiers of two sizes, buffers of wrong lengths, invalid keys, lists with one wrong element ...): the arguments before and after'),
    Family('pairs', gen_pairs, run_pairs, 'all ordered pairs of the 171 refusals'),
]
