"""arguments are left as they are, results belong to the caller"""
import os
from mc.common import *
from mc.engine import in_child

ASSUMPTIONS = ['the buffer an identifier or key pair hands out is its own (as the code documents by returning it), so it is not changed by the explored callers']


# ------------------------------------------------------------------ content of any value
def content(x, depth=0):
    if isinstance(x, (bytes, bytearray, memoryview)):
        return type(x).__name__, bytes(x).hex()
    if isinstance(x, (str, int, float, bool, type(None))):
        return type(x).__name__, repr(x)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(content(i, depth + 1) for i in x)
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__,) + tuple(sorted(map(repr, map(content, x))))
    if isinstance(x, dict):
        return ('dict',) + tuple((content(k), content(v)) for k, v in x.items())
    n = type(x).__name__
    if hasattr(x, 'Data'):
        return n, bytes(x.Data).hex()
    if n == 'ECPoint':
        return n, x.x.value, x.y.value
    if n == 'KeyPair':
        return n, bytes(x.PrivateKey).hex(), content(x.PublicKey), content(x.PublicKeyHash)
    if n == 'MerkleTree':
        return n, x.Depth, node(x.Root)
    if n == 'ECDSA':
        return n, content(x.G), x.GFn.p
    if n == 'Value':
        return n, x.field.p, x.value
    if n == 'Item':
        return n, x.v
    if hasattr(x, 'value'):
        return n, content(x.value)
    raise Violation('unexpected kind of value %s' % n)


def node(n):
    return None if n is None else (content(n.Hash), node(n.LeftChild), node(n.RightChild))


def spoil(x, seen=None):
    """overwrite everything mutable that the caller holds"""
    if isinstance(x, bytearray):
        for i in range(len(x)):
            x[i] ^= 0x5a
        try:
            x.extend(b'xyz')
        except BufferError:
            pass
    elif isinstance(x, list):
        for i in x:
            spoil(i)
        x.reverse()
        x.append(None)
        del x[0]


def become(x, y):
    """give the same object the content of another"""
    if isinstance(x, bytearray):
        x[:] = y
    elif isinstance(x, list):
        x[:] = y


# ------------------------------------------------------------------ arguments: slot -> two contents
def slots():
    from neocore.UInt160 import UInt160
    from neocore.UInt256 import UInt256
    from neocore.Fixed8 import Fixed8
    from neocore.BigInteger import BigInteger
    from mc.fixtures import Item
    B = bytearray
    k = [5, 0xabcdef0123456789]
    key = [i.to_bytes(32, 'big') for i in k]
    Q = [refs.pub(i) for i in k]
    h32 = [bytes(range(32)), bytes(range(64, 96))]
    S = {}
    S['b20'] = [lambda i=i: B(bytes(range(i, i + 20))) for i in (1, 100)]
    S['b32'] = [lambda i=i: B(h32[i]) for i in (0, 1)]
    S['b8'] = [lambda i=i: B(i) for i in (b'\x01\x02\x03\xff\x00\x80\x7f\x81', b'\x80\xff\xee\x00\x00\x01\xfe\xff')]
    S['msg'] = [lambda i=i: B(i) for i in (b'message one', b'another one')]
    S['hexmsg'] = [lambda i=i: B(i.hex().encode()) for i in (b'message one', b'another one')]
    S['script'] = [lambda q=q: B(refs.key_script(q)) for q in Q]
    S['hexscript'] = [lambda q=q: B(refs.key_script(q).hex().encode()) for q in Q]
    S['key'] = [lambda x=x: B(x) for x in key]
    S['hexkey'] = [lambda x=x: x.hex() for x in key]
    S['key96'] = [lambda x=x, q=q: B(refs.uncompressed(q)[1:] + x) for x, q in zip(key, Q)]
    S['key104'] = [lambda x=x, q=q: B(b'ECS2 \0\0\0' + refs.uncompressed(q)[1:] + x) for x, q in zip(key, Q)]
    S['pub33'] = [lambda q=q: B(refs.compressed(q)) for q in Q]
    S['hexpub33'] = [lambda q=q: B(refs.compressed(q).hex().encode()) for q in Q]
    S['pub65'] = [lambda q=q: B(refs.uncompressed(q)) for q in Q]
    S['hexpub65'] = [lambda q=q: B(refs.uncompressed(q).hex().encode()) for q in Q]
    S['pub64'] = [lambda q=q: B(refs.uncompressed(q)[1:]) for q in Q]
    S['pub72'] = [lambda q=q: B(b'ECS1 \0\0\0' + refs.uncompressed(q)[1:]) for q in Q]
    S['sig'] = [lambda x=x, m=m: B(fixed_sig(x, m)) for x, m in zip(k, (b'message one', b'another one'))]
    S['hashes'] = [lambda i=i: [UInt256(data=bytes([i + j]) * 32) for j in range(5)] for i in (1, 60)]
    S['one hash'] = [lambda i=i: [UInt256(data=bytes([i]) * 32)] for i in (1, 60)]
    S['hexes'] = [lambda i=i: [(bytes(range(i + j, i + j + 32))).hex() for j in range(3)] for i in (1, 60)]
    S['items'] = [lambda i=i: [Item(i + j) for j in range(3)] for i in (1, 60)]
    S['flags'] = [lambda i=i: B(i) for i in (b'\x00\x00\x01', b'\x01\x00\x00')]
    S['u160'] = [lambda i=i: UInt160(data=bytes(range(i, i + 20))) for i in (1, 100)]
    S['v160'] = [lambda i=i: UInt160(data=bytes(range(i, i + 20))) for i in (3, 99)]
    S['u256'] = [lambda i=i: UInt256(data=bytes(range(i, i + 32))) for i in (1, 100)]
    S['f8'] = [lambda i=i: Fixed8(i) for i in (123456789, -987654321012)]
    S['g8'] = [lambda i=i: Fixed8(i) for i in (-5 * 10 ** 8, 77)]
    S['big'] = [lambda i=i: BigInteger(i) for i in (-12345678901234567890, 2 ** 70)]
    S['small'] = [lambda i=i: BigInteger(i) for i in (5, 3000)]
    S['dig'] = [lambda i=i: BigInteger(i) for i in (77, -256)]
    S['P'] = [lambda q=q: point(q) for q in Q]
    S['R'] = [lambda q=q: point(q) for q in (refs.pub(7), refs.pub(11))]
    S['F'] = [lambda i=i: field(i) for i in (3 ** 150, 5 ** 90)]
    S['E'] = [lambda i=i: field(i) for i in (7 ** 80, 1)]
    S['wif'] = [lambda x=x: refs.wif(x) for x in key]
    S['addr'] = [lambda q=q: refs.key_address(q) for q in Q]
    return S


def fixed_sig(d, m):
    e = int.from_bytes(refs.sha256(m), 'big')
    k = 0x1234567
    n = refs.P256.n
    r = refs.pub(k)[0] % n
    return r.to_bytes(32, 'big') + (pow(k, -1, n) * (e + r * d) % n).to_bytes(32, 'big')


def curve():
    from neocore.Cryptography.ECCurve import ECDSA
    return ECDSA.secp256r1().Curve


def point(q):
    return curve().point(*q)


def field(i):
    return curve().field.value(i % refs.P256.p)


# ------------------------------------------------------------------ operations
def W(f):
    def op(*a):
        s, w = wr()
        n = f(w, *a)
        return s.getvalue(), n
    return op


def Rd(f):
    """read from a stream over the caller's buffer"""
    def op(b):
        from neocore.IO.BinaryReader import BinaryReader
        s = io.BytesIO(b)
        return f(BinaryReader(s)), s.tell()
    return op


def ops():
    from neocore.UInt160 import UInt160
    from neocore.UInt256 import UInt256
    from neocore.Fixed8 import Fixed8
    from neocore.BigInteger import BigInteger
    from neocore.KeyPair import KeyPair
    from neocore.Utils import isValidPublicAddress
    from neocore.Cryptography import Helper
    from neocore.Cryptography.Crypto import Crypto
    from neocore.Cryptography.MerkleTree import MerkleTree
    from neocore.Cryptography.ECCurve import ECDSA
    D = Crypto.Default
    O = []

    def add(name, args, fn):
        O.append((name, args.split(), fn))

    def inplace(op):
        def go(a, b):
            if op == '+':
                a += b
            elif op == '-':
                a -= b
            elif op == '*':
                a *= b
            elif op == '/':
                a /= b
            elif op == '//':
                a //= b
            elif op == '%':
                a %= b
            return a
        return go

    for s in ('b20', 'b32', 'b8', 'hexmsg', 'msg'):
        add('WriteBytes', s, W(lambda w, x: w.WriteBytes(x)))
        add('WriteBytes raw', s, W(lambda w, x: w.WriteBytes(x, unhex=False)))
        add('WriteVarBytes', s, W(lambda w, x: w.WriteVarBytes(x)))
        add('WriteVarString', s, W(lambda w, x: w.WriteVarString(x)))
    add('WriteHashes', 'hexes', W(lambda w, x: w.WriteHashes(x)))
    add('Write2000256List', 'hexes', W(lambda w, x: w.Write2000256List(x)))
    add('WriteSerializableArray', 'items', W(lambda w, x: w.WriteSerializableArray(x)))
    add('WriteSerializableArray', 'hashes', W(lambda w, x: w.WriteSerializableArray(x)))
    add('WriteUInt160', 'u160', W(lambda w, x: w.WriteUInt160(x)))
    add('WriteUInt256', 'u256', W(lambda w, x: w.WriteUInt256(x)))
    add('WriteFixed8', 'f8', W(lambda w, x: w.WriteFixed8(x)))
    add('Serialize point', 'P', W(lambda w, x: x.Serialize(w)))
    for n in ('ReadByte', 'ReadBool', 'ReadChar', 'ReadInt16', 'ReadUInt32', 'ReadInt64', 'ReadUInt64', 'ReadDouble', 'ReadFloat', 'ReadFixed8', 'ReadVarInt', 'ReadVarBytes'):
        add(n, 'b8', Rd(lambda r, n=n: getattr(r, n)()))
    add('ReadBytes', 'b32', Rd(lambda r: r.ReadBytes(9)))
    add('SafeReadBytes', 'b32', Rd(lambda r: r.SafeReadBytes(9)))
    add('ReadFixedString', 'msg', Rd(lambda r: r.ReadFixedString(11)))
    add('ReadUInt160', 'b20', Rd(lambda r: r.ReadUInt160()))
    add('ReadUInt256', 'b32', Rd(lambda r: r.ReadUInt256()))
    add('Deserialize point', 'pub33', Rd(lambda r: ECDSA.Deserialize_Secp256r1(r)))
    add('UInt160', 'b20', lambda x: UInt160(data=x))
    add('UInt256', 'b32', lambda x: UInt256(data=x))
    add('Deserialize UInt160', 'b20', lambda x: deser(UInt160(), x))
    for n in ('ToString', 'ToString2', 'To0xString', 'ToBytes', 'GetHashCode', '__hash__', '__str__'):
        for s in ('u160', 'u256'):
            add(n, s, lambda x, n=n: getattr(x, n)())
    add('identifier equality', 'u160 v160', lambda x, y: (x == y, x != y, x < y, x <= y, x > y, x >= y, x.CompareTo(y)))
    add('Hash160', 'msg', Crypto.Hash160)
    for s in ('msg', 'script', 'b32'):
        add('Hash160Bytes', s, Crypto.Hash160Bytes)
        add('Hash256', s, Crypto.Hash256)
        add('Default Hash160', s, lambda x: D().Hash160(x))
        add('Default Hash256', s, lambda x: D().Hash256(x))
        add('double_sha256', s, Helper.double_sha256)
        add('ToScriptHash raw', s, lambda x: Crypto.ToScriptHash(x, unhex=False))
    add('ToScriptHash', 'hexscript', Crypto.ToScriptHash)
    add('redeem_to_scripthash', 'script', Helper.redeem_to_scripthash)
    add('pubkey_to_redeem', 'hexpub33', lambda x: Helper.pubkey_to_redeem(bytes(x)))
    add('pubkey_to_pubhash', 'hexpub33', lambda x: Helper.pubkey_to_pubhash(bytes(x)))
    add('pubkey_to_redeem buffer', 'hexpub33', Helper.pubkey_to_redeem)
    add('scripthash_to_address', 'b20', Helper.scripthash_to_address)
    add('ToAddress', 'u160', Crypto.ToAddress)
    add('isValidPublicAddress', 'addr', isValidPublicAddress)
    add('base256_encode', 'big', lambda x: Helper.base256_encode(abs(int(x)), 12))
    for width in (0, 1, 3):
        add('base256_encode zero %d' % width, 'small', lambda x, width=width: Helper.base256_encode(int(x) // 7, width))
    add('xor_bytes', 'b20 b20', lambda x, y: Helper.xor_bytes(bytes(x), bytes(y)))
    add('Sign', 'hexmsg hexkey', lambda m, k: len(Crypto.Sign(m, k)))
    for s in ('pub33', 'pub64'):
        add('VerifySignature', 'msg sig ' + s, lambda m, g, k: Crypto.VerifySignature(m, g, k, unhex=False))
        add('VerifySignature hex', 'hexmsg sig ' + s, lambda m, g, k: Crypto.VerifySignature(m, g, k))
    add('VerifySignature point', 'hexmsg sig P', lambda m, g, k: D().VerifySignature(m, g, k))
    add('VerifySignature wrong', 'hexmsg sig R', lambda m, g, k: D().VerifySignature(m, g, k))
    for s in ('key', 'key96', 'key104'):
        add('KeyPair', s, KeyPair)
        add('KeyPair Export', s, lambda x: KeyPair(x).Export())
        add('KeyPair GetAddress', s, lambda x: KeyPair(x).GetAddress())
    add('PrivateKeyFromWIF', 'wif', KeyPair.PrivateKeyFromWIF)
    for s in ('pub33', 'pub65', 'pub64', 'pub72', 'key96', 'key104'):
        add('FromBytes_Secp256r1', s, ECDSA.FromBytes_Secp256r1)
    for s in ('hexpub33', 'hexpub65'):
        add('decode_secp256r1', s, ECDSA.decode_secp256r1)
        add('decode_from_hex', s, lambda x: curve().decode_from_hex(x))
    for s in ('pub33', 'pub65'):
        add('decode_secp256r1 raw', s, lambda x: ECDSA.decode_secp256r1(x, unhex=False))
        add('decode_from_hex raw', s, lambda x: curve().decode_from_hex(x, unhex=False))
    add('encode_point', 'P', lambda x: x.encode_point(True))
    add('encode_point uncompressed', 'P', lambda x: x.encode_point(False))
    add('encode infinity', 'P', lambda x: x.curve.Infinity.encode_point(True))
    add('point sum', 'P R', lambda x, y: x + y)
    add('point difference', 'P R', lambda x, y: x - y)
    add('point doubling', 'P', lambda x: x + x)
    add('point negation', 'P', lambda x: -x)
    add('point multiple', 'P', lambda x: x * 6)
    add('point order', 'P R', lambda x, y: (x == y, x < y, x > y, x <= y, x >= y))
    add('point on curve', 'P', lambda x: (x.isoncurve(), x.iszero(), x.IsInfinity, x.Size()))
    add('point in place', 'P R', inplace('+'))
    for o in '+-*/':
        add('field %s' % o, 'F E', inplace(o))
    add('field power', 'F', lambda x: x ** 5)
    add('field negation', 'F', lambda x: -x)
    add('field inverse', 'F', lambda x: x.inverse())
    add('field mixed', 'F', lambda x: (x + 1, 1 - x, 2 * x, x == 3))
    for o in ('+', '-', '*', '/', '//', '%'):
        add('amount %s' % o, 'f8 g8', inplace(o))
        add('integer %s' % o, 'big dig', inplace(o))
    add('amount functions', 'f8', lambda x: (x.Ceil(), x.Floor(), x.ToInt(), x.ToString(), x.ToNeoJsonString(), -x, x.GetData()))
    add('integer functions', 'big', lambda x: (abs(x), -x, x.Sign, x.ToByteArray(), str(x), x << 3, x >> 3))
    add('FromBytes', 'b8', BigInteger.FromBytes)
    add('FromBytes signed', 'b8', lambda x: BigInteger.FromBytes(x, signed=True))
    for s in ('hashes', 'one hash'):
        add('ComputeRoot', s, MerkleTree.ComputeRoot)
        add('MerkleTree', s, MerkleTree)
        add('MerkleTree hashes', s, lambda x: set(MerkleTree(x).ToHashArray()))
        add('Trim', s + ' flags' if s == 'hashes' else 'one\x00hash flags', lambda x, f: trimmed(MerkleTree(x), f))
    out = []
    for name, args, fn in O:
        a = [x.replace('\x00', ' ') for x in args]
        if a[:2] == ['one', 'hash']:
            a = ['one hash'] + a[2:]
        out.append((name + '(' + ', '.join(a) + ')', a, fn))
    return out


def deser(u, x):
    from neocore.IO.BinaryReader import BinaryReader
    u.Deserialize(BinaryReader(io.BytesIO(x)))
    return u


def trimmed(t, f):
    t.Trim(f)
    return t


# ------------------------------------------------------------------ exploration
N = 240


def table(ctx):
    """operations, slots, and the content of every result in a process that did nothing else"""
    if 'c30' not in ctx.scratch:
        def run(k, v):
            import traceback
            def go():
                O, S = ops(), slots()
                name, a, fn = O[k]
                try:
                    return content(fn(*[S[s][v]() for s in a]))
                except Violation:
                    raise
                except Exception as e:
                    return ('refused',)
            return in_child(go)
        O, S = ops(), slots()
        ctx.scratch['c30'] = O, S, [[run(k, v) for v in (0, 1)] for k in range(len(O))]
    return ctx.scratch['c30']


def call(op, args):
    try:
        return op(*args)
    except Violation:
        raise
    except Exception as e:
        return Refused


class Refused:
    pass


def result(r):
    return ('refused',) if r is Refused else content(r)


def gen_single(tier):
    for k in range(N):
        for v in (0, 1):
            yield k, v


def run_single(case, ctx):
    k, v = case
    O, S, gold = table(ctx)
    if k >= len(O):
        return
    if len(O) > N:
        raise Violation('too many operations')
    name, a, fn = O[k]
    if gold[k][v] is None or gold[k][v] == ('refused',):
        raise Violation('%s is refused' % name)
    mk = lambda v: [S[s][v]() for s in a]
    args = mk(v)
    if len(a) == 2 and a[0] == a[1]:
        args[1] = S[a[1]][1 - v]()
        want = result(call(fn, [S[a[0]][v](), S[a[1]][1 - v]()]))
    else:
        want = gold[k][v]
    before = content(args)
    r = call(fn, args)
    ctx.eq(result(r), want, name, 'result', v)
    ctx.eq(content(args), before, name, 'arguments', v)
    r2 = call(fn, args)
    ctx.eq(result(r2), want, name, 'again', v)
    ctx.eq(content(args), before, name, 'arguments again', v)
    ctx.eq(result(r), want, name, 'first result after the second', v)
    # the caller goes on to use its buffers for something else
    spoil(args)
    ctx.eq(result(r), want, name, 'result after its arguments changed', v)
    # and overwrites what it was given
    spoil(r)
    if isinstance(r, tuple):
        for i in r:
            spoil(i)
    ctx.eq(result(r2), want, name, 'second result after the first changed', v)
    args = mk(v) if want is gold[k][v] else [S[a[0]][v](), S[a[1]][1 - v]()]
    ctx.eq(result(call(fn, args)), want, name, 'after a result was overwritten', v)
    # one of the arguments gets other content, the others stay as they are
    for i in range(len(a)):
        args = mk(v)
        keep = [call(fn, args), args[:]]
        other = [S[s][v]() for s in a]
        if isinstance(args[i], (bytearray, list)):
            become(args[i], S[a[i]][1 - v]())
            become(other[i], S[a[i]][1 - v]())
            ctx.eq(result(call(fn, args)), result(call(fn, other)), name, 'other content in one argument', v, i)
        if isinstance(args[i], bytearray):
            # and one changed byte at any position
            n = len(args[i])
            for at in range(n) if os.environ.get('VERIF_TIER') == 'thorough' else sorted({0, n // 2, n - 1}):
                args, other = mk(v), mk(v)
                first = call(fn, args)
                args[i][at] ^= 1
                other[i][at] ^= 1
                ctx.eq(result(call(fn, args)), result(call(fn, other)), name, 'one byte changed', v, i, at)
    # the same objects with other content
    if want is gold[k][v]:
        other = mk(1 - v)
        for x, y in zip(args, other):
            become(x, y)
        if all(isinstance(x, (bytearray, list)) for x in args):
            ctx.eq(result(call(fn, args)), gold[k][1 - v], name, 'same objects, other content', v)


def gen_pairs(tier):
    for k in range(N):
        for j in range(N):
            yield k, j


def run_pairs(case, ctx):
    """one operation after another on the very same objects"""
    O, S, gold = table(ctx)
    k, j = case
    if k >= len(O) or j >= len(O):
        return
    (n1, a1, f1), (n2, a2, f2) = O[k], O[j]
    if not set(a1) & set(a2):
        return
    for v in (0, 1):
        pool = {s: S[s][v]() for s in a1 + a2}
        before = content(list(pool.values()))
        r1 = call(f1, [pool[s] for s in a1])
        r2 = call(f2, [pool[s] for s in a2])
        if not (len(a2) == 2 and a2[0] == a2[1]):
            ctx.eq(result(r2), gold[j][v], n1, n2, 'second', v)
        if not (len(a1) == 2 and a1[0] == a1[1]):
            ctx.eq(result(r1), gold[k][v], n1, n2, 'first', v)
        ctx.eq(content(list(pool.values())), before, n1, n2, 'arguments', v)
        # overwriting the first result leaves the second one and the arguments alone
        spoil(r1)
        if not (len(a2) == 2 and a2[0] == a2[1]):
            ctx.eq(result(r2), gold[j][v], n1, n2, 'second after the first was overwritten', v)
        ctx.eq(content(list(pool.values())), before, n1, n2, 'arguments after', v)


FAMILIES = [
    Family('single operations', gen_single, run_single, 'every operation x 2 argument contents: twice on the same objects, arguments and results overwritten in between, other content in the same objects, one argument or one byte (first, middle, last; thorough: every) at a time'),
    Family('pairs', gen_pairs, run_pairs, 'every ordered pair of operations that take the same kind of argument, on the same objects, x 2 contents'),
]
