"""crowds: every operation asked of hundreds of different values in one process, earlier ones asked again at every distance"""
from mc import kdf
kdf.install()
import contextlib
from mc.common import *
from mc.checks import c20

ASSUMPTIONS = ['every case is a whole process history: it runs in a process forked before the library was used at all (modules imported only)',
               'the scrypt derivation inside NEP-2 operations is the stand-in of the C18 check']
PATTERNS = ('count', 'high', 'spread')
BACK = sorted({1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025})
FEW = (1, 2, 8, 16, 32, 64, 100, 128)


def val(i, pat, n):
    """n bytes that differ for every i: in the last bytes, in the first bytes, everywhere"""
    if pat == 'spread':
        return (refs.sha256(b'%d' % i) * (n // 32 + 1))[:n]
    b = (i + 1).to_bytes(4, 'big')[-n:]
    return b'\x07' * (n - len(b)) + b if pat == 'count' else b[::-1] + b'\x07' * (n - len(b))


def num(i, pat, n):
    return int.from_bytes(val(i, pat, n), 'big')


EDGES = [0, 1, 2, 0x7f, 0x80, 0xfb, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000, 0x10001, 0x7fffffff, 0xfffffffe, 0xffffffff, 0x100000000, 2 ** 53 + 1, 2 ** 63 - 1]  # 23 of them: a prime
EDGED = {a: (refs.varint(a) + refs.varint(a % 300) + bytes(a % 300) + (-a).to_bytes(8, 'little', signed=True) + (a & 0xffff).to_bytes(2, 'little'), (a, bytes(a % 300), -a, a & 0xffff)) for a in EDGES}
_points = {}


def pt(i, pat='count'):
    """the i-th point: multiples of the base point, and their opposites in turn"""
    C = refs.P256
    if 'at' not in _points:
        _points['at'] = []
    L = _points['at']
    while len(L) <= i // 2:
        L.append(C.add(L[-1], refs.pub(3)) if L else refs.pub(5))
    return L[i // 2] if i % 2 == 0 else C.neg(L[i // 2])


def primes():
    out, x = [], 3
    while len(out) < 420:
        if all(x % q for q in out if q * q <= x):
            out.append(x)
        x += 2
    return out


PRIMES = primes()
OPS = {}


def op(name, arg, call, ref, n=1100, pats=PATTERNS, view=lambda x: x):
    OPS[name] = arg, call, ref, n, pats, view


def data(x): return bytes(x.Data)


def rw(write, read):
    """write, then read what was written"""
    def go(a):
        s, w = wr()
        write(w, a)
        b = s.getvalue()
        return b, read(rd(b)[1])
    return go


def deser(U, r):
    u = U()
    u.Deserialize(r)
    return u


def setup():
    from neocore.UInt160 import UInt160
    from neocore.UInt256 import UInt256
    from neocore.Fixed8 import Fixed8
    from neocore.BigInteger import BigInteger
    from neocore.KeyPair import KeyPair
    from neocore.Utils import isValidPublicAddress
    from neocore.Cryptography import Helper
    from neocore.Cryptography import ECCurve as EC
    from neocore.Cryptography.Crypto import Crypto
    from neocore.Cryptography.MerkleTree import MerkleTree
    from neocore.bin import cli
    import mc.fixtures
    Item = mc.fixtures.Item
    if OPS:
        return
    D = Crypto.Default
    H = lambda n: (lambda i, p: val(i, p, n))

    # ---- identifiers
    for U, n in ((UInt160, 20), (UInt256, 32)):
        nm = U.__name__
        name = 'u%d' % n
        op(nm, H(n), lambda a, U=U: (U(data=a), U(data=bytearray(a)).ToString(), U(data=a).To0xString()), lambda a: (a, a[::-1].hex(), '0x' + a[::-1].hex()),
           view=lambda r: (data(r[0]), r[1], r[2]))
        op(nm + ' text', H(n), lambda a, U=U: U.ParseString(a.hex()), lambda a: a[::-1], view=data)
        op(nm + ' stream', H(n), rw(lambda w, a, U=U: U(data=a).Serialize(w), lambda r, n=n: r.ReadUInt160() if n == 20 else r.ReadUInt256()), lambda a: (a, a), view=lambda r: (r[0], data(r[1])))
        op(nm + ' objects', H(n), rw(lambda w, a, U=U: (w.WriteSerializableArray([U(data=a)]), U(data=a).Serialize(w)), lambda r, U=U: (r.ReadSerializableArray('neocore.%s.%s' % (U.__name__, U.__name__))[0], deser(U, r))),
           lambda a: (b'\1' + a + a, (a, a)), view=lambda r: (r[0], tuple(map(data, r[1]))))
        op(nm + ' order', lambda i, p, n=n: (val(i, p, n), val(i // 2 * 2, p, n)), lambda a, U=U: (U(data=a[0]) == U(data=a[1]), U(data=a[0]) < U(data=a[1]), hash(U(data=a[0])) == hash(U(data=a[0]))),
           lambda a: (a[0] == a[1], a[0][::-1] < a[1][::-1], True))
    # ---- streams
    op('numbers', lambda i, p: num(i, p, 8) >> 1, rw(lambda w, a: (w.WriteUInt64(a), w.WriteInt64(-a), w.WriteVarInt(a), w.WriteUInt32(a & 0xffffffff), w.WriteUInt16(a & 0xffff, '>')),
       lambda r: (r.ReadUInt64(), r.ReadInt64(), r.ReadVarInt(), r.ReadUInt32(), r.ReadUInt16('>'))),
       lambda a: (a.to_bytes(8, 'little') + (-a).to_bytes(8, 'little', signed=True) + refs.varint(a) + (a & 0xffffffff).to_bytes(4, 'little') + (a & 0xffff).to_bytes(2, 'big'), (a, -a, a, a & 0xffffffff, a & 0xffff)))
    op('edges', lambda i, p: EDGES[i % 23:] + EDGES[:i % 23], rw(lambda w, L: [(w.WriteVarInt(a), w.WriteVarBytes(bytes(a % 300)), w.WriteInt64(-a), w.WriteUInt16(a & 0xffff)) for a in L] and None,
       lambda r: [(r.ReadVarInt(), r.ReadVarBytes(), r.ReadInt64(), r.ReadUInt16()) for _ in EDGES]),
       lambda L: (b''.join(EDGED[a][0] for a in L), [EDGED[a][1] for a in L]), pats=('count',))
    op('texts', lambda i, p: val(i, p, 9).hex() + '\u00e9' * (i % 3), rw(lambda w, a: (w.WriteVarString(a), w.WriteFixedString(a, 30)), lambda r: (r.ReadVarString(), r.ReadFixedString(30))),
       lambda a: (refs.varint(len(a.encode())) + a.encode() + a.encode().ljust(30, b'\0'), (a.encode(), a.encode())))
    op('byte strings', lambda i, p: val(i, p, 12) + b'\xf1' * (i % 7), rw(lambda w, a: (w.WriteVarBytes(a), w.WriteBytes(a, unhex=False), w.WriteByte(a[:1])), lambda r: (r.ReadVarBytes(), )),
       lambda a: (refs.varint(len(a)) + a + a + a[:1], (a,)))
    op('hash lists', lambda i, p: [val(i + j, p, 32) for j in range(i % 4)], rw(lambda w, a: w.WriteHashes([x.hex() for x in a]), lambda r: r.ReadHashes()),
       lambda a: (refs.varint(len(a)) + b''.join(x[::-1] for x in a), [x.hex() for x in a]),
       view=lambda r: (r[0], [x.decode() if isinstance(x, bytes) else x for x in r[1]]))
    op('object lists', lambda i, p: [(i + j) % 200 for j in range(i % 5)], rw(lambda w, a: w.WriteSerializableArray([Item(v) for v in a]), lambda r: r.ReadSerializableArray('mc.fixtures.Item')),
       lambda a: (bytes([len(a)]) + bytes(a), a), view=lambda r: (r[0], [x.v for x in r[1]]))
    # ---- amounts and integers
    op('amounts', lambda i, p: num(i, p, 6), lambda a: (Fixed8(a).ToString(), Fixed8.TryParse('%d.%08d' % divmod(a, 10 ** 8)), Fixed8(a) + Fixed8(5), Fixed8(a) - Fixed8(7), Fixed8(a).Floor(), Fixed8(a).Ceil(), Fixed8(a) % Fixed8(97), -Fixed8(a)),
       lambda a: (frac(a), a, a + 5, a - 7, a // 10 ** 8 * 10 ** 8, -(-a // 10 ** 8) * 10 ** 8, a % 97, -a), view=lambda r: (r[0],) + tuple(x.value for x in r[1:]))
    op('integers', lambda i, p: num(i, p, 15), lambda a: (BigInteger(a).ToByteArray(), BigInteger.FromBytes(BigInteger(a).ToByteArray(), signed=True), BigInteger(a) * BigInteger(a + 1), BigInteger(a) // BigInteger(977), BigInteger(-a) % BigInteger(977), BigInteger(a) << 9),
       lambda a: (a, a, a * (a + 1), a // 977, -a % 977, a << 9), view=lambda r: (int.from_bytes(r[0], 'little', signed=True),) + tuple(map(int, r[1:])))
    # ---- hashes, addresses
    op('hashes', lambda i, p: val(i, p, 21), lambda a: (Crypto.Hash256(a), Crypto.Hash160(a), D().Hash256(a), D().Hash160(a), Helper.double_sha256(a), Helper.bin_dbl_sha256(a), Helper.bin_hash160(a), Helper.bin_hash160Bytes(a)),
       lambda a: (refs.hash256(a), refs.hash160(a).hex(), refs.hash256(a), refs.hash160(a), refs.hash256(a).hex(), refs.hash256(a), refs.hash160(a).hex(), refs.hash160(a)),
       view=lambda r: tuple(x if isinstance(x, str) else bytes(x) for x in r))
    op('script hashes', lambda i, p: val(i, p, 35), lambda a: (Crypto.ToScriptHash(a.hex()), Crypto.ToScriptHash(a, unhex=False)), lambda a: (refs.hash160(a),) * 2, view=lambda r: tuple(map(data, r)))
    op('addresses', H(20), lambda a: (Crypto.ToAddress(UInt160(data=a)), Helper.scripthash_to_address(a), isValidPublicAddress(refs.address(a)), cli.address_to_scripthash(refs.address(a)), quiet(cli.scripthash_to_address, a.hex())),
       lambda a: (refs.address(a),) * 2 + (True, a, refs.address(a)), view=lambda r: r[:3] + (bytes(r[3]), r[4]), n=600)
    op('damaged addresses', lambda i, p: damaged(refs.address(val(i // 2, p, 20)), i), isValidPublicAddress, lambda a: refs.address_hash(a) is not None)
    op('byte helpers', lambda i, p: val(i, p, 18), lambda a: (Helper.base256_encode(int.from_bytes(a, 'big'), 18), Helper.xor_bytes(a, a[::-1])),
       lambda a: (a[::-1], bytes(x ^ y for x, y in zip(a, a[::-1]))), view=lambda r: tuple(map(bytes, r)))
    op('key scripts', lambda i, p: b'\x02' + val(i, p, 32), lambda a: (Helper.pubkey_to_redeem(a.hex().encode()), Helper.pubkey_to_pubhash(a.hex().encode())),
       lambda a: (b'\x21' + a + b'\xac', refs.hash160(b'\x21' + a + b'\xac')), view=lambda r: tuple(map(bytes, r)))
    # ---- trees
    op('trees', lambda i, p: [val(i + j, p, 32) for j in range(1 + i % 5)], lambda a: (MerkleTree.ComputeRoot([UInt256(data=x) for x in a]), MerkleTree([UInt256(data=x) for x in a])),
       lambda a: (refs.merkle_levels(a)[-1][0], refs.merkle_levels(a)[-1][0], len(refs.merkle_levels(a)), set(a)),
       view=lambda r: (data(r[0]), data(r[1].Root.Hash), r[1].Depth, {data(x) for x in r[1].ToHashArray()}), n=600)
    # ---- key texts
    op('WIF', H(32), lambda a: KeyPair.PrivateKeyFromWIF(refs.wif(a)), lambda a: a, view=bytes)
    op('damaged WIF', lambda i, p: damaged(refs.wif(val(i // 2, p, 32)), i), lambda a: attempt(lambda: bytes(KeyPair.PrivateKeyFromWIF(a))), lambda a: refs.unwif(a))
    # ---- points
    ec = EC.ECDSA
    op('decoding', lambda i, p: refs.compressed(pt(i)), lambda a: (ec.decode_secp256r1(a.hex()).G, ec.FromBytes_Secp256r1(a).G, ec.Deserialize_Secp256r1(rd(a)[1])),
       lambda a: (refs.P256.lift(int.from_bytes(a[1:], 'big'), a[0] & 1),) * 3, view=lambda r: tuple(map(xy, r)), n=280, pats=('count',))
    op('encoding', lambda i, p: pt(i), lambda a: (c20.point(a).encode_point(True), c20.point(a).encode_point(False)), lambda a: (refs.compressed(a).hex(), refs.uncompressed(a).hex()), pats=('count',),
       view=lambda r: tuple(bytes(x).decode() for x in r))
    op('sums', lambda i, p: (pt(i), pt(i // 3)), lambda a: (c20.point(a[0]) + c20.point(a[1]), -c20.point(a[0]), c20.point(a[0]) == c20.point(a[1])), lambda a: (refs.P256.add(*a), refs.P256.neg(a[0]), a[0] == a[1]),
       view=lambda r: (xy(r[0]), xy(r[1]), r[2]), pats=('count',), n=600)
    op('multiples', lambda i, p: num(i, p, 16), lambda a: ec.secp256r1().G * a, lambda a: refs.pub(a), view=xy, n=40, pats=('count', 'spread'))
    P = refs.P256.p
    fv = lambda x: ec.secp256r1().Curve.field.value(x)
    op('field', lambda i, p: (num(i, p, 31), num(i + 1, p, 30)), lambda a: (fv(a[0]) * fv(a[1]), fv(a[0]) / fv(a[1]), fv(a[0]) - fv(a[1]), fv(a[0]) ** 3, fv(a[0]).inverse(), EC.modinv(a[0], P)),
       lambda a: (a[0] * a[1] % P, a[0] * pow(a[1], -1, P) % P, (a[0] - a[1]) % P, pow(a[0], 3, P), pow(a[0], -1, P), pow(a[0], -1, P)), view=lambda r: tuple(getattr(x, 'value', x) % P for x in r), n=280)
    op('small fields', lambda i, p: PRIMES[i], lambda q: field_of(EC, q), lambda q: (2, (q + 1) // 2, pow(2, q - 2, q), q - 1, 0, 1 if q > 1 else 0), n=len(PRIMES), pats=('count',),
       view=lambda r: tuple(x if isinstance(x, int) else x.value for x in r))
    op('small roots', lambda i, p: PRIMES[i], lambda q: [EC.sqrtCQ(x * x % q, q) for x in (1, 2, q // 2)], lambda q: [True] * 3, n=300, pats=('count',),
       view=lambda r: r)
    op('small curves', lambda i, p: CURVES[i], lambda c: curve_of(EC, c), lambda c: ref_curve(c), n=len(CURVES), pats=('count',), view=lambda r: tuple(map(xy, r)))
    # ---- keys (slow)
    op('keys', lambda i, p: num(i, p, 32) % refs.P256.n, lambda d: key(KeyPair, d), lambda d: (refs.pub(d), refs.key_address(refs.pub(d)), refs.wif(d.to_bytes(32, 'big')), refs.hash160(refs.compressed(refs.pub(d)))), n=140, pats=('count', 'spread'),
       view=lambda r: (xy(r[0]), r[1], r[2], data(r[3])))
    op('signatures', lambda i, p: (b'message %d' % (i // 2), 379 + i % 2 + (i // 40)), lambda a: Crypto.Sign(a[0].hex(), '%064x' % a[1]), lambda a: True, n=140, pats=('count',), view=bytes)
    op('verification', lambda i, p: (b'message %d' % (i // 3), 379, i % 3), lambda a: Crypto.VerifySignature(a[0].hex() if a[2] != 1 else a[0].hex() + '00', c20.good(a[1], a[0]), refs.compressed(refs.pub(a[1] + (a[2] == 2)))), lambda a: a[2] == 0, n=140, pats=('count',))
    op('NEP-2', lambda i, p: (num(i // 2, p, 32) % refs.P256.n, 'phrase %d' % (i % 5)), lambda a: nep2(KeyPair, a), lambda a: (refs.nep2(a[0], a[1], kdf.ref), a[0].to_bytes(32, 'big')), n=70, pats=('count',), view=lambda r: (r[0], bytes(r[1])))


SLOW = {'keys', 'signatures', 'verification', 'NEP-2', 'multiples', 'decoding', 'small curves'}


def frac(a):
    q, r = divmod(a, 10 ** 8)
    return '%d.%08d' % (q, r) if r else None


def attempt(f):
    try:
        return f()
    except Exception:
        return None


def damaged(t, i):
    if i % 2 == 0:
        return t
    k = 1 + (i * 7) % (len(t) - 1)
    return t[:k] + ('2' if t[k] != '2' else '3') + t[k + 1:]


def quiet(f, a):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(a)


def xy(P):
    return None if P.iszero() else (P.x.value, P.y.value)


def key(KeyPair, d):
    k = KeyPair(d.to_bytes(32, 'big'))
    return k.PublicKey, k.GetAddress(), k.Export(), k.PublicKeyHash


def nep2(KeyPair, a):
    with kdf.fast():
        t = KeyPair(a[0].to_bytes(32, 'big')).ExportNEP2(a[1])
        return t, KeyPair.PrivateKeyFromNEP2(t, a[1])


def field_of(EC, q):
    F = EC.FiniteField(q)
    v = F.value
    return v(2), v(1) / v(2), v(2) ** (q - 2), v(0) - v(1), v(q - 1) + v(1), v(q - 1) * v(q - 1)


from mc import small
CURVES = small.curves((5, 7, 11, 13))[:300]


def curve_of(EC, c):
    p, a, b, n = c
    E = EC.EllipticCurve(EC.FiniteField(p), a, b)
    F = EC.FiniteField(p)
    E = EC.EllipticCurve(F, F.value(a), F.value(b))
    ps = small.points(p, a, b)
    G = E.point(*ps[0]) if ps else E.zero()
    return (G, G + G, G * 5) if ps else (G, G, G)


def ref_curve(c):
    p, a, b, n = c
    ps = small.points(p, a, b)
    if not ps:
        return (None,) * 3
    R = small.Ref(p, a, b)
    return ps[0], R.add(ps[0], ps[0]), R.mul(5, ps[0])


def check(name, a, got, want, ctx, what):
    if name == 'small roots':
        q = a
        for x, r in zip((1, 2, q // 2), got):
            if r is None or isinstance(r, bool) or (r * r - x * x) % q:
                raise Violation('%s: a wrong root of %d modulo %d: %r' % (what, x * x % q, q, r))
        ctx.step()
    elif name == 'signatures':
        ctx.check(len(got) == 64 and refs.verify_sig(a[0], got, refs.pub(a[1])), what)
    elif name == 'amounts':
        ctx.eq(got[1:], want[1:], what, a)
        from fractions import Fraction
        ctx.check(Fraction(got[0]) == Fraction(a, 10 ** 8), what, got[0], a)
    else:
        ctx.eq(got, want, what, a)


def imports():
    import bitcoin, neocore.KeyPair, neocore.Cryptography.Crypto, neocore.Cryptography.ECCurve, neocore.bin.cli, neocore.Utils, neocore.IO.BinaryReader, neocore.IO.BinaryWriter, neocore.Cryptography.MerkleTree, mc.fixtures


def gen(tier):
    imports()
    setup()
    from mc.engine import in_child
    ok = in_child(kdf.works)
    for name in sorted(OPS, key=lambda o: o not in SLOW):
        if name == 'NEP-2' and not ok:
            continue
        for p in OPS[name][4]:
            yield name, p, 4 if tier == 'thorough' and name not in ('small fields', 'small roots', 'small curves') else 1


def run(case, ctx):
    setup()
    name, p, factor = case
    arg, call, ref, n, _, view = OPS[name]
    n *= factor
    back = FEW if name in SLOW else BACK
    want, kept = {}, {}

    def ask(i, what, keep=False):
        a = arg(i, p)
        if i not in want:
            want[i] = ref(a)
        r = call(a)
        check(name, a, view(r), want[i], ctx, what)
        if keep:
            kept[i] = r

    for i in range(n):
        ask(i, 'value %d' % i, True)
        if name in SLOW and i % 7 and i != n - 1:
            continue
        for k in back:
            if k <= i:
                ask(i - k, 'value %d again, after %d others' % (i - k, k))
        if i % 50 == 0:
            ctx.state(case + (i,))
    for i in range(n) if name not in ('signatures', 'verification', 'NEP-2', 'multiples') else ():
        ask(i, 'value %d again, after %d others' % (i, n))
    for i in range(n):
        check(name, arg(i, p), view(kept[i]), want[i], ctx, 'the result for value %d, kept while %d others were asked' % (i, n - i))


LONG = ('UInt160', 'UInt160 text', 'UInt160 stream', 'UInt160 objects', 'UInt160 order', 'UInt256', 'UInt256 text', 'UInt256 stream', 'UInt256 objects', 'UInt256 order', 'numbers', 'texts', 'byte strings', 'hash lists', 'object lists', 'edges',
        'amounts', 'integers', 'hashes', 'script hashes', 'addresses', 'damaged addresses', 'byte helpers', 'key scripts', 'trees', 'WIF', 'damaged WIF', 'encoding')
FAR = (2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16383, 16384, 16385, 20000, 32767, 32768, 32769, 50000, 65535, 65536, 65537, 100000, 131072, 262144)


def gen_long(tier):
    imports()
    for name in LONG:
        for p in PATTERNS if tier == 'thorough' and name != 'edges' else PATTERNS[:1]:
            yield name, p, 1000000 if tier == 'thorough' else 280000


def run_long(case, ctx):
    setup()
    name, p, n = case
    arg, call, ref, _, _, view = OPS[name]
    if name == 'edges':
        n //= 4
    kept = {}
    for i in range(n):
        a = arg(i, p)
        r = call(a)
        check(name, a, view(r), ref(a), ctx, 'value %d' % i)
        if i % 256 == 0:
            kept[i] = a, r
            for k in FAR:
                if k <= i and (i // 256 + k) % 8 < 2:
                    a = arg(i - k, p)
                    check(name, a, view(call(a)), ref(a), ctx, 'value %d again, after %d others' % (i - k, k))
            ctx.state(case + (i,))
    for i, (a, r) in kept.items():
        check(name, a, view(r), ref(a), ctx, 'the result for value %d, kept while %d others were asked' % (i, n - i))
        check(name, a, view(call(a)), ref(a), ctx, 'value %d again, after %d others' % (i, n))


FAMILIES = [
    Family('long', gen_long, run_long, lambda t: '%d quick operations x %s: %d (a quarter of that of the edges of the ranges of numbers, all of them) values one after the other in one process, every 256th followed by a quarter of those 2047 ... 262144 back; all of these again at the end, and the results kept of them' % (len(LONG), 'all patterns' if t == 'thorough' else 'one pattern', 1000000 if t == 'thorough' else 280000), fresh=True),
    Family('crowds', gen, run, lambda t: 'every operation x up to 3 patterns: 40 to 1100 (thorough: 4 times as many) values one after the other, asking again those 1, 2, 3, ... 1025 values back; all again at the end; all results kept and compared at the end', fresh=True),
]
