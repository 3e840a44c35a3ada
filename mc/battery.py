"""a slice of every operation, and of what must be refused, for one process (run in many kinds of processes by C36)

nothing here relies on assert statements, on docstrings or on the environment"""
from mc import kdf
kdf.install()
import io
from mc.engine import Ctx, Violation
from mc import refs
from mc.checks import c31
from mc.common import rd, wr

K = [(b'\x07' * 31 + bytes([i])) for i in range(1, 4)]


def refusals():
    """(name, call): every one of them has to raise an exception"""
    from neocore.UInt160 import UInt160
    from neocore.UInt256 import UInt256
    from neocore.Fixed8 import Fixed8
    from neocore.BigInteger import BigInteger
    from neocore.KeyPair import KeyPair
    from neocore.Cryptography import Helper
    from neocore.Cryptography import ECCurve as EC
    from neocore.Cryptography.Crypto import Crypto
    from neocore.Cryptography.MerkleTree import MerkleTree
    from neocore.bin import cli
    import mc.fixtures
    out = []

    def no(name, f, *a, **k):
        out.append((name, lambda: f(*a, **k)))
    for U, n in ((UInt160, 20), (UInt256, 32)):
        nm = U.__name__
        for m in (1, n - 1, n + 1, 2 * n, 64):
            no('%s of %d bytes' % (nm, m), U, data=bytes(m))
        no('%s of a number' % nm, U, data=5)
        for t in ('', '00', '0x', 'ab' * (n - 1), 'ab' * (n + 1), 'zz' * n, '0x' + 'ab' * (n - 1), 'g' + 'a' * (2 * n - 1)):
            no('%s text %r' % (nm, t), U.ParseString, t)
        no('%s against a text' % nm, U(data=bytes(n)).CompareTo, 'ab' * n)
        no('%s against the other kind' % nm, U(data=bytes(n)).CompareTo, (UInt160 if n == 32 else UInt256)(data=bytes(52 - n)))
        no('%s < bytes' % nm, lambda U=U, n=n: U(data=bytes(n)) < bytes(n))
        no('%s >= None' % nm, lambda U=U, n=n: U(data=bytes(n)) >= None)
    # ---- streams
    S = wr()[1]
    for nm, lo, hi in (('UInt8', 0, 255), ('UInt16', 0, 65535), ('UInt32', 0, 2 ** 32 - 1), ('UInt64', 0, 2 ** 64 - 1), ('Int8', -128, 127), ('Int16', -2 ** 15, 2 ** 15 - 1), ('Int32', -2 ** 31, 2 ** 31 - 1), ('Int64', -2 ** 63, 2 ** 63 - 1)):
        no('Write%s too small' % nm, getattr(S, 'Write' + nm), lo - 1)
        no('Write%s too large' % nm, getattr(S, 'Write' + nm), hi + 1)
        no('Write%s of a text' % nm, getattr(S, 'Write' + nm), '1')
        for k in range((hi.bit_length() + 7) // 8):
            no('Read%s of %d bytes' % (nm, k), lambda nm=nm, k=k: getattr(rd(bytes(k))[1], 'Read' + nm)())
    no('a negative variable-length number', S.WriteVarInt, -1)
    no('a text as a variable-length number', S.WriteVarInt, '5')
    no('a too large variable-length number', S.WriteVarInt, 1 << 64)
    no('a text too long for its field', S.WriteFixedString, 'abcdef', 5)
    no('a 160-bit identifier of another kind', S.WriteUInt160, UInt256(data=bytes(32)))
    no('a 256-bit identifier of another kind', S.WriteUInt256, UInt160(data=bytes(20)))
    no('a 160-bit identifier as bytes', S.WriteUInt160, bytes(20))
    no('a 256-bit identifier as bytes', S.WriteUInt256, bytes(32))
    no('a length over the maximum', lambda: rd(b'\x06abcdef')[1].ReadVarBytes(5))
    no('a number over the maximum', lambda: rd(b'\xfd\x01\x02')[1].ReadVarInt(0x200))
    for n in (1, 19):
        no('a 160-bit identifier from %d bytes' % n, lambda n=n: rd(bytes(n))[1].ReadUInt160())
    for n in (1, 31):
        no('a 256-bit identifier from %d bytes' % n, lambda n=n: rd(bytes(n))[1].ReadUInt256())
    # ---- numbers
    F = Fixed8
    no('an amount divided by zero', lambda: F(5) / F(0))
    no('a remainder by zero', lambda: F(5) % F(0))
    no('a number divided by zero', lambda: BigInteger(5) // BigInteger(0))
    # ---- bytes
    for a, b in ((b'ab', b'abc'), (b'', b'a'), (b'abc', b'ab'), ('ab', b'ab'), (b'ab', 'ab')):
        no('xor of %r and %r' % (a, b), Helper.xor_bytes, a, b)
    no('base256 of a negative number', Helper.base256_encode, -1)
    # ---- key texts
    w, e = refs.wif(K[0]), refs.nep2(int.from_bytes(K[0], 'big'), 'good', kdf.ref)
    for t in ('', w[:-1], w + 'x', w[:-1] + ('1' if w[-1] != '1' else '2'), '5' + w[1:], w[:20] + '0' + w[21:], w[:9] + w[10] + w[9] + w[11:]):
        no('WIF %r' % t, KeyPair.PrivateKeyFromWIF, t)
    for t in ('', e[:-1], e + 'x', e[:-1] + ('1' if e[-1] != '1' else '2'), '7' + e[1:], e[:9] + e[10] + e[9] + e[11:]):
        no('NEP-2 %r' % t, fast, KeyPair.PrivateKeyFromNEP2, t, 'good')
    no('a wrong phrase', fast, KeyPair.PrivateKeyFromNEP2, e, 'evil')
    no('an empty phrase', fast, KeyPair(K[0]).ExportNEP2, '')
    for k in (b'', bytes(32), K[0][:31], K[0] + b'\1', K[0] * 2, refs.P256.n.to_bytes(32, 'big'), b'\xff' * 32):
        no('private key %s' % k.hex(), KeyPair, k)
    # ---- addresses
    a = refs.address(bytes(range(20)))
    for t in ('', 'A', a[:-1], a + '1', a[:-1] + ('1' if a[-1] != '1' else '2'), 'B' + a[1:], a[:5] + '0' + a[6:]):
        no('the script hash of the address %r' % t, c31.quiet, cli.address_to_scripthash, t)
    for t in ('', '00' * 19, '00' * 21, 'zz' * 20, '0x' + '00' * 19):
        no('the address of the script hash %r' % t, c31.quiet, cli.scripthash_to_address, t)
    # ---- trees
    no('a tree of nothing', MerkleTree, [])
    no('the root of nothing', MerkleTree.ComputeRoot, [])
    # ---- points
    ec = EC.ECDSA
    x = next(x for x in range(1, 50) if refs.P256.lift(x, 0) is None)
    G = refs.uncompressed(refs.pub(1))
    bad = [b'\x02' + x.to_bytes(32, 'big'), b'\x03' + x.to_bytes(32, 'big'), b'\x02' + refs.P256.p.to_bytes(32, 'big'), G[:-1] + bytes([G[-1] ^ 1]), G[:-1], b'\x05' + G[1:33], G[:33]]
    for b in bad:
        no('the encoded point %s' % b.hex(), ec.decode_secp256r1, b.hex())
        no('the bytes of a point %s' % b.hex(), lambda b: ec.FromBytes_Secp256r1(b).G.x.value, b)
        no('a stream with the point %s' % b.hex(), lambda b: ec.Deserialize_Secp256r1(rd(b)[1]).x.value, b)
    no('a root modulo 17', lambda: EC.FiniteField(17).value(2).sqrt(0))
    return out


def fast(f, *a):
    with kdf.fast():
        return f(*a)


def answers():
    """(name, got, expected): results, beside those of C31, that are not exceptions"""
    from neocore.UInt160 import UInt160
    from neocore.Fixed8 import Fixed8
    from neocore.BigInteger import BigInteger
    from neocore.KeyPair import KeyPair
    from neocore.Utils import isValidPublicAddress
    from neocore.Cryptography import Helper
    from neocore.Cryptography import ECCurve as EC
    from neocore.Cryptography.Crypto import Crypto
    from neocore.Cryptography.MerkleTree import MerkleTree
    from neocore.UInt256 import UInt256
    a = refs.address(bytes(range(20)))
    m = b'message'
    sig = c31.c20.good(379, m)
    k = refs.compressed(refs.pub(379))
    flip = lambda b, i: b[:i] + bytes([b[i] ^ 1]) + b[i + 1:]
    out = [
        ('address', isValidPublicAddress(a), True), ('no address', isValidPublicAddress(a[:-1]), False), ('another prefix', isValidPublicAddress('B' + a[1:]), False),
        ('a damaged address', isValidPublicAddress(a[:9] + a[10] + a[9] + a[11:]), a[9] == a[10]),
        ('valid', Crypto.VerifySignature(m.hex(), sig, k), True), ('bytes', Crypto.VerifySignature(m, sig, k, unhex=False), True),
        ('another message', Crypto.VerifySignature((m + b'x').hex(), sig, k), False), ('another r', Crypto.VerifySignature(m.hex(), flip(sig, 9), k), False),
        ('another s', Crypto.VerifySignature(m.hex(), flip(sig, 63), k), False), ('another key', Crypto.VerifySignature(m.hex(), sig, refs.compressed(refs.pub(380))), False),
        ('the opposite key', Crypto.VerifySignature(m.hex(), sig, flip(k, 0)), False),
        ('short signature', Crypto.VerifySignature(m.hex(), sig[:63], k), False), ('no signature', Crypto.VerifySignature(m.hex(), bytes(64), k), False),
        ('equal', UInt160(data=bytes(20)) == bytes(20), False), ('not equal', UInt160(data=bytes(20)) != UInt160(data=bytes(20)), False), ('equal to none', UInt160(data=bytes(20)) == None, False),
        ('no parse', Fixed8.TryParse('abc'), None), ('negative', Fixed8.TryParse('-1', require_positive=True), None),
        ('amounts', Fixed8(5) == Fixed8(5), True), ('integers', BigInteger(5) == 5, True), ('texts', (UInt160(data=bytes(20)).ToString(), str(Fixed8(150000000)).startswith('1.5')), ('00' * 20, True)),
        ('roots differ', MerkleTree.ComputeRoot([UInt256(data=bytes([i]) * 32) for i in range(3)]).Data == MerkleTree.ComputeRoot([UInt256(data=bytes([i]) * 32) for i in range(4)]).Data, False),
        ('byte', rd(b'')[1].ReadByte(), 0), ('truth', (rd(b'\x02')[1].ReadBool(), rd(b'\0')[1].ReadBool()), (True, False)), ('short', rd(b'ab')[1].ReadBytes(5), b'ab'),
        ('random key', len(Helper.random_key()), 64),
    ]
    # large ones
    big = (1 << 4096) - 12345
    ints = lambda *x: tuple(int(y) for y in x)
    H = [refs.sha256(b'%d' % i) for i in range(70)]
    s, w = wr()
    w.WriteVarString('\u00e9' * 40000)
    w.WriteVarBytes(bytes(70000))
    w.WriteHashes([h.hex() for h in H])
    w.WriteFixedString('\u00e9' * 300, 700)
    r = rd(s.getvalue())[1]
    out += [('large integers', ints(BigInteger(big) * BigInteger(big), BigInteger(-big) // BigInteger(97), BigInteger(-big) % BigInteger(97), BigInteger(big) >> 77, BigInteger.FromBytes(BigInteger(-big).ToByteArray(), signed=True)),
             (big * big, -big // 97, -big % 97, big >> 77, -big)),
            ('large base 256', bytes(Helper.base256_encode(big)), big.to_bytes(512, 'little')), ('large xor', Helper.xor_bytes(bytes(5000), b'x' * 5000), b'x' * 5000),
            ('large tree', bytes(MerkleTree.ComputeRoot([UInt256(data=h) for h in H]).Data), refs.merkle_levels(H)[-1][0]),
            ('large fields', (r.ReadVarString(), r.ReadVarBytes(), [x if isinstance(x, str) else x.decode() for x in r.ReadHashes()], r.ReadFixedString(700)), ('\u00e9'.encode() * 40000, bytes(70000), [h.hex() for h in H], '\u00e9'.encode() * 300)),
            ('large scripts', (bytes(Crypto.ToScriptHash('ab' * 70000).Data), bytes(Crypto.Hash256(bytes(100000)))), (refs.hash160(b'\xab' * 70000), refs.hash256(bytes(100000)))),
            ('large amounts', [Fixed8.TryParse(t).value for t in ('92233720368.54775807', '-92233720368.54775808', '0.00000001', '123456789012345.12345678')], [2 ** 63 - 1, -2 ** 63, 1, 12345678901234512345678])]
    return out


def play(count, slow):
    """[problem], number of operations"""
    bad, done = [], 0
    ctx = Ctx()
    ctx.fam = 'battery'
    c31.setup()
    for name in sorted(c31.OPS):
        arg, call, ref, n, pats, view = c31.OPS[name]
        for p in pats[:1 if count < 3 else 3]:
            for i in range(min(n, slow if name in c31.SLOW else count)):
                a = arg(i, p)
                if name == 'NEP-2' and not slow:
                    continue
                try:
                    c31.check(name, a, view(call(a)), ref(a), ctx, 'value %d' % i)
                    done += 1
                except Violation as e:
                    bad.append('%s: %s' % (name, e))
                except BaseException as e:
                    bad.append('%s of value %d: %s: %s' % (name, i, type(e).__name__, str(e)[:200]))
    for name, f in refusals():
        try:
            r = f()
            bad.append('%s was not refused: %s' % (name, repr(r)[:100]))
        except Exception:
            done += 1
    try:
        for name, got, want in answers():
            if got != want or type(got) is not type(want) and isinstance(want, bool):
                bad.append('%s: %r instead of %r' % (name, got, want))
            done += 1
    except Exception as e:
        bad.append('answers: %s: %s' % (type(e).__name__, str(e)[:200]))
    return bad, done
