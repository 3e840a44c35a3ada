from mc import kdf
kdf.install()
from mc.common import *
from mc import engine
from mc.checks import c20

ASSUMPTIONS = ['every case is a whole process history: it runs in a process forked before the library was used at all (modules imported only)',
               'the scrypt derivation inside NEP-2 operations is the stand-in of the C18 check']
N = refs.P256.n
MSG = b'history message'
D1, D2 = 379, N - 43
OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


def K():
    from neocore.KeyPair import KeyPair
    return KeyPair


def Cr():
    from neocore.Cryptography.Crypto import Crypto
    return Crypto


def E():
    from neocore.Cryptography.ECCurve import ECDSA
    return ECDSA


def b32(d): return d.to_bytes(32, 'big')


@op
def key(ctx):
    for d in (D1, D2):
        k = K()(b32(d))
        ctx.eq((k.PublicKey.x.value, k.PublicKey.y.value), refs.pub(d), 'public key')
        ctx.eq(bytes(k.PublicKeyHash.Data), refs.hash160(refs.compressed(refs.pub(d))), 'hash')
        ctx.eq(k.GetAddress(), refs.key_address(refs.pub(d)), 'address')


@op
def key_long(ctx):
    k = K()(refs.uncompressed(refs.pub(D2))[1:] + b32(D2))
    ctx.eq((k.PublicKey.x.value, k.PublicKey.y.value), refs.pub(D2), 'public key')
    ctx.eq(k.GetAddress(), refs.key_address(refs.pub(D2)), 'address')


@op
def sign(ctx):
    for d in (D1, D2):
        s = Cr().Sign(MSG.hex(), b32(d).hex())
        ctx.check(len(s) == 64 and refs.verify_sig(MSG, bytes(s), refs.pub(d)), 'signature verifies')


@op
def sign_default(ctx):
    s = Cr().Default().Sign(MSG.hex(), b32(D2).hex())
    ctx.check(len(s) == 64 and refs.verify_sig(MSG, bytes(s), refs.pub(D2)), 'signature verifies')


@op
def verify_compressed(ctx):
    ctx.eq(Cr().VerifySignature(MSG.hex(), c20.good(D1, MSG), refs.compressed(refs.pub(D1))), True, 'verification')


@op
def verify_point(ctx):
    ctx.eq(Cr().VerifySignature(MSG.hex(), c20.good(D2, MSG), c20.point(refs.pub(D2))), True, 'verification')


@op
def verify_raw(ctx):
    ctx.eq(Cr().VerifySignature(MSG, c20.good(D1, MSG), refs.uncompressed(refs.pub(D1))[1:], unhex=False), True, 'verification')


@op
def verify_default(ctx):
    ctx.eq(Cr().Default().VerifySignature(MSG.hex(), c20.good(D1, MSG), refs.compressed(refs.pub(D1))), True, 'verification')


@op
def verify_wrong(ctx):
    ctx.eq(Cr().VerifySignature(MSG.hex(), c20.good(D1, MSG), refs.compressed(refs.pub(D2))), False, 'wrong key')


@op
def verify_malformed(ctx):
    for s, p in ((b'', refs.compressed(refs.pub(D1))), (c20.good(D1, MSG), b'\x02' + b'\xff' * 32), (c20.good(D1, MSG), b'\x05' * 33), (c20.good(D1, MSG), b''), (bytes(64), bytes(64))):
        ctx.eq(Cr().VerifySignature(MSG.hex(), s, p), False, 'malformed')


@op
def decode(ctx):
    for d in (D1, D2):
        c = refs.compressed(refs.pub(d))
        for g in (E().decode_secp256r1(c.hex()).G, E().FromBytes_Secp256r1(c).G, E().Deserialize_Secp256r1(rd(c)[1])):
            ctx.eq((g.x.value, g.y.value), refs.pub(d), 'decoded')
            ctx.eq(bytes(g.encode_point(True)), c.hex().encode(), 'encoded')


@op
def wif(ctx):
    ctx.eq(bytes(K().PrivateKeyFromWIF(refs.wif(b32(D2)))), b32(D2), 'import')
    ctx.eq(K()(b32(D2)).Export(), refs.wif(b32(D2)), 'export')


@op
def nep2(ctx):
    with kdf.fast():
        t = refs.nep2(D2, 'p\u00e4ss', kdf.ref)
        ctx.eq(K()(b32(D2)).ExportNEP2('p\u00e4ss'), t, 'encrypt')
        ctx.eq(bytes(K().PrivateKeyFromNEP2(t, 'p\u00e4ss')), b32(D2), 'decrypt')


@op
def nep2_decrypt(ctx):
    with kdf.fast():
        ctx.eq(bytes(K().PrivateKeyFromNEP2(refs.nep2(D1, 'other', kdf.ref), 'other')), b32(D1), 'decrypt')


@op
def nep2_refused(ctx):
    with kdf.fast():
        t = refs.nep2(D2, 'pass', kdf.ref)
        ctx.refused(lambda: K().PrivateKeyFromNEP2(t, 'Pass'), 'wrong phrase')
        ctx.refused(lambda: K().PrivateKeyFromNEP2(t[:-1] + 'x', 'pass'), 'damaged')
        ctx.refused(lambda: K()(b32(D2)).ExportNEP2('p'), 'short')


@op
def address(ctx):
    from neocore.UInt160 import UInt160
    from neocore.Utils import isValidPublicAddress
    from neocore.bin import cli
    h = bytes(range(20))
    ctx.eq(Cr().ToAddress(UInt160(data=h)), refs.address(h), 'address')
    ctx.eq(isValidPublicAddress(refs.address(h)), True, 'valid')
    ctx.eq(isValidPublicAddress(refs.address(h)[:-1] + '1'), False, 'invalid')
    ctx.eq(bytes(cli.address_to_scripthash(refs.address(h))), h, 'script hash')
    ctx.eq(bytes(Cr().ToScriptHash('ab' * 3).Data), refs.hash160(b'\xab' * 3), 'script hash')


@op
def hashes(ctx):
    ctx.eq(bytes(Cr().Default().Hash256(b'abc')), refs.hash256(b'abc'), 'hash')
    ctx.eq(bytes(Cr().Hash256(b'abc')), refs.hash256(b'abc'), 'hash')
    ctx.eq(Cr().Hash160(b'abc'), refs.hash160(b'abc').hex(), 'hash')
    ctx.eq(bytes(Cr().Default().Hash160(b'abc')), refs.hash160(b'abc'), 'hash')


@op
def refused_keys(ctx):
    for b in (bytes(32), b'\xff' * 32, N.to_bytes(32, 'big'), b'', bytes(33), b'1' * 64):
        ctx.refused(lambda: K()(b), 'key')
    ctx.refused(lambda: K().PrivateKeyFromWIF(refs.b58check(b'\x80' + bytes(33))), 'WIF')


@op
def refused_decodes(ctx):
    for b in (b'\x02' + b'\xff' * 32, b'\x05' + bytes(32), bytes(33), b'\x02' + bytes(31) + b'\x01', refs.uncompressed(refs.pub(7))[:-1] + b'\0'):
        ctx.check(refs_refuses(b) and attempt(lambda: E().decode_secp256r1(b, unhex=False)) is None, 'refused')


BAD = [refs.uncompressed(refs.pub(7))[:-1] + b'\0', b'\x04' + bytes(31) + b'\x01' + bytes(31) + b'\x01']


@op
def unchecked(ctx):
    """points off the curve, decoded without the check and then refused with it"""
    for b in BAD:
        g = E().decode_secp256r1(b, unhex=False, check_on_curve=False).G
        ctx.eq((g.x.value, g.y.value), (int.from_bytes(b[1:33], 'big'), int.from_bytes(b[33:], 'big')), 'unchecked')
        g = E().decode_secp256r1(b.hex(), check_on_curve=False).G
        ctx.eq((g.x.value, g.y.value), (int.from_bytes(b[1:33], 'big'), int.from_bytes(b[33:], 'big')), 'unchecked')
        g = E().FromBytes_Secp256r1(b[1:] + b32(7)).G
        ctx.eq((g.x.value, g.y.value), (int.from_bytes(b[1:33], 'big'), int.from_bytes(b[33:], 'big')), '96 bytes')
        ctx.eq(bytes(g.encode_point(False)), b.hex().encode(), 'encoded')
    checked(ctx)


@op
def checked(ctx):
    for b in BAD:
        ctx.check(attempt(lambda: E().decode_secp256r1(b, unhex=False)) is None, 'refused')
        ctx.check(attempt(lambda: E().decode_secp256r1(b.hex())) is None, 'refused')
        ctx.check(attempt(lambda: E().FromBytes_Secp256r1(b)) is None, 'refused')
        ctx.check(attempt(lambda: E().FromBytes_Secp256r1(b[1:])) is None, 'refused')


@op
def twins(ctx):
    """relatives of the inputs of other operations: the opposite points, keys, texts and messages that begin or end alike"""
    for d in (D1, D2):
        Q = refs.P256.neg(refs.pub(d))
        for g in (E().decode_secp256r1(refs.compressed(Q).hex()).G, E().decode_secp256r1(refs.uncompressed(Q), unhex=False).G, E().FromBytes_Secp256r1(refs.compressed(Q)).G):
            ctx.eq((g.x.value, g.y.value), Q, 'opposite point')
    for d in (D1 + 1, D2 + 1, D1 + (1 << 248), D2 - (1 << 128), D2 - (1 << 250)):
        k = K()(b32(d))
        ctx.eq((k.PublicKey.x.value, k.PublicKey.y.value), refs.pub(d), 'public key')
        ctx.eq(k.Export(), refs.wif(b32(d)), 'WIF')
        ctx.eq(bytes(K().PrivateKeyFromWIF(refs.wif(b32(d)))), b32(d), 'import')
    t = refs.wif(b32(D2))
    ctx.refused(lambda: K().PrivateKeyFromWIF(t[:-1] + ('1' if t[-1] != '1' else '2')), 'WIF')
    ctx.refused(lambda: K().PrivateKeyFromWIF(t[:20] + ('1' if t[20] != '1' else '2') + t[21:]), 'WIF')
    for m in (b'abd', b'abc\0', b'ab', b'xbc'):
        ctx.eq((bytes(Cr().Hash256(m)), Cr().Hash160(m), bytes(Cr().Default().Hash160(m)), bytes(Cr().Default().Hash256(m))), (refs.hash256(m), refs.hash160(m).hex(), refs.hash160(m), refs.hash256(m)), 'hash')
    from neocore.UInt160 import UInt160
    from neocore.bin import cli
    for h in (bytes(range(19)) + b'\xff', b'\xff' + bytes(range(1, 20)), bytes(range(20))[::-1]):
        ctx.eq(Cr().ToAddress(UInt160(data=h)), refs.address(h), 'address')
        ctx.eq(bytes(cli.address_to_scripthash(refs.address(h))), h, 'script hash')
    s = Cr().Sign((MSG[:-1] + b'x').hex(), b32(D1).hex())
    ctx.check(refs.verify_sig(MSG[:-1] + b'x', bytes(s), refs.pub(D1)), 'signature verifies')


@op
def verify_twins(ctx):
    """what other operations accept, with another message"""
    ctx.eq(Cr().VerifySignature((MSG[:-1] + b'x').hex(), c20.good(D1, MSG), refs.compressed(refs.pub(D1))), False, 'other message')
    ctx.eq(Cr().VerifySignature(MSG.hex(), c20.good(D1, MSG), refs.compressed(refs.P256.neg(refs.pub(D1)))), False, 'opposite key')


@op
def nep2_twins(ctx):
    with kdf.fast():
        ctx.eq(K()(b32(D2)).ExportNEP2('other'), refs.nep2(D2, 'other', kdf.ref), 'encrypt')
        ctx.eq(K()(b32(D1)).ExportNEP2('p\u00e4ss'), refs.nep2(D1, 'p\u00e4ss', kdf.ref), 'encrypt')
        ctx.refused(lambda: K().PrivateKeyFromNEP2(refs.nep2(D2, 'p\u00e4ss', kdf.ref), 'other'), 'other phrase')
        ctx.refused(lambda: K().PrivateKeyFromNEP2(refs.nep2(D1, 'other', kdf.ref), 'p\u00e4ss'), 'other phrase')


@op
def spoil(ctx):
    """what the caller was given is changed in place where it can be changed"""
    from neocore.UInt160 import UInt160
    from neocore.bin import cli
    k = K()(b32(D1))
    given = [k.PublicKeyHash.Data, k.PrivateKey, K().PrivateKeyFromWIF(refs.wif(b32(D2))), Cr().Hash256(b'abc'), Cr().Default().Hash256(b'abc'), Cr().Default().Hash160(b'abc'), Cr().ToScriptHash('ab' * 3).Data,
             cli.address_to_scripthash(refs.address(bytes(range(20)))), Cr().Sign(MSG.hex(), b32(D1).hex()), E().decode_secp256r1(refs.compressed(refs.pub(D1)).hex()).G.encode_point(True)]
    with kdf.fast():
        given.append(attempt(lambda: K().PrivateKeyFromNEP2(refs.nep2(D1, 'other', kdf.ref), 'other')))
    for b in given:
        if isinstance(b, bytearray):
            b[0] ^= 0xff
    ctx.step()


def refs_refuses(b):
    from mc.checks.c22 import ref_decode
    return ref_decode(b) is None


def attempt(f):
    try:
        return f()
    except Exception:
        return None


@op
def refused_signs(ctx):
    attempt(lambda: Cr().Sign('zz', b32(7).hex()))
    attempt(lambda: Cr().Sign(MSG.hex(), 'zz'))
    attempt(lambda: Cr().Sign(None, None))
    ctx.step()


@op
def toolkit(ctx):
    """the other built-in curve in the library's own toolkit"""
    e, C = E().secp256k1(), refs.K256
    P = e.G * 379
    ctx.eq((P.x.value, P.y.value), C.mul(379, C.G), 'k1 multiple')
    e, C = E().secp256r1(), refs.P256
    P = e.G * 379
    ctx.eq((P.x.value, P.y.value), refs.pub(379), 'r1 multiple')


@op
def select_k1(ctx):
    import bitcoin
    C = refs.K256
    bitcoin.change_curve(C.p, C.n, C.a, C.b, C.G[0], C.G[1])
    ctx.step()


@op
def select_224(ctx):
    import bitcoin
    bitcoin.change_curve(2 ** 224 - 2 ** 96 + 1, 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFF16A2E0B8F03E13DD29455C5C2A3D, 2 ** 224 - 2 ** 96 - 2,
                         0xB4050A850C04B3ABF54132565044B0B7D7BFD8BA270B39432355FFB4, 0xB70E0CBD6BB4BF7F321390B94A03C1D356C21122343280D6115C1D21, 0xBD376388B5F723FB4C22DFE6CD4375A05A07476444D5819985007E34)
    ctx.step()


@op
def select_part(ctx):
    """P-256 with another base point: everything but the generator is as the library wants it"""
    import bitcoin
    C = refs.P256
    G = refs.pub(5)
    bitcoin.change_curve(C.p, C.n, C.a, C.b, G[0], G[1])
    ctx.step()


SELECT = ['select_k1', 'select_224', 'select_part']
VERIFY = ['verify_compressed', 'verify_point', 'verify_raw', 'verify_default', 'verify_wrong', 'verify_malformed', 'verify_twins']
SENSITIVE = ['key', 'sign', 'sign_default', 'verify_compressed', 'decode', 'nep2_decrypt', 'wif', 'nep2']


def usable():
    """operations that can run here (NEP-2 only when its derivation goes through the stand-in)"""
    ok = engine.in_child(kdf.works)
    return [o for o in OPS if ok or not o.startswith('nep2')]


def warm():
    """import everything (and nothing else) before the processes are forked"""
    import bitcoin, neocore.KeyPair, neocore.Cryptography.Crypto, neocore.Cryptography.ECCurve, neocore.bin.cli, neocore.Utils, neocore.IO.BinaryReader, mc.checks.c22


def gen_single(tier):
    warm()
    for o in usable():
        yield o,


def gen_pairs(tier):
    warm()
    ops = usable()
    for a in ops:
        for b in ops:
            if tier == 'thorough' or b not in SELECT and not (a in VERIFY[1:] and b in VERIFY):
                yield a, b


def gen_triples(tier):
    warm()
    ops = usable()
    if tier == 'thorough':
        yield from (t for t in itertools.product(ops, ops, ops) if t[2] not in SELECT and sum(x in VERIFY for x in t) < 3)
        return
    quiet = [o for o in ops if o not in VERIFY[1:]]
    # something of the library, another selection, and a curve-sensitive operation
    for a in quiet:
        for s in SELECT[:2]:
            for c in SENSITIVE:
                if c in ops and a not in SELECT:
                    yield a, s, c
    # another selection, something of the library, and a curve-sensitive operation
    for a in SELECT:
        for b in quiet:
            for c in SENSITIVE:
                if c in ops and b not in SELECT and (a == 'select_k1' or c in ('key', 'sign', 'verify_compressed')):
                    yield a, b, c


def gen_long(tier):
    """long histories: rotations of the whole alphabet, forwards and backwards, a selection in between"""
    warm()
    ops = usable()
    for k in range(0, len(ops), 1 if tier == 'thorough' else 4):
        r = ops[k:] + ops[:k]
        yield tuple(r)
        yield tuple(reversed(r))
        yield tuple(x for o in r if o not in SELECT for x in (SELECT[k % 3], o))


def run_history(case, ctx):
    for i, o in enumerate(case):
        try:
            OPS[o](ctx)
        except Violation as e:
            raise Violation('after %r, %s: %s' % (case[:i], o, e))
        ctx.state(case[:i + 1])


FAMILIES = [
    Family('single', gen_single, run_history, lambda t: 'each of %d operations as the first thing a process does' % len(OPS), fresh=True),
    Family('pairs', gen_pairs, run_history, 'ordered pairs of operations (quick: without pairs of slow verifications and final selections), a process each', fresh=True),
    Family('triples', gen_triples, run_history, 'quick: (operation, selection, sensitive operation) and (selection, operation, sensitive operation); thorough: all ordered triples but those of three verifications', fresh=True),
    Family('long', gen_long, run_history, 'rotations of the whole alphabet, forwards, backwards and with selections interleaved', fresh=True),
]
