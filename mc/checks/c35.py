"""what malformed and hostile input costs: interpreter events, peak memory, reads of the stream, key derivations, all counted"""
from mc import kdf
kdf.install()
from mc.common import *
from mc.work import measure, Counting, TooMuch

ASSUMPTIONS = ['work inside C code (big integers, copies of bytes) shows as memory and against a limit of 100 CPU seconds per case only',
               'element classes of lists that never fail at the end of the data (their reads give 0 or nothing there) are left open: such lists are as long as their count says']
FLAT, PER = 6000, 400          # events: flat and per byte of the data that is there
MFLAT, MPER = 400_000, 120     # bytes of memory
OPS = ['UInt8', 'UInt16', 'UInt32', 'UInt64', 'Int8', 'Int16', 'Int32', 'Int64', 'Byte', 'Bool', 'Char', 'Float', 'Double', 'VarInt', 'VarBytes', 'String', 'VarString', 'UInt160', 'UInt256', 'Fixed8', 'Hashes']
ITEMS = ['mc.fixtures.Item', 'neocore.UInt160.UInt160', 'neocore.UInt256.UInt256', 'mc.checks.c35.Word', 'mc.checks.c35.Deep']

from neocore.IO.Mixins import SerializableMixin


class Word(SerializableMixin):
    """eight bytes; no less"""
    def Serialize(self, w):
        w.WriteUInt64(self.v)

    def Deserialize(self, r):
        self.v = r.ReadUInt64()


class Deep(SerializableMixin):
    """a byte, hashes, a list of elements: hostile counts within a hostile count"""
    def Deserialize(self, r):
        self.v = r.ReadUInt8()
        self.h = r.ReadHashes()
        self.w = r.ReadSerializableArray('mc.checks.c35.Word')


def afford(ctx, fn, size, what, flat=FLAT, per=PER, mflat=MFLAT, memory=True):
    """fn's cost stays within a flat part and a part for each of `size` bytes; returns its result or exception"""
    budget = flat + per * size
    r, w = measure(fn, budget, memory)
    if isinstance(r, MemoryError):
        raise Violation('%s: ran out of memory' % what)
    if isinstance(r, TooMuch):
        raise Violation('%s: more than %d steps for %d bytes' % (what, budget, size))
    if w.peak > mflat + MPER * size:
        raise Violation('%s: %d bytes of memory for %d bytes' % (what, w.peak, size))
    ctx.step()
    ctx.state(what, type(r).__name__)
    return r


def counts(tier):
    out = list(range(0, 40)) + [63, 64, 65, 99, 100, 101, 127, 128, 200, 250, 251, 252]
    for k in range(8, 64):
        out += [(1 << k) - 1, 1 << k, (1 << k) + 1] + ([(1 << k) * 3 // 2] if tier == 'thorough' else [])
    return dedup(out + [(1 << 64) - 1, (1 << 63) + 5, 10 ** 6, 10 ** 9, 10 ** 12])


def prefixes(v):
    """every encoding of a count, the ones longer than needed too"""
    if v < 0xfd:
        yield bytes([v])
    for b, n in ((0xfd, 2), (0xfe, 4), (0xff, 8)):
        if v < 1 << 8 * n:
            yield bytes([b]) + v.to_bytes(n, 'little')


def room(tier):
    return [0, 1, 2, 7, 8, 9, 19, 20, 31, 32, 33, 63, 64, 65, 100, 640, 1000] + ([3, 4, 5, 6, 10, 15, 16, 17, 21, 40, 96, 128, 255, 256, 257, 4000] if tier == 'thorough' else [])


def reads(ctx, op, data, what, most=1, flat=8):
    """a reader op on data: bounded work, no more reads than the data can feed, no bytes read twice, and none at the end over and over"""
    s = Counting(data)
    from neocore.IO.BinaryReader import BinaryReader
    r = BinaryReader(s)
    got = afford(ctx, lambda: op(r), len(data), what)
    if s.calls > flat + most * len(data):
        raise Violation('%s: %d reads for %d bytes' % (what, s.calls, len(data)))
    if s.empty > flat:
        raise Violation('%s: %d reads after the end' % (what, s.empty))
    ctx.check(s.given <= len(data), '%s: bytes read more than once' % what, s.given, len(data))
    return got


def gen_prefix(tier):
    for op in OPS:
        for vs in chunks(counts(tier), 30):
            yield op, vs, tier


def run_prefix(case, ctx):
    op, vs, tier = case
    for v in vs:
        for p in prefixes(v):
            for n in room(tier):
                data = p + bytes(range(1, 251)) * (n // 250 + 1)
                data = data[:len(p) + n]
                what = 'Read%s of %s and %d bytes' % (op, p.hex(), n)
                got = reads(ctx, lambda r: getattr(r, 'Read' + op)(), data, what)
                if isinstance(got, (bytes, str)):
                    ctx.check(len(got) <= len(data), what, len(got))
                elif isinstance(got, list):
                    ctx.check(len(got) <= len(data) // 32 + 2, what, len(got))


def gen_list(tier):
    for c in ITEMS:
        for vs in chunks(counts(tier), 30):
            yield c, vs, tier


def run_list(case, ctx):
    name, vs, tier = case
    for v in vs:
        for p in prefixes(v):
            for n in room(tier):
                for how in (0, 1):
                    body = bytes(range(1, 230)) * (n // 229 + 1) if how == 0 else (b'\x01' + p + p) * (n // (1 + 2 * len(p)) + 1)
                    data = p + body[:n]
                    what = 'a list of %s, count %s and %d bytes (%d)' % (name, p.hex(), n, how)
                    got = reads(ctx, lambda r: r.ReadSerializableArray(name), data, what, most=3, flat=20 if 'Deep' not in name else 20 + 6 * len(data))
                    if isinstance(got, list):
                        ctx.check(len(got) <= len(data), what, len(got))


def gen_length(tier):
    for op in ('ReadBytes', 'SafeReadBytes', 'ReadFixedString'):
        for vs in chunks(counts(tier), 60):
            yield op, vs, tier


def run_length(case, ctx):
    op, vs, tier = case
    for v in vs:
        for n in room(tier):
            data = bytes(range(1, 251)) * (n // 250 + 1)
            data = data[:n]
            for w in (data, b'\0' * n):
                what = '%s of %d from %d bytes' % (op, v, n)
                got = reads(ctx, lambda r: getattr(r, op)(v), w, what)
                if isinstance(got, bytes):
                    ctx.check(len(got) <= n, what, len(got))


def decoders():
    from neocore.UInt160 import UInt160
    from neocore.UInt256 import UInt256
    from neocore.Fixed8 import Fixed8
    from neocore.KeyPair import KeyPair
    from neocore.Utils import isValidPublicAddress
    from neocore.Cryptography import Helper
    from neocore.Cryptography.ECCurve import ECDSA
    from neocore.Cryptography.Crypto import Crypto
    from neocore.bin import cli
    from mc.checks.c31 import quiet
    k = refs.compressed(refs.pub(3))
    b = lambda t: t.encode()
    CURVE = 2_000_000
    return {
        'UInt160.ParseString': (UInt160.ParseString, FLAT), 'UInt256.ParseString': (UInt256.ParseString, FLAT),
        'UInt160': (lambda t: UInt160(data=b(t)), FLAT), 'UInt256': (lambda t: UInt256(data=b(t)), FLAT), 'UInt160 bytes': (lambda t: UInt160(data=bytearray(b(t))), FLAT),
        'TryParse': (Fixed8.TryParse, FLAT), 'TryParse positive': (lambda t: Fixed8.TryParse(t, True), FLAT),
        'WIF': (KeyPair.PrivateKeyFromWIF, FLAT), 'NEP-2': (lambda t: KeyPair.PrivateKeyFromNEP2(t, 'phrase'), FLAT),
        'address': (isValidPublicAddress, FLAT), 'cli address': (lambda t: quiet(cli.address_to_scripthash, t), FLAT), 'cli script hash': (lambda t: quiet(cli.scripthash_to_address, t), FLAT),
        'point': (ECDSA.decode_secp256r1, CURVE), 'point bytes': (lambda t: ECDSA.FromBytes_Secp256r1(b(t)), CURVE), 'point stream': (lambda t: ECDSA.Deserialize_Secp256r1(rd(b(t))[1]), CURVE),
        'private key': (lambda t: KeyPair(b(t)), CURVE), 'signature': (lambda t: Crypto.VerifySignature('00', b(t), k), CURVE), 'public key': (lambda t: Crypto.VerifySignature('00', b'\1' * 64, b(t)), CURVE),
        'message': (lambda t: Crypto.VerifySignature(t, b'\1' * 64, k), CURVE), 'script': (lambda t: Crypto.ToScriptHash(t), FLAT), 'redeem': (lambda t: Helper.pubkey_to_redeem(b(t)), FLAT),
        'xor': (lambda t: Helper.xor_bytes(b(t), b(t)), FLAT),
    }


FILL = ['A', '1', '0', 'f', '6P', 'K', '02', '03ff', '04', '0x', ' ', '\n', '.', '-', 'e', '9', 'z', '\u00e9', '\0', '_', 'AK2nJJpJr6o664', '\u0661']


def sizes(tier):
    return list(range(0, 140, 1 if tier == 'thorough' else 3)) + [20, 32, 33, 34, 35, 40, 52, 58, 64, 65, 66, 130, 160, 255, 256, 257, 511, 512, 1000, 1024, 4000, 10000, 100000] + ([300000, 10 ** 6] if tier == 'thorough' else [])


def gen_text(tier):
    for d in decoders():
        for fill in FILL if decoders()[d][1] == FLAT or tier == 'thorough' else ('0', '02', '04', '\u00e9'):
            yield d, fill, tier


def run_text(case, ctx):
    name, fill, tier = case
    f, flat = decoders()[name]
    for n in sizes(tier):
        if name == 'cli address' and n > 10000:        # decoded before its length is looked at; quadratic within C code
            continue
        if flat > FLAT and not (n in (0, 1, 32, 33, 34, 64, 65, 66, 128, 130, 1000, 100000) or tier == 'thorough' and n % 16 == 0):
            continue
        for head in ('', '0x', 'A', '02', '1e', '-') if flat == FLAT and (n in (32, 34, 64, 66) or n > 500) else ('',):
            t = (head + fill * (n // len(fill) + 1))[:n]
            kdf.used = 0
            with kdf.fast():
                afford(ctx, lambda: f(t), 2 * n, '%s of %d characters %s%s...' % (name, n, head, fill[:6]), flat=flat, per=40 if name != 'xor' and name != 'message' else PER)
            if name in ('WIF', 'NEP-2', 'address', 'cli address'):
                ctx.check(kdf.used == 0, '%s of %r: a key was derived' % (name, t[:40]))


AMOUNTS = ['1e308', '1e309', '1e-308', '1e-400', '1e999', '1e-999999999', '1e999999999', '-1e999999999', '1e99999999999999999999', '1e-99999999999999999999', '9' * 300, '0.' + '0' * 400 + '1', '1E+1000000', '1_000', 'nan', 'sNaN', 'infinity', '-inf', 'NaN' + '9' * 300,
           '0e999999999', '0e-999999999', '0E+425000000', '00000000e425000000', '0.0000001e15', '\u0661e999999', '1e\u0663\u0660\u0660\u0660\u0660', '  1e5000 ', '0x1p999999', '1' + '0' * 308, '1' + '0' * 309, '1e+309', '+1e-5000']


def gen_amount(tier):
    from decimal import Decimal
    for t in AMOUNTS:
        yield t, 'text'
        try:
            Decimal(t)
            yield t, 'decimal'
        except Exception:
            pass
    for m in ('1', '-1', '9.99999999', '0.00000001', '0'):
        for e in list(range(-420, 420, 20)) + [10 ** k for k in range(3, 18)] + [-10 ** k for k in range(3, 18)] + [425000000, 999999999999999999, -999999999999999999]:
            yield '%se%d' % (m, e), 'text'
            yield '%se%d' % (m, e), 'decimal'


def run_amount(case, ctx):
    from decimal import Decimal
    from neocore.Fixed8 import Fixed8
    t, how = case
    x = Decimal(t) if how == 'decimal' else t
    for pos in (False, True):
        r = afford(ctx, lambda: Fixed8.TryParse(x, pos), len(t) + 300, 'the amount %s (%s)' % (t, how))
        ctx.outcome(type(r).__name__)


def gen_nep2(tier):
    e = refs.nep2(5, 'phrase', kdf.ref)
    raw = refs.b58decode(e) if hasattr(refs, 'b58decode') else None
    for i in range(len(e)):
        yield e, i


A58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def run_nep2(case, ctx):
    """a text that is no encrypted key costs no key derivation, one that is costs one"""
    from neocore.KeyPair import KeyPair
    e, i = case
    with kdf.fast():
        for c in A58 + '0OIl+ \u00e9':
            t = e[:i] + c + e[i + 1:]
            kdf.used = 0
            try:
                r = KeyPair.PrivateKeyFromNEP2(t, 'phrase')
            except Exception as x:
                r = x
            ctx.check(kdf.used == (t == e), 'key derivations for %r' % t, kdf.used)
            ctx.check(isinstance(r, Exception) == (t != e), t, r)
        if i == 0:
            for ph in ('phrasf', 'x' * 5000, '\u00e9' * 40):
                kdf.used = 0
                ctx.refused(lambda: KeyPair.PrivateKeyFromNEP2(e, ph), ph[:10])
                ctx.check(kdf.used == 1, 'key derivations for a wrong phrase', kdf.used)


def scales():
    """operation on k things: work grows with k, not faster"""
    from neocore.UInt256 import UInt256
    from neocore.Cryptography.MerkleTree import MerkleTree
    from neocore.Cryptography.Crypto import Crypto
    from neocore.Cryptography import Helper
    from neocore.BigInteger import BigInteger
    H = lambda k: [refs.sha256(b'%d' % i) for i in range(k)]
    U = lambda k: [UInt256(data=h) for h in H(k)]

    class Full(SerializableMixin):
        def Serialize(self, w):
            w.WriteUInt64(5)

    def w(f):
        return lambda a: f(wr()[1], a)
    return {
        'root': (U, MerkleTree.ComputeRoot, 1), 'tree': (U, MerkleTree, 1), 'hashes of a tree': (U, lambda a: MerkleTree(a).ToHashArray(), 1), 'trim': (U, lambda a: MerkleTree(a).Trim([False] * len(a)), 1),
        'trim all but one': (U, lambda a: MerkleTree(a).Trim([i == 1 for i in range(len(a))]), 1),
        'read hashes': (lambda k: refs.varint(k) + b''.join(H(k)), lambda a: rd(a)[1].ReadHashes(), 1), 'write hashes': (lambda k: [h.hex() for h in H(k)], w(lambda x, a: x.WriteHashes(a)), 1),
        'read items': (lambda k: refs.varint(k) + bytes(8 * k), lambda a: rd(a)[1].ReadSerializableArray('mc.checks.c35.Word'), 1), 'write items': (lambda k: [Full() for i in range(k)], w(lambda x, a: x.WriteSerializableArray(a)), 1),
        'read numbers': (lambda k: b''.join(refs.varint(i * 77) for i in range(k)), lambda a: each(a, 'ReadVarInt'), 1), 'read texts': (lambda k: b'\x03abc' * k, lambda a: each(a, 'ReadVarString'), 1),
        'read fixed texts': (lambda k: b'abc\0\0' * k, lambda a: [x.ReadFixedString(5) for x in [rd(a)[1]] for i in range(len(a) // 5)], 1),
        'write numbers': (lambda k: list(range(k)), w(lambda x, a: [x.WriteVarInt(i) for i in a]), 1), 'write texts': (lambda k: ['abc'] * k, w(lambda x, a: [x.WriteVarString(t) for t in a]), 1),
        'hash': (lambda k: bytes(k), Crypto.Hash160, 0), 'double hash': (lambda k: bytes(k), Crypto.Hash256, 0), 'script hash': (lambda k: 'ab' * k, Crypto.ToScriptHash, 0),
        'write bytes': (lambda k: bytes(k), w(lambda x, a: x.WriteVarBytes(a)), 0), 'read bytes': (lambda k: refs.varint(k) + bytes(k), lambda a: rd(a)[1].ReadVarBytes(), 0), 'read text': (lambda k: refs.varint(k) + b'a' * k, lambda a: rd(a)[1].ReadVarString(), 0),
        'fixed zeros': (lambda k: bytes(k), lambda a: rd(a)[1].ReadFixedString(len(a)), 3), 'fixed text, half full': (lambda k: b'a' * (k // 2) + bytes(k // 2), lambda a: rd(a)[1].ReadFixedString(len(a)), 3),
        'write fixed text': (lambda k: k, w(lambda x, a: x.WriteFixedString('ab', a)), 3), 'read text of zeros': (lambda k: refs.varint(k) + bytes(k), lambda a: rd(a)[1].ReadVarString(), 3),
        'integer bytes': (lambda k: bytes(k - 1) + b'\1', lambda a: BigInteger.FromBytes(a).ToByteArray(), 3),
        'compare': (lambda k: U(k), lambda a: sorted(a), 2), 'xor': (lambda k: bytes(k), lambda a: Helper.xor_bytes(a, a), 1),
    }


def each(a, op):
    r = rd(a)[1]
    out = []
    while r.stream.tell() < len(a):
        out.append(getattr(r, op)())
    return out


def gen_scale(tier):
    for name in scales():
        yield name, tier


def run_scale(case, ctx):
    name, tier = case
    make, f, kind = scales()[name]
    sizes = [16, 64, 256, 1024] + ([4096, 16384] if tier == 'thorough' else [])
    base = None
    for k in sizes:
        a = make(k)
        r, w = measure(lambda: f(a), 10 ** 8)
        if isinstance(r, BaseException):
            raise Violation('%s of %d: %r' % (name, k, r))
        if base is not None:
            grow = k // base[0] * (2 if kind == 2 else 1.5)
            if w.events > base[1] * grow + 3000:
                raise Violation('%s: %d steps for %d, %d steps for %d' % (name, base[1], base[0], w.events, k))
            if w.peak > base[2] * grow + 100_000:
                raise Violation('%s: %d bytes of memory for %d, %d for %d' % (name, base[2], base[0], w.peak, k))
        ctx.step()
        ctx.state(name, k)
        base = k, w.events, w.peak


def gen_time(tier):
    for name in scales():
        yield name


def run_time(name, ctx):
    """the time for many things, where one step may be a long one (a list copied as a whole): 32 times as many take no more than 160 times as long"""
    import gc, time
    make, f, kind = scales()[name]
    top = (1 << 24, 1 << 16, 1 << 16, 1 << 22)[kind]
    few, many = make(top // 32), make(top)

    def once(a):
        gc.collect()
        t = time.process_time()
        f(a)
        return time.process_time() - t
    once(few)
    base = max(min(once(few) for i in range(3)), .002)
    took = []

    class Long(BaseException):
        pass

    def long(*a):
        raise Long
    import signal
    old = signal.signal(signal.SIGVTALRM, long)
    for i in range(3):
        signal.setitimer(signal.ITIMER_VIRTUAL, base * 32 * 8)
        try:
            took.append(once(many))
        except Long:
            took.append(base * 32 * 8)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if took[-1] < base * 32 * 5:
            break
    else:
        raise Violation('%s: %.4f s for %d, %.4f s for %d' % (name, base, top // 32, min(took), top))
    signal.signal(signal.SIGVTALRM, old)
    ctx.step()
    ctx.state(name)


FAMILIES = [
    Family('prefixes', gen_prefix, run_prefix, lambda t: '%d reading operations x %d counts (0-39, neighbours of every power of two to 2^64) in every length encoding x %d amounts of data: steps, memory, reads, reads at the end, bytes read twice' % (len(OPS), len(counts(t)), len(room(t)))),
    Family('lists', gen_list, run_list, lambda t: 'lists of %d element classes (one with lists of its own) x the same counts and amounts x contents that are counts again' % len(ITEMS)),
    Family('lengths', gen_length, run_length, 'lengths given by the caller, over the same amounts'),
    Family('texts', gen_text, run_text, lambda t: '%d decoders x %d fillings x lengths 0 to %d with 6 heads' % (22, len(FILL), 10 ** 6 if t == 'thorough' else 100000)),
    Family('amounts', gen_amount, run_amount, 'texts and decimals with exponents to 10^18 both ways'),
    Family('encrypted keys', gen_nep2, run_nep2, 'every character of an encrypted key x every other: no key derivation for a text that fails its check sum'),
    Family('growth', gen_scale, run_scale, 'honest inputs of 16, 64, 256, 1024 (thorough: to 16384) elements: steps and memory grow no faster than they do'),
    Family('time', gen_time, run_time, '2048 and 65536 elements (bytes: half a megabyte and 16, or 128 kilobytes and 4 megabytes): the time of steps that are long in themselves'),
]
