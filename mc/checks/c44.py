"""the kind of container or number an argument comes in never changes a result"""
import array, functools
from collections import UserList, deque
from fractions import Fraction
from mc import kdf
kdf.install()
from mc.common import *
from mc.checks import c30, c31
from mc.checks.c30 import point
from mc.engine import in_child

ASSUMPTIONS = ['bytes and bytearray are accepted alike; what comes in another kind may be refused (by an exception, or a negative answer of the verifying functions), but is not taken for something else',
               'results are compared by content; whether a number comes back as int or a class derived from it is left open, except that earlier calls have no influence on it']


class Bytes(bytes):
    pass


class ByteArray(bytearray):
    pass


class Str(str):
    pass


class List(list):
    pass


class Tuple(tuple):
    pass


class Int(int):
    pass


def iterated(x):
    return iter(list(x))


def big(x):
    from neocore.BigInteger import BigInteger
    return BigInteger(x)


def truth(x):
    return bool(x) if x in (0, 1) else x


BYTES = [bytes, bytearray, memoryview, Bytes, ByteArray, lambda x: array.array('B', bytes(x)), lambda x: memoryview(bytearray(b'\x99' + bytes(x) + b'\x99'))[1:-1], list, tuple]
TEXTS = [str, Str]
LISTS = [list, tuple, List, Tuple, UserList, deque, iterated]
INTS = [int, Int, big, truth]


def cats(x):
    if isinstance(x, (bytes, bytearray)):
        return BYTES
    if isinstance(x, str):
        return TEXTS
    if isinstance(x, (list, tuple)):
        return LISTS
    if isinstance(x, int):
        return INTS
    return []


def kind(f):
    return getattr(f, '__name__', '?')


def plain(c):
    """content() without the kinds of byte strings, numbers and lists"""
    if isinstance(c, tuple):
        if len(c) == 2 and c[0] in ('bytes', 'bytearray', 'memoryview', 'Bytes', 'ByteArray'):
            return 'bytes', c[1]
        if len(c) == 2 and c[0] in ('int', 'Int', 'BigInteger', 'bool') and isinstance(c[1], str):
            return 'int', {'True': '1', 'False': '0'}.get(c[1], c[1])
        if len(c) == 2 and c[0] in ('str', 'Str') and isinstance(c[1], str):
            return 'str', c[1]
        if c and c[0] in ('list', 'tuple', 'List', 'Tuple'):
            return ('list',) + tuple(map(plain, c[1:]))
        return tuple(map(plain, c))
    return c


def got(f, a):
    try:
        return c30.content(f(*a))
    except Violation:
        raise
    except Exception:
        return ('refused',)


NO = (('refused',), ('bool', 'False'), ('int', '0'))


def same(r, want, must, *what):
    r, want = plain(r), plain(want)
    if r == want:
        return True
    if not must and r in NO:
        return False
    raise Violation('%s: %s, but %s of the usual kind' % (', '.join(map(str, what)), str(r)[:200], str(want)[:200]))


# ---- every argument of every operation
def tables():
    return c30.ops(), c30.slots()


def gen_args(t):
    n = in_child(lambda: len(c30.ops()))
    for k in range(n):
        for v in (0, 1):
            yield k, v


def run_args(case, ctx):
    k, v = case
    O, S = tables()
    name, slots, fn = O[k]
    make = lambda: [S[s][v]() for s in slots]
    want = got(fn, make())
    first = make()
    combos = [{i: c} for i, x in enumerate(first) for c in cats(x)]
    if len(first) > 1:
        combos += [{i: c, j: d} for i, x in enumerate(first) for c in cats(x) for j, y in enumerate(first) if j > i for d in cats(y)]
    for combo in combos:
        a = make()
        for i, c in combo.items():
            a[i] = c(a[i])
        if 'in place' in name:
            continue
        must = all(c in (bytes, bytearray, str) for c in combo.values())
        what = name, 'argument ' + ' and '.join('%d as %s' % (i, kind(c)) for i, c in combo.items()), 'content %d' % v
        if name.startswith('integer ') and 0 in combo and combo[0] is not big:
            continue
        r = got(fn, a)
        ok = same(r, want, must, *what)
        ctx.outcome('same' if ok else 'refused')
        ctx.state(what)
        # the usual kind afterwards, and this kind once more
        if plain(got(fn, make())) != plain(want):
            raise Violation('%s, then as usual: another result' % (', '.join(what),))


# ---- whole conversions, values of every pattern
def kinds_of(x, n):
    """the n-th kind for everything in an argument"""
    if isinstance(x, tuple):
        return tuple(kinds_of(i, n) for i in x)
    if isinstance(x, list):
        return [list, tuple, List, Tuple][n % 4]([kinds_of(i, n) for i in x])
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, (bytes, bytearray)):
        return [bytearray, memoryview, Bytes, ByteArray][n % 4](x)
    if isinstance(x, str):
        return Str(x)
    if isinstance(x, int):
        return [Int, big][n % 2](x)
    return x


def gen_conversions(t):
    import bitcoin, neocore.KeyPair, neocore.Cryptography.Crypto, neocore.Cryptography.ECCurve, neocore.bin.cli, neocore.Utils, neocore.IO.BinaryReader, neocore.IO.BinaryWriter, neocore.Cryptography.MerkleTree, mc.fixtures
    c31.setup()
    ok = in_child(kdf.works)
    for name in sorted(c31.OPS, key=lambda o: o not in c31.SLOW):
        if name == 'NEP-2' and not ok or name == 'byte strings':
            # WriteByte writes nothing of kinds it does not know; the rest of it is in the arguments family
            continue
        for p in c31.OPS[name][4]:
            for n in range(4):
                yield name, p, n


def run_conversions(case, ctx):
    c31.setup()
    name, p, n = case
    arg, call, ref, count, _, view = c31.OPS[name]
    m = 3 if name in c31.SLOW else 300
    for i in range(min(m, count)):
        a = arg(i, p)
        for first, second in ((a, kinds_of(a, n)), (kinds_of(a, n), a)) if i % 2 else ((kinds_of(a, n), a), (a, kinds_of(a, n + 1))):
            for x in (first, second):
                try:
                    r = call(x)
                except Exception as e:
                    if x is a:
                        raise
                    ctx.outcome('refused')
                    continue
                v = view(r)
                if x is not a and v in (None, False):
                    ctx.outcome('refused')
                    continue
                c31.check(name, a, v, ref(a), ctx, '%s of value %d, arguments of kind %d' % (name, i, n))
                ctx.outcome('same')
        ctx.state(case + (i,))


# ---- numbers and lengths given to readers and writers
VALUES = (0, 1, 2, 100, 127, 128, 252, 253, 255, 256, 32767, 65535, 65536, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, (1 << 64) - 1, -1, -128, -32768)


def numbers():
    """(name, f(number))"""
    L = []
    for n in ('WriteInt8', 'WriteUInt8', 'WriteInt16', 'WriteUInt16', 'WriteInt32', 'WriteUInt32', 'WriteInt64', 'WriteUInt64', 'WriteVarInt', 'WriteFloat', 'WriteDouble', 'WriteByte', 'WriteBool'):
        def w(x, n=n):
            s, w = wr()
            getattr(w, n)(x)
            return s.getvalue()
        L.append((n, w))
    B = bytes(range(1, 200)) * 2
    for n in ('ReadBytes', 'SafeReadBytes', 'ReadFixedString', 'ReadVarInt', 'ReadVarBytes', 'ReadVarString'):
        L.append((n, lambda x, n=n: getattr(rd(B)[1], n)(x) if abs(x) < 400 else 0))
    from neocore.Fixed8 import Fixed8
    from neocore.BigInteger import BigInteger
    from neocore.Cryptography import Helper
    from neocore.Cryptography import ECCurve as EC

    def fixed(x):
        s, w = wr()
        w.WriteFixed8(Fixed8(x))
        return s.getvalue()

    def text(x):
        s, w = wr()
        w.WriteFixedString('abc', x if x < 400 else 400)
        return s.getvalue()
    P = EC.ECDSA.secp256r1().G
    F = EC.FiniteField(97)
    L += [('WriteFixed8', fixed), ('WriteFixedString', text), ('Fixed8 text', lambda x: Fixed8(x).ToString()), ('Fixed8 JSON', lambda x: Fixed8(x).ToNeoJsonString()), ('FromDecimal', lambda x: Fixed8.FromDecimal(x).value), ('TryParse', lambda x: Fixed8.TryParse(x).value),
          ('BigInteger', lambda x: BigInteger(x).ToByteArray()), ('BigInteger sum', lambda x: BigInteger(7) + x), ('BigInteger product', lambda x: BigInteger(-7) * x), ('BigInteger difference', lambda x: BigInteger(7) - x), ('BigInteger remainder', lambda x: BigInteger(777) % x), ('BigInteger quotient', lambda x: BigInteger(777) // x),
          ('BigInteger equality', lambda x: (BigInteger(255) == x, BigInteger(255).Equals(x), BigInteger(255) < x, BigInteger(255) >= x, BigInteger(x).Sign)), ('BigInteger shift', lambda x: BigInteger(7) << (x if x < 400 else 400)),
          ('base256_encode', lambda x: Helper.base256_encode(x, 12)), ('multiple', lambda x: P * x), ('field value', lambda x: F.value(F.value(3) + x).value), ('field product', lambda x: (F.value(3) * x).value), ('field power', lambda x: (F.value(3) ** x).value), ('field equality', lambda x: F.value(2) == x),
          ('Fixed8 of it', lambda x: (Fixed8(x) + Fixed8(5)).value), ('Fixed8 order', lambda x: (Fixed8(x) < Fixed8(255), Fixed8(x) == Fixed8(255), Fixed8(255) == Fixed8(x))), ('Fixed8 rounding', lambda x: (Fixed8(x).Ceil().value, Fixed8(x).Floor().value, Fixed8(x).ToInt(), (-Fixed8(x)).value)), ('Fixed8 quotient', lambda x: (Fixed8(777) / Fixed8(x)).value)]
    return L


def gen_numbers(t):
    n = in_child(lambda: len(numbers()))
    for k in range(n):
        for v in VALUES:
            yield k, v


def exact(x):
    """content with the kinds of numbers"""
    return c30.content(x)


def run_numbers(case, ctx):
    k, v = case
    name, f = numbers()[k]
    want = got(f, (v,))
    alone = {}
    K = [c for c in INTS if c is not truth or v in (0, 1)]
    for c in K:
        if name == 'WriteByte' or name == 'WriteBool':
            continue
        r = got(f, (c(v),))
        ok = same(r, want, False, name, 'of %d as %s' % (v, kind(c)))
        ctx.outcome('same' if ok else 'refused')
    # one kind after another
    for c in K:
        alone[c] = in_child(lambda: got(numbers()[k][1], (c(v),)))
    for c in K:
        for d in K:
            def after(c=c, d=d):
                g = numbers()[k][1]
                got(g, (c(v),))
                return got(g, (d(v),))
            r = in_child(after)
            if r != alone[d]:
                raise Violation('%s of %d as %s, after the same as %s: %r, alone %r' % (name, v, kind(d), kind(c), r, alone[d]))
            ctx.transitions += 2
    ctx.state(case)


# ---- byte strings and lists of special shape in every kind
def shapes(n):
    up = bytes(range(1, n + 1))
    L = [up, b'\0' + up[1:], b'\0\0' + up[2:], up[:-1] + b'\0', up[:-2] + b'\0\0', b'\0' + up[1:-1] + b'\0', bytes(n), b'\xff' * n, up[::-1], b'\x80' + up[1:], up[:-1] + b'\x80', up[:-1] + b'\xff', b'\1' + bytes(n - 1), bytes(n - 1) + b'\1',
         b'a' * n, b'0' * n, (b'0x' + b'12' * n)[:n], b' ' + b'q' * (n - 2) + b'\n', b'\n' + up[1:], b'\r\n' + up[2:], '\u00e4'.encode() * (n // 2) + b'z' * (n % 2), bytes((i * 37 + 200) % 256 for i in range(n)), b'\\x00' * (n // 4) + b'z' * (n % 4), b'"' + b'\'' * (n - 1)]
    return list(dict.fromkeys(x[:n] for x in L))


def of_bytes():
    """(name, lengths, f(bytes))"""
    from neocore.Cryptography import Helper as H
    from neocore.Cryptography.Crypto import Crypto
    from neocore.Cryptography.MerkleTree import MerkleTree
    from neocore.UInt160 import UInt160
    from neocore.UInt256 import UInt256
    from neocore.BigInteger import BigInteger
    from neocore.KeyPair import KeyPair
    ANY = (2, 3, 20, 32, 33, 64, 65)
    D = Crypto.Default

    def w(name, *more):
        def go(b):
            s, x = wr()
            getattr(x, name)(b, *more)
            return s.getvalue()
        return go
    L = [('double_sha256', ANY, H.double_sha256), ('bin_dbl_sha256', ANY, H.bin_dbl_sha256), ('bin_hash160', ANY, H.bin_hash160), ('bin_hash160Bytes', ANY, H.bin_hash160Bytes), ('Hash160', ANY, Crypto.Hash160), ('Hash160Bytes', ANY, Crypto.Hash160Bytes), ('Hash256', ANY, Crypto.Hash256), ('instance Hash160', ANY, lambda b: D().Hash160(b)), ('instance Hash256', ANY, lambda b: D().Hash256(b)),
         ('ToScriptHash', ANY, lambda b: Crypto.ToScriptHash(b, unhex=False)), ('ToScriptHash of hex', ANY, Crypto.ToScriptHash), ('scripthash_to_address', (20,), H.scripthash_to_address), ('pubkey_to_redeem', (33,), H.pubkey_to_redeem), ('redeem_to_scripthash', ANY, H.redeem_to_scripthash), ('pubkey_to_pubhash', (33,), H.pubkey_to_pubhash),
         ('UInt160', (20,), lambda b: UInt160(data=b)), ('UInt256', (32,), lambda b: UInt256(data=b)), ('UInt160 text', (20,), lambda b: str(UInt160(data=b))), ('number of bytes', ANY, BigInteger.FromBytes), ('signed number', ANY, lambda b: BigInteger.FromBytes(b, True)), ('signed number, named', ANY, lambda b: BigInteger.FromBytes(data=b, signed=True)),
         ('xor with 7', ANY, lambda b: H.xor_bytes(b, b'\7' * len(b))), ('xor from the right', ANY, lambda b: H.xor_bytes(b'\7' * len(b), b)), ('xor itself', ANY, lambda b: H.xor_bytes(b, b)),
         ('WriteBytes', ANY, w('WriteBytes', False)), ('WriteBytes of hex', ANY, w('WriteBytes')), ('WriteVarBytes', ANY, w('WriteVarBytes')), ('WriteVarBytes big endian', ANY, w('WriteVarBytes', '>')), ('WriteVarString', ANY, w('WriteVarString')),
         ('ReadBytes', ANY, lambda b: rd(b)[1].ReadBytes(len(b))), ('ReadVarBytes', ANY, lambda b: rd(b)[1].ReadVarBytes()), ('ReadString', ANY, lambda b: rd(b)[1].ReadString()), ('ReadFixedString', ANY, lambda b: rd(b)[1].ReadFixedString(len(b))), ('ReadInt16', (2,), lambda b: rd(b)[1].ReadInt16()), ('ReadHashes', (33,), lambda b: rd(b)[1].ReadHashes()),
         ('signing with a key', (32,), lambda b: Crypto.Sign('00ff', b)), ('signing by the instance', (32,), lambda b: D().Sign('00ff', b)),
         ('key pair', (32,), lambda b: KeyPair(b).GetAddress()), ('key export', (32,), lambda b: KeyPair(b).Export()), ('root of two', (32,), lambda b: MerkleTree.ComputeRoot([UInt256(data=b), UInt256(data=b'\5' * 32)]).ToBytes()), ('flags', (2, 3), lambda b: trim(b))]
    return L


def trim(b):
    from neocore.Cryptography.MerkleTree import MerkleTree
    from neocore.UInt256 import UInt256
    t = MerkleTree([UInt256(data=bytes([i]) * 32) for i in range(1, len(b) + 1)])
    t.Trim(b)
    return sorted(h.ToBytes() for h in t.ToHashArray()), t.Root.Hash.ToBytes()


def gen_shapes(t):
    for k in range(in_child(lambda: len(of_bytes()))):
        for n in in_child(lambda: of_bytes()[k][1]):
            yield k, n


def run_shapes(case, ctx):
    k, n = case
    name, _, f = of_bytes()[k]
    for i, b in enumerate(shapes(n)):
        want = got(f, (b,))
        if want != ('refused',) and plain(got(f, (bytearray(b),))) != plain(want) and not name.startswith('xor') and name not in ('key pair', 'key export', 'signing with a key', 'signing by the instance'):
            raise Violation('%s of %r differs between bytes and bytearray' % (name, b))
        for c in BYTES[1:]:
            ok = same(got(f, (c(b),)), want, False, name, 'of %r as %s' % (b, kind(c)))
            ctx.outcome('same' if ok else 'refused')
            ctx.state((k, n, i, kind(c)))
        if plain(got(f, (b,))) != plain(want):
            raise Violation('%s of %r: another result afterwards' % (name, b))


def of_lists():
    """(name, make, f(list))"""
    from neocore.Cryptography.MerkleTree import MerkleTree
    from neocore.UInt256 import UInt256
    from mc.fixtures import Item
    u = lambda i: UInt256(data=bytes([0x90 - 0x30 * i]) * 31 + bytes([7 * i]))
    root = lambda l: MerkleTree.ComputeRoot(l).ToBytes()

    def tree(l):
        t = MerkleTree(l)
        return t.Root.Hash.ToBytes(), t.Depth, sorted(h.ToBytes() for h in t.ToHashArray())

    def w(name):
        def go(l):
            s, x = wr()
            getattr(x, name)(l)
            return s.getvalue()
        return go
    return [('ComputeRoot', u, root), ('MerkleTree', u, tree), ('WriteHashes', lambda i: u(i).ToBytes(), w('WriteHashes')), ('WriteSerializableArray', lambda i: Item(9 - 3 * i), w('WriteSerializableArray')), ('Write2000256List', lambda i: u(i).ToBytes(), w('Write2000256List')), ('array of identifiers', u, w('WriteSerializableArray'))]


def gen_words(t):
    for k in range(in_child(lambda: len(of_lists()))):
        for n in range(0, 6 if t == 'thorough' else 5):
            for word in itertools.product(range(3), repeat=n):
                yield k, word


def run_words(case, ctx):
    k, word = case
    name, make, f = of_lists()[k]
    items = [make(i) for i in word]
    want = got(f, (list(items),))
    for c in LISTS[1:] + [lambda l: {i: 1 for i in l}.keys() if len(set(map(id, l))) < 0 else (i for i in l)]:
        ok = same(got(f, (c(items),)), want, False, name, 'of the items %s as %s' % (list(word), kind(c)))
        ctx.outcome('same' if ok else 'refused')
    for d in (dict, ):
        # the items as the keys, or the values, of a dictionary: in their order, or refused
        v = d(enumerate(items)).values()
        ok = same(got(f, (v,)), want, False, name, 'of the items %s as the values of a dictionary' % list(word))
        ctx.outcome('same' if ok else 'refused')
    if plain(got(f, (list(items),))) != plain(want):
        raise Violation('%s of the items %s: another result afterwards' % (name, list(word)))
    ctx.state(case)


# ---- signatures of special shape in every kind
@functools.lru_cache(None)
def special_signatures(d):
    """genuine signatures (message, signature) with zero, 0x80 or 0xff at the ends of r and s"""
    n = refs.P256.n
    def classes(b):
        for where, x in (('first', b[0]), ('last', b[-1])):
            for y in (0, 0x7f, 0x80, 0xff, 0x30):
                if x == y:
                    yield where, y
    seen = {}
    k = 1
    Q = refs.P256.G
    rs = {}
    while len(rs) < 10 and k < 3000:
        r = Q[0] % n
        for c in classes(r.to_bytes(32, 'big')):
            if rs.get(c) is None:
                rs[c] = (k, r)
        k += 1
        Q = refs.P256.add(Q, refs.P256.G)
    out = []
    def sign(m, k, r):
        return pow(k, -1, n) * (int.from_bytes(refs.sha256(m), 'big') + r * d) % n
    for c in sorted(rs):
        m = b'r %s' % repr(c).encode()
        k, r = rs[c]
        out.append((m, r.to_bytes(32, 'big') + sign(m, k, r).to_bytes(32, 'big')))
    inv = {}
    got_s = {}
    r = refs.pub(0x1234567)[0] % n
    ki = pow(0x1234567, -1, n)
    for i in range(6000):
        m = b's %d' % i
        s = ki * (int.from_bytes(refs.sha256(m), 'big') + r * d) % n
        for c in classes(s.to_bytes(32, 'big')):
            if c not in got_s:
                got_s[c] = (m, r.to_bytes(32, 'big') + s.to_bytes(32, 'big'))
        if len(got_s) == 10:
            break
    return out + [got_s[c] for c in sorted(got_s)]


def gen_signatures(t):
    for d in range(3 if t == 'thorough' else 1):
        for i in range(20):
            yield d, i


def run_signatures(case, ctx):
    from neocore.Cryptography.Crypto import Crypto
    d = (0xabcdef0123456789, 5, 1 << 250)[case[0]]
    Q = point(refs.pub(d))
    raw = refs.compressed(refs.pub(d))
    for m, s in special_signatures(d)[case[1]:case[1] + 1]:
        wrong = s[:40] + bytes([s[40] ^ 1]) + s[41:]
        for ki in BYTES:
            for kj in BYTES:
                for key in (Q, raw, bytearray(raw), bytes(raw).hex() and memoryview(raw), List(raw), Bytes(raw)):
                    # two of the three as usual
                    if (kj is not bytes) + (ki is not bytes) + (key is not Q) > 1:
                        continue
                    must = ki in (bytes, bytearray) and kj in (bytes, bytearray) and (key is Q or type(key) in (bytes, bytearray))
                    for inst in (Crypto, Crypto.Default())[:1 if key is not Q else 2]:
                        must_now = must and inst is Crypto
                        a = (m.hex(), ki(s), key) if kj is bytes else (kj(m), ki(s), key)
                        unhex = kj is bytes
                        r = got(lambda *x: bool(inst.VerifySignature(*x, unhex=unhex)), a)
                        if must_now and r != ('bool', 'True') and r is not True:
                            raise Violation('a good signature %s (as %s) of %r (as %s): %s' % (s.hex(), kind(ki), m, kind(kj), r))
                        b = got(lambda *x: bool(inst.VerifySignature(*x, unhex=unhex)), (a[0], ki(wrong), key))
                        if plain(b) == plain(('bool', 'True')) or b is True:
                            raise Violation('a wrong signature %s (as %s) of %r (as %s) is accepted' % (wrong.hex(), kind(ki), m, kind(kj)))
                        ctx.outcome('accepted' if plain(r) == plain(('bool', 'True')) or r is True else 'refused')
                        ctx.transitions += 2
        # the message as a text, and as hexadecimal digits
        for t in ('hello', 'h\u00e9llo', 'abcd', '', '00' * 32):
            sig = refs.sign(t.encode(), d) if hasattr(refs, 'sign') else bytes(Crypto.Sign(t.encode().hex(), '%064x' % d))
            for key in (Q, raw):
                for k in (str, Str):
                    ctx.check(Crypto.VerifySignature(k(t), sig, key, unhex=False) is True, 'a good signature of the text %r (as %s)' % (t, kind(k)))
                    ctx.check(not Crypto.VerifySignature(k(t + 'x'), sig, key, unhex=False), 'a wrong signature of the text %r (as %s)' % (t, kind(k)))
                    ctx.check(Crypto.VerifySignature(k(t.encode().hex()), sig, key) is True, 'a good signature of the digits of %r (as %s)' % (t, kind(k)))
                for k in (bytes, bytearray):
                    ctx.check(Crypto.VerifySignature(k(t.encode().hex().encode()), sig, key) is True, 'a good signature of the digits of %r (as %s)' % (t, kind(k)))
        ctx.state((case, m))


FAMILIES = [
    Family('arguments', gen_args, run_args, 'every operation of C30 (two contents) with each argument, and each two, in every other kind: nine for byte strings, two for texts, seven for lists, four for numbers; and as usual afterwards'),
    Family('conversions', gen_conversions, run_conversions, 'every conversion, 300 values (slow ones 3) of every pattern, everything in its argument in four other kinds, before and after the usual one'),
    Family('numbers', gen_numbers, run_numbers, '40 functions of a number x 21 numbers in every kind, and every ordered pair of kinds one after the other in a fresh process, compared with the kind alone, kind of the result included'),
    Family('shapes', gen_shapes, run_shapes, '42 functions of a byte string x its lengths x 24 shapes (zero bytes, 0x80 or 0xff at either end, text, digits, blanks, descending) x nine kinds'),
    Family('words', gen_words, run_words, 'six functions of a list x every word of up to 4 (thorough: 5) items over three in descending order x eight kinds of collections'),
    Family('signatures', gen_signatures, run_signatures, 'genuine and slightly wrong signatures of 1 (thorough: 3) keys whose r or s begins or ends with 0, 0x30, 0x7f, 0x80, 0xff, in nine kinds, or the key in six, or the message in nine'),
]
