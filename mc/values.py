"""every kind of value of the library: how to make it (fresh each time), every operation on it, operations between two
of them, and ways to change it (used by C38; all data is built from the JSON-able seed)"""
from mc import kdf
kdf.install()
import io
from decimal import Decimal

U20 = [bytes(20), bytes(range(1, 21)), b'\xff' * 20, bytes([0x71] * 10 + [0xe0] * 10)]
U32 = [bytes(32), bytes(range(0x80, 0xa0)), b'\xff' * 32, bytes([0xe0] * 32)]
AMOUNTS = [0, 1, -1, 123456789, -250000000, 10 ** 8, 2 ** 62, -2 ** 63]
INTS = [0, 1, -1, 127, -128, 128, 255, 2 ** 64, -2 ** 200 + 1]
KEYS = [1, 2, 0x1234567, (1 << 255) + 12345]
FIELDS = [(23, 0), (23, 5), (23, 22), (2 ** 31 - 1, 77), (13, 12)]
CURVES = [(23, 1, 1), (97, 2, 3)]
TREES = [1, 2, 3, 5, 8]


def norm(x):
    """content of a result, and its kind where it is one of the library's"""
    t = type(x).__name__
    if isinstance(x, bool) or x is None or isinstance(x, (str, float, Decimal)):
        return x
    if isinstance(x, int):
        return (base(x), int(x))
    if isinstance(x, (bytes, bytearray, memoryview)):
        return bytes(x).hex()
    if hasattr(x, 'Data'):
        return base(x), bytes(x.Data).hex()
    if t == 'Value' or hasattr(x, 'field') and hasattr(x, 'value'):
        return 'Value', x.value, x.field.p
    if hasattr(x, 'curve'):
        return 'ECPoint', norm(x.x), norm(x.y), norm(x.curve)
    if hasattr(x, 'GFn'):
        return 'ECDSA', norm(x.G), norm(x.ec), x.GFn.p
    if hasattr(x, 'field') and hasattr(x, 'a'):
        return 'Curve', x.field.p, x.a.value, x.b.value
    if hasattr(x, 'PublicKeyHash'):
        return 'KeyPair', norm(x.PrivateKey), norm(x.PublicKey), norm(x.PublicKeyHash)
    if hasattr(x, 'Root'):
        return 'Tree', x.Depth, norm(x.Root)
    if hasattr(x, 'LeftChild'):
        return 'Node', norm(x.Hash), norm(x.LeftChild) if x.LeftChild is not None else None, norm(x.RightChild) if x.RightChild is not None else None, x.LeftChild is x.RightChild
    if hasattr(x, 'ToNeoJsonString'):
        return 'Fixed8', x.value
    if isinstance(x, (list, tuple)):
        return [norm(i) for i in x]
    if isinstance(x, (set, frozenset)):
        return sorted(norm(i) for i in x)
    if isinstance(x, dict):
        return sorted((norm(k), norm(v)) for k, v in x.items())
    raise TypeError('no content of %r' % (x,))


def base(x):
    """the library's class behind a subclass"""
    for c in type(x).__mro__:
        if c.__module__.startswith('neocore') or c in (int,):
            return c.__name__
    return type(x).__name__


def kinds():
    """name -> (number of seeds, make(seed), ops(x) -> [(name, thunk)], pairs(x, y) -> [(name, thunk)], changes [(name, f(x), shallow too)])"""
    from neocore.UInt160 import UInt160
    from neocore.UInt256 import UInt256
    from neocore.Fixed8 import Fixed8
    from neocore.BigInteger import BigInteger
    from neocore.KeyPair import KeyPair
    from neocore.Cryptography.ECCurve import ECDSA, EllipticCurve, FiniteField
    from neocore.Cryptography.Crypto import Crypto, CryptoInstance
    from neocore.Cryptography.MerkleTree import MerkleTree
    from neocore.IO.BinaryReader import BinaryReader
    from neocore.IO.BinaryWriter import BinaryWriter
    K = {}

    def out(f):
        s = io.BytesIO()
        f(BinaryWriter(s))
        return s.getvalue()

    def into(x, data):
        x.Deserialize(BinaryReader(io.BytesIO(data)))

    # ---- identifiers
    def uops(x):
        n = len(x.Data)
        return [('text', lambda: x.ToString()), ('str', lambda: str(x)), ('0x', lambda: x.To0xString()), ('bytes', lambda: x.ToBytes()), ('array', lambda: x.ToArray()), ('low first', lambda: x.ToString2()),
                ('size', lambda: x.Size), ('hash', lambda: hash(x)), ('code', lambda: x.GetHashCode()), ('written', lambda: out(x.Serialize)), ('in a list', lambda: out(lambda w: w.WriteSerializableArray([x, x]))),
                ('format', lambda: '%s|%s' % (x, format(x))), ('none', lambda: x == None), ('other', lambda: x == 5)] + ([('address', lambda: Crypto.ToAddress(x))] if n == 20 else [])

    def ucmp(x, y):
        return [('==', lambda: x == y), ('!=', lambda: x != y), ('<', lambda: x < y), ('<=', lambda: x <= y), ('>', lambda: x > y), ('>=', lambda: x >= y), ('cmp', lambda: x.CompareTo(y)),
                ('found in a set', lambda: x in {y}), ('found in a dictionary', lambda: {y: 1}.get(x)), ('found in a list', lambda: [y, y].count(x)), ('one of two', lambda: len({x, y})), ('sorted', lambda: sorted([x, y])), ('max', lambda: max(x, y))]

    def umut(n):
        return [('read again', lambda x: into(x, bytes(range(0x41, 0x41 + n))), True), ('read again, zero', lambda x: into(x, bytes(n)), True), ('first byte', lambda x: x.Data.__setitem__(0, x.Data[0] ^ 1), False),
                ('last byte', lambda x: x.Data.__setitem__(n - 1, x.Data[n - 1] ^ 0x80), False)]
    K['UInt160'] = len(U20), lambda i: UInt160(data=U20[i]), lambda x: uops(x) + [('written as', lambda: out(lambda w: w.WriteUInt160(x)))], ucmp, umut(20)
    K['UInt256'] = len(U32), lambda i: UInt256(data=U32[i]), lambda x: uops(x) + [('written as', lambda: out(lambda w: w.WriteUInt256(x)))], ucmp, umut(32)

    # ---- amounts
    def fops(x):
        return [('value', lambda: x.value), ('data', lambda: x.GetData()), ('ceil', lambda: x.Ceil()), ('floor', lambda: x.Floor()), ('int', lambda: x.ToInt()), ('text', lambda: x.ToString()), ('json', lambda: x.ToNeoJsonString()),
                ('str', lambda: str(x)), ('size', lambda: x.Size()), ('neg', lambda: -x), ('written', lambda: out(lambda w: w.WriteFixed8(x))), ('format', lambda: '%s' % x)]

    def fcmp(x, y):
        o = [('==', lambda: x == y), ('!=', lambda: x != y), ('<', lambda: x < y), ('<=', lambda: x <= y), ('>', lambda: x > y), ('>=', lambda: x >= y), ('+', lambda: x + y), ('-', lambda: x - y), ('*', lambda: x * y), ('max', lambda: max(x, y)), ('in', lambda: x in [y])]

        def inplace(op):
            z = x
            if op == '+':
                z += y
            elif op == '-':
                z -= y
            else:
                z *= y
            return [z, x, y]
        o += [('+=', lambda: inplace('+')), ('-=', lambda: inplace('-')), ('*=', lambda: inplace('*'))]
        if y.value:
            o += [('/', lambda: x / y), ('//', lambda: x // y), ('%', lambda: x % y)]
        return o
    K['Fixed8'] = len(AMOUNTS), lambda i: Fixed8(AMOUNTS[i]), fops, fcmp, [('another value', lambda x: setattr(x, 'value', 77), True)]

    # ---- big integers
    def bops(x):
        return [('bytes', lambda: x.ToByteArray()), ('sign', lambda: x.Sign), ('abs', lambda: abs(x)), ('neg', lambda: -x), ('str', lambda: str(x)), ('hash', lambda: hash(x)), ('int', lambda: int(x)), ('equals', lambda: x.Equals(5)), ('<<', lambda: x << 3), ('>>', lambda: x >> 2), ('hex', lambda: hex(x)), ('bits', lambda: x.bit_length()),
                ('index', lambda: list(range(300))[x] if 0 <= x < 300 else None), ('unsigned', lambda: x.ToByteArray(signed=False) if x >= 0 else None), ('written', lambda: out(lambda w: w.WriteVarInt(x)) if 0 <= x < 2 ** 64 else None), ('written 8', lambda: out(lambda w: w.WriteUInt8(x)) if 0 <= x < 256 else None)]

    def bcmp(x, y):
        o = [('==', lambda: x == y), ('!=', lambda: x != y), ('<', lambda: x < y), ('<=', lambda: x <= y), ('>', lambda: x > y), ('>=', lambda: x >= y), ('+', lambda: x + y), ('-', lambda: x - y), ('*', lambda: x * y), ('Equals', lambda: x.Equals(y)), ('set', lambda: len({x, y})), ('dict', lambda: {y: 1}.get(x)), ('sorted', lambda: sorted([x, y]))]
        if y:
            o += [('//', lambda: x // y), ('%', lambda: x % y), ('/', lambda: x / y)]
        return o
    K['BigInteger'] = len(INTS), lambda i: BigInteger(INTS[i]), bops, bcmp, []

    # ---- keys
    def kops(x):
        o = [('content', lambda: x), ('address', lambda: x.GetAddress()), ('export', lambda: x.Export()), ('back', lambda: KeyPair.PrivateKeyFromWIF(x.Export())), ('nep2', lambda: x.ExportNEP2('pass')), ('nep2 back', lambda: KeyPair.PrivateKeyFromNEP2(x.ExportNEP2('pass'), 'pass')),
             ('hash', lambda: str(x.PublicKeyHash)), ('point', lambda: x.PublicKey.encode_point(True)), ('again', lambda: KeyPair(bytes(x.PrivateKey)))]

        def signs():
            sig = Crypto.Sign(b'text'.hex(), bytes(x.PrivateKey))
            return [Crypto.VerifySignature(b'text'.hex(), sig, x.PublicKey), Crypto.VerifySignature(b'tex'.hex(), sig, x.PublicKey)]
        return o + [('signs', signs)]

    def kcmp(x, y):
        def cross():
            sig = Crypto.Sign(b'text'.hex(), bytes(x.PrivateKey))
            return Crypto.VerifySignature(b'text'.hex(), sig, y.PublicKey)
        return [('same key', lambda: x.PublicKey == y.PublicKey), ('same hash', lambda: x.PublicKeyHash == y.PublicKeyHash), ('set of hashes', lambda: len({x.PublicKeyHash, y.PublicKeyHash})), ('cross', cross)]
    K['KeyPair'] = len(KEYS), lambda i: KeyPair(KEYS[i].to_bytes(32, 'big')), kops, kcmp, \
        [('zeroed', lambda x: x.PrivateKey.__setitem__(slice(0, 31), bytes([9] * 31)), False)]

    # ---- points of P-256 and of small curves
    def pops(x):
        big = x.curve.field.p > 1 << 200
        o = [('content', lambda: x), ('zero', lambda: x.iszero()), ('on', lambda: x.isoncurve()), ('infinity', lambda: x.IsInfinity), ('str', lambda: str(x)), ('neg', lambda: -x), ('double', lambda: x + x), ('nothing', lambda: x - x), ('times', lambda: x * 5), ('times minus', lambda: x * -3), ('times 0', lambda: x * 0),
             ('with infinity', lambda: x + x.curve.Infinity), ('curve', lambda: x.curve)]
        if big:
            o += [('size', lambda: x.Size()), ('short', lambda: x.encode_point(True)), ('long', lambda: x.encode_point(False)), ('written', lambda: out(x.Serialize)), ('decoded', lambda: [ECDSA.decode_secp256r1(bytes(x.encode_point(c)).decode()).G for c in (True, False)] if not x.IsInfinity else None),
                  ('script hash', lambda: Crypto.ToScriptHash(bytes.fromhex('21' + bytes(x.encode_point(True)).decode() + 'ac'), unhex=False) if not x.IsInfinity else None)]
        return o

    def pcmp(x, y):
        return [('==', lambda: x == y), ('!=', lambda: x != y), ('<', lambda: x < y), ('<=', lambda: x <= y), ('>', lambda: x > y), ('>=', lambda: x >= y), ('+', lambda: x + y), ('-', lambda: x - y), ('coordinates', lambda: [x.x == y.x, y.y == x.y, x.x + y.x, x.y * y.y, x.x - y.y]), ('sorted', lambda: sorted([y, x])), ('in', lambda: x in [y])]

    def point(i):
        if i == 0:
            return ECDSA.secp256r1().Curve.Infinity
        g = ECDSA.secp256r1().G * i
        return g.curve.point(g.x.value, g.y.value)        # not the generator itself: the changes must not reach one which is shared
    mutp = [('other y', lambda x: setattr(x, 'y', (-x).y), True)]
    K['point'] = 3, point, pops, pcmp, mutp

    def small(i):
        p, a, b = CURVES[i % 2]
        f = FiniteField(p)
        E = EllipticCurve(f, f.value(a), f.value(b))
        return E.point(*{0: (0, 1), 1: (3, 6), 2: (0, 22), 3: (0, 0)}[i])
    K['small point'] = 4, small, pops, lambda x, y: pcmp(x, y) if x.curve.field.p == y.curve.field.p else [], mutp

    def vops(x):
        o = [('content', lambda: x), ('neg', lambda: -x), ('+', lambda: x + 3), ('r+', lambda: 3 + x), ('-', lambda: x - 3), ('r-', lambda: 3 - x), ('*', lambda: x * 3), ('r*', lambda: 3 * x), ('/', lambda: x / 3), ('r/', lambda: 3 / x), ('**', lambda: x ** 3), ('r**', lambda: 3 ** x), ('zero', lambda: x.iszero()), ('str', lambda: str(x)), ('= int', lambda: x == x.value), ('inverse', lambda: x.inverse() if x.value else None),
             ('field', lambda: [x.field.p, x.field.zero(), x.field.one(), x.field.value(4)]), ('sqrt', lambda: (x * x).sqrt(0) if x.field.p % 8 != 1 and x.value else None)]
        return o

    def vcmp(x, y):
        return [('==', lambda: x == y), ('!=', lambda: x != y), ('+', lambda: x + y), ('-', lambda: x - y), ('*', lambda: x * y), ('/', lambda: x / y if y.value else None), ('field', lambda: [x.field.add(x, x), x.field.value(y), x.field.integer(y)]), ('in', lambda: x in [y])]
    K['field value'] = len(FIELDS), lambda i: FiniteField(FIELDS[i][0]).value(FIELDS[i][1]), vops, lambda x, y: vcmp(x, y) if x.field.p == y.field.p else [], [('other value', lambda x: setattr(x, 'value', 4), True)]

    # ---- curves and the toolkit
    def ecurve(i):
        return small(i).curve if i < 2 else ECDSA.secp256r1().Curve
    K['curve'] = 3, ecurve, lambda c: [('content', lambda: c), ('infinity', lambda: c.Infinity), ('zero', lambda: c.zero()), ('points', lambda: [c.point(3, 6), c.point(0, 1)]), ('on', lambda: [c.isoncurve(c.point(x, y)) for x in range(4) for y in range(7)]), ('neg', lambda: c.neg(c.point(3, 6)))], \
        lambda c, d: [('add', lambda: c.add(d.point(3, 6), d.point(3, 6)) if c.field.p == d.field.p else None), ('eq', lambda: c.eq(d.point(3, 6), c.point(3, 6)))], []

    def tops(e):
        k = 0x1234
        return [('content', lambda: e), ('public', lambda: e.calcpub(k)), ('order', lambda: e.GFn.p), ('sign', lambda: [norm_num(v) for v in e.sign(99, k, 77)]), ('verify', lambda: e.verify(99, e.calcpub(k), *e.sign(99, k, 77)))]
    K['toolkit'] = 1, lambda i: ECDSA.secp256k1(), tops, lambda d, e: [('cross', lambda: d.verify(99, e.calcpub(5), *e.sign(99, 5, 77)))], []

    # ---- trees
    def tree(i):
        return MerkleTree([UInt256(data=bytes([j + 1] * 32)) for j in range(TREES[i])])

    def mops(t):
        return [('content', lambda: t), ('depth', lambda: t.Depth), ('hashes', lambda: sorted(bytes(getattr(h, 'Data', h)).hex() for h in t.ToHashArray())), ('root', lambda: t.Root.Hash), ('kinds', lambda: [t.Root.IsRoot(), t.Root.IsLeaf()]), ('parents', lambda: t.Root.LeftChild.Parent is t.Root if t.Root.LeftChild is not None else None)]
    K['tree'] = len(TREES), tree, mops, lambda t, u: [('same root', lambda: t.Root.Hash == u.Root.Hash)], \
        [('trimmed', lambda t: t.Trim(bytes(8)), False), ('trimmed, first kept', lambda t: t.Trim(b'\1' + bytes(7)), False), ('last kept', lambda t: t.Trim(bytes(7) + b'\1'), False)]

    # ---- readers and writers on memory
    def rops(r):
        def go():
            r.stream.seek(2)
            return [r.ReadByte(), r.ReadUInt16(), r.ReadVarBytes(), r.ReadBytes(3), r.stream.tell()]
        return [('read', go), ('read again', go)]
    K['reader'] = 1, lambda i: BinaryReader(io.BytesIO(b'..A\x34\x12\x03abcdefghi')), rops, lambda r, s: [('alternately', lambda: [(r.stream.seek(2), s.stream.seek(2)) and None, r.ReadByte(), s.stream.seek(3) and None, s.ReadUInt16(), r.stream.seek(5) and None, r.ReadVarBytes()])], [('moved', lambda r: r.stream.seek(9), False)]

    def wops(w):
        def go():
            w.stream.seek(0)
            w.stream.truncate()
            n = [w.WriteUInt16(5), w.WriteVarString('abc'), w.WriteBytes(b'00ff'), w.WriteVarInt(1000)]
            return w.stream.getvalue()
        return [('write', go), ('write again', go)]
    K['writer'] = 1, lambda i: BinaryWriter(io.BytesIO()), wops, lambda r, s: [], [('written', lambda w: w.WriteByte(7), False)]

    def cops(c):
        k = KEYS[2].to_bytes(32, 'big')

        def signs():
            return c.VerifySignature(b'ab', c.Sign(b'ab', k), bytes.fromhex(bytes((ECDSA.secp256r1().G * 1).encode_point(True)).decode()))
        return [('hash160', lambda: c.Hash160(b'abc')), ('hash256', lambda: c.Hash256(b'abc')), ('signs', lambda: signs())]
    K['crypto'] = 2, lambda i: CryptoInstance() if i else Crypto.Default(), cops, lambda c, d: [], []
    return K


# classes derived from the library's, with an attribute and a method of their own
DERIVED = {}


def derived(name):
    if not DERIVED:
        from neocore.UInt160 import UInt160
        from neocore.UInt256 import UInt256
        from neocore.Fixed8 import Fixed8
        from neocore.BigInteger import BigInteger
        from neocore.KeyPair import KeyPair
        from neocore.Cryptography.ECCurve import ECDSA, EllipticCurve, FiniteField
        from neocore.Cryptography.Crypto import CryptoInstance
        from neocore.Cryptography.MerkleTree import MerkleTree
        from neocore.IO.BinaryReader import BinaryReader
        from neocore.IO.BinaryWriter import BinaryWriter
        for kind, c in (('UInt160', UInt160), ('UInt256', UInt256), ('Fixed8', Fixed8), ('BigInteger', BigInteger), ('KeyPair', KeyPair), ('point', EllipticCurve.ECPoint), ('small point', EllipticCurve.ECPoint), ('field value', FiniteField.Value),
                        ('curve', EllipticCurve), ('toolkit', ECDSA), ('tree', MerkleTree), ('reader', BinaryReader), ('writer', BinaryWriter), ('crypto', CryptoInstance)):
            n = 'Derived_' + c.__name__
            if n not in globals():
                globals()[n] = type(n, (c,), {'__module__': __name__, 'label': 'derived', 'more': lambda self: 5})
            DERIVED[kind] = globals()[n]
    return DERIVED[name]


def make_derived(name, i):
    """a value of a derived class, built by its constructor"""
    c = derived(name)
    x = table()[name][1](i)
    if name in ('UInt160', 'UInt256'):
        y = c(data=bytes(x.Data))
    elif name == 'Fixed8':
        y = c(x.value)
    elif name == 'BigInteger':
        y = c(int(x))
    elif name == 'KeyPair':
        y = c(bytes(x.PrivateKey))
    elif name in ('point', 'small point'):
        y = c(x.curve, x.x, x.y)
    elif name == 'field value':
        y = c(x.field, x.value)
    elif name == 'curve':
        y = c(x.field, x.a, x.b)
    elif name == 'toolkit':
        y = c(x.ec, x.G, x.GFn.p)
    elif name == 'tree':
        from neocore.UInt256 import UInt256
        y = c([UInt256(data=bytes([j + 1] * 32)) for j in range(TREES[i])])
    elif name in ('reader', 'writer'):
        y = c(x.stream)
    else:
        y = c()
    y.tag = 'mine'
    return y


def norm_num(v):
    return int(getattr(v, 'value', v))


def describe(ops):
    o = []
    for name, f in ops:
        try:
            o.append((name, norm(f())))
        except Exception as e:
            o.append((name, 'raises', type(e).__name__))
    return o


_K = {}


def table():
    if not _K:
        _K.update(kinds())
    return _K


class Odd:
    """an argument nothing is prepared for"""

    def __len__(self):
        raise KeyError('odd')

    def __iter__(self):
        raise KeyError('odd')


def wrong():
    return [None, 'text', b'bytes', 1.5, object(), Odd(), [], {}, -1, 1 << 300, float('nan'), ('a', 'b')]


def attempts():
    """kind -> [(name, f(x))]: what may be refused, whatever the reason"""
    import operator as op
    from neocore.IO.BinaryReader import BinaryReader
    from neocore.IO.BinaryWriter import BinaryWriter
    from neocore.UInt160 import UInt160
    from neocore.UInt256 import UInt256
    from neocore.Fixed8 import Fixed8
    from neocore.BigInteger import BigInteger
    from neocore.Cryptography.ECCurve import ECDSA, EllipticCurve, FiniteField
    A = {}
    INPLACE = ('iadd', 'isub', 'imul', 'itruediv', 'ifloordiv', 'imod', 'ipow', 'ilshift', 'irshift', 'iand', 'ior', 'ixor')
    BINARY = ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'lt', 'le', 'gt', 'ge', 'eq', 'lshift', 'rshift', 'and_', 'or_', 'xor', 'matmul')

    def binary(kind, extra=()):
        out = []
        for i in range(len(wrong())):
            if kind in ('point', 'small point', 'field value') and i in (3, 10):
                continue        # floats are outside the fields
            for n in BINARY + INPLACE:
                if 'pow' in n or 'lshift' in n:
                    if i in (8, 9):
                        continue
                out.append(('%s %d' % (n, i), lambda x, n=n, i=i: getattr(op, n)(x, wrong()[i])))
                if n in BINARY and not ('pow' in n or 'lshift' in n):
                    out.append(('%s %d, reversed' % (n, i), lambda x, n=n, i=i: getattr(op, n)(wrong()[i], x)))
        for n in ('len', 'iter', 'abs', 'int', 'float', 'bytes', 'bool', 'list', 'round', 'chr', 'bin'):
            if n == 'bytes' and kind == 'BigInteger':
                continue
            out.append((n, lambda x, n=n: (__builtins__ if isinstance(__builtins__, dict) else vars(__builtins__))[n](x)))
        for n in extra:
            for i in range(len(wrong())):
                if kind == 'BigInteger' and n == 'ToByteArray':
                    continue
                out.append(('%s %d' % (n, i), lambda x, n=n, i=i: getattr(x, n)(wrong()[i])))
        return out

    def closed():
        s = io.BytesIO()
        s.close()
        return s
    for kind, n, U in (('UInt160', 20, UInt160), ('UInt256', 32, UInt256)):
        A[kind] = binary(kind, ('CompareTo', 'Serialize', 'Deserialize')) + [('read short %d' % k, lambda x, k=k: x.Deserialize(BinaryReader(io.BytesIO(bytes([0x77]) * k)))) for k in range(n)] + \
            [('read closed', lambda x: x.Deserialize(BinaryReader(closed()))), ('write closed', lambda x: x.Serialize(BinaryWriter(closed()))),
             ('other kind', lambda x, U=U: x.CompareTo((UInt256 if U is UInt160 else UInt160)(data=bytes(52 - len(x.Data))))), ('< other kind', lambda x, U=U: x < (UInt256 if U is UInt160 else UInt160)(data=bytes(52 - len(x.Data))))]
    A['Fixed8'] = binary('Fixed8') + [('by zero', lambda x: x / Fixed8(0)), ('in place by zero', lambda x: op.itruediv(x, Fixed8(0))), ('modulo zero', lambda x: op.imod(x, Fixed8(0))), ('floor by zero', lambda x: x // Fixed8(0)),
                                      ('write closed', lambda x: BinaryWriter(closed()).WriteFixed8(x))]
    A['BigInteger'] = binary('BigInteger', ('Equals',)) + [('by zero', lambda x: x // BigInteger(0)), ('modulo zero', lambda x: x % BigInteger(0)), ('divided by zero', lambda x: x / BigInteger(0)), ('unsigned', lambda x: x.ToByteArray(signed=False)), ('shift', lambda x: x << BigInteger(-1)), ('shift right', lambda x: x >> BigInteger(-1))]
    A['KeyPair'] = [('nep2 of %d' % i, lambda x, i=i: kdf_fast(x.ExportNEP2, wrong()[i])) for i in range(len(wrong()))] + [('nep2 of nothing', lambda x: kdf_fast(x.ExportNEP2, ''))]
    for kind in ('point', 'small point'):
        A[kind] = binary(kind, ('Serialize', 'encode_point')) + [('write closed', lambda x: x.Serialize(BinaryWriter(closed()))), ('lt none', lambda x: x < None), ('plus none', lambda x: x + None)]
    A['field value'] = binary('field value', ('sqrt', 'sqrtCQ')) + [('root', lambda x: x.field.sqrt(x, None))]
    A['curve'] = [(n + ' %d' % i, lambda x, n=n, i=i: getattr(x, n)(*([wrong()[i]] * k))) for n, k in (('point', 2), ('isoncurve', 1), ('add', 2), ('neg', 1), ('eq', 2), ('decode_from_hex', 1), ('decode_from_reader', 1)) for i in range(len(wrong())) if i not in (3, 10)]
    A['toolkit'] = [(n + ' %d' % i, lambda x, n=n, k=k, i=i: getattr(x, n)(*([wrong()[i]] * k))) for n, k in (('calcpub', 1), ('sign', 3), ('verify', 4), ('findpk', 4)) for i in range(len(wrong())) if not isinstance(wrong()[i], (int, float))]
    A['tree'] = [('trim %d' % i, lambda x, i=i: x.Trim(wrong()[i])) for i in (0, 1, 3, 4, 5, 7, 11)] + [('trim of large flags', lambda x: x.Trim([0, 0, 0, 300])), ('trim of texts', lambda x: x.Trim([0, 0, 'x'])), ('trim of negative flags', lambda x: x.Trim([0] * 7 + [-1]))]
    W = []
    for t, lo, hi in (('Int8', -129, 128), ('UInt8', -1, 256), ('Int16', -2 ** 15 - 1, 2 ** 15), ('UInt16', -1, 65536), ('Int32', -2 ** 31 - 1, 2 ** 31), ('UInt32', -1, 2 ** 32), ('Int64', -2 ** 63 - 1, 2 ** 63), ('UInt64', -1, 2 ** 64)):
        for v in (lo, hi, None, 'x', 1.5, b'ab'):
            W.append(('Write%s %r' % (t, v), lambda w, t=t, v=v: getattr(w, 'Write' + t)(v)))
    for n, vs in (('WriteVarInt', (-1, 1 << 64, 'a', None, 1.5)), ('WriteVarBytes', (None, 5)), ('WriteVarString', (None, 5, '\ud800')), ('WriteFloat', ('a', None, 1e300)), ('WriteDouble', ('a', None)), ('WriteChar', ('ab', 5, None)),
                  ('WriteUInt160', (None, b'a' * 20, 'a' * 40, UInt256(data=bytes(32)))), ('WriteUInt256', (None, b'a' * 32, UInt160(data=bytes(20)))), ('WriteFixed8', (None, 5, 'a', Fixed8(1 << 70))), ('WriteByte', (256, -1, 1 << 70, '\ud800')),
                  ('WriteBytes', (None, 5)), ('WriteHashes', (5, None)), ('WriteSerializableArray', (5,)), ('WriteBool', ())):
        for v in vs:
            W.append(('%s %r' % (n, v), lambda w, n=n, v=v: getattr(w, n)(v)))
    for v, n in (('abcdef', 5), ('abc', 'x'), (None, 5), ('\ud800', 5), ('a', None), ('a', -1)):
        W.append(('WriteFixedString %r %r' % (v, n), lambda w, v=v, n=n: w.WriteFixedString(v, n)))
    A['writer'] = W
    return A


def kdf_fast(f, *a):
    with kdf.fast():
        return f(*a)
