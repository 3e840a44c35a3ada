"""walks over the graph of representations: what one operation produces every other takes"""
from mc import kdf
kdf.install()
import binascii, collections, contextlib, io
from decimal import Decimal
from mc.common import *

ASSUMPTIONS = ['the scrypt derivation inside NEP-2 conversions is the stand-in of the C18 check',
               'results are handed on exactly as they were returned, kind included']
PHRASE = 'walk \u00e9'


# A graph: kind -> expected content; edges (from kind, name, function, to kind). Nodes hold the real returned object.
def norm(x):
    """content of any representation"""
    if isinstance(x, str):
        return x
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    if type(x).__name__ == 'ECPoint':
        return x.x.value, x.y.value
    if type(x).__name__ == 'ECDSA':
        return x.G.x.value, x.G.y.value
    if type(x).__name__ == 'KeyPair':
        return bytes(x.PrivateKey), norm(x.PublicKey), bytes(x.PublicKeyHash.Data)
    if hasattr(x, 'Data'):
        return type(x).__name__, bytes(x.Data)
    if isinstance(x, Decimal):
        return 'Decimal', x
    if type(x).__name__ == 'Fixed8':
        return 'Fixed8', x.value
    if isinstance(x, (int, bool)):
        return int(x)
    if isinstance(x, (list, tuple)):
        return [norm(i) for i in x]
    return x


def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


def stream(write):
    s, w = wr()
    write(w)
    return s.getvalue()


def identifier_graph(U, n, b):
    """representations of one identifier with the bytes b"""
    from neocore.Cryptography.MerkleTree import MerkleTree
    from neocore.Cryptography.Helper import scripthash_to_address
    from neocore.Cryptography.Crypto import Crypto
    from neocore.bin import cli
    name = U.__name__
    kinds = {'raw': b, 'identifier': (name, b), 'text': b[::-1].hex(), '0x text': '0x' + b[::-1].hex(), 'text bytes': b[::-1].hex().encode(), 'wire': b, 'low text': b.hex(), 'list': b'\x01' + b, 'reversed': b'\x01' + b[::-1]}
    E = [('raw', 'construct', lambda x: U(data=x), 'identifier'),
         ('raw', 'construct from a buffer', lambda x: U(data=bytearray(x)), 'identifier'),
         ('identifier', 'ToArray', lambda x: x.ToArray(), 'raw'),
         ('identifier', 'Data', lambda x: x.Data, 'raw'),
         ('identifier', 'ToString', lambda x: x.ToString(), 'text'),
         ('identifier', 'str', str, 'text'),
         ('identifier', 'ToString2', lambda x: x.ToString2(), 'low text'),
         ('identifier', 'To0xString', lambda x: x.To0xString(), '0x text'),
         ('identifier', 'ToBytes', lambda x: x.ToBytes(), 'text bytes'),
         ('text', 'ParseString', U.ParseString, 'identifier'),
         ('0x text', 'ParseString', U.ParseString, 'identifier'),
         ('identifier', 'Serialize', lambda x: stream(x.Serialize), 'wire'),
         ('identifier', 'write', lambda x: stream(lambda w: getattr(w, 'Write' + name)(x)), 'wire'),
         ('wire', 'read', lambda x: getattr(rd(x)[1], 'Read' + name)(), 'identifier'),
         ('wire', 'SafeReadBytes', lambda x: rd(x)[1].SafeReadBytes(n), 'raw'),
         ('wire', 'ReadBytes', lambda x: rd(x)[1].ReadBytes(n), 'raw'),
         ('raw', 'WriteBytes', lambda x: stream(lambda w: w.WriteBytes(x, unhex=False)), 'wire'),
         ('low text', 'WriteBytes', lambda x: stream(lambda w: w.WriteBytes(x)), 'wire'),
         ('identifier', 'array', lambda x: stream(lambda w: w.WriteSerializableArray([x])), 'list'),
         ('list', 'array', lambda x: rd(x)[1].ReadSerializableArray('neocore.%s.%s' % (name, name))[0], 'identifier')]
    if n == 32:
        E += [('text bytes', 'WriteHashes', lambda x: stream(lambda w: w.WriteHashes([x])), 'list'),
              ('text', 'WriteHashes', lambda x: stream(lambda w: w.WriteHashes([x])), 'list'),
              ('low text', 'WriteHashes', lambda x: stream(lambda w: w.WriteHashes([x])), 'reversed'),
              ('list', 'ReadHashes', lambda x: rd(x)[1].ReadHashes()[0], 'text'),
              ('reversed', 'ReadHashes', lambda x: rd(x)[1].ReadHashes()[0], 'low text'),
              ('identifier', 'root of one', lambda x: MerkleTree.ComputeRoot([x]), 'identifier'),
              ('identifier', 'tree of one', lambda x: MerkleTree([x]).Root.Hash, 'identifier')]
    else:
        del kinds['reversed']
        kinds['address'] = refs.address(b)
        E += [('identifier', 'ToAddress', Crypto.ToAddress, 'address'),
              ('raw', 'scripthash_to_address', scripthash_to_address, 'address'),
              ('address', 'address_to_scripthash', cli.address_to_scripthash, 'raw'),
              ('0x text', 'scripthash_to_address', lambda x: quiet(cli.scripthash_to_address, x), 'address'),
              ('low text', 'scripthash_to_address', lambda x: quiet(cli.scripthash_to_address, x), 'address')]
    return kinds, E, 'raw', bytes(b)


def key_graph(d):
    from neocore.KeyPair import KeyPair
    from neocore.Cryptography import Helper
    from neocore.Cryptography.Crypto import Crypto
    from neocore.Cryptography.ECCurve import ECDSA
    Q = refs.pub(d)
    key = d.to_bytes(32, 'big')
    c, u = refs.compressed(Q), refs.uncompressed(Q)
    script = refs.key_script(Q)
    h = refs.hash160(script)
    msg = b'walk'
    kinds = {'key': key, 'key hex': key.hex(), 'WIF': refs.wif(key), 'NEP-2': refs.nep2(d, PHRASE, kdf.ref), 'pair': (key, Q, refs.hash160(c)), '96': u[1:] + key, 'point': Q,
             'compressed hex': c.hex().encode(), 'compressed': c, 'uncompressed hex': u.hex().encode(), 'uncompressed': u, '64': u[1:], 'script': script, 'script hex': script.hex().encode(),
             'script hash': ('UInt160', h), 'raw hash': h, 'address': refs.key_address(Q), 'key hash': ('UInt160', refs.hash160(c))}
    cu = lambda: ECDSA.secp256r1().Curve
    E = [('key', 'KeyPair', KeyPair, 'pair'), ('96', 'KeyPair', KeyPair, 'pair'),
         ('pair', 'PrivateKey', lambda k: k.PrivateKey, 'key'), ('pair', 'PublicKey', lambda k: k.PublicKey, 'point'),
         ('pair', 'Export', lambda k: k.Export(), 'WIF'), ('WIF', 'PrivateKeyFromWIF', KeyPair.PrivateKeyFromWIF, 'key'),
         ('pair', 'ExportNEP2', lambda k: k.ExportNEP2(PHRASE), 'NEP-2'), ('NEP-2', 'PrivateKeyFromNEP2', lambda t: KeyPair.PrivateKeyFromNEP2(t, PHRASE), 'key'),
         ('pair', 'GetAddress', lambda k: k.GetAddress(), 'address'), ('pair', 'PublicKeyHash', lambda k: k.PublicKeyHash, 'key hash'),
         ('point', 'encode_point', lambda p: p.encode_point(True), 'compressed hex'), ('point', 'encode_point uncompressed', lambda p: p.encode_point(False), 'uncompressed hex'),
         ('point', 'Serialize', lambda p: stream(p.Serialize), 'compressed'), ('point', 'twice the negative', lambda p: -(-p), 'point'),
         ('point', 'away and back', lambda p: p + p - p, 'point'), ('point', 'with infinity', lambda p: p.curve.Infinity + p, 'point'),
         ('compressed hex', 'decode_secp256r1', lambda x: ECDSA.decode_secp256r1(x).G, 'point'), ('uncompressed hex', 'decode_secp256r1', lambda x: ECDSA.decode_secp256r1(x).G, 'point'),
         ('compressed hex', 'decode_from_hex', lambda x: cu().decode_from_hex(x), 'point'), ('compressed', 'FromBytes_Secp256r1', lambda x: ECDSA.FromBytes_Secp256r1(x).G, 'point'),
         ('uncompressed', 'FromBytes_Secp256r1', lambda x: ECDSA.FromBytes_Secp256r1(x).G, 'point'), ('64', 'FromBytes_Secp256r1', lambda x: ECDSA.FromBytes_Secp256r1(x).G, 'point'),
         ('96', 'FromBytes_Secp256r1', lambda x: ECDSA.FromBytes_Secp256r1(x).G, 'point'), ('compressed', 'Deserialize_Secp256r1', lambda x: ECDSA.Deserialize_Secp256r1(rd(x)[1]), 'point'),
         ('compressed hex', 'pubkey_to_redeem', Helper.pubkey_to_redeem, 'script'), ('script', 'redeem_to_scripthash', Helper.redeem_to_scripthash, 'raw hash'),
         ('compressed hex', 'pubkey_to_pubhash', Helper.pubkey_to_pubhash, 'raw hash'), ('script', 'ToScriptHash', lambda s: Crypto.ToScriptHash(s, unhex=False), 'script hash'),
         ('script hex', 'ToScriptHash', Crypto.ToScriptHash, 'script hash'), ('compressed hex', 'ToScriptHash', Crypto.ToScriptHash, 'key hash'),
         ('script hash', 'ToAddress', Crypto.ToAddress, 'address'), ('raw hash', 'scripthash_to_address', Helper.scripthash_to_address, 'address'), ('script hash', 'ToArray', lambda u_: u_.ToArray(), 'raw hash'),
         # the caller's own conversions
         ('key', 'hex', lambda x: bytes(x).hex(), 'key hex'), ('key hex', 'unhex', bytes.fromhex, 'key'), ('uncompressed hex', 'unhex', lambda x: binascii.unhexlify(x), 'uncompressed'), ('compressed hex', 'unhex', lambda x: binascii.unhexlify(x), 'compressed'),
         ('uncompressed', 'slice', lambda x: x[1:], '64'), ('script', 'hex', binascii.hexlify, 'script hex'), ('pair', '96', lambda k: binascii.unhexlify(k.PublicKey.encode_point(False))[1:] + bytes(k.PrivateKey), '96')]
    return kinds, E, 'key', key


def amount_graph(v):
    from neocore.Fixed8 import Fixed8
    from neocore.BigInteger import BigInteger
    text = format(Decimal(v) / 10 ** 8, 'f')
    if '.' not in text:
        text += '.0'
    kinds = {'amount': ('Fixed8', v), 'units': v, 'text': text, 'json': text[:-2] if text.endswith('.0') else text, 'decimal': ('Decimal', Decimal(v) / 10 ** 8), 'wire': v.to_bytes(8, 'little', signed=True)}
    E = [('units', 'Fixed8', Fixed8, 'amount'), ('amount', 'GetData', lambda a: a.GetData(), 'units'), ('amount', 'value', lambda a: a.value, 'units'), ('amount', 'ToString', lambda a: a.ToString(), 'text'), ('amount', 'str', str, 'text'),
         ('amount', 'ToNeoJsonString', lambda a: a.ToNeoJsonString(), 'json'), ('text', 'TryParse', Fixed8.TryParse, 'amount'), ('json', 'TryParse', Fixed8.TryParse, 'amount'), ('decimal', 'FromDecimal', Fixed8.FromDecimal, 'amount'),
         ('decimal', 'TryParse', Fixed8.TryParse, 'amount'), ('text', 'Decimal', Decimal, 'decimal'), ('json', 'Decimal', Decimal, 'decimal'), ('amount', 'WriteFixed8', lambda a: stream(lambda w: w.WriteFixed8(a)), 'wire'),
         ('wire', 'ReadFixed8', lambda x: rd(x)[1].ReadFixed8(), 'amount'), ('wire', 'ReadInt64', lambda x: rd(x)[1].ReadInt64(), 'units'), ('units', 'WriteInt64', lambda x: stream(lambda w: w.WriteInt64(x)), 'wire'),
         ('amount', 'away and back', lambda a: a + Fixed8(12345) - Fixed8(12345), 'amount'), ('amount', 'twice the negative', lambda a: -(-a), 'amount'), ('amount', 'parts', lambda a: a.Floor() + (a - a.Floor()), 'amount'),
         ('units', 'BigInteger', BigInteger, 'units'), ('wire', 'FromBytes', lambda x: BigInteger.FromBytes(x, signed=True), 'units')]
    return kinds, E, 'units', v


def integer_graph(v):
    from neocore.BigInteger import BigInteger
    kinds = {'integer': v, 'bytes': v, 'text': str(v)}
    E = [('integer', 'BigInteger', BigInteger, 'integer'), ('integer', 'str', str, 'text'), ('text', 'BigInteger', BigInteger, 'integer'), ('integer', 'twice the negative', lambda a: -(-BigInteger(a)), 'integer'),
         ('integer', 'ToByteArray', lambda a: BigInteger(a).ToByteArray(), 'bytes'), ('bytes', 'FromBytes', lambda b: BigInteger.FromBytes(b, signed=True), 'integer'), ('bytes', 'wire', lambda b: rd(stream(lambda w: w.WriteVarBytes(b)))[1].ReadVarBytes(), 'bytes'),
         ('integer', 'shifts', lambda a: BigInteger(a) << 77 >> 77, 'integer'), ('integer', 'division', lambda a: (BigInteger(a) * BigInteger(97) + BigInteger(13)) // BigInteger(97), 'integer'),
         ('integer', 'parts', lambda a: BigInteger(a) // BigInteger(1000) * BigInteger(1000) + BigInteger(a) % BigInteger(1000), 'integer'), ('integer', 'sign', lambda a: abs(BigInteger(a)) * BigInteger(BigInteger(a).Sign), 'integer')]
    return kinds, E, 'integer', v


def walk(ctx, graph, what, depth):
    """breadth-first to closure over (kind, python type, content); then every path up to a depth"""
    kinds, edges, start, obj = graph
    out = collections.defaultdict(list)
    for e in edges:
        out[e[0]].append(e)

    def step(kind, obj, e, path):
        try:
            r = e[2](obj)
        except Exception as ex:
            raise Violation('%r: %s of the %s (%s) raised %r' % (what, ' > '.join(path + [e[1]]), kind, type(obj).__name__, ex))
        got = norm(r)
        if what[0] == 'integer' and e[3] == 'bytes':
            got = int.from_bytes(got, 'little', signed=True)
        if got != kinds[e[3]]:
            raise Violation('%r: %s gave %r, expected %r' % (what, ' > '.join(path + [e[1]]), got, kinds[e[3]]))
        ctx.step()
        return r
    seen = {(start, type(obj).__name__)}
    todo = collections.deque([(start, obj, [])])
    while todo:
        kind, obj, path = todo.popleft()
        for e in out[kind]:
            r = step(kind, obj, e, path)
            k = e[3], type(r).__name__
            ctx.outcome('%s as %s' % k)
            ctx.state(what + k)
            if k not in seen:
                seen.add(k)
                todo.append((e[3], r, path + [e[1]]))
    left = set(kinds) - {k for k, _ in seen}
    if left:
        raise Violation('%r: never reached %s' % (what, sorted(left)))

    def deeper(kind, obj, path):
        for e in out[kind]:
            r = step(kind, obj, e, path)
            if len(path) + 1 < depth:
                deeper(e[3], r, path + [e[1]])
    deeper(start, graph[3], [])


def gen_ids(tier):
    for n in (20, 32):
        vals = [bytes(n), b'\xff' * n, bytes(range(n)), bytes(range(n))[::-1], b'\0' * (n - 1) + b'\1', b'\1' + b'\0' * (n - 1), b'\x17' * n, b'\xf0' + b'a' * (n - 1)] + [refs.sha256(b'%d' % i)[:n] for i in range(4)]
        vals += list(byte_walk(n, backgrounds=(0,), values=(1, 0x80)))[:: 1 if tier == 'thorough' else 7]
        for i, b in enumerate(vals):
            yield n, b, (6 if tier == 'thorough' else 5) if i < 4 else 4 if tier == 'thorough' or i < 16 else 3


def run_ids(case, ctx):
    from neocore.UInt160 import UInt160
    from neocore.UInt256 import UInt256
    n, b, depth = case
    walk(ctx, identifier_graph(UInt160 if n == 20 else UInt256, n, b), ('identifier', b), depth)


def gen_keys(tier):
    from mc.engine import in_child
    if not in_child(kdf.works):
        return
    N = refs.P256.n
    for i, d in enumerate([1, 2, 379, N - 1, N - 43, 1 << 255, 3 ** 150 % N, (1 << 248) - 1, 0xabcdef] + (list(range(3, 60)) if tier == 'thorough' else [])):
        yield d, 4 if tier == 'thorough' and i < 3 else 3


def run_keys(case, ctx):
    d, depth = case
    with kdf.fast():
        walk(ctx, key_graph(d), ('key', d), depth)


def gen_amounts(tier):
    for i, v in enumerate([0, 1, -1, 10 ** 8, -10 ** 8, 123456789, -123456789, 10, 99999999, 100000001, 2 ** 52 - 1, -2 ** 52 + 1, 5 * 10 ** 7, 12 * 10 ** 8, 10 ** 15, 10 ** 15 + 1]):
        yield v, (7 if tier == 'thorough' else 6) if i < 8 else 5


def run_amounts(case, ctx):
    walk(ctx, amount_graph(case[0]), ('amount', case[0]), case[1])


def gen_integers(tier):
    for i, v in enumerate([0, 1, -1, 127, 128, 255, 256, -128, -129, 32767, 32768, 2 ** 63, -2 ** 63, 2 ** 255, 2 ** 256 - 1, -2 ** 255 - 1, 10 ** 50]):
        yield v, 7 if tier == 'thorough' else 6


def run_integers(case, ctx):
    walk(ctx, integer_graph(case[0]), ('integer', case[0]), case[1])


FAMILIES = [
    Family('identifiers', gen_ids, run_ids, '2 widths x ~20 contents: graph of 9 or 10 representations and 24 or 27 conversions, closed over (representation, python type), and all walks of length 3 to 5 (thorough: 4 to 6)'),
    Family('keys', gen_keys, run_keys, '9 keys (thorough: 66): graph of 18 representations and 41 conversions, closed; all walks of length 3 (thorough: 3 keys 4)'),
    Family('amounts', gen_amounts, run_amounts, '16 amounts: 6 representations, 21 conversions, closed; all walks of length 5 (8 amounts: 6, thorough: 7)'),
    Family('integers', gen_integers, run_integers, '17 integers: 3 representations, 11 conversions, closed; all walks of length 6 (thorough: 7)'),
]
