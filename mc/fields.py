"""The field alphabet: (name, write(w), bytes on the wire, read(r) -> comparable, expected value, kind).

kind: 'fixed' - a read of fewer bytes must be refused, also at the very end;
      'framed' - must be refused when cut after the first byte;
      'avail' - returns exactly the available bytes; 'list' - keeps the elements before the cut; 'free' - no claim."""
import struct
from mc import refs
from mc.fixtures import Item, Rec

V20 = bytes(range(0x81, 0x95))
V32 = bytes(range(0xd0, 0xf0))


def build():
    from neocore.Fixed8 import Fixed8
    from neocore.UInt160 import UInt160
    from neocore.UInt256 import UInt256
    from neocore.Cryptography.ECCurve import ECDSA
    F = []

    def f(name, write, wire, read, value, kind):
        F.append((name, write, bytes(wire), read, value, kind))
    for t, n, signed, vals in (('Int8', 1, 1, (-2,)), ('UInt8', 1, 0, (0xfd, 0)), ('Int16', 2, 1, (-0x1234,)), ('UInt16', 2, 0, (0xfffe, 0x6162)),
                               ('Int32', 4, 1, (-0x12345678,)), ('UInt32', 4, 0, (0xfedcba98,)), ('Int64', 8, 1, (-0x123456789abcdef,)), ('UInt64', 8, 0, (0xfedcba9876543210,))):
        for v in vals:
            f('%s %d' % (t, v), lambda w, t=t, v=v: getattr(w, 'Write' + t)(v), v.to_bytes(n, 'little', signed=bool(signed)), lambda r, t=t: getattr(r, 'Read' + t)(), v, 'fixed')
            if n in (2, 8):
                f('%s %d >' % (t, v), lambda w, t=t, v=v: getattr(w, 'Write' + t)(v, '>'), v.to_bytes(n, 'big', signed=bool(signed)), lambda r, t=t: getattr(r, 'Read' + t)('>'), v, 'fixed')
    f('Byte 65', lambda w: w.WriteByte(65), b'A', lambda r: r.ReadByte(), 65, 'free')
    f('Byte raw', lambda w: w.WriteByte(b'\x00'), b'\0', lambda r: r.ReadByte(do_ord=False), b'\0', 'free')
    f('Bool', lambda w: w.WriteBool(True), b'\1', lambda r: r.ReadBool(), True, 'fixed')
    f('Char', lambda w: w.WriteChar(b'\xff'), b'\xff', lambda r: r.ReadChar(), b'\xff', 'fixed')
    f('Float', lambda w: w.WriteFloat(-2.75), struct.pack('<f', -2.75), lambda r: r.ReadFloat(), -2.75, 'fixed')
    f('Double >', lambda w: w.WriteDouble(1e-9, '>'), struct.pack('>d', 1e-9), lambda r: r.ReadDouble('>'), 1e-9, 'fixed')
    f('Double', lambda w: w.WriteDouble(0.1), struct.pack('<d', 0.1), lambda r: r.ReadDouble(), 0.1, 'fixed')
    f('Fixed8', lambda w: w.WriteFixed8(Fixed8(-123456789)), (-123456789).to_bytes(8, 'little', signed=True), lambda r: r.ReadFixed8().value, -123456789, 'fixed')
    for v in (0, 0xfc, 0xfd, 0xfffe, 0x10000, 0xffffffff, 0x123456789abc):
        f('VarInt %d' % v, lambda w, v=v: w.WriteVarInt(v), refs.varint(v), lambda r: r.ReadVarInt(), v, 'framed')
    for b in (b'', b'\x00', b'~', b'deadbeef', bytes(253), V32 * 8):
        f('VarBytes %d' % len(b), lambda w, b=b: w.WriteVarBytes(b), refs.varint(len(b)) + b, lambda r: r.ReadVarBytes(), b, 'avail')
    for t in ('', 'y', 'ab12', '日本', 'x' * 260):
        b = t.encode()
        f('VarString %d' % len(t), lambda w, t=t: w.WriteVarString(t), refs.varint(len(b)) + b, lambda r: r.ReadVarString(), b, 'framed')
    f('VarString utf-16', lambda w: w.WriteVarString('AZ', 'utf-16-be'), b'\x04\0A\0Z', lambda r: r.ReadVarString(), b'\0A\0Z', 'framed')

    def wstr(w):
        w.WriteUInt8(4)
        w.WriteBytes(b'cafe', unhex=False)
    f('String', wstr, b'\x04cafe', lambda r: r.ReadString(), b'cafe', 'framed')
    f('FixedString 12', lambda w: w.WriteFixedString('aabbcc', 12), b'aabbcc' + bytes(6), lambda r: r.ReadFixedString(12), b'aabbcc', 'pad')
    f('FixedString 3', lambda w: w.WriteFixedString('é', 3), 'é'.encode() + b'\0', lambda r: r.ReadFixedString(3), 'é'.encode(), 'pad')
    f('Bytes 8', lambda w: w.WriteBytes(b'\x00ff00ff.', unhex=False), b'\x00ff00ff.', lambda r: r.ReadBytes(8), b'\x00ff00ff.', 'avail')
    f('Bytes hex', lambda w: w.WriteBytes(b'00ff7f'), b'\x00\xff\x7f', lambda r: r.ReadBytes(3), b'\x00\xff\x7f', 'avail')
    f('SafeBytes', lambda w: w.WriteBytes(b'1234', unhex=False), b'1234', lambda r: r.SafeReadBytes(4), b'1234', 'fixed')
    f('UInt160', lambda w: w.WriteUInt160(UInt160(V20)), V20, lambda r: bytes(r.ReadUInt160().Data), V20, 'fixed')
    f('UInt256', lambda w: w.WriteUInt256(UInt256(V32)), V32, lambda r: bytes(r.ReadUInt256().Data), V32, 'fixed')

    def ru(cls, z):
        def go(r):
            u = cls()
            u.Deserialize(r)
            return bytes(u.Data)
        return go
    f('UInt160.Serialize', lambda w: UInt160(V20[::-1]).Serialize(w), V20[::-1], ru(UInt160, 20), V20[::-1], 'fixed')
    f('UInt256.Serialize', lambda w: UInt256(bytes(32)).Serialize(w), bytes(32), ru(UInt256, 32), bytes(32), 'fixed')
    h = [V32.hex().encode(), bytes(32).hex().encode()]
    f('Hashes', lambda w: w.WriteHashes(h), b'\x02' + V32[::-1] + bytes(32), lambda r: r.ReadHashes(), [x.decode() for x in h], 'free')
    f('Array None', lambda w: w.WriteSerializableArray(None), b'\0', lambda r: r.ReadSerializableArray('mc.fixtures.Item'), [], 'free')
    f('Array 3', lambda w: w.WriteSerializableArray([Item(7), Item(0), Item(255)]), b'\x03\x07\0\xff', lambda r: [i.v for i in r.ReadSerializableArray('mc.fixtures.Item')], [7, 0, 255], 'list')
    f('Array 1', lambda w: w.WriteSerializableArray([Item(9)]), b'\x01\x09', lambda r: [i.v for i in r.ReadSerializableArray('mc.fixtures.Item')], [9], 'list')
    f('Hashes 1', lambda w: w.WriteHashes([V32.hex()]), b'\x01' + V32[::-1], lambda r: r.ReadHashes(), [V32.hex()], 'free')
    f('Array rec', lambda w: w.WriteSerializableArray([Rec(300, b'aa'), Rec(1, b'')]), b'\x02\xfd\x2c\x01\x02aa\x01\x00',
      lambda r: [(i.n, i.b) for i in r.ReadSerializableArray('mc.fixtures.Rec')], [(300, b'aa'), (1, b'')], 'free')
    f('Array UInt256', lambda w: w.WriteSerializableArray([UInt256(V32), UInt256(V32[::-1])]), b'\x02' + V32 + V32[::-1],
      lambda r: [bytes(i.Data) for i in r.ReadSerializableArray('neocore.UInt256.UInt256')], [V32, V32[::-1]], 'list')
    pts = [refs.pub(5), refs.pub(refs.P256.n - 5)]
    for P in pts:
        pt = ECDSA.secp256r1().Curve.point(*P)
        f('Point %d' % (P[1] & 1), lambda w, pt=pt: pt.Serialize(w), refs.compressed(P),
          lambda r: (lambda q: (q.x.value, q.y.value))(ECDSA.Deserialize_Secp256r1(r)), P, 'framed')
    f('Infinity', lambda w: ECDSA.secp256r1().Curve.Infinity.Serialize(w), b'\0', lambda r: ECDSA.Deserialize_Secp256r1(r).IsInfinity, True, 'free')
    return F


_F = []


def fields():
    if not _F:
        _F.extend(build())
    return _F
