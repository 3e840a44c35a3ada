"""serialisable objects that hold lists of the same, and that may run something while they are written and read"""
from neocore.IO.Mixins import SerializableMixin

act = [None]


def inside():
    f, act[0] = act[0], None
    if f:
        try:
            f()
        finally:
            act[0] = f


class Tree(SerializableMixin):
    def __init__(self, n=0, below=()):
        self.n, self.below = n, list(below)

    def Serialize(self, writer):
        inside()
        writer.WriteVarInt(self.n)
        writer.WriteSerializableArray(self.below)
        inside()
        writer.WriteUInt16(self.n)

    def Deserialize(self, reader):
        inside()
        self.n = reader.ReadVarInt()
        self.below = reader.ReadSerializableArray('mc.fixtures_nested.Tree')
        inside()
        if reader.ReadUInt16() != self.n:
            raise ValueError('another number')


def tree(i, depth):
    return Tree(i * 3 + depth + 250, [tree(i + k + 1, depth - 1) for k in range((i + depth) % 3 + 1)] if depth else ())


def flat(t):
    return t.n, [flat(x) for x in t.below]


def wire(t):
    from mc import refs
    return refs.varint(t.n) + refs.varint(len(t.below)) + b''.join(map(wire, t.below)) + t.n.to_bytes(2, 'little')
