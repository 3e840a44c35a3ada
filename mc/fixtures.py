"""serialisable classes used by the list checks (the reader finds them by their full name)"""
from neocore.IO.Mixins import SerializableMixin


class Item(SerializableMixin):
    """one byte"""
    made = 0

    def __init__(self, v=0):
        self.v = v
        self.notes = []

    def Serialize(self, w):
        if self.v is None:
            raise ValueError('item refuses to be written')
        w.WriteUInt8(self.v)

    def Deserialize(self, r):
        self.v = r.ReadUInt8()
        if self.v == 0xee:
            raise ValueError('item refuses to be read')


class Rec(SerializableMixin):
    """mixed, variable size"""

    def __init__(self, n=0, b=b''):
        self.n, self.b = n, b

    def Serialize(self, w):
        w.WriteVarInt(self.n)
        w.WriteVarBytes(self.b)

    def Deserialize(self, r):
        self.n = r.ReadVarInt(max=(1 << 64) - 1)
        self.b = r.ReadVarBytes()


class Nested(SerializableMixin):
    """a list in a list"""

    def __init__(self, items=()):
        self.items = list(items)

    def Serialize(self, w):
        w.WriteSerializableArray(self.items)

    def Deserialize(self, r):
        self.items = r.ReadSerializableArray('mc.fixtures.Item')
