"""classes with the names of those in mc.fixtures and another format"""
from neocore.IO.Mixins import SerializableMixin


class Item(SerializableMixin):
    """two bytes, most significant first"""

    def __init__(self, v=0):
        self.v = v

    def Serialize(self, w):
        w.WriteUInt16(self.v, '>')

    def Deserialize(self, r):
        self.v = r.ReadUInt16('>')


class Nested(SerializableMixin):
    """a list of the other kind of items in a list"""

    def __init__(self, items=()):
        self.items = list(items)

    def Serialize(self, w):
        w.WriteSerializableArray(self.items)

    def Deserialize(self, r):
        self.items = r.ReadSerializableArray('mc.fixtures2.Item')


class UInt160(SerializableMixin):
    """not the library's"""

    def __init__(self):
        self.Data = b''

    def Serialize(self, w):
        w.WriteVarBytes(self.Data)

    def Deserialize(self, r):
        self.Data = r.ReadVarBytes()
