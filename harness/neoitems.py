"""Serializable classes for collections (see NeoIO.tla): items of variable length, bags that
hold a list of items of their own, in a list their constructor makes, and objects without content."""
from neocore.IO.Mixins import SerializableMixin


class Item(SerializableMixin):
    n = 0
    b = b''

    def Serialize(self, writer):
        writer.WriteUInt16(self.n)
        writer.WriteVarBytes(self.b)

    def Deserialize(self, reader):
        self.n = reader.ReadUInt16()
        self.b = reader.ReadVarString(max=2 ** 64)


class Bag(SerializableMixin):
    def __init__(self):
        self.items = []

    def Serialize(self, writer):
        writer.WriteSerializableArray(self.items)

    def Deserialize(self, reader):
        self.items.extend(reader.ReadSerializableArray('neoitems.Item'))


class Nil(SerializableMixin):
    pass
