"""Types a user of the package defines; analysed together with the package, never executed."""
import enum

from psrpcore.types import (
    PSAliasProperty,
    PSByte,
    PSDictBase,
    PSEnumBase,
    PSFlagBase,
    PSInt,
    PSInt16,
    PSInt64,
    PSListBase,
    PSNoteProperty,
    PSObject,
    PSQueueBase,
    PSSByte,
    PSStackBase,
    PSScriptProperty,
    PSString,
    PSType,
    PSUInt,
    PSUInt16,
    PSUInt64,
)


class Plain:
    def __init__(self):
        self.first = "one"
        self.second = 2


@PSType(["User.ByteEnum"])
class ByteEnum(PSEnumBase, base_type=PSByte):
    low = 0
    high = 255


@PSType(["User.SByteEnum"])
class SByteEnum(PSEnumBase, base_type=PSSByte):
    low = -128
    high = 127


@PSType(["User.Int16Enum"])
class Int16Enum(PSEnumBase, base_type=PSInt16):
    low = -32768
    high = 32767


@PSType(["User.UInt16Enum"])
class UInt16Enum(PSEnumBase, base_type=PSUInt16):
    low = 0
    high = 65535


@PSType(["User.IntEnum"])
class IntEnum(PSEnumBase):
    low = -2147483648
    high = 2147483647


@PSType(["User.UIntEnum"])
class UIntEnum(PSEnumBase, base_type=PSUInt):
    low = 0
    high = 4294967295


@PSType(["User.Int64Enum"])
class Int64Enum(PSEnumBase, base_type=PSInt64):
    low = -9223372036854775808
    high = 9223372036854775807


@PSType(["User.UInt64Enum"])
class UInt64Enum(PSEnumBase, base_type=PSUInt64):
    low = 0
    high = 18446744073709551615


@PSType(["User.UIntFlags"])
class UIntFlags(PSFlagBase, base_type=PSUInt):
    none = 0
    first = 1
    second = 2
    top = 0x80000000


@PSType(
    ["User.Record", "User.Base"],
    adapted_properties=[PSNoteProperty("Name", mandatory=True, ps_type=PSString), PSNoteProperty("Count", ps_type=PSInt)],
    extended_properties=[PSNoteProperty("Extra")],
)
class Record(PSObject):
    pass


@PSType(["User.Named"], adapted_properties=[PSNoteProperty("Id")])
class Named(PSObject):
    def __str__(self):
        return "named thing"


@PSType(["User.Computed"], adapted_properties=[PSNoteProperty("Real", value=3), PSAliasProperty("Other", "Real")],
        extended_properties=[PSScriptProperty("Text", lambda o: "text")])
class Computed(PSObject):
    pass


@PSType(["User.NotRehydrated"], adapted_properties=[PSNoteProperty("Id")], rehydrate=False)
class NotRehydrated(PSObject):
    def __init__(self, Id):
        super().__init__(Id=Id)


@PSType(["User.Guarded"], adapted_properties=[PSNoteProperty("Id")])
class Guarded(PSObject):
    def __init__(self, Id):
        raise RuntimeError("the constructor of a rehydrated type ran")


class PyEnum(enum.Enum):
    number = 1
    text = "words"
    big = 4294967296


class PyIntEnum(enum.IntEnum):
    one = 1
    two = 2


class PyFlags(enum.IntFlag):
    read = 4
    write = 2


@PSType(["User.List"])
class UserList(PSListBase):
    pass


@PSType(["User.Stack"])
class UserStack(PSStackBase):
    pass


@PSType(["User.Dict"])
class UserDict(PSDictBase):
    pass


@PSType(["User.Queue"])
class UserQueue(PSQueueBase):
    pass


@PSType(["User.ExtString"], extended_properties=[PSNoteProperty("Kind")])
class ExtString(PSString):
    pass


@PSType(["User.Equal"], adapted_properties=[PSNoteProperty("Id")])
class Equal(PSObject):
    """Equal to every other one."""

    def __eq__(self, other):
        return isinstance(other, Equal)

    def __hash__(self):
        return 1


@PSType(["User.Mutating"], extended_properties=[PSScriptProperty("Grow", lambda o: o.PSTypeNames.append("User.Grown"))])
class Mutating(PSObject):
    """Its type names change while it is serialized."""


class Maker:
    """Makes a new object at every access."""

    @property
    def first(self):
        return PSObject()

    @property
    def second(self):
        return PSObject()


@PSType(["User.Fresh"], extended_properties=[PSScriptProperty("One", lambda o: Record(Name="one")), PSScriptProperty("Two", lambda o: Record(Name="two"))])
class Fresh(PSObject):
    pass


@PSType(["User.Converted"], adapted_properties=[PSNoteProperty("Id")])
class Converted(PSObject):
    """Written and read in another form."""

    @classmethod
    def FromPSObjectForRemoting(cls, obj, **kwargs):
        new = Converted(Id=obj.Id)
        new.converted = True
        return new
