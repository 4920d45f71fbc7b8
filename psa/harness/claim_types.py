"""Types of a user that claim names and elements which are taken, or that must not be rehydrated; analysed, never executed."""
from psrpcore.types import (
    PSAliasProperty,
    PSDictBase,
    PSEnumBase,
    PSListBase,
    PSNoteProperty,
    PSObject,
    PSQueueBase,
    PSScriptProperty,
    PSString,
    PSType,
)


@PSType(["User.Record"], adapted_properties=[PSNoteProperty("Other")])
class SecondRecord(PSObject):
    pass


@PSType(["System.String"], tag="S")
class SecondString(PSString):
    pass


@PSType(["System.Collections.Hashtable", "User.X"], tag="DCT")
class SecondDict(PSDictBase):
    pass


@PSType(["System.Management.Automation.ErrorRecord"])
class SecondError(PSObject):
    pass


@PSType(["User.ByteEnum"])
class SecondEnum(PSEnumBase):
    low = 0


@PSType(["User.Hidden"], adapted_properties=[PSNoteProperty("Id")], rehydrate=False)
class Hidden(PSObject):
    pass


@PSType(["User.HiddenList"], rehydrate=False)
class HiddenList(PSListBase):
    pass


@PSType(["User.HiddenEnum"], rehydrate=False)
class HiddenEnum(PSEnumBase):
    low = 0


@PSType(["User.Later"], rehydrate=False)
class LaterHidden(PSObject):
    pass


@PSType(["User.Later"])
class Later(PSObject):
    pass


class Undecorated(PSObject):
    pass


@PSType(["User.ListWithInit"])
class ListWithInit(PSListBase):
    def __init__(self, must):
        raise RuntimeError("constructor")


@PSType(["User.DictWithInit"])
class DictWithInit(PSDictBase):
    def __init__(self, must):
        raise RuntimeError("constructor")


@PSType(["User.QueueWithInit"])
class QueueWithInit(PSQueueBase):
    def __init__(self, must):
        raise RuntimeError("constructor")


@PSType(["User.WithInit"], adapted_properties=[PSNoteProperty("Id", mandatory=True)])
class WithInit(PSObject):
    def __init__(self, must, **kwargs):
        raise RuntimeError("constructor")


@PSType(["User.InitNoArgs"], adapted_properties=[PSNoteProperty("Id")])
class InitNoArgs(PSObject):
    def __init__(self):
        super().__init__()
        self.ran = True


def forbidden_get(obj):
    raise RuntimeError("a getter ran")


def forbidden_set(obj, value):
    raise RuntimeError("a setter ran")


@PSType(["User.Scripted"], adapted_properties=[PSNoteProperty("Real", value=3), PSAliasProperty("Other", "Real"), PSScriptProperty("Both", forbidden_get, forbidden_set)],
        extended_properties=[PSScriptProperty("Guard", forbidden_get, forbidden_set), PSAliasProperty("Ext", "Guard"), PSNoteProperty("Typed", ps_type=PSString)])
class Scripted(PSObject):
    level = 5

    def method(self):
        return "method"

    @property
    def prop(self):
        return "property"
