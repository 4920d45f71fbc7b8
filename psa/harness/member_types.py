"""Declarations of properties a user makes; analysed together with the package, never executed."""
from psrpcore.types import (
    PSAliasProperty,
    PSInt,
    PSNoteProperty,
    PSObject,
    PSScriptProperty,
    PSString,
    PSType,
)


@PSType(["M.One"], adapted_properties=[PSNoteProperty("A")])
class One(PSObject):
    pass


@PSType(["M.Ordered"], adapted_properties=[PSNoteProperty("A"), PSNoteProperty("B")], extended_properties=[PSNoteProperty("C"), PSNoteProperty("D")])
class Ordered(PSObject):
    pass


@PSType(["M.Mandatory"], adapted_properties=[PSNoteProperty("A", mandatory=True), PSNoteProperty("B"), PSNoteProperty("C", mandatory=True)], extended_properties=[PSNoteProperty("D", mandatory=True), PSNoteProperty("E")])
class Mandatory(PSObject):
    pass


@PSType(["M.Hidden"], adapted_properties=[PSNoteProperty("A"), PSNoteProperty("B", value="b")], extended_properties=[PSNoteProperty("B", value="B"), PSNoteProperty("C")])
class Hidden(PSObject):
    pass


@PSType(["M.Defaults"], adapted_properties=[PSNoteProperty("A", value="a"), PSNoteProperty("B"), PSNoteProperty("N", value=None)], extended_properties=[PSNoteProperty("C", value=0), PSNoteProperty("D", value=False)])
class Defaults(PSObject):
    pass


@PSType(["M.Typed"], adapted_properties=[PSNoteProperty("I", ps_type=PSInt), PSNoteProperty("S", ps_type=PSString)], extended_properties=[PSNoteProperty("O", ps_type=One), PSNoteProperty("J", value=7, ps_type=PSInt)])
class Typed(PSObject):
    pass


@PSType(["M.Base"], adapted_properties=[PSNoteProperty("A"), PSNoteProperty("B", value="base")], extended_properties=[PSNoteProperty("X")])
class Base(PSObject):
    pass


@PSType(["M.Derived"], adapted_properties=[PSNoteProperty("C")], extended_properties=[PSNoteProperty("Y", value="derived")])
class Derived(Base):
    pass


@PSType(["M.Alone"], adapted_properties=[PSNoteProperty("C")], skip_inheritance=True)
class Alone(Base):
    pass


@PSType(["M.Redeclared"], adapted_properties=[PSNoteProperty("B", value="own"), PSNoteProperty("C")], extended_properties=[PSNoteProperty("X", value="own too")])
class Redeclared(Base):
    pass


@PSType(["M.Again"], adapted_properties=[PSNoteProperty("A", value="again")])
class Again(Redeclared):
    pass


@PSType(["data.Item", "ized.Other"])
class Item(PSObject):
    pass


class Special(PSInt):
    pass


class SpecialOne(One):
    pass


def set_held(obj, value):
    obj.held = value


def get_more(obj, more=None):
    return obj.held


def get_any(*objs):
    return objs[0].held


def get_named(*, obj):
    return obj.held


def set_more(obj, value, more=0):
    obj.held = value


def set_optional(obj, value=None):
    obj.held = value


def set_three(obj, value, more):
    obj.held = value


@PSType(
    ["M.Computed"],
    adapted_properties=[PSNoteProperty("A"), PSAliasProperty("Same", "A"), PSAliasProperty("Plain", "attribute"), PSAliasProperty("Number", "A", ps_type=PSInt)],
    extended_properties=[PSScriptProperty("Read", lambda o: o.held), PSScriptProperty("Both", lambda o: o.held, set_held), PSScriptProperty("Cast", lambda o: o.held, set_held, ps_type=PSInt),
                         PSAliasProperty("Chain", "Same")],
)
class Computed(PSObject):
    def __init__(self, **kwargs):
        self.held = None
        self.attribute = "attribute"
        super().__init__(**kwargs)
