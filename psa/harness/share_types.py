"""Ways a user defines and uses types whose parts could end up shared; analysed together with the package, never executed."""
from psrpcore.types import (
    PSAliasProperty,
    PSEnumBase,
    PSInt,
    PSNoteProperty,
    PSObject,
    PSScriptProperty,
    PSString,
    PSType,
    add_note_property,
)


@PSType(
    ["User.Twice"],
    adapted_properties=[PSNoteProperty("Only"), PSNoteProperty("Both", value="adapted"), PSNoteProperty("Typed", ps_type=PSInt), PSAliasProperty("Alias", "Only")],
    extended_properties=[PSNoteProperty("More"), PSNoteProperty("Both", value="extended"),
                         PSScriptProperty("Script", lambda o: o.held, lambda o, v: setattr(o, "held", v))],
)
class Twice(PSObject):
    def __init__(self, **kwargs):
        super().__init__(**kwargs)
        self.held = "initial"
        self.plain = "plain"


@PSType(["User.Parent"], adapted_properties=[PSNoteProperty("Up")], extended_properties=[PSNoteProperty("UpMore")])
class Parent(PSObject):
    pass


@PSType(["User.Child"], adapted_properties=[PSNoteProperty("Down")])
class Child(Parent):
    pass


@PSType(["User.GrandChild"])
class GrandChild(Child):
    pass


def from_lists(names, adapted, extended):
    @PSType(names, adapted, extended, rehydrate=False)
    class One(PSObject):
        pass

    @PSType(names, adapted, extended, rehydrate=False)
    class Two(Parent):
        pass

    return One, Two


def from_decorator(decorator):
    @decorator
    class One(PSObject):
        pass

    @decorator
    class Two(Parent):
        pass

    return One, Two


def without_lists():
    @PSType(rehydrate=False)
    class One(Parent):
        pass

    @PSType(rehydrate=False)
    class Two(Parent):
        pass

    return One, Two
