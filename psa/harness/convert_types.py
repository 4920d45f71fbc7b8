"""Types of a user that convert themselves for the wire."""
from psrpcore.types import PSNoteProperty, PSObject, PSType, add_note_property


@PSType(["User.Itself"], adapted_properties=[PSNoteProperty("Id")])
class Itself(PSObject):
    def __str__(self):
        return f"thing {self.Id}"

    @classmethod
    def ToPSObjectForRemoting(cls, instance, **kwargs):
        return instance


@PSType(["User.Another"], adapted_properties=[PSNoteProperty("Id"), PSNoteProperty("Items")])
class Another(PSObject):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.note = "kept"

    def __str__(self):
        return f"thing {self.Id}"

    @classmethod
    def ToPSObjectForRemoting(cls, instance, **kwargs):
        obj = PSObject()
        add_note_property(obj, "Number", instance.Id)
        add_note_property(obj, "Items", instance.Items)
        return obj


@PSType(["User.Changing"], adapted_properties=[PSNoteProperty("Id")])
class Changing(PSObject):
    def __str__(self):
        return f"thing {self.Id}"
