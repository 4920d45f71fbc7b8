"""Types of a user that hold or extend secure strings; analysed, never executed."""
from psrpcore.types import PSNoteProperty, PSObject, PSScriptProperty, PSAliasProperty, PSSecureString, PSType, PSPropertyInfo


class UserSecureString(PSSecureString):
    pass


@PSType(type_names=["User.Secret"], adapted_properties=[PSNoteProperty("Name"), PSNoteProperty("Password")])
class SecretHolder(PSObject):
    pass


@PSType(type_names=["User.SecretScript"], extended_properties=[PSNoteProperty("Stored"), PSAliasProperty("Alias", "Stored"), PSScriptProperty("Script", lambda self: self.Stored)])
class SecretScript(PSObject):
    pass


@PSType(type_names=["User.Converted"])
class SecretConverted(PSObject):
    def __init__(self, secret):
        super().__init__()
        self.secret = secret

    @classmethod
    def ToPSObjectForRemoting(cls, instance, **kwargs):
        obj = PSObject()
        obj.PSObject.extended_properties.append(PSNoteProperty("Inner", instance.secret))
        return obj


class PlainHolder:
    def __init__(self, secret):
        self.secret = secret
        self.items = [secret]
