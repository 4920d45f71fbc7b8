#!/usr/bin/env python3
"""Writes known_findings.json (findings recorded, not repaired; defects repaired by fix commits in /repo)."""
import json
import os
import subprocess

FIXED = [
    ("C21", "keep an explicit STA apartment state of a pipeline", "ClientPowerShell(pool, apartment_state=ApartmentState.STA) sent the pool's apartment state, STA being 0"),
    ("C21", "read back error details with an empty message", "an ErrorRecord with ErrorDetails(Message='') was read back without ErrorDetails"),
    ("C23", "read information texts of CLIXML as information records", "a text written with ClixmlShell.write_information was read by ClixmlOutput.from_clixml as a bare string in the list of InformationRecord"),
    ("C19", "keep significant zeros when serializing whole second durations", "PSDuration(seconds=10) was written as PT1S: the trailing zeros of whole seconds were stripped"),
    ("C13", "escape every surrogate and the two BMP non-characters in CLIXML strings", "lone surrogates at the ends of the ranges and U+FFFE/U+FFFF were written unescaped"),
    ("C13", "match CLIXML string escapes on characters and not on UTF-16 bytes", "a text whose UTF-16 bytes contain the bytes of an escape out of step was changed on reading"),
    ("C13", "escape the ToString value when serializing an object", "control characters in ToString made a document no reader accepts"),
    ("C12", "serialize an int below the Int32 minimum as an Int64", "-2147483649 was written as I32"),
    ("C15", "only reuse a type name reference when the whole type hierarchy matches", "two objects sharing the first type name got the other one's type names"),
    ("C15", "track serialized object references by identity and not equality", "an object equal to an earlier one was written as a reference to it"),
    ("C12", "keep empty texts when deserializing a progress record", "a ProgressRecord with an empty Activity or StatusDescription raised when it was read back, an empty CurrentOperation became null"),
    ("C14", "do not drain a queue when serializing it", "serializing a PSQueue removed its elements"),
    ("C12", "deserialize CLIXML with an empty self closed root element", "<Objs /> raised instead of giving no object"),
    ("C19", "zero pad the year when serializing a datetime", "years below 1000 were written with fewer than four digits"),
    ("C18", "validate the range of integers created from an enum value", "PSByte(<enum with value 300>) was accepted"),
    ("C17", "do not grow the accepted type list on every PSDuration operation", "a module level list grew on every duration operation"),
    ("C19", "keep the nanosecond value when casting a PSDateTime", "PSDateTime(PSDateTime) lost its nanosecond"),
    ("C23", "only skip the CLIXML marker once it has been sent", "a shell data_to_send call that sent nothing consumed the #< CLIXML header"),
    ("C02", "do not combine messages of different streams in one payload", "a payload could hold default and prompt_response fragments together"),
    ("C03", "wait for the whole fragment before processing it", "a payload ending within a fragment lost or truncated it"),
    ("C22", "always return an ErrorRecord for a failed pool host response", "the pool's host response event held a raw object as its error"),
    ("C07", "do not leave the pool opening when its init message cannot be serialized", "open() left the pool Opening with a queued message after it raised"),
    ("C07", "do not change the server pool state when its message cannot be serialized", "set_broken() left the pool Broken after it raised, with nothing sent"),
    ("C08", "refuse a bool as the response to a get available runspaces request", "runspace_availability_response(ci, True) answered GetAvailableRunspaces with a bool"),
    ("C16", "do not store received properties on the shared enum class", "the properties, ToString and type names received with one enum value were stored on the enum class and seen by every other value, pool and document"),
    ("C16", "do not call the constructor of a rehydrated list or dict", "reading a rehydrated list or dict called the class's own constructor"),
    ("C24", "do not connect the client of a different runspace pool after refusing it", "after a server refused the capability of a client of another pool, the connect request in the same payload was accepted, and the refused capability was remembered"),
    ("C15", "read the key of a dictionary entry before its value", "a key referring to an object declared in the value was resolved in the other order than it was written"),
    ("C15", "read the properties and entries of an object in document order", "a reference to an object declared earlier in the document was refused when the properties came before the entries"),
    ("C19", "keep the nanoseconds of a PSDuration on the right of a sum, in abs() and in a truth test", "timedelta + PSDuration and abs(PSDuration) lost the nanoseconds, bool(PSDuration(nanoseconds=5)) was False"),
    ("C12", "make PSDuration and PSVersion hashable so they can be the key of a dictionary", "reading a document with a TS or Version dictionary key raised TypeError"),
    ("C19", "keep the nanoseconds when a PSDateTime is added to a duration", "PSDuration + PSDateTime lost the nanoseconds"),
    ("C28", "let a type declare an inherited property again", "a class that declared a property of its base again listed it twice; assigning changed one and reading returned the other, the value of the base"),
    ("C25", "do not wait on the lock of a queue to serialize it", "serializing a queue waited for its lock (since the repair that stopped draining it)"),
    ("C12", "read characters and dates that carry the type names of a registered type", "an object with the type names of System.Char or System.DateTime (or of a user type derived from PSDateTime) around its value raised IndexError or TypeError when it was read"),
    ("C14", "do not fix the text of an object that is serialized as itself", "serializing an object stored its rendered text in it, so a later change of its properties was not seen in what was written afterwards"),
    ("C17", "do not share the properties of a secure string with its plaintext", "decrypting a secure string returned a string that shared the property object, so adding a property to one added it to the other"),
    ("C17", "do not share the lists given to PSType between the types it is used for", "PSType extended the lists it was given and made them the lists of the type, so two types defined from one list shared their type names and properties"),
    ("C17", "do not return the value of an enum member itself when it is cast to an integer type", "PSInt(Enum.Member) returned the object every use of the member shares, so a property added to one cast was on all of them"),
]


# (property, rule, construct, what fails)
OPEN = [
    ("C12", "enum", f"BufferCellType.{m} read back",
     f"BufferCellType.{m}, written on its own, is read back as ControlKeyStates({n}): both classes are registered under the type name "
     "System.Management.Automation.Host.ControlKeyStates and the first one keeps it; tests/test_types/test_host.py::test_buffer_cell pins that name, so it cannot be repaired")
    for m, n in (("Complete", 0), ("Leading", 1), ("Trailing", 2))
]


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
    by = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log}
    out = {"findings": [{"property": p, "rule": r, "construct": c, "status": "open", "what": w} for p, r, c, w in OPEN],
            "fixed": [f"fixed: property={p} {by['fix: ' + s]} {w}" for p, s, w in FIXED]}
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"), "w") as fh:
        json.dump(out, fh, indent=1)
        fh.write("\n")


main()
