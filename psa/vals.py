"""Values of every kind the package converts, as abstract values."""
import datetime
import decimal
import uuid

from .xmlt import *

GUID = "11223344-5566-7788-99aa-bbccddeeff00"
S = lambda n, t=None: Sym("arg", n, typ=t)

INTS = {  # class: (element, smallest, largest)
    "PSByte": ("By", 0, 255), "PSSByte": ("SB", -128, 127), "PSInt16": ("I16", -2**15, 2**15 - 1), "PSUInt16": ("U16", 0, 2**16 - 1),
    "PSInt": ("I32", -2**31, 2**31 - 1), "PSUInt": ("U32", 0, 2**32 - 1), "PSInt64": ("I64", -2**63, 2**63 - 1), "PSUInt64": ("U64", 0, 2**64 - 1),
}


def mkdict(*kv):
    d = DictV()
    for k, v in kv:
        d.entries[key(k)] = (k, v)
    return d


def queue_of(w, cls, *items):
    q = w.new(cls) if isinstance(cls, str) else w.it.call(cls, [], {}, None)
    for i in items:
        w.call(q, "put", i)
    return q


def td(**kw):
    return Const(datetime.timedelta(**kw))


def primitives():
    """(name, builder, class read back, element, text or None when it is compared by content only)"""
    out = [
        ("None", lambda w: NONE, None, "Nil", None),
        ("True", lambda w: TRUE, "bool", "B", "true"),
        ("False", lambda w: FALSE, "bool", "B", "false"),
        ("str", lambda w: S("s", "str"), "PSString", "S", None),
        ("str ''", lambda w: Const(""), "PSString", "S", ""),
        ("str 'abc'", lambda w: Const("abc"), "PSString", "S", "abc"),
        ("PSString", lambda w: w.new("PSString", S("s", "str")), "PSString", "S", None),
        ("PSString ''", lambda w: w.new("PSString", Const("")), "PSString", "S", ""),
        ("PSScriptBlock", lambda w: w.new("PSScriptBlock", S("s", "str")), "PSScriptBlock", "SBK", None),
        ("PSScriptBlock ''", lambda w: w.new("PSScriptBlock", Const("")), "PSScriptBlock", "SBK", ""),
        ("PSUri", lambda w: w.new("PSUri", S("s", "str")), "PSUri", "URI", None),
        ("PSXml", lambda w: w.new("PSXml", S("s", "str")), "PSXml", "XD", None),
        ("bytes", lambda w: S("b", "bytes"), "PSByteArray", "BA", None),
        ("bytes b'ab'", lambda w: Const(b"ab"), "PSByteArray", "BA", "YWI="),
        ("bytes b''", lambda w: Const(b""), "PSByteArray", "BA", ""),
        ("PSByteArray", lambda w: w.new("PSByteArray", S("b", "bytes")), "PSByteArray", "BA", None),
        ("PSChar 'a'", lambda w: w.new("PSChar", Const("a")), "PSChar", "C", "97"),
        ("PSChar 0", lambda w: w.new("PSChar", Const(0)), "PSChar", "C", "0"),
        ("PSChar 65535", lambda w: w.new("PSChar", Const(65535)), "PSChar", "C", "65535"),
        ("float", lambda w: S("f", "float"), "PSSingle", "Sg", None),
        ("float 1e+20", lambda w: Const(1e20), "PSSingle", "Sg", "1E+20"),
        ("PSSingle", lambda w: w.new("PSSingle", S("f", "float")), "PSSingle", "Sg", None),
        ("PSDouble", lambda w: w.new("PSDouble", S("f", "float")), "PSDouble", "Db", None),
        ("PSDouble -1e-07", lambda w: w.new("PSDouble", Const(-1e-07)), "PSDouble", "Db", "-1E-07"),
        ("PSDouble inf", lambda w: w.new("PSDouble", Const(float("inf"))), "PSDouble", "Db", "INF"),
        ("decimal", lambda w: Const(decimal.Decimal("1.50")), "PSDecimal", "D", "1.50"),
        ("PSDecimal", lambda w: w.new("PSDecimal", Const("-12345678901234567890.123")), "PSDecimal", "D", "-12345678901234567890.123"),
        ("uuid", lambda w: Const(uuid.UUID(GUID)), "PSGuid", "G", GUID),
        ("PSGuid", lambda w: w.new("PSGuid", Const(GUID)), "PSGuid", "G", GUID),
        ("PSVersion 1.2", lambda w: w.new("PSVersion", Const("1.2")), "PSVersion", "Version", "1.2"),
        ("PSVersion 1.2.3", lambda w: w.new("PSVersion", Const("1.2.3")), "PSVersion", "Version", "1.2.3"),
        ("PSVersion 1.2.3.4", lambda w: w.new("PSVersion", Const("1.2.3.4")), "PSVersion", "Version", "1.2.3.4"),
        ("datetime", lambda w: Const(datetime.datetime(2008, 4, 11, 10, 42, 32, 273199, datetime.timezone(datetime.timedelta(hours=-7)))), "PSDateTime", "DT", None),
        ("datetime no zone", lambda w: Const(datetime.datetime(2008, 4, 11, 10, 42, 32, 5)), "PSDateTime", "DT", None),
        ("PSDateTime", lambda w: w.new("PSDateTime", Const(2020), Const(1), Const(1), Const(3), Const(4), Const(5)), "PSDateTime", "DT", None),
        ("timedelta", lambda w: td(days=1, seconds=7, microseconds=12), "PSDuration", "TS", None),
        ("PSDuration", lambda w: w.new("PSDuration", days=Const(2), hours=Const(3), seconds=Const(9)), "PSDuration", "TS", "P2DT3H9S"),
        ("PSDuration 0", lambda w: w.new("PSDuration"), "PSDuration", "TS", None),
    ]
    for c, (tag, lo, hi) in INTS.items():
        out.append((c, (lambda c: lambda w: w.new(c, S("n", "int")))(c), c, tag, None))
        for v in (lo, hi, 0):
            out.append((f"{c} {v}", (lambda c, v: lambda w: w.new(c, Const(v)))(c, v), c, tag, str(v)))
    for v, c in ((-2**31, "PSInt"), (2**31 - 1, "PSInt"), (-2**31 - 1, "PSInt64"), (2**31, "PSInt64"), (-2**63, "PSInt64"), (2**63 - 1, "PSInt64"), (0, "PSInt")):
        out.append((f"int {v}", (lambda v: lambda w: Const(v))(v), c, INTS[c][0], str(v)))
    return out


def containers():
    """(name, builder, class read back, element inside the object)"""
    def items(w):
        return [Const(1), Const("two"), NONE, TRUE, w.new("PSInt64", Const(4)), ListV([Const("x"), Const("y")]), mkdict((Const("k"), Const(5)))]

    def pairs(w):
        return [(Const("b"), Const(1)), (Const("a"), NONE), (Const(3), Const("three")), (w.new("PSInt64", Const(9)), ListV([Const(1), Const(2)]))]

    def psdict(w, cls="PSDict"):
        d = w.new(cls)
        for k, v in pairs(w):
            w.it.set_item(d, k, v, None)
        return d

    return [
        ("list", lambda w: ListV(items(w)), "PSList", "LST"), ("list []", lambda w: ListV([]), "PSList", "LST"),
        ("PSList", lambda w: w.new("PSList", ListV(items(w))), "PSList", "LST"), ("PSList []", lambda w: w.new("PSList"), "PSList", "LST"),
        ("PSStack", lambda w: w.new("PSStack", ListV(items(w))), "PSStack", "STK"),
        ("PSIEnumerable", lambda w: w.new("PSIEnumerable", ListV(items(w))), "PSIEnumerable", "IE"),
        ("PSQueue", lambda w: queue_of(w, "PSQueue", *items(w)), "PSQueue", "QUE"), ("PSQueue empty", lambda w: queue_of(w, "PSQueue"), "PSQueue", "QUE"),
        ("queue.Queue", lambda w: queue_of(w, w.prog.models["queue"].frame.vars["Queue"], Const(1), Const("a")), "PSQueue", "QUE"),
        ("dict", lambda w: mkdict(*pairs(w)), "PSDict", "DCT"), ("dict {}", lambda w: mkdict(), "PSDict", "DCT"),
        ("PSDict", psdict, "PSDict", "DCT"),
        ("user list", lambda w: w.new("UserList", ListV(items(w))), "UserList", "LST"), ("user stack", lambda w: w.new("UserStack", ListV(items(w))), "UserStack", "STK"),
        ("user queue", lambda w: queue_of(w, "UserQueue", *items(w)), "UserQueue", "QUE"), ("user dict", lambda w: psdict(w, "UserDict"), "UserDict", "DCT"),
        ("long list", lambda w: ListV([Const(i) for i in range(70)]), "PSList", "LST"),
        ("long dict", lambda w: mkdict(*[(Const(i), Const(str(i))) for i in range(40)]), "PSDict", "DCT"),
        ("long queue", lambda w: queue_of(w, "PSQueue", *[Const(i) for i in range(40)]), "PSQueue", "QUE"),
        ("list with equal items", lambda w: ListV([Const("a"), Const("a"), Const(1), Const(1)]), "PSList", "LST"),
        ("nested lists", lambda w: ListV([ListV([ListV([Const(1)]), ListV([])]), w.new("PSStack", ListV([ListV([Const(2)])]))]), "PSList", "LST"),
    ]


def key_base(k):
    while isinstance(k, tuple) and len(k) > 2 and k[0] == "s":
        if k[1] == "resub":
            k = k[4]
        elif k[1] in ("encode", "decode") and isinstance(k[2], tuple) and k[2][0] == "s":
            k = k[2]
        elif k[1] == "mcall" and k[2] in (("raw", "encode"), ("raw", "decode"), ("raw", "upper")):
            k = k[3]
        else:
            break
    return k


def same(it, a, b, names=False, empty=None):
    """Whether two shapes denote the same value, a plain Python value being its PowerShell counterpart."""
    if empty is None:
        empty = {key_base(k) for k, v in it.facts.items() if v is False}
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a and b and a[0] in ("c", "s", "h", "x", "raw") and isinstance(b[0], str):
            ka, kb = num_base(key_base(a)), num_base(key_base(b))
            if ka == kb:
                return True
            e = (("c", "str", ""), ("c", "bytes", b""))
            return (kb in e and ka in empty) or (ka in e and kb in empty)
        if len(a) in (2, 3, 4) and len(b) == 4 and a[0] == "Queue" and b[0] == "PSQueue":
            return b[2] == () and same(it, a[1], b[1], names, empty)
        if len(a) in (2, 3) and len(b) == 4 and a[0] == b[0]:  # a plain value read back as its PowerShell type
            if b[2] != ():
                return False
            if b[1][0] == "value":
                return same(it, a[1], b[1][1], names, empty)
            if b[1][0] == "attrs":
                return a[1] in [x for n, x in b[1][1:]] or a[1] == dict(b[1][1:]).get("$uuid")
            return same(it, a[1], b[1], names, empty)
        if len(a) == 4 and len(b) == 4 and isinstance(a[0], str) and a[3] and not names and isinstance(b[3], tuple):
            return a[0] == b[0] and same(it, a[1], b[1], names, empty) and same(it, a[2], b[2], names, empty)
        if len(a) != len(b):
            return False
        return all(same(it, x, y, names, empty) for x, y in zip(a, b))
    return a == b


def num_base(k):
    if isinstance(k, tuple) and k[:2] == ("s", "mcall") and k[2] == ("raw", "upper"):
        k = k[3]
    if isinstance(k, tuple) and k[:2] in (("s", "str"), ("s", "repr")) and len(k) == 3:
        return k[2]
    return k


PROGRESS = dict(Activity=Const("a"), ActivityId=Const(1), StatusDescription=Const("d"), CurrentOperation=Const("o"), ParentActivityId=Const(-1), PercentComplete=Const(5), SecondsRemaining=Const(6))


def progress(w, record="Processing", **kw):
    d = dict(PROGRESS)
    d.update(kw)
    d["RecordType"] = w.enum("ProgressRecordType", record)
    return w.new("ProgressRecord", **d)
