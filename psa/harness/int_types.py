"""Enumerations and sized integers of a user; analysed, never executed."""
import enum

from psrpcore.types import PSByte, PSInt, PSUInt64, PSType


class Limits(enum.Enum):
    zero = 0
    one = 1
    minus = -1
    b127 = 127
    b128 = 128
    b255 = 255
    b256 = 256
    m128 = -128
    m129 = -129
    s32767 = 32767
    s32768 = 32768
    s65535 = 65535
    s65536 = 65536
    ms32768 = -32768
    ms32769 = -32769
    i31 = 2147483647
    i31p = 2147483648
    i32 = 4294967295
    i32p = 4294967296
    mi31 = -2147483648
    mi31m = -2147483649
    l63 = 9223372036854775807
    l63p = 9223372036854775808
    l64 = 18446744073709551615
    l64p = 18446744073709551616
    ml63 = -9223372036854775808
    ml63m = -9223372036854775809


class MyByte(PSByte):
    pass


@PSType(["User.Int"])
class MyInt(PSInt):
    pass


class MyULong(PSUInt64):
    pass
