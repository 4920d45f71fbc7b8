"""Model of datetime.timedelta and datetime.datetime: a whole number of microseconds, a multiple of which is every field."""
import psa_native

_SECOND = 1000000
_DAY = 86400 * _SECOND


class timedelta:
    def __new__(cls, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        self = object.__new__(cls)
        self._us = psa_native.whole(
            (weeks * 7 + days) * _DAY + hours * 3600 * _SECOND + minutes * 60 * _SECOND + seconds * _SECOND + milliseconds * 1000 + microseconds)
        return self

    @property
    def days(self):
        return self._us // _DAY

    @property
    def seconds(self):
        return self._us % _DAY // _SECOND

    @property
    def microseconds(self):
        return self._us % _SECOND

    def total_seconds(self):
        return self._us / _SECOND

    def __add__(self, other):
        if isinstance(other, timedelta):
            return timedelta(microseconds=self._us + other._us)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, other):
        if isinstance(other, timedelta):
            return timedelta(microseconds=self._us - other._us)
        return NotImplemented

    def __rsub__(self, other):
        if isinstance(other, timedelta):
            return timedelta(microseconds=other._us - self._us)
        return NotImplemented

    def __neg__(self):
        return timedelta(microseconds=-self._us)

    def __pos__(self):
        return timedelta(microseconds=self._us)

    def __abs__(self):
        if self._us < 0:
            return -self
        return timedelta(microseconds=self._us)

    def __mul__(self, other):
        return timedelta(microseconds=self._us * other)

    __rmul__ = __mul__

    def __floordiv__(self, other):
        if isinstance(other, timedelta):
            return self._us // other._us
        return timedelta(microseconds=self._us // other)

    def __mod__(self, other):
        return timedelta(microseconds=self._us % other._us)

    def __divmod__(self, other):
        return self._us // other._us, timedelta(microseconds=self._us % other._us)

    def __truediv__(self, other):
        if isinstance(other, timedelta):
            return self._us / other._us
        return timedelta(microseconds=self._us / other)

    def __bool__(self):
        return self._us != 0

    def __eq__(self, other):
        if isinstance(other, timedelta):
            return self._us == other._us
        return NotImplemented

    def __lt__(self, other):
        if isinstance(other, timedelta):
            return self._us < other._us
        return NotImplemented

    def __le__(self, other):
        if isinstance(other, timedelta):
            return self._us <= other._us
        return NotImplemented

    def __gt__(self, other):
        if isinstance(other, timedelta):
            return self._us > other._us
        return NotImplemented

    def __ge__(self, other):
        if isinstance(other, timedelta):
            return self._us >= other._us
        return NotImplemented

    def __hash__(self):
        return hash(self._us)


timedelta.resolution = timedelta(microseconds=1)
timedelta.min = timedelta(-999999999)
timedelta.max = timedelta(days=999999999, hours=23, minutes=59, seconds=59, microseconds=999999)


class datetime:
    def __new__(cls, year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
        self = object.__new__(cls)
        self._ts = psa_native.ordinal(year, month, day) * _DAY + hour * 3600 * _SECOND + minute * 60 * _SECOND + second * _SECOND + microsecond
        self.tzinfo = tzinfo
        self.fold = fold
        return self

    @property
    def year(self):
        return psa_native.year(self._ts // _DAY)

    @property
    def month(self):
        return psa_native.month(self._ts // _DAY)

    @property
    def day(self):
        return psa_native.day(self._ts // _DAY)

    @property
    def hour(self):
        return self._ts % _DAY // (3600 * _SECOND)

    @property
    def minute(self):
        return self._ts % (3600 * _SECOND) // (60 * _SECOND)

    @property
    def second(self):
        return self._ts % (60 * _SECOND) // _SECOND

    @property
    def microsecond(self):
        return self._ts % _SECOND

    def toordinal(self):
        return self._ts // _DAY

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=None, tzinfo=True, *, fold=None):
        return type(self)(
            self.year if year is None else year,
            self.month if month is None else month,
            self.day if day is None else day,
            self.hour if hour is None else hour,
            self.minute if minute is None else minute,
            self.second if second is None else second,
            self.microsecond if microsecond is None else microsecond,
            self.tzinfo if tzinfo is True else tzinfo,
            fold=self.fold if fold is None else fold,
        )

    def _moved(self, us):
        day = us // _DAY
        return type(self)(
            psa_native.year(day),
            psa_native.month(day),
            psa_native.day(day),
            us % _DAY // (3600 * _SECOND),
            us % (3600 * _SECOND) // (60 * _SECOND),
            us % (60 * _SECOND) // _SECOND,
            us % _SECOND,
            tzinfo=self.tzinfo,
        )

    def __add__(self, other):
        if isinstance(other, timedelta):
            return datetime._moved(self, self._ts + other._us)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, other):
        if isinstance(other, timedelta):
            return datetime._moved(self, self._ts - other._us)
        if isinstance(other, datetime):
            return timedelta(microseconds=self._ts - other._ts)
        return NotImplemented

    def __eq__(self, other):
        if isinstance(other, datetime):
            return self._ts == other._ts
        return NotImplemented

    def __lt__(self, other):
        if isinstance(other, datetime):
            return self._ts < other._ts
        return NotImplemented

    def __le__(self, other):
        if isinstance(other, datetime):
            return self._ts <= other._ts
        return NotImplemented

    def __gt__(self, other):
        if isinstance(other, datetime):
            return self._ts > other._ts
        return NotImplemented

    def __ge__(self, other):
        if isinstance(other, datetime):
            return self._ts >= other._ts
        return NotImplemented

    def __hash__(self):
        return hash(self._ts)
