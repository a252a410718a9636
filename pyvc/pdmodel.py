"""pandas: only durations and the offsets used as frequencies."""
import re, types
from fractions import Fraction
from .values import Delta, Num, Time, num
from .terms import Unsupported

UNITS = {"d": 86400, "h": 3600, "min": 60, "s": 1, "ms": Fraction(1, 1000), "us": Fraction(1, 10**6), "ns": Fraction(1, 10**9)}


class Freq:
    """A frequency setting of unknown length."""
    def __init__(self, seconds):
        self.seconds = num(seconds)

    def __repr__(self): return f"<freq {self.seconds!r}>"
    def __deepcopy__(self, memo): return self


def freq_seconds(f):
    if isinstance(f, Freq):
        return f.seconds
    if isinstance(f, Delta):
        return f.s
    if isinstance(f, str):
        m = re.fullmatch(r"(\d*)\s*([a-zA-Z]+)", f)
        if m and m.group(2) in UNITS or m and m.group(2).lower() in ("d", "h"):
            u = m.group(2)
            return num((int(m.group(1) or 1)) * UNITS.get(u, UNITS.get(u.lower())))
    raise Unsupported(f"frequency {f!r}")


WORDS = {"d": 86400, "day": 86400, "days": 86400, "h": 3600, "hr": 3600, "hour": 3600, "hours": 3600, "m": 60, "min": 60, "minute": 60,
         "minutes": 60, "t": 60, "s": 1, "sec": 1, "second": 1, "seconds": 1}


def duration(text):
    """Text of a Timedelta: unlike in frequencies, `m` are minutes."""
    if isinstance(text, str):
        parts = re.findall(r"([0-9.]+)\s*([a-zA-Z]+)\s*", text)
        if parts and "".join(a + b for a, b in parts) == re.sub(r"\s", "", text) and all(b.lower() in WORDS for a, b in parts):
            return num(sum(Fraction(a) * WORDS[b.lower()] for a, b in parts))
    return freq_seconds(text)


class Timedelta:
    def __new__(cls, value=None, unit=None, *, days=0, hours=0, minutes=0, seconds=0, **k):
        if k:
            raise Unsupported("Timedelta keywords")
        if value is None:
            return Delta(num(days) * 86400 + num(hours) * 3600 + num(minutes) * 60 + num(seconds))
        if unit is not None:
            return Delta(num(value) * UNITS[unit.lower() if unit.lower() in UNITS else unit])
        if isinstance(value, Delta):
            return value
        return Delta(duration(value))
    _model_types = (Delta,)


class Timestamp:
    _model_types = ()

    def __new__(cls, *a, **k):
        raise Unsupported("pandas.Timestamp")


class Frame:
    """A table of numbers; columns with anything else cannot be used."""
    def __init__(self, columns):
        self.__dict__["_columns"] = columns

    columns = property(lambda self: list(self._columns))

    def __getitem__(self, k):
        if k not in self._columns:
            raise KeyError(k)
        return Column(self._columns[k])

    def __getattr__(self, k):
        if k.startswith("__") or k not in self._columns:
            raise AttributeError(k)
        return Column(self._columns[k])


class Column:
    def __init__(self, cells):
        self._cells = cells

    @property
    def values(self):
        from .arrays import asarray
        try:
            return asarray([num(Fraction(c)) for c in self._cells])
        except (ValueError, ZeroDivisionError):
            raise Unsupported("column of a table that is not numeric")
    to_numpy = lambda self: self.values


def read_csv(path, **k):
    import csv
    if k:
        raise Unsupported("read_csv options")
    with open(path, encoding="utf-8-sig") as f:
        rows = list(csv.reader(f))
    return Frame({h: [r[i] for r in rows[1:] if r] for i, h in enumerate(rows[0])})


def make():
    def offsets(f):
        return types.SimpleNamespace(delta=Delta(freq_seconds(f)), nanos=freq_seconds(f) * 10**9)
    fr = types.SimpleNamespace(to_offset=offsets)
    return types.SimpleNamespace(Timedelta=Timedelta, Timestamp=Timestamp, to_timedelta=Timedelta, read_csv=read_csv, DataFrame=Frame,
                                 tseries=types.SimpleNamespace(frequencies=fr))
