"""cftime and xarray.CFTimeIndex: instants are seconds since 1970-01-01 on their calendar."""
import itertools, re, types
from . import terms as T, values as V
from .terms import Unsupported
from .values import Num, Time, Delta, num
from .pdmodel import freq_seconds

CALS = {"standard": "standard", "gregorian": "standard", "proleptic_gregorian": "proleptic_gregorian", "julian": "julian",
        "noleap": "noleap", "365_day": "noleap", "360_day": "360_day", "all_leap": "all_leap", "366_day": "all_leap"}
EPOCH_ORDINAL = Num(T.var("ORDINAL0"))


def _cls(name, cal):
    class C:
        _model_cal = cal

        def __new__(cls, *a, **k):
            raise Unsupported("cftime construction from components")

        @staticmethod
        def fromordinal(o, calendar="standard", has_year_zero=None):
            if CALS.get(calendar) != cal:
                raise Unsupported("ordinal of another calendar")
            return Time((num(o) - EPOCH_ORDINAL) * 86400, calendar)
    C.__name__ = name
    return C


CLASSES = {}
SHOWN = {"%Y-%m-%dT%H:%M:%S": 1, "%Y-%m-%dT%H:%M": 60}


_LITERAL = re.compile(r"\d{4}-\d\d-\d\dT\d\d:\d\d(:\d\d)?")


def _leap(cal, y):
    return {"noleap": False, "all_leap": True, "julian": y % 4 == 0}.get(CALS[cal], y % 4 == 0 and (y % 100 != 0 or y % 400 == 0))


def _literal(text, fmt, cal):
    """A date written in the code: seconds counted from 1970."""
    if cal not in CALS or fmt not in SHOWN:
        raise Unsupported(f"date text {text!r}")
    if (len(text) == 19) != (SHOWN[fmt] == 1):
        raise ValueError(f"time data does not match format {fmt!r}")
    y, m, d, h, mi, *s = (int(x) for x in re.split("[-T:]", text))
    if not 1600 <= y < 2400:
        raise Unsupported("distant date")
    months = lambda y: [30] * 12 if CALS[cal] == "360_day" else [31, 29 if _leap(cal, y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    if not (1 <= m <= 12 and 1 <= d <= months(y)[m - 1]) or h > 23 or mi > 59 or (s and s[0] > 59):
        raise ValueError("no such date")
    a, b = min(y, 1970), max(y, 1970)
    days = (1 if y >= 1970 else -1) * sum(sum(months(k)) for k in range(a, b)) + sum(months(y)[:m - 1]) + d - 1
    return Time(num(((days * 24 + h) * 60 + mi) * 60 + (s[0] if s else 0)), cal)


class datetime:
    def __new__(cls, *a, **k):
        raise Unsupported("cftime construction from components")

    @staticmethod
    def strptime(text, fmt, calendar="standard", has_year_zero=None):
        hit = V._tokens.get(text)
        if hit is None and isinstance(text, str) and text.endswith(":00") and fmt == "%Y-%m-%dT%H:%M:%S":
            short = V._tokens.get(text[:-3])
            if short is not None and short[0] == "strftime" and short[1] == "%Y-%m-%dT%H:%M":
                text, fmt, hit = text[:-3], short[1], short
        if hit is None and type(text) is str and _LITERAL.fullmatch(text):
            return _literal(text, fmt, calendar)
        if hit is not None and isinstance(hit[2], Time) and CALS.get(hit[2].cal) != CALS.get(calendar):
            raise Unsupported("date text of another calendar")
        if hit is None or hit[0] not in ("isoformat", "strftime") or hit[1] not in SHOWN or fmt not in SHOWN:
            raise Unsupported(f"date text {text!r} read as {fmt!r}")
        if hit[1] != fmt:
            raise ValueError(f"time data does not match format {fmt!r}")
        p = SHOWN[fmt]      # what the text tells: whole seconds, or whole minutes
        return Time(hit[2].s if p == 1 else Num(T.floor_((hit[2].s / p).p)) * p, calendar)
    _model_types = (Time,)


class CFTimeIndex:
    def __init__(self, dates, name=None, calendar=None, **k):
        self.dates = list(dates)

    def _map(self, f):
        return CFTimeIndex([f(d) for d in self.dates])

    def floor(self, freq):
        p = freq_seconds(freq)
        return self._map(lambda d: Time(Num(T.floor_((d.s / p).p)) * p, d.cal))

    def ceil(self, freq):
        p = freq_seconds(freq)
        def up(d):
            k = Num(T.floor_((d.s / p).p))
            return Time(k * p if bool(k * p == d.s) else (k + 1) * p, d.cal)
        return self._map(up)

    def round(self, freq):
        raise Unsupported("round to nearest")

    def __getitem__(self, k):
        return self.dates[k]

    def __len__(self):
        return len(self.dates)

    def __iter__(self):
        return iter(self.dates)

    @property
    def values(self):
        return self.dates


class Seq:
    """Sequence of symbolic length n; at(k) is entry k."""
    _is_symseq = True

    def __init__(self, n, f):
        self.n, self.f = num(n), f

    def at(self, k):
        return self.f(num(k))

    def mapped(self, f):
        return Seq(self.n, lambda k: f(self.at(k)))

    def _sym_len(self): return self.n
    def _sym_enumerate(self, start=0): return Seq(self.n, lambda k: (k + start, self.at(k)))

    def __getitem__(self, k):
        if isinstance(k, slice):
            raise Unsupported("slice of a sequence of symbolic length")
        k = num(k)
        if bool(k < 0):
            k = k + self.n
        if not bool(k < self.n) or bool(k < 0):
            raise IndexError("index out of range")
        return self.at(k)

    def __iter__(self): raise Unsupported("loop over a sequence of symbolic length")
    def __bool__(self): raise Unsupported("truth of a sequence")
    __contains__ = __add__ = __eq__ = lambda self, o: (_ for _ in ()).throw(Unsupported("operation on a sequence of symbolic length"))
    __hash__ = object.__hash__


class TimeSeq(Seq):
    """CFTimeIndex of symbolic length."""
    def round(self, freq):
        p = freq_seconds(freq)      # ties do not occur where the property speaks about whole multiples
        return TimeSeq(self.n, lambda k: Time(Num(T.floor_((self.at(k).s / p + num(1) / 2).p)) * p, self.at(k).cal))

    def floor(self, freq):
        p = freq_seconds(freq)
        return TimeSeq(self.n, lambda k: Time(Num(T.floor_((self.at(k).s / p).p)) * p, self.at(k).cal))

    @property
    def values(self): return self
    to_list = tolist = lambda self: self
    year = property(lambda self: self.mapped(lambda t: t.year))
    month = property(lambda self: self.mapped(lambda t: t.month))
    day = property(lambda self: self.mapped(lambda t: t.day))

    def groupby(self, keys):
        if not isinstance(keys, Seq):
            raise Unsupported("groupby")
        return Groups(self, keys)


class Groups:
    """What Index.groupby returns: for every value of the key the entries that have it, in their order."""
    def __init__(self, base, keys):
        self.base, self.keys_ = base, keys
        self.n = Num(T.var(V.ctx().fresh("!groups"), "I"))
        V.ctx().assume(T.ge0(self.n.p))
        if bool(base.n >= 1):
            V.ctx().assume(T.gt0(self.n.p))

    def group(self, g):
        """Entry g: its members are entries pos(0) < pos(1) < ... of the base, all those with the same key as pos(0)."""
        c = V.ctx()
        size, pos = c.fresh("!size"), c.fresh("!member")
        n = Num(T.app(size, (g.p,), "I"))
        P = lambda r: Num(T.app(pos, (g.p, num(r).p), "I"))
        out = TimeSeq(n, lambda r: self.base.at(P(r)))
        out.base, out.keys, out.pos, out.number = self.base, self.keys_, P, g
        c.assume(T.gt0(n.p))
        c.forall(1, lambda r: T.implies(T.and_(T.ge0(r), T.gt(n.p, r)), T.and_(
            T.ge0(P(Num(r)).p), T.gt(self.base.n.p, P(Num(r)).p))))
        return out

    def values(self): return Seq(self.n, self.group)
    def items(self): return Seq(self.n, lambda g: (lambda x: (self.keys_.at(x.pos(0)), x))(self.group(g)))
    def keys(self): return Seq(self.n, lambda g: self.keys_.at(self.group(g).pos(0)))
    def __iter__(self): raise Unsupported("loop over groups")
    __getitem__ = __len__ = __bool__ = get = pop = __contains__ = lambda self, *a: (_ for _ in ()).throw(Unsupported("groups of a sequence of symbolic length"))


def cftime_range(start=None, end=None, periods=None, freq="D", normalize=False, name=None, closed=None, inclusive="both", calendar=None, **k):
    if start is None or end is None or periods is not None or normalize or closed is not None or inclusive != "both" or k:
        raise Unsupported("cftime_range")
    if not isinstance(start, Time) or not isinstance(end, Time):
        raise Unsupported("cftime_range from texts")
    step = freq_seconds(freq)
    n = Num(T.floor_(((end.s - start.s) / step).p)) + 1
    if not bool(end.s >= start.s):
        n = num(0)
    return TimeSeq(n, lambda i: Time(start.s + i * step, start.cal))


def product(*xs, repeat=1):
    if any(getattr(x, "_is_symseq", False) for x in xs):
        if repeat != 1 or not getattr(xs[0], "_is_symseq", False):
            raise Unsupported("product of sequences of symbolic length")
        rest = [list(x) for x in xs[1:]]
        if any(len(x) != 1 for x in rest):
            raise Unsupported("product of sequences of symbolic length")
        return Seq(xs[0].n, lambda k: (xs[0].at(k),) + tuple(x[0] for x in rest))
    return itertools.product(*xs, repeat=repeat)


def make():
    m = types.SimpleNamespace(datetime=datetime)
    for n, c in (("DatetimeNoLeap", "noleap"), ("Datetime360Day", "360_day"), ("DatetimeAllLeap", "all_leap"),
                 ("DatetimeGregorian", "standard"), ("DatetimeJulian", "julian"), ("DatetimeProlepticGregorian", "proleptic_gregorian")):
        setattr(m, n, _cls(n, c))
        CLASSES[c] = getattr(m, n)
    return m
