"""Symbolic values seen by the code under verification: numbers, booleans, times, and the
execution context (path conditions, forking, obligations)."""
from __future__ import annotations
import math, operator
from fractions import Fraction
from . import terms as T
from .terms import Poly, Bool, TRUE, FALSE, Unsupported


class PathEnd(BaseException):
    """The current path is complete (e.g. end of an inductive loop iteration)."""


class Infeasible(BaseException):
    pass


class Obligation:
    __slots__ = ("label", "hyps", "goal", "quants", "meta")

    def __init__(self, label, hyps, goal, quants, meta):
        self.label, self.hyps, self.goal, self.quants, self.meta = label, hyps, goal, quants, meta


class Ctx:
    """One verification context: hypotheses, decisions of the current path, obligations."""
    cur: "Ctx" = None

    def __init__(self, prover):
        self.prover = prover
        self.pc = []              # path condition
        self.prefix = []          # decisions to replay
        self.trace = []           # decisions taken: (bool value, alternative_open)
        self.pos = 0
        self.obligations = []     # (label, hyps, goal, meta)
        self.log = []
        self.counter = {}
        self.max_paths = 400
        self.quants = []          # (arity, fn(*polys) -> Bool): facts for all integers

        self.places = []          # where selections put an entry: candidates for witnesses only
        self.cell_places = []     # the same, cell by cell: fn(i, cell) -> position
        self.sorts, self.stated = [], {}

    def fresh(self, hint):
        n = self.counter.get(hint, 0)
        self.counter[hint] = n + 1
        return f"{hint}" if n == 0 else f"{hint}~{n}"

    def assume(self, b):
        b = to_bool(b)
        if b is not TRUE:
            self.pc.append(b)

    def entails(self, b):
        return self.prover.entails_quick(self.pc, b, self.quants)

    def decide(self, b: Bool) -> bool:
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if any(v.name.startswith("#b") for v in b.fv):
            raise Unsupported("branch on a bound index")
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(v)
            self.pc.append(b if v[0] else T.not_(b))
            return v[0]
        # new decision
        if self.entails(b):
            v = (True, False)
        elif self.entails(T.not_(b)):
            v = (False, False)
        else:
            v = (True, True)
        self.trace.append(v)
        self.pos += 1
        self.pc.append(b if v[0] else T.not_(b))
        return v[0]

    def oblige(self, label, goal, hyps=(), **meta):
        self.obligations.append(Obligation(label, list(self.pc) + list(hyps), goal, list(self.quants), meta))

    def forall(self, arity, fn, about=None):
        """A fact for all integers; `about`: only used for arguments of these functions."""
        self.quants.append((arity, fn, about) if about else (arity, fn))


def ctx() -> Ctx:
    if Ctx.cur is None:
        raise Unsupported("no context")
    return Ctx.cur


def explore(c: Ctx, fn):
    """Run fn over all feasible paths.  Obligations accumulate in c.  Returns number of paths."""
    stack = [[]]
    paths = 0
    base, baseq = list(c.pc), list(c.quants)
    base_counter = dict(c.counter)
    while stack:
        prefix = stack.pop()
        c.prefix, c.trace, c.pos = prefix, [], 0
        c.pc, c.quants = list(base), list(baseq)
        c.counter = dict(base_counter)
        c.places, c.cell_places, c.sorts, c.stated = [], [], [], {}
        old = Ctx.cur
        Ctx.cur = c
        try:
            fn()
        except (PathEnd, Infeasible):
            pass
        finally:
            Ctx.cur = old
        paths += 1
        if paths > c.max_paths:
            raise Unsupported(f"more than {c.max_paths} paths")
        for k in range(len(prefix), len(c.trace)):
            v, openalt = c.trace[k]
            if openalt:
                stack.append([(x, False) for x, _ in c.trace[:k]] + [(not v, False)])
    c.pc, c.quants = base, baseq
    return paths


# ----------------------------------------------------------------------------- conversion
def frac(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, Fraction):
        return v
    if isinstance(v, float):
        if math.isnan(v) or math.isinf(v):
            raise Unsupported("non-finite constant")
        return Fraction(repr(v))
    try:
        import numpy as np
        if isinstance(v, np.integer):
            return Fraction(int(v))
        if isinstance(v, np.floating):
            return Fraction(repr(float(v)))
        if isinstance(v, np.ndarray) and v.ndim == 0:
            return frac(v.item())
    except ImportError:
        pass
    raise TypeError(f"not a number: {type(v)}")


def is_num(v):
    if isinstance(v, (Num, SBool, int, float, Fraction, bool)):
        return True
    try:
        import numpy as np
        return isinstance(v, (np.integer, np.floating, np.bool_)) or (isinstance(v, np.ndarray) and v.ndim == 0)
    except ImportError:
        return False


def num(v) -> "Num":
    if isinstance(v, Num):
        return v
    if isinstance(v, SBool):
        return Num(T.ite(v.b, T.ONE, T.ZERO))
    if isinstance(v, Poly):
        return Num(v)
    if isinstance(v, float) and math.isnan(v):
        return Num(T.ZERO, TRUE)
    try:
        import numpy as np
        if isinstance(v, np.floating) and np.isnan(v):
            return Num(T.ZERO, TRUE)
        if isinstance(v, np.bool_):
            return Num(T.const(int(v)))
    except ImportError:
        pass
    return Num(T.const(frac(v)))


def poly(v) -> Poly:
    if isinstance(v, Poly):
        return v
    return num(v).p


def to_bool(v) -> Bool:
    if isinstance(v, Bool):
        return v
    if isinstance(v, SBool):
        return v.b
    if isinstance(v, bool):
        return T.bconst(v)
    if isinstance(v, Num):
        return T.or_(v.nan, T.not_(T.eq0(v.p)))
    try:
        import numpy as np
        if isinstance(v, (np.bool_, np.integer, np.floating)):
            return T.bconst(bool(v))
    except ImportError:
        pass
    if isinstance(v, (int, float)):
        return T.bconst(bool(v))
    raise TypeError(f"not a bool: {type(v)}")


def simp(n: "Num"):
    """Python int for constant integers (indices, shapes)."""
    k = n.p.const()
    if k is not None and k.denominator == 1 and n.nan is FALSE:
        return int(k)
    return n


class Num:
    __slots__ = ("p", "nan", "bad")
    __array_priority__ = 1000
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, p, nan=FALSE, bad=FALSE):
        self.p, self.nan, self.bad = p, nan, bad

    # -- arithmetic
    def _bin(self, o, f):
        if not is_num(o):
            return NotImplemented
        o = num(o)
        return Num(f(self.p, o.p), T.or_(self.nan, o.nan), T.or_(self.bad, o.bad))

    def __add__(self, o): return self._bin(o, Poly.add)
    def __radd__(self, o): return self._bin(o, lambda a, b: b.add(a))
    def __sub__(self, o): return self._bin(o, Poly.sub)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b.sub(a))
    def __mul__(self, o): return self._bin(o, Poly.mul)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if not is_num(o):
            return NotImplemented
        return div(self, num(o))

    def __rtruediv__(self, o):
        if not is_num(o):
            return NotImplemented
        return div(num(o), self)

    def __floordiv__(self, o):
        if not is_num(o):
            return NotImplemented
        d = div(self, num(o))
        return Num(T.floor_(d.p), d.nan, d.bad)

    def __rfloordiv__(self, o):
        return num(o).__floordiv__(self)

    def __mod__(self, o):
        if not is_num(o):
            return NotImplemented
        o = num(o)
        q = self.__floordiv__(o)
        return self - q * o

    def __rmod__(self, o):
        return num(o) % self

    def __pow__(self, k):
        k = num(k).p.const()
        if k is None or k.denominator != 1:
            raise Unsupported("symbolic power")
        k = int(k)
        out = num(1)
        for _ in range(abs(k)):
            out = out * self
        return out if k >= 0 else num(1) / out

    def __rpow__(self, o):
        k = self.p.const()
        if k is None:
            raise Unsupported("symbolic exponent")
        return num(o) ** int(k)

    def __neg__(self): return Num(self.p.neg(), self.nan, self.bad)
    def __pos__(self): return self
    def __abs__(self): return abs_(self)

    # -- comparison
    def _cmp(self, o, f):
        if not is_num(o):
            return NotImplemented
        o = num(o)
        return SBool(T.and_(T.not_(T.or_(self.nan, o.nan)), f(self.p, o.p)),
                     T.or_(self.bad, o.bad))

    def __ge__(self, o): return self._cmp(o, T.ge)
    def __gt__(self, o): return self._cmp(o, T.gt)
    def __le__(self, o): return self._cmp(o, lambda a, b: T.ge(b, a))
    def __lt__(self, o): return self._cmp(o, lambda a, b: T.gt(b, a))
    def __eq__(self, o): return self._cmp(o, T.eq)

    def __ne__(self, o):
        if not is_num(o):
            return NotImplemented
        o = num(o)
        return SBool(T.or_(self.nan, o.nan, T.not_(T.eq(self.p, o.p))))

    def __hash__(self):
        return hash((self.p.id, self.nan.id))

    def __bool__(self):
        return ctx().decide(to_bool(self))

    def __index__(self):
        k = self.p.const()
        if k is None or k.denominator != 1:
            raise Unsupported(f"concrete integer needed: {self!r}")
        return int(k)

    __int__ = __index__

    def __float__(self):
        k = self.p.const()
        if k is None:
            raise Unsupported("concrete float needed")
        return float(k)

    def __repr__(self):
        return f"<{self.p!r}{'' if self.nan is FALSE else ' nan:' + repr(self.nan)}>"

    def __format__(self, spec):
        return number_token(self)

    def __str__(self):
        return number_token(self)

    # numpy scalar API
    def item(self): return self
    def any(self, *a, **k): return self != 0
    def all(self, *a, **k): return self != 0
    def min(self, *a, **k): return self
    def max(self, *a, **k): return self
    def sum(self, *a, **k): return self
    def astype(self, *a, **k): return self
    def copy(self, *a, **k): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


def div(a: Num, b: Num) -> Num:
    k = b.p.const()
    nan, bad = T.or_(a.nan, b.nan), T.or_(a.bad, b.bad)
    if k is not None and k != 0:
        return Num(a.p.scale(1 / k), nan, bad)
    z = T.eq0(b.p)
    az = T.eq0(a.p)
    return Num(a.p.mul(b.p.inv()), T.or_(nan, T.and_(z, az)),
               T.or_(bad, T.and_(z, T.not_(az), T.not_(nan))))


def abs_(a):
    a = num(a)
    return Num(poly_abs(a.p), a.nan, a.bad)


def poly_abs(p):
    k = p.const()
    if k is not None:
        return T.const(abs(k))
    p = T.let(p)
    lead = next(iter(p.d.values()))
    q = p if lead > 0 else p.neg()
    return T.ite(T.ge0(q), q, q.neg())


def sign_(a):
    a = num(a)
    p = T.let(a.p)
    return Num(T.ite(T.gt0(p), T.ONE, T.ite(T.gt0(p.neg()), T.const(-1), T.ZERO)), a.nan, a.bad)


def min_(a, b):
    a, b = num(a), num(b)
    ap, bp = T.let(a.p), T.let(b.p)
    x, y = (ap, bp) if ap.id <= bp.id else (bp, ap)
    return Num(T.ite(T.ge(y, x), x, y), T.or_(a.nan, b.nan), T.or_(a.bad, b.bad))


def max_(a, b):
    a, b = num(a), num(b)
    ap, bp = T.let(a.p), T.let(b.p)
    x, y = (ap, bp) if ap.id <= bp.id else (bp, ap)
    return Num(T.ite(T.ge(x, y), x, y), T.or_(a.nan, b.nan), T.or_(a.bad, b.bad))


def select(c, a, b):
    """Element selection; a, b: Num or SBool."""
    cb = to_bool(c)
    cbad = c.bad if isinstance(c, SBool) else FALSE
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        a, b = sbool(a), sbool(b)
        return SBool(T.bite(cb, a.b, b.b), T.or_(cbad, T.bite(cb, a.bad, b.bad)))
    if isinstance(a, Time) or isinstance(b, Time):
        return Time(select(c, a.s, b.s), a.cal)
    a, b = num(a), num(b)
    return Num(T.ite(cb, a.p, b.p), T.bite(cb, a.nan, b.nan), T.or_(cbad, T.bite(cb, a.bad, b.bad)))


def sbool(v):
    return v if isinstance(v, SBool) else SBool(to_bool(v))


class SBool:
    __slots__ = ("b", "bad")
    __array_priority__ = 1000
    ndim = 0
    shape = ()

    def __init__(self, b, bad=FALSE):
        self.b, self.bad = b, bad

    def __bool__(self):
        return ctx().decide(self.b)

    def _bb(self, o, f):
        if not (is_num(o)):
            return NotImplemented
        return SBool(f(self.b, to_bool(o)), T.or_(self.bad, o.bad if isinstance(o, SBool) else FALSE))

    def __and__(self, o): return self._bb(o, T.and_)
    __rand__ = __and__
    def __or__(self, o): return self._bb(o, T.or_)
    __ror__ = __or__
    def __xor__(self, o): return self._bb(o, lambda a, b: T.bite(a, T.not_(b), b))
    def __invert__(self): return SBool(T.not_(self.b), self.bad)
    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return SBool(T.bite(self.b, to_bool(o), T.not_(to_bool(o))))
        return num(self) == o
    def __ne__(self, o): return ~(self == o)
    def __hash__(self): return hash(self.b.id)
    def __repr__(self): return f"<{self.b!r}>"
    def __format__(self, spec): return repr(self)

    def _n(self): return num(self)
    def __add__(self, o): return num(self) + o
    __radd__ = __add__
    def __sub__(self, o): return num(self) - o
    def __rsub__(self, o): return o - num(self)
    def __mul__(self, o): return num(self) * o
    __rmul__ = __mul__
    def __ge__(self, o): return num(self) >= o
    def __gt__(self, o): return num(self) > o
    def __le__(self, o): return num(self) <= o
    def __lt__(self, o): return num(self) < o
    def any(self, *a, **k): return self
    def all(self, *a, **k): return self
    def item(self): return self
    def sum(self, *a, **k): return num(self)


# ----------------------------------------------------------------------------- time
class Delta:
    """A duration: symbolic real number of seconds."""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = num(s)

    def _o(self, o):
        if isinstance(o, Delta):
            return o.s
        import datetime
        if isinstance(o, datetime.timedelta):
            return num(Fraction(o.days * 86400 + o.seconds) + Fraction(o.microseconds, 10**6))
        return None

    def __add__(self, o):
        if isinstance(o, Time):
            return Time(o.s + self.s, o.cal)
        x = self._o(o)
        return NotImplemented if x is None else Delta(self.s + x)
    __radd__ = __add__

    def __sub__(self, o):
        x = self._o(o)
        return NotImplemented if x is None else Delta(self.s - x)

    def __neg__(self): return Delta(-self.s)
    def __abs__(self): return Delta(abs_(self.s))

    def __mul__(self, o): return Delta(self.s * num(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        x = self._o(o)
        if x is not None:
            return self.s / x
        return Delta(self.s / num(o))

    def __floordiv__(self, o):
        x = self._o(o)
        if x is not None:
            return self.s // x
        return Delta(self.s // num(o))

    def __mod__(self, o):
        return Delta(self.s % self._o(o))

    @property
    def days(self): return self.s // 86400

    @property
    def seconds(self): return self.s // 1 - 86400 * (self.s // 86400)

    @property
    def microseconds(self): return ((self.s - self.s // 1) * 1000000) // 1

    def total_seconds(self): return self.s
    def __bool__(self): return bool(self.s != 0)
    def __eq__(self, o):
        x = self._o(o)
        return NotImplemented if x is None else self.s == x
    def __lt__(self, o): return self.s < self._o(o)
    def __le__(self, o): return self.s <= self._o(o)
    def __gt__(self, o): return self.s > self._o(o)
    def __ge__(self, o): return self.s >= self._o(o)
    def __hash__(self): return hash(self.s)
    def __repr__(self): return f"Delta({self.s!r})"


class Time:
    """An instant on a calendar: symbolic real seconds since an epoch of that calendar."""
    __slots__ = ("s", "cal")

    def __init__(self, s, cal=None):
        self.s, self.cal = num(s), cal

    @property
    def calendar(self): return self.cal
    has_year_zero = None

    def _part(self, what):
        """Year, month and day are functions of the number of the day, and together determine it."""
        c = ctx()
        d = T.floor_((self.s / 86400).p)
        cal = self.cal
        part = lambda w, d: T.app(f"!{w} {cal}", (d,), "I")

        def facts(args):
            d, = args
            y, m, k = (part(w, d) for w in ("year", "month", "day"))
            return T.and_(T.ge(m, T.ONE), T.ge(T.const(12), m), T.ge(k, T.ONE), T.ge(T.const(31), k),
                          T.eq(T.app(f"!daynumber {cal}", (y, m, k), "I"), d))
        for w in ("year", "month", "day"):
            c.prover.facts.setdefault(f"!{w} {cal}", [facts])
        return Num(part(what, d))

    year = property(lambda self: self._part("year"))
    month = property(lambda self: self._part("month"))
    day = property(lambda self: self._part("day"))

    def _clock(self, unit, size):
        r = self.s - Num(T.floor_((self.s / 86400).p)) * 86400
        q = Num(T.floor_((r / size).p))
        return q if unit == "hour" else q - Num(T.floor_((r / (size * 60)).p)) * 60

    hour = property(lambda self: self._clock("hour", 3600))
    minute = property(lambda self: self._clock("minute", 60))

    def toordinal(self, fractional=False):
        from .cfmodel import EPOCH_ORDINAL
        if not fractional:
            raise Unsupported("whole ordinal")
        return self.s / 86400 + EPOCH_ORDINAL

    def __add__(self, o):
        if isinstance(o, Delta):
            return Time(self.s + o.s, self.cal)
        x = Delta(0)._o(o)
        return NotImplemented if x is None else Time(self.s + x, self.cal)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, Time):
            return Delta(self.s - o.s)
        if isinstance(o, Delta):
            return Time(self.s - o.s, self.cal)
        x = Delta(0)._o(o)
        return NotImplemented if x is None else Time(self.s - x, self.cal)

    def _c(self, o, f):
        if not isinstance(o, Time):
            return NotImplemented
        return f(self.s, o.s)

    def __lt__(self, o): return self._c(o, operator.lt)
    def __le__(self, o): return self._c(o, operator.le)
    def __gt__(self, o): return self._c(o, operator.gt)
    def __ge__(self, o): return self._c(o, operator.ge)
    def __eq__(self, o): return self._c(o, operator.eq)
    def __ne__(self, o):
        return self._c(o, operator.ne)
    def __hash__(self): return hash(("t", self.s))
    def strftime(self, fmt): return token("strftime", fmt, self)
    def isoformat(self): return token("isoformat", "%Y-%m-%dT%H:%M:%S", self)
    def __repr__(self): return f"Time({self.s!r})"
    def __format__(self, spec): return f"<time {self.s!r}>"
    def __deepcopy__(self, memo): return self


_tokens = {}


def token(kind, fmt, t):
    """A text determined by a symbolic time: equal texts for equal (format, normal form)."""
    k = f"\u27e6{kind}|{fmt}|{t.s.p.id}\u27e7"
    _tokens[k] = (kind, fmt, t)
    return k


def decode_tokens(s):
    import re
    return [_tokens[m] for m in re.findall("\u27e6[^\u27e7]*\u27e7", s)]


def same_text(a, b):
    """Equal texts on the current path (tokens of provably equal times or numbers)."""
    import re
    if a == b:
        return True
    pa, pb = (re.split("(\u27e6[^\u27e7]*\u27e7)", x) for x in (a, b))
    if len(pa) != len(pb) or pa[::2] != pb[::2]:
        return False
    for x, y in zip(pa[1::2], pb[1::2]):
        (k1, f1, v1), (k2, f2, v2) = _tokens[x], _tokens[y]
        if (k1, f1) != (k2, f2):
            return False
        p1, p2 = (v.s.p if isinstance(v, Time) else v.p for v in (v1, v2))
        if p1 is not p2 and not ctx().entails(T.eq(p1, p2)):
            return False
    return True


def number_token(x):
    """Text of a number, determined by its normal form (distinct normal forms: unknown texts)."""
    x = num(x)
    k = x.p.const()
    if k is not None and x.nan is FALSE:
        return repr(float(k)) if k.denominator != 1 else str(int(k))
    t = f"\u27e6num||{x.p.id}\u27e7"
    _tokens[t] = ("num", "", x)
    return t


def decode_number(s):
    s = s.strip()
    hit = _tokens.get(s)
    if hit is not None and hit[0] == "num":
        return hit[2]
    raise Unsupported(f"number text {s!r}")


# ------------------------------------------------------------------ arbitrary text
_text_ids = {}


def _text_id(t):
    """Texts as integers: literals have distinct ones."""
    if isinstance(t, SText):
        return t.id
    return T.const(_text_ids.setdefault(t, len(_text_ids)))


def _no_text(name):
    def f(self, *a, **k):
        raise Unsupported(f"{name} of arbitrary text")
    return f


class SText(str):
    """An arbitrary text: only equality with other texts is known."""
    def __new__(cls, name):
        t = str.__new__(cls, f"<text {name}>")
        t.id = T.var(f"text {name}", "I")
        return t

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        return SBool(T.eq(self.id, _text_id(o)))

    def __ne__(self, o):
        r = self == o
        return True if r is False else ~r

    __hash__ = _no_text("hash")
    __repr__ = lambda self: str.__str__(self)
    __str__ = lambda self: str.__str__(self)

    def __getattribute__(self, k):
        if not k.startswith("_") and k != "id":
            raise Unsupported(f"{k} of arbitrary text")
        return str.__getattribute__(self, k)


for _k in ("__len__", "__getitem__", "__contains__", "__add__", "__mul__", "__mod__", "__lt__", "__le__", "__gt__", "__ge__", "__iter__"):
    setattr(SText, _k, _no_text(_k))
