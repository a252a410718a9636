"""Arbitrary texts and regular expressions.

An arbitrary text is a string variable of z3's sequence theory (printable ASCII); `re` is interpreted by
translating the patterns (parsed by CPython's own parser) into z3 regular expressions.  Every decision on a
text is put to z3 under the decisions already taken on the path; where both answers are possible the path
forks.  Whatever cannot be translated exactly is refused (Unsupported).
"""
import itertools
import re as _re, time, types
import z3
from re import _parser as sp, _constants as sc
from . import terms as T
from .terms import TRUE, FALSE, Unsupported
from .values import ctx, SBool

FIRST, LAST = 32, 126
_objs = []
_TOKEN = _re.compile("\u27e6tX(\\d+)\u27e7")
STATS = dict(queries=0, time=0.0)


class State:
    """Decisions taken on texts along the current path, and cuts of texts into parts.

    A cut of a text is only made once the path says that one exists, so the parts are a conservative
    extension: a query that does not mention them need not see them.
    """
    def __init__(self):
        self.lits, self.cuts, self.parts, self.n, self.vars, self.known = [], [], {}, 0, {}, {}

    def fresh(self):
        self.n += 1
        return z3.String(f"part!{self.n}")


STATE = State()


def begin():
    global STATE
    STATE = State()
    return STATE


def _vars(e, out):
    todo = [e]
    while todo:
        x = todo.pop()
        if x.num_args() == 0:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
        else:
            todo.extend(x.children())
    return out


def query(*extra):
    """A model of the path and the extra conditions, None if there is none."""
    fs = list(STATE.lits) + list(extra)
    seen, used = set(), set()
    for f in fs:
        _vars(f, seen)
    todo = [n for n in seen if n in STATE.parts]
    while todo:
        k = STATE.parts[todo.pop()]
        if k not in used:
            used.add(k)
            for d in STATE.cuts[k][2]:
                fs.append(d)
                todo += [n for n in _vars(d, set()) if n in STATE.parts and STATE.parts[n] not in used]
    s = z3.Solver()
    s.set("timeout", 10000)
    s.add(*fs)
    t = time.time()
    r = s.check()
    STATS["queries"] += 1
    STATS["time"] += time.time() - t
    if r == z3.unknown:
        raise Unsupported("text condition undecided")
    return s.model() if r == z3.sat else None


def _within(a, b):
    x = z3.String("any!")
    s = z3.Solver()
    s.set("timeout", 3000)
    s.add(z3.InRe(x, a), z3.Not(z3.InRe(x, b)))
    return s.check() == z3.unsat


def flat(x):
    """Pieces of a concatenation."""
    return [y for c in x.children() for y in flat(c)] if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT else [x]


def glue(xs):
    return z3.StringVal("") if not xs else xs[0] if len(xs) == 1 else z3.Concat(*xs)


def _regex(e):
    if z3.is_string_value(e):
        return z3.Re(e)
    n = e.decl().name() if z3.is_const(e) else None
    if n in STATE.parts:
        _, parts, _, regexes = STATE.cuts[STATE.parts[n]]
        return [r for p, r in zip(parts, regexes) if p.eq(e)][0]
    return STATE.known.get(n)


def _aligned(e, regexes):
    """A cut of a concatenation between its pieces."""
    xs = flat(e)
    known = [_regex(x) for x in xs]
    if len(xs) < 2 or len(xs) > 5 or any(r is None for r in known):
        return None
    join = lambda v, f, empty: empty if not v else v[0] if len(v) == 1 else f(*v)
    for at in itertools.combinations_with_replacement(range(len(xs) + 1), len(regexes) - 1):
        ends = [0, *at, len(xs)]
        if all(_within(join(known[a:b], z3.Concat, EMPTY), r) for a, b, r in zip(ends, ends[1:], regexes)):
            return [join(xs[a:b], z3.Concat, z3.StringVal("")) for a, b in zip(ends, ends[1:])]
    return None


def cut(e, regexes):
    """The parts of the text e, the i-th one matching the i-th regular expression (None: empty part).

    The caller has shown that the cut exists on this path and is unique."""
    for e2, parts, _, old in STATE.cuts:
        if len(parts) == len(regexes) and e2.eq(e):
            if all(_within(EMPTY if a is None else a, EMPTY if b is None else b) for a, b in zip(old, regexes)):
                return parts
    aligned = _aligned(e, [r for r in regexes if r is not None])
    if aligned is not None:
        it = iter(aligned)
        return [z3.StringVal("") if r is None else next(it) for r in regexes]
    parts = [z3.StringVal("") if r is None else STATE.fresh() for r in regexes]
    k = len(STATE.cuts)
    for p, r in zip(parts, regexes):
        if r is not None:
            STATE.parts[p.decl().name()] = k
    STATE.cuts.append((e, parts, [e == z3.Concat(*parts)] + [z3.InRe(p, r) for p, r in zip(parts, regexes) if r is not None], list(regexes)))
    return parts


def member(e, r):
    """Condition that e matches r; of a part of a cut (unique), it is one on the whole text."""
    while z3.is_const(e) and not z3.is_string_value(e) and e.decl().name() in STATE.parts:
        whole, parts, _, regexes = STATE.cuts[STATE.parts[e.decl().name()]]
        rs = [z3.Intersect(x, r) if p.eq(e) else x for p, x in zip(parts, regexes) if x is not None]
        e, r = whole, rs[0] if len(rs) == 1 else z3.Concat(*rs)
    return z3.InRe(e, r)


def decide(c):
    c = z3.simplify(c)
    if z3.is_true(c) or z3.is_false(c):
        return z3.is_true(c)
    if any(n.startswith("unread!") for n in _vars(c, set())):
        raise Unsupported("group of a match at an undetermined place")
    yes, no = query(c), query(z3.Not(c))
    if no is None or yes is None:
        v = no is None
        if yes is None and no is None:
            raise Unsupported("contradictory text conditions")
    else:
        STATE.n += 1
        v = bool(SBool(T.bvar(f"text condition {STATE.n} of {len(STATE.lits)}")))
        STATE.lits.append(c if v else z3.Not(c))
    return v


# ------------------------------------------------------------------ texts
def lit(s):
    if any(not FIRST <= ord(c) <= LAST for c in s):
        raise Unsupported(f"text {s!r} outside printable ASCII")
    return z3.StringVal(s)


def z(s):
    """z3 expression of a text (plain texts may contain tokens of arbitrary ones)."""
    if isinstance(s, RText):
        return s._z
    out, pos = [], 0
    s = str.__str__(s)
    for m in _TOKEN.finditer(s):
        if m.start() > pos:
            out.append(lit(s[pos:m.start()]))
        out.append(_objs[int(m.group(1))])
        pos = m.end()
    if pos < len(s) or not out:
        out.append(lit(s[pos:]))
    return out[0] if len(out) == 1 else z3.Concat(*out)


def value(e):
    return _re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), e.as_string())


def arbitrary(s):
    return isinstance(s, RText) or (isinstance(s, str) and "\u27e6" in s)


def _refuse(name):
    def f(self, *a, **k):
        raise Unsupported(f"{name} of an arbitrary text")
    return f


class RText(str):
    """A text given by an expression of z3's sequence theory."""
    def __new__(cls, expr):
        expr = z3.simplify(expr)
        if z3.is_string_value(expr):
            return value(expr)
        _objs.append(expr)
        t = str.__new__(cls, f"\u27e6tX{len(_objs) - 1}\u27e7")
        t._z = expr
        return t

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        return decide(self._z == z(o) if arbitrary(o) else member(self._z, z3.Re(lit(o))))

    def __ne__(self, o): return not self == o
    def __add__(self, o): return RText(z3.Concat(self._z, z(o))) if isinstance(o, str) else NotImplemented
    def __radd__(self, o): return RText(z3.Concat(z(o), self._z)) if isinstance(o, str) else NotImplemented
    def __bool__(self): return decide(self._z != z3.StringVal(""))
    def __str__(self): return self
    def __repr__(self): return str.__repr__(str.__str__(self))
    def __format__(self, spec):
        if spec:
            raise Unsupported("format of an arbitrary text")
        return "".join([str.__str__(self)])

    def __hash__(self): return hash(self.enumerated())

    def enumerated(self, limit=40):
        """The one value the path leaves, forking over a small set of values."""
        vals, e = [], self._z
        n = e.decl().name() if z3.is_const(e) else None
        if n in STATE.parts:
            _, parts, _, regexes = STATE.cuts[STATE.parts[n]]
            r = [r for p, r in zip(parts, regexes) if p.eq(e)][0]
            e = z3.String("value!")
            ask = lambda *c: query(z3.InRe(e, r), *c)
            lits, STATE.lits = STATE.lits, []
        else:
            ask, lits = query, STATE.lits
        try:
            while True:
                m = ask(*[e != z3.StringVal(v) for v in vals])
                if m is None:
                    break
                vals.append(value(m.eval(e, model_completion=True)))
                if len(vals) > limit:
                    raise Unsupported("arbitrary text used as a value")
        finally:
            STATE.lits = lits
        vals.sort()
        for v in vals[:-1]:
            if self == v:
                return v
        if not self == vals[-1]:
            raise Unsupported("values of an arbitrary text")
        return vals[-1]

    def startswith(self, p, *a):
        if a:
            raise Unsupported("startswith with bounds")
        return any(decide(z3.PrefixOf(z(q), self._z)) for q in (p if isinstance(p, tuple) else (p,)))

    def endswith(self, p, *a):
        if a:
            raise Unsupported("endswith with bounds")
        return any(decide(z3.SuffixOf(z(q), self._z)) for q in (p if isinstance(p, tuple) else (p,)))

    def isdigit(self): return decide(member(self._z, z3.Plus(z3.Range("0", "9"))))
    isdecimal = isnumeric = isdigit
    def isalpha(self): return decide(member(self._z, z3.Plus(z3.Union(z3.Range("a", "z"), z3.Range("A", "Z")))))
    def lower(self): return self.enumerated().lower()
    def upper(self): return self.enumerated().upper()
    casefold = lower
    def __contains__(self, o): return decide(z3.Contains(self._z, z(o)))

    def removesuffix(self, p):
        if arbitrary(p):
            return self._without(z(p), False)
        return RText(z3.SubString(self._z, 0, z3.Length(self._z) - len(p))) if self.endswith(p) else self

    def removeprefix(self, p):
        if arbitrary(p):
            return self._without(z(p), True)
        return RText(z3.SubString(self._z, len(p), z3.Length(self._z) - len(p))) if self.startswith(p) else self

    def _without(self, p, first):
        for e, parts, _, _ in STATE.cuts:
            if e.eq(self._z):
                parts = [x for x in parts if not z3.is_string_value(x)]
                if parts[0 if first else -1].eq(p):
                    rest = parts[1:] if first else parts[:-1]
                    return _join([RText(x) for x in rest])
        raise Unsupported("removal of an arbitrary text")

    def _cut(self, chars, left):
        if chars is None or arbitrary(chars):
            raise Unsupported("strip of an arbitrary text")
        chars = sorted({c for c in chars if FIRST <= ord(c) <= LAST})
        run = z3.Star(_set(lambda c: chr(c) in chars))
        one, anything = _set(lambda c: chr(c) not in chars), z3.Star(_set(lambda c: True))
        rest = z3.Option(z3.Concat(one, anything) if left else z3.Concat(anything, one))
        parts = cut(self._z, [None, run, rest] if left else [rest, run, None])
        return RText(parts[2 if left else 0])

    def lstrip(self, chars=None): return self._cut(chars, True)
    def rstrip(self, chars=None): return self._cut(chars, False)

    def strip(self, chars=None):
        s = self._cut(chars, True)
        return s._cut(chars, False) if isinstance(s, RText) else s.strip(chars)


for _k in ("__len__", "__getitem__", "__iter__", "__mul__", "__rmul__", "__mod__", "__lt__", "__le__", "__gt__", "__ge__",
           "capitalize", "center", "count", "encode", "expandtabs", "find", "format", "format_map", "index", "isalnum",
           "isascii", "isidentifier", "islower", "isprintable", "isspace", "istitle", "isupper", "join", "ljust", "partition",
           "replace", "rfind", "rindex", "rjust", "rpartition", "rsplit", "split", "splitlines", "swapcase", "title",
           "translate", "zfill"):
    setattr(RText, _k, _refuse(_k))


# ------------------------------------------------------------------ regular expressions
ANYTHING = z3.Star(z3.Range(chr(FIRST), chr(LAST)))
NOTHING = z3.Empty(z3.ReSort(z3.StringSort()))
EMPTY = z3.Re(z3.StringVal(""))


def _set(ok):
    """z3 expression of the characters accepted by ok, as ranges."""
    out, c = [], FIRST
    while c <= LAST:
        if ok(c):
            d = c
            while d < LAST and ok(d + 1):
                d += 1
            out.append(z3.Range(chr(c), chr(d)))
            c = d
        c += 1
    return NOTHING if not out else out[0] if len(out) == 1 else z3.Union(*out)


CATS = {sc.CATEGORY_DIGIT: str.isdecimal, sc.CATEGORY_NOT_DIGIT: lambda c: not c.isdecimal(),
        sc.CATEGORY_SPACE: str.isspace, sc.CATEGORY_NOT_SPACE: lambda c: not c.isspace(),
        sc.CATEGORY_WORD: lambda c: c.isalnum() or c == "_", sc.CATEGORY_NOT_WORD: lambda c: not (c.isalnum() or c == "_")}


def _accept(op, av, flags):
    def plain(c):
        if op is sc.LITERAL:
            return c == av
        if op is sc.NOT_LITERAL:
            raise AssertionError
        if op is sc.RANGE:
            return av[0] <= c <= av[1]
        if op is sc.CATEGORY:
            if av not in CATS:
                raise Unsupported(f"pattern category {av}")
            return CATS[av](chr(c))
        raise Unsupported(f"pattern element {op}")
    if flags & _re.I and op is not sc.CATEGORY:
        return lambda c: plain(ord(chr(c).lower())) or plain(ord(chr(c).upper()))
    return plain


def _items(items, flags):
    out = [_one(op, av, flags) for op, av in items]
    return EMPTY if not out else out[0] if len(out) == 1 else z3.Concat(*out)


def _one(op, av, flags):
    if op in (sc.LITERAL, sc.RANGE, sc.CATEGORY):
        return _set(_accept(op, av, flags))
    if op is sc.NOT_LITERAL:
        f = _accept(sc.LITERAL, av, flags)
        return _set(lambda c: not f(c))
    if op is sc.ANY:
        return _set(lambda c: True)
    if op is sc.IN:
        neg = av[0][0] is sc.NEGATE
        fs = [_accept(o, a, flags) for o, a in (av[1:] if neg else av)]
        return _set(lambda c: any(f(c) for f in fs) != neg)
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
        lo, hi, sub = av
        r = _items(sub, flags)
        if hi is sc.MAXREPEAT:
            return z3.Star(r) if lo == 0 else z3.Concat(*([r] * lo), z3.Star(r))
        return z3.Option(r) if (lo, hi) == (0, 1) else z3.Loop(r, lo, hi)
    if op is sc.SUBPATTERN:
        _, add, drop, sub = av
        return _items(sub, (flags | add) & ~drop)
    if op is sc.BRANCH:
        rs = [_items(b, flags) for b in av[1]]
        return rs[0] if len(rs) == 1 else z3.Union(*rs)
    raise Unsupported(f"pattern element {op}")


def _letters(items, flags, first=False):
    """Characters that occur in (or, first, may begin) a text matching the items, and whether the empty text does."""
    out, empty = set(), True
    for op, av in items:
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            cs, em = _letters(av[2], flags, first)
            em = em or av[0] == 0
        elif op is sc.SUBPATTERN:
            cs, em = _letters(av[3], (flags | av[1]) & ~av[2], first)
        elif op is sc.BRANCH:
            rs = [_letters(b, flags, first) for b in av[1]]
            cs, em = set().union(*[r[0] for r in rs]), any(r[1] for r in rs)
        else:
            r = _one(op, av, flags)
            cs, em = {c for c in range(FIRST, LAST + 1) if z3.is_true(z3.simplify(z3.InRe(z3.StringVal(chr(c)), r)))}, False
        out |= cs
        empty = empty and em
        if first and not em:
            break
    return out, empty


def _fixed(items):
    p = sp.SubPattern(sp.State(), list(items))
    p.state.groupwidths.extend([None] * 20)
    lo, hi = p.getwidth()
    return lo == hi


def _unique(a, b, flags):
    """Whether a text matching a followed by b can be cut in one way only (sufficient)."""
    return _fixed(b) or any(_fixed(a[j:]) and (j == 0 or not (_letters(a[:j], flags)[0] & _letters(a[j:] + b, flags, True)[0]))
                            for j in range(len(a) + 1))


class Match:
    def __init__(self, pattern, text, groups):
        self.re, self.string, self._g = pattern, text, groups

    def _idx(self, k):
        return self.re.groupindex[k] if isinstance(k, str) else k

    def group(self, *ks):
        ks = ks or (0,)
        if self.string is None and any(self._idx(k) == 0 for k in ks):
            raise Unsupported("whole match")
        out = tuple(self.string if self._idx(k) == 0 else self._g[self._idx(k)]() for k in ks)
        return out[0] if len(out) == 1 else out

    def __getitem__(self, k): return self.group(k)
    def groups(self, default=None): return tuple(self._g[k]() for k in sorted(self._g))
    def groupdict(self, default=None): return {k: self.group(k) for k in self.re.groupindex}
    def __bool__(self): return True

    def expand(self, repl):
        return _join([self.group(p) if isinstance(p, int) else p for p in sp.parse_template(repl, self.re.real)])

def _join(parts):
    parts = [z(p) for p in parts if arbitrary(p) or p]
    return "" if not parts else RText(parts[0] if len(parts) == 1 else z3.Concat(*parts))


class Pattern:
    def __init__(self, text, flags=0):
        if arbitrary(text):
            raise Unsupported("arbitrary pattern")
        self.real = _re.compile(text, flags)
        self.pattern, self.flags = text, self.real.flags
        self.groupindex, self.ngroups = dict(self.real.groupindex), self.real.groups
        items = list(sp.parse(text, flags))
        fl = self.real.flags
        if fl & (_re.M | _re.L):
            raise Unsupported("pattern flags")
        # of printable texts, \Z and $ are the same
        self.begins = bool(items) and items[0][0] is sc.AT and items[0][1] in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING)
        if self.begins:
            items = items[1:]
        self.ends = bool(items) and items[-1][0] is sc.AT and items[-1][1] in (sc.AT_END, sc.AT_END_STRING)
        if self.ends:
            items = items[:-1]
        elif items and items[-1][0] is sc.SUBPATTERN:        # an end inside the last group
            n, add, drop, sub = items[-1][1]
            whole, sub = sub, list(sub)
            if sub and sub[-1][0] is sc.AT and sub[-1][1] in (sc.AT_END, sc.AT_END_STRING):
                self.ends = True
                items = items[:-1] + [(sc.SUBPATTERN, (n, add, drop, sp.SubPattern(whole.state, sub[:-1])))]
        self.items = items

    def _full(self, text):
        e = z(text)
        if not decide(member(e, _items(self.items, self.flags))):
            return None
        groups = {}
        for n in range(1, self.ngroups + 1):
            groups[n] = lambda n=n: self._group(e, n)
        return Match(self, text, groups)

    def _group(self, e, n):
        """Text of a group of the top level: the whole is cut into the parts before it, it, and after it."""
        for k, (op, av) in enumerate(self.items):
            if op is sc.SUBPATTERN and av[0] == n:
                rs = [_items(self.items[:k], self.flags), _one(op, av, self.flags), _items(self.items[k + 1:], self.flags)]
                break
        else:
            raise Unsupported("nested or repeated group")

        before, inner, after = self.items[:k], [(op, av)], self.items[k + 1:]
        if not (_unique(before, inner + after, self.flags) and _unique(before + inner, after, self.flags)):
            raise Unsupported("ambiguous group")
        p = cut(e, [r if it else None for r, it in zip(rs, (before, inner, after))])
        return RText(p[1])

    def _first(self, text):
        """The leftmost match that runs to the end; its start must lie in the text's constant beginning."""
        items, fl, not_after = self.items, self.flags, None
        if items and items[0][0] is sc.ASSERT_NOT and items[0][1][0] == -1 and len(items[0][1][1]) == 1:
            not_after = _one(*items[0][1][1][0], fl)
            items = items[1:]
        rest = Pattern.__new__(Pattern)
        rest.__dict__.update(self.__dict__)
        rest.items = items
        m = _items(items, fl)
        before = ANYTHING if not_after is None else z3.Concat(ANYTHING, z3.Intersect(_set(lambda c: True), z3.Complement(not_after)))
        found = z3.Union(m, z3.Concat(before, m))
        xs = flat(z3.simplify(z(text)))
        known = [_regex(x) for x in xs]
        sure = all(r is not None for r in known) and _within(known[0] if len(known) == 1 else z3.Concat(*known), found)
        if not sure and not decide(member(z(text), found)):
            return None
        head = value(xs[0]) if z3.is_string_value(xs[0]) else ""
        xs = xs[1:] if head else xs
        for k in range(len(head) + 1):
            if k and not_after is not None and z3.is_true(z3.simplify(z3.InRe(z3.StringVal(head[k - 1]), not_after))):
                continue
            e = glue(([z3.StringVal(head[k:])] if head[k:] else []) + xs)
            known = [_regex(x) for x in flat(e)]
            if all(r is not None for r in known):
                r = known[0] if len(known) == 1 else z3.Concat(*known)
                if _within(r, m):
                    return rest._matched(text, e)
                if _within(r, z3.Complement(m)):
                    continue
            if decide(z3.InRe(e, m)):
                return rest._matched(text, e)
        return Match(self, None, {n: (lambda n=n: RText(z3.String(f"unread!{len(_objs)}"))) for n in range(1, self.ngroups + 1)})

    def _matched(self, text, e):
        groups = {n: (lambda n=n: self._group(e, n)) for n in range(1, self.ngroups + 1)}
        return Match(self, None, groups)

    def fullmatch(self, text):
        return self.real.fullmatch(text) if not arbitrary(text) else self._full(text)

    def match(self, text):
        if not arbitrary(text):
            return self.real.match(text)
        if not self.ends:
            raise Unsupported("match of a beginning")
        return self._full(text)

    def search(self, text):
        if not arbitrary(text):
            return self.real.search(text)
        if not self.ends:
            raise Unsupported("search in an arbitrary text")
        return self._full(text) if self.begins else self._first(text)

    def sub(self, repl, text, count=0):
        return self.subn(repl, text, count)[0]

    def subn(self, repl, text, count=0):
        if not arbitrary(text):
            return self.real.subn(repl, text, count)
        if not (self.begins and self.ends):
            raise Unsupported("replacement inside an arbitrary text")
        m = self.search(text)
        if m is None:
            return text, 0
        return (repl(m) if callable(repl) else m.expand(repl)), 1

    def __getattr__(self, k):
        raise Unsupported(f"re pattern {k}")


def make():
    m = types.ModuleType("re")
    for k in ("I", "IGNORECASE", "A", "ASCII", "X", "VERBOSE", "S", "DOTALL", "U", "UNICODE", "RegexFlag", "error", "escape"):
        setattr(m, k, getattr(_re, k))
    pat = lambda p, f=0: p if isinstance(p, Pattern) else Pattern(p, f)
    m.compile = pat
    m.Pattern, m.Match = Pattern, Match
    for k in ("fullmatch", "match", "search"):
        setattr(m, k, lambda p, s, flags=0, _k=k: getattr(pat(p, flags), _k)(s))
    m.sub = lambda p, r, s, count=0, flags=0: pat(p, flags).sub(r, s, count)
    m.subn = lambda p, r, s, count=0, flags=0: pat(p, flags).subn(r, s, count)

    def other(k):
        raise Unsupported(f"re.{k}")
    m.__getattr__ = other
    return m


# ------------------------------------------------------------------ for contracts
def text(name, pattern=None):
    """An arbitrary printable text (matching the pattern)."""
    v = z3.String(name)
    STATE.vars[name] = v
    STATE.known[name] = r = ANYTHING if pattern is None else _items(Pattern(pattern).items, 0)
    STATE.lits.append(z3.InRe(v, r))
    return RText(v)


def same(label, a, b):
    c = ctx()
    if any(n.startswith("unread!") for x in (a, b) if isinstance(x, str) for n in _vars(z(x), set())):
        raise Unsupported("group of a match at an undetermined place")
    if not isinstance(a, str) or not isinstance(b, str):
        m = query()
    else:
        m = query(z(a) != z(b))
    pr = c.prover
    pr.backend["z3-strings"] = pr.backend.get("z3-strings", 0) + STATS["queries"]
    pr.queries += STATS["queries"]
    pr.solver_time += STATS["time"]
    STATS.update(queries=0, time=0.0)
    if m is None:
        c.oblige(label, TRUE)
        return
    witness(m)
    c.oblige(label, FALSE)


def witness(m):
    """Write the texts of a model into the path, for the replay."""
    for n, v in STATE.vars.items():
        s = value(m.eval(v, model_completion=True))
        ctx().pc.append(T.bvar(f"text {n}=" + ".".join(str(ord(x)) for x in s)))
