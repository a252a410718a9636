"""Hash-consed terms: polynomials over atoms (reals and integers) and Boolean formulas.

Arithmetic terms are kept in polynomial normal form: a Poly maps monomials (sorted tuples of
(atom, exponent), exponents may be negative for divisors) to rational coefficients.
Atoms are variables, uninterpreted applications, conditionals (ite), inverses of sums,
floors and sums over index ranges.
"""
from __future__ import annotations
from fractions import Fraction
import itertools

_ids = itertools.count(1)


class Unsupported(Exception):
    """The code (or a library model) left the supported subset: undecided, never a violation."""


# ----------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("kind", "sort", "name", "args", "id", "fv", "__weakref__")
    _tab: dict = {}

    def __new__(cls, kind, sort, name, args=()):
        key = (kind, sort, name, args)
        a = cls._tab.get(key)
        if a is None:
            a = object.__new__(cls)
            a.kind, a.sort, a.name, a.args = kind, sort, name, args
            a.id = next(_ids)
            fv = frozenset()
            if kind == "var":
                fv = frozenset((a,))
            else:
                for x in args:
                    if isinstance(x, (Poly, Bool)):
                        fv = fv | x.fv
                if kind == "sum":
                    fv = fv - frozenset(name)
            a.fv = fv
            cls._tab[key] = a
        return a

    def __repr__(self):
        if self.kind == "var":
            return self.name
        if self.kind == "app":
            return f"{self.name}({', '.join(map(repr, self.args))})"
        if self.kind == "ite":
            return f"ite({self.args[0]!r}, {self.args[1]!r}, {self.args[2]!r})"
        if self.kind == "inv":
            return f"1/({self.args[0]!r})"
        if self.kind == "sum":
            return f"sum[{','.join(v.name for v in self.name)}]({self.args!r})"
        return f"{self.kind}({', '.join(map(repr, self.args))})"


# ----------------------------------------------------------------------------- polynomials
def _mkey(m):
    return tuple((a.id, e) for a, e in m)


class Poly:
    __slots__ = ("d", "id", "fv", "isint", "_hash")
    _tab: dict = {}

    @staticmethod
    def of(d):
        """d: dict mono -> Fraction without zero coefficients."""
        items = tuple(sorted(d.items(), key=lambda kv: _mkey(kv[0])))
        p = Poly._tab.get(items)
        if p is None:
            p = object.__new__(Poly)
            p.d = dict(items)
            p.id = next(_ids)
            fv = frozenset()
            isint = True
            for m, c in items:
                if c.denominator != 1:
                    isint = False
                for a, e in m:
                    fv = fv | a.fv
                    if a.sort != "I" or e < 0:
                        isint = False
            p.fv, p.isint = fv, isint
            Poly._tab[items] = p
        return p

    def const(self):
        """Value if constant, else None."""
        if not self.d:
            return Fraction(0)
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def __repr__(self):
        if not self.d:
            return "0"
        out = []
        for m, c in self.d.items():
            s = "*".join(repr(a) if e == 1 else f"{a!r}^{e}" for a, e in m)
            out.append(f"{c}" if not s else (s if c == 1 else f"{c}*{s}"))
        return " + ".join(out)

    # arithmetic on polys
    def add(self, o):
        if not o.d:
            return self
        if not self.d:
            return o
        d = dict(self.d)
        for m, c in o.d.items():
            n = d.get(m, 0) + c
            if n == 0:
                d.pop(m, None)
            else:
                d[m] = n
        return Poly.of(d)

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Poly.of({m: c * k for m, c in self.d.items()})

    def neg(self):
        return self.scale(Fraction(-1))

    def sub(self, o):
        return self.add(o.neg())

    def mul(self, o):
        k = o.const()
        if k is not None:
            return self.scale(k)
        k = self.const()
        if k is not None:
            return o.scale(k)
        if len(self.d) * len(o.d) > 20000:
            raise Unsupported("polynomial too large")
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = mono_mul(m1, m2)
                n = d.get(m, 0) + c1 * c2
                if n == 0:
                    d.pop(m, None)
                else:
                    d[m] = n
        return Poly.of(d)

    def inv(self):
        k = self.const()
        if k is not None:
            if k == 0:
                return ZERO  # undefined; callers flag it
            return Poly.of({(): 1 / k})
        if len(self.d) == 1:
            (m, c), = self.d.items()
            return Poly.of({tuple((a, -e) for a, e in m): 1 / c})
        # normalise by leading coefficient
        lead = next(iter(self.d.values()))
        q = self.scale(1 / lead)
        return Poly.of({((Atom("inv", "R", None, (q,)), 1),): 1 / lead})


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n == 0:
            d.pop(a)
        else:
            d[a] = n
    return tuple(sorted(d.items(), key=lambda ae: ae[0].id))


def const(v):
    f = Fraction(v)
    return Poly.of({(): f}) if f else ZERO


def atom_poly(a):
    return Poly.of({((a, 1),): Fraction(1)})


ZERO = Poly.of({})
ONE = Poly.of({(): Fraction(1)})


def var(name, sort="R"):
    return atom_poly(Atom("var", sort, name))


def app(name, args, sort="R"):
    return atom_poly(Atom("app", sort, name, tuple(args)))


def floor_(p):
    k = p.const()
    if k is not None:
        import math
        return const(math.floor(k))
    if p.isint:
        return p
    # pull out integer part that is syntactically integral
    ip, rest = {}, {}
    for m, c in p.d.items():
        if all(a.sort == "I" and e > 0 for a, e in m) and c.denominator == 1:
            ip[m] = c
        else:
            rest[m] = c
    kr = rest.get(())
    if kr is not None and (kr < 0 or kr >= 1):
        import math
        w = Fraction(math.floor(kr))
        ip[()] = ip.get((), 0) + w
        rest[()] = kr - w
        if not rest[()]:
            del rest[()]
    if all(m == () for m in rest):
        return Poly.of({m: v for m, v in ip.items() if v})
    fl = atom_poly(Atom("floor", "I", None, (Poly.of(rest),)))
    ip = {m: v for m, v in ip.items() if v}
    return fl.add(Poly.of(ip))


LET_MIN = 6


def let(p, least=None):
    """A name for a large polynomial (canonical up to sign, scale and common monomial), so that the
    arguments of abs, sign, min and max stay small; its definition is supplied to the prover."""
    if len(p.d) < (least or LET_MIN) or p.isint:
        return p
    lead = next(iter(p.d.values()))
    common = None
    for m in p.d:
        d = dict(m)
        if common is None:
            common = d
        else:
            nc = {}
            for a, e in common.items():
                f = d.get(a)
                if f is not None and (f > 0) == (e > 0):
                    nc[a] = min(e, f) if e > 0 else max(e, f)
            common = nc
        if not common:
            break
    k = lead
    q = p.scale(1 / lead)
    out = None
    if common:
        mono = tuple(sorted(common.items(), key=lambda ae: ae[0].id))
        q = q.mul(Poly.of({tuple((a, -e) for a, e in mono): Fraction(1)}))
        out = Poly.of({mono: k})
    at = atom_poly(Atom("let", "R", None, (q,)))
    return at.scale(k) if out is None else at.mul(out)


def let_defs(*terms):
    return [Bool("eq", (atom_poly(a).sub(a.args[0]),)) for a in atoms_of(*terms) if a.kind == "let"
            and not any(v.name.startswith("#") for v in a.fv)]


def expand(b):
    """Without names."""
    rw = Rewriter(atom=lambda a: rw.poly(a.args[0]) if a.kind == "let" else None)
    return rw.bool(b) if isinstance(b, Bool) else rw.poly(b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    # normal form: constant condition polarity
    if c.kind == "not":
        return ite(c.args[0], b, a)
    if c.kind == "ge":
        c, a, b = not_(c), b, a
    # collapse nested same condition
    a = _under(a, c, True)
    b = _under(b, c, False)
    if a is b:
        return a
    sort = "I" if a.isint and b.isint else "R"
    return atom_poly(Atom("ite", sort, None, (c, a, b)))


_resolving = []


def _resolve(p):
    """p with every ite below an ite on the same condition resolved."""
    if _resolving or not any(a.kind == "ite" for a in atoms_of(p)):
        return p
    _resolving.append(True)
    try:
        return Rewriter().poly(p)
    finally:
        _resolving.pop()


def _under(p, c, val):
    """Resolve a directly nested ite on the same condition; in the body of a sum, whose normal form
    decides whether two sums are the same term, also ites on it that occur as factors of p."""
    if not _resolving:
        if len(p.d) == 1:
            (m, k), = p.d.items()
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "ite" and m[0][0].args[0] is c:
                return m[0][0].args[1 if val else 2].scale(k)
        return p
    n = None
    for m in p.d:
        for a, _ in m:
            if a.kind == "ite":
                if n is None:
                    n = not_(c)
                if a.args[0] is c or a.args[0] is n:
                    break
        else:
            continue
        break
    else:
        return p
    r = ZERO
    for m, k in p.d.items():
        t = const(k)
        for a, e in m:
            q = atom_poly(a)
            if a.kind == "ite" and (a.args[0] is c or a.args[0] is n):
                q = a.args[1 if (a.args[0] is c) == val else 2]
            if e < 0:
                q, e = q.inv(), -e
            for _ in range(e):
                t = t.mul(q)
        r = r.add(t)
    return r


# ----------------------------------------------------------------------------- Booleans
class Bool:
    __slots__ = ("kind", "args", "id", "fv")
    _tab: dict = {}

    def __new__(cls, kind, args=()):
        key = (kind, args)
        b = cls._tab.get(key)
        if b is None:
            b = object.__new__(cls)
            b.kind, b.args = kind, args
            b.id = next(_ids)
            fv = frozenset()
            for x in args:
                if isinstance(x, (Poly, Bool)):
                    fv = fv | x.fv
            b.fv = fv
            cls._tab[key] = b
        return b

    def __repr__(self):
        k = self.kind
        if k in ("true", "false"):
            return k
        if k in ("ge", "gt", "eq"):
            return f"({self.args[0]!r} {dict(ge='>=', gt='>', eq='==')[k]} 0)"
        if k == "not":
            return f"!{self.args[0]!r}"
        if k == "bvar":
            return self.args[0]
        if k == "bapp":
            return f"{self.args[0]}({', '.join(map(repr, self.args[1:]))})"
        return f"({k} " + " ".join(map(repr, self.args)) + ")"


TRUE = Bool("true")
FALSE = Bool("false")


def bconst(v):
    return TRUE if v else FALSE


def _norm_sign(p):
    """Scale by positive factor so the leading coefficient is +-1 (ints: primitive integers)."""
    if p.isint_like():
        pass


def _scale_pos(p):
    import math
    cs = list(p.d.values())
    den = 1
    for c in cs:
        den = den * c.denominator // math.gcd(den, c.denominator)
    num = 0
    for c in cs:
        num = math.gcd(num, int(c * den))
    return p.scale(Fraction(den, num))


def _all_int_atoms(p):
    return all(a.sort == "I" and e > 0 for m in p.d for a, e in m)


# Declared signs of inputs (preconditions that hold on every path); reset for every harness.
POS, NONNEG = set(), set()


def raw(f, *a):
    """f(*a) without using the declared signs (for stating them)."""
    global POS, NONNEG
    k = POS, NONNEG
    POS, NONNEG = set(), set()
    try:
        return f(*a)
    finally:
        POS, NONNEG = k


def declare(name, pos=False, nonneg=False):
    if pos:
        POS.add(name)
    if nonneg:
        NONNEG.add(name)


def _apos(a, strict=True):
    if a.kind in ("var", "app"):
        return a.name in POS or (not strict and a.name in NONNEG)
    if a.kind == "inv":
        return ppos(a.args[0], strict)
    if a.kind == "ite":
        return ppos(a.args[1], strict) and ppos(a.args[2], strict)
    return False


def ppos(p, strict=True):
    """Whether p is positive (non-negative) by the declared signs alone."""
    some = not strict
    for m, c in p.d.items():
        if c < 0:
            return False
        st = True
        for a, e in m:
            if _apos(a):
                continue
            if e > 0 and (e % 2 == 0 or _apos(a, False)):
                st = False
                continue
            return False
        some = some or st
    return some and bool(p.d) or (not strict and not p.d)


def _strip(p):
    """Divide by the common positive factor: the sign does not change."""
    if not POS or len(p.d) == 0:
        return p
    common = None
    for m in p.d:
        d = dict(m)
        if common is None:
            common = d
        else:
            nc = {}
            for a, e in common.items():
                f = d.get(a)
                if f is not None and (f > 0) == (e > 0):
                    nc[a] = min(e, f) if e > 0 else max(e, f)
            common = nc
        if not common:
            return p
    fac = [(a, -e) for a, e in common.items() if _apos(a)]
    if not fac:
        return p
    return p.mul(Poly.of({tuple(sorted(fac, key=lambda ae: ae[0].id)): Fraction(1)}))


def ge0(p):
    k = p.const()
    if k is not None:
        return bconst(k >= 0)
    p = _strip(p)
    k = p.const()
    if k is not None:
        return bconst(k >= 0)
    if POS and len(p.d) <= 4:
        if ppos(p, False):
            return TRUE
        if ppos(p.neg()):
            return FALSE
    p = _scale_pos(p)
    if _all_int_atoms(p):
        # tighten constant
        c = p.d.get((), Fraction(0))
        import math
        rest = Poly.of({m: v for m, v in p.d.items() if m != ()})
        g = 0
        for v in rest.d.values():
            g = math.gcd(g, int(v))
        if g > 1:
            p = rest.scale(Fraction(1, g)).add(const(math.floor(c / g)))
    return Bool("ge", (p,))


def gt0(p):
    k = p.const()
    if k is not None:
        return bconst(k > 0)
    p = _strip(p)
    k = p.const()
    if k is not None:
        return bconst(k > 0)
    if POS and len(p.d) <= 4:
        if ppos(p):
            return TRUE
        if ppos(p.neg(), False):
            return FALSE
    if _all_int_atoms(p):
        return ge0(_scale_pos(p).sub(ONE))
    return Bool("gt", (_scale_pos(p),))


def eq0(p):
    k = p.const()
    if k is not None:
        return bconst(k == 0)
    p = _strip(p)
    k = p.const()
    if k is not None:
        return bconst(k == 0)
    p = _scale_pos(p)
    lead = next(iter(p.d.values()))
    if lead < 0:
        p = p.neg()
    if _all_int_atoms(p):
        import math
        c = p.d.get((), Fraction(0))
        g = 0
        for m, v in p.d.items():
            if m != ():
                g = math.gcd(g, int(v))
        if c % g != 0:
            return FALSE
    return Bool("eq", (p,))


def ge(a, b):
    return ge0(a.sub(b))


def gt(a, b):
    return gt0(a.sub(b))


def eq(a, b):
    return eq0(a.sub(b))


def not_(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.kind == "not":
        return b.args[0]
    if b.kind == "ge":
        return gt0(b.args[0].neg())
    if b.kind == "gt":
        return ge0(b.args[0].neg())
    if b.kind == "and":
        return or_(*[not_(x) for x in b.args])
    if b.kind == "or":
        return and_(*[not_(x) for x in b.args])
    return Bool("not", (b,))


def _flat(kind, bs):
    out = {}
    for b in bs:
        if b.kind == kind:
            for x in b.args:
                out[x] = None
        else:
            out[b] = None
    return list(out)


def and_(*bs):
    xs = _flat("and", bs)
    xs = [x for x in xs if x is not TRUE]
    if any(x is FALSE for x in xs):
        return FALSE
    s = set(xs)
    for x in xs:
        if not_shallow(x) in s:
            return FALSE
    if not xs:
        return TRUE
    if len(xs) == 1:
        return xs[0]
    return Bool("and", tuple(sorted(xs, key=lambda x: x.id)))


def or_(*bs):
    xs = _flat("or", bs)
    xs = [x for x in xs if x is not FALSE]
    if any(x is TRUE for x in xs):
        return TRUE
    s = set(xs)
    for x in xs:
        if not_shallow(x) in s:
            return TRUE
    if not xs:
        return FALSE
    if len(xs) == 1:
        return xs[0]
    return Bool("or", tuple(sorted(xs, key=lambda x: x.id)))


def not_shallow(b):
    if b.kind in ("and", "or"):
        return None
    return not_(b)


def implies(a, b):
    return or_(not_(a), b)


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return or_(and_(c, a), and_(not_(c), b))


def bvar(name):
    return Bool("bvar", (name,))


def bapp(name, args):
    return Bool("bapp", (name,) + tuple(args))


# ----------------------------------------------------------------------------- sums
_bv = itertools.count()


def sum_over(ranges, body_fn):
    """Sum over index ranges [(lo, hi), ...] (Poly bounds); body_fn(idx polys) -> Poly.

    Normal form: linear in the body; each monomial's factors not depending on the bound
    variables are pulled out.  Bound variables are canonical per nesting depth.
    """
    # canonical bound variables: depth chosen above any bound var used in the ranges/body
    bvs = [Atom("var", "I", f"#b{next(_bv)}") for _ in ranges]
    body = body_fn(tuple(atom_poly(v) for v in bvs))
    depth = 0
    for v in body.fv:
        pass
    # depth = 1 + max depth of sums inside body
    depth = 1 + _sum_depth(body)
    canon = [Atom("var", "I", f"#{depth}.{k}") for k in range(len(bvs))]
    body = _resolve(subst_poly(body, dict(zip(bvs, map(atom_poly, canon)))))
    rng = tuple(x for lo, hi in ranges for x in (lo, hi))
    # empty range
    for lo, hi in ranges:
        if hi.sub(lo).const() is not None and hi.sub(lo).const() <= 0:
            return ZERO
    # constant small ranges: expand
    sizes = [hi.sub(lo).const() for lo, hi in ranges]
    if all(s is not None for s in sizes):
        tot = 1
        for s in sizes:
            tot *= int(s)
        if tot <= 512:
            acc = ZERO
            for idx in itertools.product(*[range(int(s)) for s in sizes]):
                acc = acc.add(subst_poly(body, {c: lo.add(const(i)) for c, i, (lo, hi) in zip(canon, idx, ranges)}))
            return acc
    bound = frozenset(canon)
    out = ZERO
    size = ONE
    for lo, hi in ranges:
        size = size.mul(hi.sub(lo))
    groups = {}
    for m, c in body.d.items():
        inn = tuple((a, e) for a, e in m if a.fv & bound)
        outm = tuple((a, e) for a, e in m if not (a.fv & bound))
        groups.setdefault(inn, {})
        groups[inn][outm] = groups[inn].get(outm, 0) + c
    for inn, coef in groups.items():
        cp = Poly.of({m: c for m, c in coef.items() if c})
        if not inn:
            # sizes assumed >= 0 (array extents)
            out = out.add(cp.mul(size))
        else:
            s = Atom("sum", "R", tuple(canon), (Poly.of({inn: Fraction(1)}),) + rng)
            out = out.add(cp.mul(atom_poly(s)))
    return out


def _sum_depth(p, memo=None):
    d = 0
    for a in atoms_of(p):
        if a.kind == "sum":
            d = max(d, int(a.name[0].name[1:].split(".")[0]))
    return d


# ----------------------------------------------------------------------------- traversal
def atoms_of(*terms):
    """All atoms occurring anywhere in the terms (including inside atoms)."""
    seen, out, stack = set(), [], list(terms)
    while stack:
        t = stack.pop()
        if id(t) in seen:
            continue
        seen.add(id(t))
        if isinstance(t, Poly):
            for m in t.d:
                for a, _ in m:
                    stack.append(a)
        elif isinstance(t, Bool):
            for x in t.args:
                if isinstance(x, (Poly, Bool)):
                    stack.append(x)
        elif isinstance(t, Atom):
            out.append(t)
            for x in t.args:
                if isinstance(x, (Poly, Bool)):
                    stack.append(x)
    return out


def bools_of(*terms):
    seen, out, stack = set(), [], list(terms)
    while stack:
        t = stack.pop()
        if id(t) in seen:
            continue
        seen.add(id(t))
        if isinstance(t, Poly):
            for m in t.d:
                for a, _ in m:
                    stack.append(a)
        elif isinstance(t, Bool):
            out.append(t)
            for x in t.args:
                if isinstance(x, (Poly, Bool)):
                    stack.append(x)
        elif isinstance(t, Atom):
            for x in t.args:
                if isinstance(x, (Poly, Bool)):
                    stack.append(x)
    return out


class Rewriter:
    """Rebuild terms bottom-up with memo; hooks: atom(a)->Poly|None, bool(b)->Bool|None."""

    def __init__(self, atom=None, boolean=None, skip=None):
        self.fa, self.fb, self.skip = atom, boolean, skip
        self.mp, self.mb, self.ma = {}, {}, {}

    def poly(self, p):
        r = self.mp.get(p.id)
        if r is not None:
            return r
        if self.skip and self.skip(p):
            self.mp[p.id] = p
            return p
        changed = False
        parts = []
        for m, c in p.d.items():
            new = []
            for a, e in m:
                q = self.atom(a)
                if not (len(q.d) == 1 and ((a, 1),) in q.d and q.d[((a, 1),)] == 1):
                    changed = True
                new.append((q, e))
            parts.append((c, m, new))
        if not changed:
            r = p
        else:
            r = ZERO
            for c, m, new in parts:
                t = const(c)
                for q, e in new:
                    if e < 0:
                        q = q.inv()
                        e = -e
                    for _ in range(e):
                        t = t.mul(q)
                r = r.add(t)
        self.mp[p.id] = r
        return r

    def atom(self, a):
        r = self.ma.get(a.id)
        if r is not None:
            return r
        if self.fa:
            r = self.fa(a)
        if r is None:
            r = self._atom(a)
        self.ma[a.id] = r
        return r

    def _atom(self, a):
        if a.kind == "var":
            return atom_poly(a)
        if a.kind == "app":
            args = tuple(self.poly(x) for x in a.args)
            return atom_poly(a) if args == a.args else app(a.name, args, a.sort)
        if a.kind == "ite":
            c = self.bool(a.args[0])
            if c is TRUE:
                return self.poly(a.args[1])
            if c is FALSE:
                return self.poly(a.args[2])
            return ite(c, self.poly(a.args[1]), self.poly(a.args[2]))
        if a.kind == "inv":
            return self.poly(a.args[0]).inv()
        if a.kind == "floor":
            return floor_(self.poly(a.args[0]))
        if a.kind == "let":
            q = self.poly(a.args[0])
            return atom_poly(a) if q is a.args[0] else let(q)
        if a.kind == "sum":
            args = tuple(self.poly(x) for x in a.args)
            if args == a.args:
                return atom_poly(a)
            rng = args[1:]
            ranges = [(rng[2 * k], rng[2 * k + 1]) for k in range(len(a.name))]
            body = args[0]
            return sum_over(ranges, lambda idx: subst_poly(body, dict(zip(a.name, idx))))
        raise Unsupported(f"rewrite {a.kind}")

    def bool(self, b):
        r = self.mb.get(b.id)
        if r is not None:
            return r
        if self.fb:
            r = self.fb(b)
        if r is None:
            k = b.kind
            if k in ("true", "false", "bvar"):
                r = b
            elif k == "ge":
                r = ge0(self.poly(b.args[0]))
            elif k == "gt":
                r = gt0(self.poly(b.args[0]))
            elif k == "eq":
                r = eq0(self.poly(b.args[0]))
            elif k == "not":
                r = not_(self.bool(b.args[0]))
            elif k == "and":
                r = and_(*[self.bool(x) for x in b.args])
            elif k == "or":
                r = or_(*[self.bool(x) for x in b.args])
            elif k == "bapp":
                r = bapp(b.args[0], [self.poly(x) for x in b.args[1:]])
            else:
                raise Unsupported(k)
        self.mb[b.id] = r
        return r


def subst_poly(p, mp):
    """Substitute variable atoms by polys."""
    if not mp:
        return p
    keys = frozenset(mp)
    return Rewriter(atom=lambda a: mp.get(a) if a in mp else (atom_poly(a) if not (a.fv & keys) else None),
                    skip=lambda q: not (q.fv & keys)).poly(p)


def subst_bool(b, mp):
    if not mp:
        return b
    keys = frozenset(mp)
    return Rewriter(atom=lambda a: mp.get(a) if a in mp else (atom_poly(a) if not (a.fv & keys) else None),
                    skip=lambda q: not (q.fv & keys)).bool(b)
