"""Symbolic n-dimensional arrays with unbounded (symbolic) extents, views and in-place updates,
and the model of the numpy functions used by the code under verification."""
from __future__ import annotations
import datetime
import builtins, itertools, math
from fractions import Fraction
from . import terms as T
from .terms import TRUE, FALSE, Unsupported, Poly
from .values import *
from .values import _tokens
from . import values as V
import numpy as real_np


def P(v):
    return poly(v)


def dimval(p):
    return simp(Num(P(p)))


class Buffer:
    __slots__ = ("fn", "memo", "writable")

    def __init__(self, fn):
        self.set(fn)

    def set(self, fn):
        self.memo = {}
        self.fn = fn

    def reader(self):
        """Snapshot: later writes do not affect it."""
        fn, memo = self.fn, self.memo

        def get(idx):
            k = tuple(i.id for i in idx)
            r = memo.get(k)
            if r is None:
                r = fn(idx)
                memo[k] = r
            return r
        get.src = fn
        return get


def same_dim(a, b):
    """Are two extents equal?  May fork."""
    if a is b:
        return True
    d = T.eq(a, b)
    return ctx().decide(d)


def bcast_shapes(shapes):
    n = max((len(s) for s in shapes), default=0)
    out = []
    for k in range(n):
        cur = T.ONE
        for s in shapes:
            j = len(s) - n + k
            if j < 0:
                continue
            d = s[j]
            if d.const() == 1:
                continue
            if cur.const() == 1:
                cur = d
            elif not same_dim(cur, d):
                raise ValueError(f"operands could not be broadcast together with shapes {shapes}")
        out.append(cur)
    return tuple(out)


def bidx(idx, shape, n):
    """Index of an operand of given shape for a result index."""
    off = n - len(shape)
    return tuple(T.ZERO if shape[k].const() == 1 else idx[off + k] for k in range(len(shape)))


class NDArray:
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, shape, fn=None, buf=None, view=None, dtype="f", origin=None):
        self._shape = tuple(P(d) for d in shape)
        self.buf = buf if buf is not None else Buffer(fn)
        self.view = view          # None or (fwd, inv)
        self.kind = dtype
        self.origin = origin or tuple(T.ZERO for _ in self._shape)

    # -- basics
    @property
    def shape(self):
        return tuple(dimval(d) for d in self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = num(1)
        for d in self._shape:
            r = r * Num(d)
        return simp(r)

    @property
    def dtype(self):
        return {"f": real_np.dtype("float64"), "i": real_np.dtype("int64"), "b": real_np.dtype("bool"), "O": real_np.dtype("O")}[self.kind]

    @property
    def T(self):
        return transpose(self)

    def __len__(self):
        if not self._shape:
            raise TypeError("len() of unsized object")
        k = self._shape[0].const()
        if k is None:
            raise Unsupported("len() of symbolic extent")
        return int(k)

    def reader(self):
        r = self.buf.reader()
        if self.view is None:
            return r
        fwd = self.view[0]

        def get(idx):
            return r(fwd(idx))
        get.src = (r.src, id(self.view))
        return get

    def at(self, *idx):
        return self.reader()(tuple(P(i) for i in idx))

    def write(self, fn, cond=None):
        """Assign fn(idx) to every element (where cond(idx))."""
        old = self.buf.reader()
        if self.view is None:
            if cond is None:
                self.buf.set(fn)
            else:
                self.buf.set(lambda i: select(SBool(to_bool(cond(i))), fn(i), old(i)))
            return
        inv = self.view[1]
        if inv is None:
            raise Unsupported("write through this view")

        def new(b):
            c, i = inv(b)
            if c is FALSE:
                return old(b)
            val = fn(i)
            cc = c if cond is None else T.and_(c, to_bool(cond(i)))
            return select(SBool(cc), val, old(b))
        self.buf.set(new)

    def copy(self, *a, **k):
        return NDArray(self._shape, self.reader(), dtype=self.kind, origin=self.origin)

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dtype, *a, **k):
        kind = dtype_kind(dtype)
        out = self.copy()
        if kind == "i" and self.kind == "f":
            f = self.reader()
            out = NDArray(self._shape, lambda i: trunc(f(i)), dtype="i", origin=self.origin)
        elif kind == "b" and self.kind != "b":
            f = self.reader()
            out = NDArray(self._shape, lambda i: SBool(to_bool(f(i))), dtype="b", origin=self.origin)
        else:
            out.kind = kind
        return out

    def item(self):
        if self.ndim:
            raise Unsupported("item() of array")
        return self.at()

    def flatten(self):
        if self.ndim == 1:
            return self.copy()
        if sum(n is not T.ONE for n in self._shape) <= 1:
            return reshape(self, (-1,)).copy()
        return Flat(self)

    def tolist(self):
        if self.ndim != 1:
            raise Unsupported("tolist")
        return [self.at(T.const(i)) for i in range(len(self))]

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        if self.ndim == 0 or all(d.const() == 1 for d in self._shape):
            return bool(self.at(*[T.ZERO] * self.ndim))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __repr__(self):
        return f"NDArray{self._shape}"

    def __format__(self, s):
        return repr(self)

    # -- arithmetic
    def __array__(self, *a, **k):
        raise Unsupported("conversion of a symbolic array to a concrete one")

    def _b(self, o, f, kind=None):
        if getattr(o, "_is_xr", False):
            return NotImplemented
        if isinstance(o, (list, tuple)) or is_num(o) or isinstance(o, (NDArray, real_np.ndarray, Time, Delta)):
            return ew(f, self, o, kind=kind)
        return NotImplemented

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: b + a)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._b(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._b(o, lambda a, b: num(a) / b, "f")
    def __rtruediv__(self, o): return self._b(o, lambda a, b: num(b) / a, "f")
    def __floordiv__(self, o): return self._b(o, lambda a, b: num(a) // b)
    def __mod__(self, o): return self._b(o, lambda a, b: num(a) % b)
    def __pow__(self, o): return self._b(o, lambda a, b: num(a) ** b)
    def __neg__(self): return ew(lambda a: -num(a), self)
    def __pos__(self): return self.copy()
    def __abs__(self): return ew(abs_, self)
    def __invert__(self): return ew(lambda a: ~sbool(a), self, kind="b")
    def __and__(self, o): return self._b(o, lambda a, b: a & b, "b")
    __rand__ = __and__
    def __or__(self, o): return self._b(o, lambda a, b: a | b, "b")
    __ror__ = __or__
    def __xor__(self, o): return self._b(o, lambda a, b: sbool(a) ^ sbool(b), "b")
    def __lt__(self, o): return self._b(o, lambda a, b: a < b, "b")
    def __le__(self, o): return self._b(o, lambda a, b: a <= b, "b")
    def __gt__(self, o): return self._b(o, lambda a, b: a > b, "b")
    def __ge__(self, o): return self._b(o, lambda a, b: a >= b, "b")
    def __eq__(self, o): return self._b(o, lambda a, b: num(a) == b if not isinstance(a, Time) else a == b, "b")
    def __ne__(self, o): return self._b(o, lambda a, b: num(a) != b if not isinstance(a, Time) else a != b, "b")
    __hash__ = None

    def _ip(self, o, f):
        if getattr(o, "_is_xr", False):
            o = o.values
        r = ew(f, self, o)
        if len(r._shape) != self.ndim or any(not same_dim(x, y) for x, y in zip(r._shape, self._shape)):
            raise ValueError("non-broadcastable output operand")
        self.write(r.reader())
        return self

    def __iadd__(self, o): return self._ip(o, lambda a, b: a + b)
    def __isub__(self, o): return self._ip(o, lambda a, b: a - b)
    def __imul__(self, o): return self._ip(o, lambda a, b: a * b)
    def __itruediv__(self, o): return self._ip(o, lambda a, b: num(a) / b)

    # -- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, value):
        if getattr(key, "_is_xr", False):
            key = key.values
        if isinstance(key, NDArray) and key.kind == "b":
            if key.ndim != self.ndim:
                raise Unsupported("mask of another rank")
            if any(not same_dim(x, y) for x, y in zip(key._shape, self._shape)):
                raise IndexError("boolean index did not match indexed array")
            kf = key.reader()
            if isinstance(value, Masked):
                if value.mask is not kf.src:
                    raise Unsupported("masked assignment of an array selected by another mask")
                vf = value.full.reader()
                self.write(vf, cond=kf)
                return
            val = asarray(value)
            if val.ndim != 0:
                raise Unsupported("masked assignment of an array")
            vf = val.reader()
            self.write(lambda i: vf(()), cond=kf)
            return
        if isinstance(value, Masked):
            raise Unsupported("assignment of an array selected by a mask")
        nk = [k.values if getattr(k, "_is_xr", False) else k for k in norm_key(self, key)]
        adv = [d for d, k in enumerate(nk) if isinstance(k, (NDArray, list, tuple)) or (isinstance(k, real_np.ndarray) and k.ndim > 0)]
        if adv:
            self._set_rows(nk, adv, value)
            return
        tgt = getitem(self, key)
        if not isinstance(tgt, NDArray):
            # single element
            idx = norm_key(self, key)
            full = tuple(resolve_int(self._shape[k], x) for k, x in enumerate(idx))
            old = self.reader()
            v = num(value) if self.kind != "b" else sbool(value)
            self.write(lambda i: select(SBool(T.and_(*[T.eq(a, b) for a, b in zip(i, full)])), v, old(i)))
            return
        if tgt.buf is not self.buf:
            raise Unsupported("assignment through an index that copies")
        val = asarray(value)
        sh = bcast_shapes([tgt._shape, val._shape])
        if len(sh) != tgt.ndim or any(not same_dim(a, b) for a, b in zip(sh, tgt._shape)):
            raise ValueError("could not broadcast input array into shape")
        vf, vs, n = val.reader(), val._shape, tgt.ndim
        conv = sbool if self.kind == "b" else ((lambda x: trunc(num(x))) if self.kind == "i" and val.kind == "f" else (lambda x: x))
        tgt.write(lambda i: conv(vf(bidx(i, vs, n))))

    def _set_rows(self, key, adv, value):
        """Assignment through one list of known integers, one at a time in their order."""
        d = adv[0]
        if len(adv) > 1 or any(not isinstance(k, slice) for j, k in enumerate(key) if j != d):
            raise Unsupported("assignment through several index arrays")
        k = key[d]
        arr = asarray(list(k) if isinstance(k, tuple) else k)
        if arr.kind == "b" or arr.ndim != 1 or arr._shape[0].const() is None:
            raise Unsupported("assignment through an index array")
        val = asarray(value)
        off = val.ndim - self.ndim + d      # axis of value that runs along the list
        along = off >= 0 and val._shape[off].const() != 1
        if along and val._shape[off].const() != arr._shape[0].const():
            raise ValueError("shape mismatch: value array could not be broadcast to indexing result")
        for t in range(int(arr._shape[0].const())):
            kk = list(key)
            kk[d] = arr.at(T.const(t))
            v = val
            if off >= 0:
                v = getitem(val, tuple(slice(None) if j != off else (t if along else 0) for j in range(val.ndim)))
            self[tuple(kk)] = v

    # -- reductions etc.
    def sum(self, axis=None, **k): return np_sum(self, axis=axis, **k)
    def mean(self, axis=None, **k): return np_mean(self, axis)
    def any(self, axis=None, **k): return np_any(self, axis)
    def all(self, axis=None, **k): return np_all(self, axis)
    def min(self, axis=None, **k): return np_extreme(self, "min", axis)
    def max(self, axis=None, **k): return np_extreme(self, "max", axis)
    def argmin(self, axis=None, **k): return np_argext(self, "min", axis)
    def argmax(self, axis=None, **k): return np_argext(self, "max", axis)
    def transpose(self, *axes): return transpose(self, *axes)
    def squeeze(self, axis=None): return squeeze(self, axis)

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if len(shape) == self.ndim and all(P(a) is b for a, b in zip(shape, self._shape) if a != -1):
            return self
        return reshape(self, shape)

    def ravel(self, *a, **k):
        return reshape(self, (-1,)) if self.ndim == 1 or sum(n is not T.ONE for n in self._shape) <= 1 else Flat(self)

    def cumsum(self, axis=None, **k): return np_cumsum(self, axis)

    def fill(self, v):
        v = num(v)
        self.write(lambda i: v)


class Masked:
    """a[mask]: its elements stay at their places in a until they are assigned or summed."""
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, full, mask, src=None):
        self.full, self.where = full, mask
        self.mask = src if src is not None else mask.reader().src

    def _b(self, o, f, kind=None):
        if isinstance(o, Masked):
            if o.mask is not self.mask:
                raise Unsupported("operation between arrays selected by different masks")
            o = o.full
        elif not is_num(o):
            raise Unsupported("operation on an array selected by a mask")
        return Masked(ew(f, self.full, o, kind=kind), self.where, self.mask)

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._b(o, lambda a, b: num(a) / b, "f")
    def __neg__(self): return Masked(ew(lambda a: -num(a), self.full), self.where, self.mask)
    def __abs__(self): return Masked(ew(abs_, self.full), self.where, self.mask)
    def __bool__(self): raise Unsupported("truth value of an array selected by a mask")
    def __getattr__(self, k): raise Unsupported(f"{k} of an array selected by a mask")
    def __getitem__(self, k): raise Unsupported("element of an array selected by a mask")
    def __iter__(self): raise Unsupported("iteration over an array selected by a mask")
    def __len__(self): raise Unsupported("length of an array selected by a mask")


class Flat:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, k):
        if k == 0:
            return self.a.at(*[T.ZERO] * self.a.ndim)
        raise Unsupported("flat index")


def trunc(n):
    n = num(n)
    return Num(T.ite(T.ge0(n.p), T.floor_(n.p), T.floor_(n.p.neg()).neg()), n.nan, n.bad)


def dtype_kind(dt):
    if dt is None:
        return "f"
    if dt in (bool, "bool") or dt is real_np.bool_:
        return "b"
    if dt is int or (isinstance(dt, str) and dt.startswith("int")):
        return "i"
    if getattr(dt, "__name__", "") in ("s_int", "s_float", "s_bool"):
        return {"s_int": "i", "s_float": "f", "s_bool": "b"}[dt.__name__]
    try:
        k = real_np.dtype(dt).kind
        return {"b": "b", "i": "i", "u": "i", "f": "f", "O": "O"}[k]
    except Exception:
        raise Unsupported(f"dtype {dt!r}")


def from_real(a):
    a = real_np.asarray(a)
    vals = a

    def fn(idx):
        ks = [i.const() for i in idx]
        if all(k is not None for k in ks):
            v = vals[tuple(int(k) for k in ks)] if vals.ndim else vals[()]
            if isinstance(v, (Time, Num, SBool, Delta)):
                return v
            if a.dtype.kind == "b":
                return SBool(T.bconst(bool(v)))
            return num(v.item() if isinstance(v, real_np.generic) else v)
        # symbolic index into a concrete table
        if vals.ndim != 1 or vals.shape[0] > 256:
            raise Unsupported("symbolic index into a concrete array")
        out = None
        for j in reversed(range(vals.shape[0])):
            v = vals[j] if isinstance(vals[j], (Num, SBool, Time)) else (SBool(T.bconst(bool(vals[j]))) if a.dtype.kind == "b" else num(vals[j]))
            out = v if out is None else select(SBool(T.eq(idx[0], T.const(j))), v, out)
        return out
    kind = {"b": "b", "i": "i", "u": "i", "f": "f", "O": "O"}.get(a.dtype.kind)
    if kind is None:
        raise Unsupported(f"array of dtype {a.dtype}")
    if kind == "O" and a.size and all(isinstance(v, (Num, int, float)) for v in a.flat):
        kind = "f"
    return NDArray(a.shape, fn, dtype=kind)


def asarray(v, dtype=None, copy=False):
    if getattr(v, "_is_xr", False):
        v = v.values
    if isinstance(v, NDArray):
        r = v.copy() if copy else v
        return r.astype(dtype) if dtype is not None else r
    if isinstance(v, Time) or isinstance(v, Delta):
        return NDArray((), lambda i: v, dtype="O")
    if is_num(v):
        x = num(v) if not isinstance(v, (SBool, bool, real_np.bool_)) else sbool(v)
        kind = "b" if isinstance(x, SBool) else ("i" if (isinstance(v, (int, real_np.integer)) or (isinstance(v, Num) and v.p.isint)) else "f")
        return NDArray((), lambda i: x, dtype=kind)
    if isinstance(v, real_np.ndarray):
        return from_real(v)
    if isinstance(v, (list, tuple)):
        if not v:
            return from_real(real_np.array([]))
        parts = [asarray(x) for x in v]
        return np_stack(parts, 0)
    if isinstance(v, range):
        return from_real(real_np.array(list(v)))
    raise Unsupported(f"asarray of {type(v)}")


def kinds(arrs):
    ks = {a.kind for a in arrs}
    if "O" in ks:
        return "O"
    if "f" in ks:
        return "f"
    if "i" in ks:
        return "i"
    return "b"


def ew(f, *args, kind=None):
    arrs = [asarray(a) for a in args]
    shape = bcast_shapes([a._shape for a in arrs])
    n = len(shape)
    rs = [(a.reader(), a._shape) for a in arrs]
    origin = None
    for a in arrs:
        if a.ndim == n and all(x is y for x, y in zip(a._shape, shape)):
            origin = a.origin
            break
    k = kind or kinds(arrs)
    if k == "b" and kind is None:
        k = "i"

    def fn(idx):
        return f(*[r(bidx(idx, s, n)) for r, s in rs])
    if n == 0 and all(not isinstance(a, NDArray) for a in args):
        return fn(())
    return NDArray(shape, fn, dtype=k, origin=origin)


def norm_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    if any(k is Ellipsis for k in key):
        i = [j for j, k in enumerate(key) if k is Ellipsis][0]
        nreal = sum(1 for k in key if k is not None and k is not Ellipsis)
        key[i:i + 1] = [slice(None)] * (a.ndim - nreal)
    nreal = sum(1 for k in key if k is not None)
    if nreal > a.ndim:
        raise IndexError("too many indices for array")
    key += [slice(None)] * (a.ndim - nreal)
    return key


GUARDED = []        # non-empty while the body of a quantified fact is written out (its ranges are its guard)


def resolve_int(n, k):
    """Python integer index k into extent n -> term (bounds checked by forking)."""
    kp = P(k)
    c = kp.const()
    if c is not None and c < 0:
        kp = n.add(kp)
    elif GUARDED:
        return kp
    elif c is None and not ctx().entails(T.ge0(kp)):
        if ctx().decide(T.gt0(kp.neg())):
            kp = n.add(kp)
    ok = T.and_(T.ge0(kp), T.gt(n, kp))
    if any(v.name.startswith("#b") for v in ok.fv):
        return kp
    if not ctx().decide(ok):
        raise IndexError("index out of bounds")
    return kp


def clip_bound(n, k, default):
    if k is None:
        return default
    kp = P(k)
    c = kp.const()
    if c is not None:
        if c < 0:
            kp = n.add(kp)
            return kp if ctx().entails(T.ge0(kp)) else T.ite(T.ge0(kp), kp, T.ZERO)
        return kp if (c == 0 or ctx().entails(T.ge(n, kp))) else T.ite(T.ge(n, kp), kp, n)
    if not ctx().entails(T.ge0(kp)):
        if ctx().decide(T.gt0(kp.neg())):
            kp = n.add(kp)
    return kp if ctx().entails(T.ge(n, kp)) else T.ite(T.ge(n, kp), kp, n)


def slice_parts(n, s):
    """(lo, step, length) of a slice on extent n."""
    step = 1 if s.step is None else int(s.step)
    if step > 0:
        lo = clip_bound(n, s.start, T.ZERO)
        hi = clip_bound(n, s.stop, n)
        ln = hi.sub(lo)
        if not (lo is T.ZERO and hi is n) and not ctx().entails(T.ge0(ln)):
            ln = T.ite(T.ge0(ln), ln, T.ZERO)
        if step != 1:
            # ceil(ln/step)
            ln = T.floor_(ln.add(T.const(step - 1)).scale(Fraction(1, step)))
        return lo, step, ln
    if step == -1 and s.start is None and s.stop is None:
        return n.sub(T.ONE), -1, n
    raise Unsupported("negative-step slice")


def getitem(a, key):
    if getattr(key, "_is_xr", False):
        key = key.values
    if isinstance(key, NDArray) and key.kind == "b":
        if key.ndim != a.ndim:
            raise Unsupported("mask of another rank")
        if any(not same_dim(x, y) for x, y in zip(key._shape, a._shape)):
            raise IndexError("boolean index did not match indexed array")
        return Masked(a.copy(), key)
    key = norm_key(a, key)
    key = [k.values if getattr(k, "_is_xr", False) else k for k in key]
    adv = [k for k in key if isinstance(k, (NDArray, list)) or (isinstance(k, real_np.ndarray) and k.ndim > 0)]
    if adv:
        return adv_index(a, key)
    shape, maps, origin = [], [], []
    d = 0
    identity = True
    for k in key:
        if k is None:
            shape.append(T.ONE)
            origin.append(T.ZERO)
            maps.append(("new",))
            identity = False
            continue
        n = a._shape[d]
        if isinstance(k, slice):
            lo, step, ln = slice_parts(n, k)
            shape.append(ln)
            origin.append(a.origin[d].add(lo) if step == 1 else T.ZERO)
            maps.append(("sl", lo, step, ln))
            if lo is not T.ZERO or step != 1 or ln is not n:
                identity = False
        else:
            maps.append(("int", resolve_int(n, k)))
            identity = False
        d += 1
    if not shape and all(m[0] == "int" for m in maps):
        return a.reader()(tuple(m[1] for m in maps))
    if identity:
        return NDArray(a._shape, buf=a.buf, view=a.view, dtype=a.kind, origin=a.origin)
    if all(m[0] == "int" or m[0] == "new" for m in maps) and not shape:
        pass

    def fwd1(idx):
        out, j = [], 0
        for m in maps:
            if m[0] == "new":
                j += 1
            elif m[0] == "sl":
                i = idx[j]
                out.append(m[1].add(i.scale(Fraction(m[2]))))
                j += 1
            else:
                out.append(m[1])
        return tuple(out)

    def inv1(b):
        conds, idx, j = [], [], 0
        for m in maps:
            if m[0] == "new":
                idx.append(T.ZERO)
            elif m[0] == "sl":
                x = b[j].sub(m[1])
                if m[2] == -1:
                    x = x.neg()
                elif m[2] != 1:
                    raise Unsupported("write through strided view")
                if not (m[1] is T.ZERO and m[3] is a._shape[j]):
                    conds += [T.ge0(x), T.gt(m[3], x)]
                idx.append(x)
                j += 1
            else:
                conds.append(T.eq(b[j], m[1]))
                j += 1
        return T.and_(*conds), tuple(idx)
    if a.view is None:
        view = (fwd1, inv1)
    else:
        f0, i0 = a.view

        def fwd(idx):
            return f0(fwd1(idx))

        def inv(b):
            if i0 is None:
                raise Unsupported("write through this view")
            c0, x = i0(b)
            c1, y = inv1(x)
            return T.and_(c0, c1), y
        view = (fwd, inv)
    return NDArray(shape, buf=a.buf, view=view, dtype=a.kind, origin=origin)


def adv_index(a, key):
    """Integer array indexing; slices allowed only after/before a block of arrays."""
    arrs, where = [], []
    for d, k in enumerate(key):
        if k is None:
            raise Unsupported("newaxis with advanced index")
        if not isinstance(k, slice):
            arr = asarray(k)
            if arr.kind == "b":
                raise Unsupported("boolean index")
            arrs.append(arr)
            where.append(d)
    if where != list(range(where[0], where[0] + len(where))):
        raise Unsupported("split advanced index")
    sh = bcast_shapes([x._shape for x in arrs])
    n = len(sh)
    pre = [k for k in key[:where[0]]]
    post = [k for k in key[where[-1] + 1:]]
    parts_pre = [slice_parts(a._shape[d], k) for d, k in enumerate(pre)]
    parts_post = [slice_parts(a._shape[where[-1] + 1 + j], k) for j, k in enumerate(post)]
    shape = [p[2] for p in parts_pre] + list(sh) + [p[2] for p in parts_post]
    rs = [(x.reader(), x._shape) for x in arrs]
    f = a.reader()
    c = ctx()

    # index bounds are obligations for an arbitrary element of the index array
    sk = tuple(T.var(c.fresh("!ix"), "I") for _ in sh)
    rng = [b for s, d in zip(sk, sh) for b in (T.ge0(s), T.gt(d, s))]
    negs = []
    for (r, s), d in zip(rs, where):
        v = num(r(bidx(sk, s, n))).p
        if not c.prover.entails_quick(c.pc + rng, T.ge0(v)):
            negs.append(True)
            c.oblige("array index within bounds", T.and_(T.ge(v, a._shape[d].neg()), T.gt(a._shape[d], v)), rng)
        else:
            negs.append(False)
            c.oblige("array index within bounds", T.gt(a._shape[d], v), rng)

    def fn(idx):
        np_, npo = len(parts_pre), len(parts_post)
        out = [p[0].add(i.scale(Fraction(p[1]))) for p, i in zip(parts_pre, idx)]
        mid = idx[np_:np_ + n]
        for (r, s), d, ng in zip(rs, where, negs):
            v = num(r(bidx(mid, s, n))).p
            if ng:
                v = T.ite(T.ge0(v), v, v.add(a._shape[d]))
            out.append(v)
        out += [p[0].add(i.scale(Fraction(p[1]))) for p, i in zip(parts_post, idx[np_ + n:])]
        return f(tuple(out))
    return NDArray(shape, fn, dtype=a.kind)


def transpose(a, *axes):
    if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
        axes = tuple(axes[0])
    if not axes:
        axes = tuple(reversed(range(a.ndim)))
    axes = tuple(x % a.ndim for x in axes)
    f = a.reader()
    invp = [axes.index(k) for k in range(a.ndim)]

    def fwd(idx):
        return tuple(idx[invp[k]] for k in range(a.ndim))

    def inv1(b):
        return TRUE, tuple(b[axes[k]] for k in range(a.ndim))
    if a.view is None:
        view = (fwd, inv1)
    else:
        f0, i0 = a.view
        view = (lambda i: f0(fwd(i)), None if i0 is None else (lambda b: (lambda c, x: (c, inv1(x)[1]))(*i0(b))))
    return NDArray([a._shape[k] for k in axes], buf=a.buf, view=view, dtype=a.kind, origin=[a.origin[k] for k in axes])


def squeeze(a, axis=None):
    keep = []
    for k, d in enumerate(a._shape):
        if axis is not None and k != axis % a.ndim:
            keep.append(k)
            continue
        if d.const() == 1 or (d.const() is None and ctx().entails(T.eq(d, T.ONE))):
            continue
        keep.append(k)
    key = tuple(slice(None) if k in keep else 0 for k in range(a.ndim))
    r = getitem(a, key)
    return r if isinstance(r, NDArray) else asarray(r)


# ----------------------------------------------------------------------------- numpy functions
def norm_axis(axis, n):
    return axis % n


def np_stack(parts, axis):
    parts = [asarray(p) for p in parts]
    axis = axis % (parts[0].ndim + 1)
    sh = parts[0]._shape
    for p in parts[1:]:
        if len(p._shape) != len(sh) or any(not same_dim(a, b) for a, b in zip(p._shape, sh)):
            raise ValueError("all input arrays must have the same shape")
    rs = [p.reader() for p in parts]

    def fn(idx):
        i, rest = idx[axis], tuple(idx[:axis]) + tuple(idx[axis + 1:])
        k = i.const()
        if k is not None:
            return rs[int(k)](rest)
        out = rs[-1](rest)
        for j in reversed(range(len(rs) - 1)):
            out = select(SBool(T.eq(i, T.const(j))), rs[j](rest), out)
        return out
    sh = tuple(sh)
    return NDArray(sh[:axis] + (T.const(len(parts)),) + sh[axis:], fn, dtype=kinds(parts))


def reshape(a, shape):
    """Insertion and removal of axes of extent one (the order of the others stays); a view."""
    real = [k for k in range(a.ndim) if a._shape[k].const() != 1]
    left = [a._shape[k] for k in real]
    known = [None if (isinstance(s, int) and s == -1) else P(s) for s in shape]
    given = [s for s in known if s is not None and s.const() != 1]
    if known.count(None) > 1:
        raise ValueError("can only specify one unknown dimension")
    if None in known:
        rest = list(left)
        for s in given:
            for k, n in enumerate(rest):
                if same_dim(n, s):
                    del rest[k]
                    break
            else:
                raise Unsupported("reshape")
        if len(rest) > 1:
            raise Unsupported("reshape")
        known[known.index(None)] = rest[0] if rest else T.ONE
    target = [s for s in known if s.const() != 1]
    if len(target) != len(left) or any(not same_dim(n, s) for n, s in zip(left, target)):
        raise Unsupported("reshape")
    a = getitem(a, tuple(slice(None) if k in real else 0 for k in range(a.ndim)))
    return getitem(asarray(a), tuple(None if s.const() == 1 else slice(None) for s in known))


def np_cumsum(a, axis=None, **k):
    a = asarray(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("cumsum over several axes")
        axis = 0
    axis %= a.ndim
    r = a.reader()
    at = lambda i, j: tuple(i[:axis]) + (j,) + tuple(i[axis + 1:])
    n = a._shape[axis].const()

    def fn(i):
        if n is not None:
            out = num(0)
            for j in range(int(n)):
                v = num(r(at(i, T.const(j))))
                out = out + select(SBool(T.ge(i[axis], T.const(j))), v, num(0))
            return out
        part = NDArray([i[axis].add(T.ONE)], lambda j: r(at(i, j[0])), dtype=a.kind)
        return np_sum(part)
    return NDArray(a._shape, fn, dtype=a.kind if a.kind != "b" else "i")


def np_sort(a, axis=-1, **k):
    a = asarray(a)
    return np_take_along_axis(a, np_argsort(a, axis=axis), axis)


def np_block(parts, depth=None):
    """Nested lists: the innermost along the last axis, the outer ones along the axes before."""
    def depth_of(p):
        return 1 + max(depth_of(q) for q in p) if isinstance(p, list) else 0
    d = depth_of(parts)
    nd = max(d, max(asarray(q).ndim for q in leaves(parts)))

    def up(p):
        p = asarray(p)
        return p if p.ndim == nd else getitem(p, (None,) * (nd - p.ndim) + (slice(None),) * p.ndim) if p.ndim else full((1,) * nd, p.at())

    def run(p, axis):
        return concat([run(q, axis + 1) for q in p], axis) if isinstance(p, list) else up(p)
    return run(parts, nd - d)


def leaves(p):
    return [x for q in p for x in leaves(q)] if isinstance(p, list) else [p]


def np_hstack(parts, axis=None):
    parts = [asarray(p) for p in parts]
    parts = [p if p.ndim else np_expand1(p) for p in parts]
    return concat(parts, 0 if parts[0].ndim == 1 else 1)


def np_vstack(parts):
    parts = [asarray(p) for p in parts]
    up = lambda p: full((1, 1), p.at()) if p.ndim == 0 else getitem(p, (None, slice(None))) if p.ndim == 1 else p
    return concat([up(p) for p in parts], 0)


def np_column_stack(parts):
    parts = [asarray(p) for p in parts]
    return concat([getitem(p, (slice(None), None)) if p.ndim == 1 else p for p in parts], 1)


def concat(parts, axis=0):
    parts = [asarray(p) for p in parts]
    parts = [p if p.ndim else NDArray((T.ONE,), (lambda p: lambda i: p.at())(p), dtype=p.kind) for p in parts]
    n = parts[0].ndim
    axis %= n
    for p in parts[1:]:
        for k in range(n):
            if k != axis and not same_dim(p._shape[k], parts[0]._shape[k]):
                raise ValueError("concatenation dimensions must match")
    offs = [T.ZERO]
    for p in parts:
        offs.append(offs[-1].add(p._shape[axis]))
    rs = [p.reader() for p in parts]

    def fn(idx):
        i = idx[axis]
        out = None
        for j in reversed(range(len(rs))):
            loc = idx[:axis] + (i.sub(offs[j]),) + idx[axis + 1:]
            c = T.ge(i, offs[j])
            if out is None:
                out = ("last", rs[j], loc)
            if c is FALSE:
                continue
            # evaluate lazily from the last part backwards
        # build from the front
        out = None
        for j in reversed(range(len(rs))):
            loc = idx[:axis] + (i.sub(offs[j]),) + idx[axis + 1:]
            inr = T.gt(offs[j + 1], i)
            if inr is FALSE and j < len(rs) - 1:
                continue
            if T.ge(i, offs[j]) is FALSE:
                continue
            v = rs[j](loc)
            out = v if out is None else select(SBool(inr), v, out)
        return out
    sh = list(parts[0]._shape)
    sh[axis] = offs[-1]
    return NDArray(sh, fn, dtype=kinds(parts))


def np_pad(array, pad_width, mode="constant", constant_values=0, **kw):
    a = asarray(array)
    if kw:
        raise Unsupported(f"pad {kw}")
    pw = real_np.asarray(pad_width)
    pw = real_np.broadcast_to(pw, (a.ndim, 2))
    f = a.reader()
    lo = [int(x[0]) for x in pw]
    hi = [int(x[1]) for x in pw]
    shape = [d.add(T.const(l + h)) for d, l, h in zip(a._shape, lo, hi)]
    cv = num(constant_values)

    def fn(idx):
        conds, src = [], []
        for k, i in enumerate(idx):
            x = i.sub(T.const(lo[k]))
            n = a._shape[k]
            if mode == "constant":
                if lo[k]:
                    conds.append(T.ge0(x))
                if hi[k]:
                    conds.append(T.gt(n, x))
                src.append(x)
            elif mode == "wrap":
                # pad widths not larger than the extent (checked below)
                if lo[k] or hi[k]:
                    x = T.ite(T.ge0(x), T.ite(T.gt(n, x), x, x.sub(n)), x.add(n))
                src.append(x)
            elif mode == "edge":
                if lo[k] or hi[k]:
                    x = T.ite(T.ge0(x), T.ite(T.gt(n, x), x, n.sub(T.ONE)), T.ZERO)
                src.append(x)
            else:
                raise Unsupported(f"pad mode {mode}")
        c = T.and_(*conds)
        if c is FALSE:
            return cv
        return select(SBool(c), f(tuple(src)), cv)
    if mode == "wrap":
        for k in range(a.ndim):
            w = max(lo[k], hi[k])
            if w and not ctx().entails(T.ge(a._shape[k], T.const(w))):
                raise Unsupported("wrap pad wider than the array")
    return NDArray(shape, fn, dtype=a.kind, origin=[o.sub(T.const(l)) for o, l in zip(a.origin, lo)])


def np_where(cond, *ab):
    if not ab:
        raise Unsupported("np.where(cond)")
    a, b = ab
    arrs = [asarray(cond), asarray(a), asarray(b)]
    return ew(lambda c, x, y: select(c, x, y), *arrs, kind=kinds(arrs[1:]))


def shape_of(shape):
    if isinstance(shape, (list, tuple)):
        return tuple(P(d) for d in shape)
    return (P(shape),)


def full(shape, v, dtype=None, **k):
    kind = dtype_kind(dtype)
    x = sbool(v) if kind == "b" else num(v)
    return NDArray(shape_of(shape), lambda i: x, dtype=kind)


def np_gradient(f, *varargs, axis=None, edge_order=1):
    if varargs or edge_order != 1:
        raise Unsupported("gradient options")
    a = asarray(f)
    if axis is None:
        raise Unsupported("gradient over all axes")
    axis = axis % a.ndim
    n = a._shape[axis]
    if not ctx().entails(T.ge(n, T.const(2))):
        if not ctx().decide(T.ge(n, T.const(2))):
            raise ValueError("Shape of array too small to calculate a numerical gradient")
    r = a.reader()

    def fn(idx):
        i = idx[axis]

        def at(j):
            return r(idx[:axis] + (j,) + idx[axis + 1:])
        first = T.eq0(i)
        last = T.eq(i, n.sub(T.ONE))
        mid = (at(i.add(T.ONE)) - at(i.sub(T.ONE))) * num(Fraction(1, 2))
        return select(SBool(first), at(T.ONE) - at(T.ZERO),
                      select(SBool(last), at(n.sub(T.ONE)) - at(n.sub(T.const(2))), mid))
    return NDArray(a._shape, fn, origin=a.origin)


def np_diff(a, n=1, axis=-1, prepend=None, append=None):
    if n != 1:
        raise Unsupported("diff")
    a = asarray(a)
    axis %= a.ndim
    if prepend is not None or append is not None:
        def side(v):
            v = asarray(v)
            if v.ndim == 0:
                r = v.reader()
                v = NDArray([T.ONE if k == axis else s for k, s in enumerate(a._shape)], lambda i: r(()), dtype=v.kind)
            return v
        a = concat(([] if prepend is None else [side(prepend)]) + [a] + ([] if append is None else [side(append)]), axis)
    hi = getitem(a, tuple(slice(1, None) if k == axis else slice(None) for k in range(a.ndim)))
    lo = getitem(a, tuple(slice(None, -1) if k == axis else slice(None) for k in range(a.ndim)))
    return hi - lo


def np_sum(a, axis=None, skipna=False, **kw):
    a = asarray(a)
    kw.pop("dtype", None)
    if any(v is not None and v is not False for v in kw.values()):
        raise Unsupported(f"sum {kw}")
    axes = tuple(range(a.ndim)) if axis is None else tuple(x % a.ndim for x in ([axis] if not isinstance(axis, (tuple, list)) else axis))
    rest = [k for k in range(a.ndim) if k not in axes]
    if a.kind == "b" and len(axes) == 1 and a._shape[axes[0]].const() is None and all(T.eq0(o) is TRUE for o in a.origin):
        out = count_sym(a, axes[0])
        if out is not None:
            return out
    r = a.reader()

    def fn(idx):
        def el(bv):
            full_i = [None] * a.ndim
            for k, i in zip(rest, idx):
                full_i[k] = i
            for k, i in zip(axes, bv):
                full_i[k] = i.sub(a.origin[k])
            return num(r(tuple(full_i)))
        ranges = [(a.origin[k], a.origin[k].add(a._shape[k])) for k in axes]
        nanflag, badflag = [], []

        def body(bv):
            v = el(bv)
            bad = v.bad
            if skipna:
                val = T.ite(v.nan, T.ZERO, v.p)
            else:
                val = v.p
                if v.nan is not FALSE:
                    nanflag.append((v.nan, bv))
            if bad is not FALSE:
                badflag.append((bad, bv))
            return val
        s = T.sum_over(ranges, body)
        flags = []
        for lst in (nanflag, badflag):
            if not lst:
                flags.append(FALSE)
                continue
            # some element undefined: count of undefined elements > 0, kept as a sum of indicators
            b, bv0 = lst[0]
            cnt = T.sum_over(ranges, lambda bv: T.ite(T.subst_bool(b, {next(iter(p.d))[0][0]: q for p, q in zip(bv0, bv)}), T.ONE, T.ZERO))
            flags.append(T.not_(T.eq0(cnt)))
        return Num(s, flags[0], flags[1])
    out = NDArray([a._shape[k] for k in rest], fn, dtype="i" if a.kind in "bi" else "f", origin=[a.origin[k] for k in rest])
    return out.at() if not rest else out


def np_mean(a, axis=None, skipna=False):
    a = asarray(a)
    axes = tuple(range(a.ndim)) if axis is None else ([axis] if not isinstance(axis, (tuple, list)) else axis)
    n = num(1)
    for k in axes:
        n = n * Num(a._shape[k % a.ndim])
    return np_sum(a, axis, skipna) / n


def _const_elems(a, axes):
    sizes = [a._shape[k].const() for k in axes]
    if any(s is None for s in sizes):
        return None
    tot = 1
    for s in sizes:
        tot *= int(s)
    if tot > 64:
        return None
    return [tuple(T.const(i) for i in t) for t in itertools.product(*[range(int(s)) for s in sizes])]


def np_any(a, axis=None):
    a = asarray(a)
    axes = tuple(range(a.ndim)) if axis is None else tuple(x % a.ndim for x in ([axis] if not isinstance(axis, (tuple, list)) else axis))
    rest = [k for k in range(a.ndim) if k not in axes]
    r = a.reader()
    elems = _const_elems(a, axes)

    def mk(idx, bv):
        f = [None] * a.ndim
        for k, i in zip(rest, idx):
            f[k] = i
        for k, i in zip(axes, bv):
            f[k] = i
        return to_bool(r(tuple(f)))

    def fn(idx):
        if elems is not None:
            return SBool(T.or_(*[mk(idx, e) for e in elems]))
        return SBool(exists(a, axes, lambda bv: mk(idx, bv)))
    out = NDArray([a._shape[k] for k in rest], fn, dtype="b")
    return out.at() if not rest else out


def exists(a, axes, f):
    """Exists an index with f(idx).  Encoded with a fresh predicate and a witness:
    e  => f(w) and w in range;   not e => for all instances f(i) is false (added on demand)."""
    c = ctx()
    probe = tuple(T.var(f"#any{k}", "I") for k in range(len(axes)))
    body = f(probe)
    if body is FALSE:
        return FALSE
    rng = lambda bv: T.and_(*[x for i, k in zip(bv, axes) for x in (T.ge0(i), T.gt(a._shape[k], i))])
    if not (body.fv & frozenset(next(iter(p.d))[0][0] for p in probe)):
        return T.and_(body, *[T.gt0(a._shape[k]) for k in axes])
    keys = [next(iter(p.d))[0][0] for p in probe]
    # is the body false / true for an arbitrary index?
    sk = tuple(T.var(c.fresh("!any"), "I") for _ in axes)
    b_sk = f(sk)
    if c.prover.entails_quick(c.pc + [rng(sk)], T.not_(b_sk), c.quants):
        return FALSE
    r = c.prover.prove(c.pc + [rng(sk)], T.not_(b_sk), nra="near", quants=c.quants) if not has_hash(b_sk) else None
    if r is not None and r.status == "proved":
        return FALSE
    name = c.fresh("!exists")
    e = T.bvar(name)
    w = tuple(T.var(c.fresh("!wit"), "I") for _ in axes)
    c.assume(T.implies(e, T.and_(rng(w), f(w))))
    if len(axes) <= 3:
        c.forall(len(axes), lambda *bv: T.implies(T.and_(T.not_(e), rng(bv)), T.not_(T.subst_bool(body, dict(zip(keys, bv))))))
    return e


def has_hash(b):
    return any(v.name.startswith("#") for v in b.fv)


def np_all(a, axis=None):
    a = asarray(a)
    inv = ew(lambda x: SBool(T.not_(to_bool(x))), a, kind="b")
    r = np_any(inv, axis)
    return ~r


def np_extreme(a, which, axis=None):
    a = asarray(a)
    if axis is None:
        axes = tuple(range(a.ndim))
    else:
        axes = (axis % a.ndim,)
    elems = _const_elems(a, axes)
    rest = [k for k in range(a.ndim) if k not in axes]
    r = a.reader()
    if elems is None:
        if rest:
            raise Unsupported("min/max over symbolic extent along an axis")
        return Extreme(a, which)
    op = min_ if which == "min" else max_

    def fn(idx):
        out = None
        for e in elems:
            f = [None] * a.ndim
            for k, i in zip(rest, idx):
                f[k] = i
            for k, i in zip(axes, e):
                f[k] = i
            v = num(r(tuple(f)))
            out = v if out is None else op(out, v)
        return out
    out = NDArray([a._shape[k] for k in rest], fn, dtype=a.kind)
    return out.at() if not rest else out


class Extreme:
    """min()/max() of an array of symbolic extent: only its comparison with a bound is decidable:
    min >= c iff all elements >= c (and there is one)."""
    def __init__(self, a, which):
        self.a, self.which, self.durations = a, which, False

    def item(self):
        return self

    def _el(self, v):
        """A number; a duration in seconds."""
        if isinstance(v, Delta):
            self.durations = True
            return v.s
        return num(v)

    def _bound(self, o):
        return num(Delta(0)._o(o)) if isinstance(o, (Delta, datetime.timedelta)) else o

    def num(self):
        """The value itself: attained somewhere, and a bound of all elements."""
        if getattr(self, "_num", None) is not None:
            return self._num
        c, r = ctx(), self.a.reader()
        for n in self.a._shape:
            if c.prover.prove(c.pc, T.gt0(n), nra=False).status != "proved":
                raise Unsupported("min/max of a possibly empty array")
        w = [T.var(c.fresh("!at"), "I") for n in self.a._shape]
        v = self._el(r(tuple(w)))
        for i, n in zip(w, self.a._shape):
            c.assume(T.and_(T.ge0(i), T.gt(n, i)))
        m = T.var(c.fresh("!extreme"), "I" if self.a.kind == "i" else "R")
        c.assume(T.eq(m, v.p))
        sh = self.a._shape

        def bound(*i):
            e = self._el(r(tuple(i))).p
            inside = T.and_(*[T.and_(T.ge0(k), T.gt(n, k)) for k, n in zip(i, sh)])
            return T.implies(inside, T.ge(e, m) if self.which == "min" else T.ge(m, e))
        c.forall(self.a.ndim, bound)
        c.assume(bound(*[T.ZERO] * self.a.ndim))
        self._num = Num(m)
        return self._num

    def _value(self):
        v = self.num()
        if self.durations:
            raise Unsupported("arithmetic with an extreme duration")
        return v

    def __add__(self, o): return self._value() + o
    def __radd__(self, o): return o + self._value()
    def __sub__(self, o): return self._value() - o
    def __rsub__(self, o): return o - self._value()
    def __mul__(self, o): return self._value() * o
    def __rmul__(self, o): return o * self._value()
    def __truediv__(self, o): return self._value() / o
    def __rtruediv__(self, o): return o / self._value()
    def __neg__(self): return -self.num()
    def __abs__(self): return abs(self.num())

    __hash__ = object.__hash__

    def __eq__(self, o):
        return self.num() == (o.num() if isinstance(o, Extreme) else o)

    def __ne__(self, o):
        return self.num() != (o.num() if isinstance(o, Extreme) else o)

    def _all(self, f):
        r = self.a.reader()
        return np_all(NDArray(self.a._shape, lambda i: f(self._el(r(i))), dtype="b"))

    def __ge__(self, o):
        return self._all(lambda v: v >= self._bound(o)) if self.which == "min" else ~self._all(lambda v: v < self._bound(o))

    def __gt__(self, o):
        return self._all(lambda v: v > self._bound(o)) if self.which == "min" else ~self._all(lambda v: v <= self._bound(o))

    def __le__(self, o):
        return self._all(lambda v: v <= self._bound(o)) if self.which == "max" else ~self._all(lambda v: v > self._bound(o))

    def __lt__(self, o):
        return self._all(lambda v: v < self._bound(o)) if self.which == "max" else ~self._all(lambda v: v >= self._bound(o))


def np_argext(a, which, axis=None):
    a = asarray(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("argmin over several axes")
        axis = 0
    axis %= a.ndim
    n = a._shape[axis].const()
    r = a.reader()
    if n is None:
        if a.ndim == 1 and a.kind == "b":
            return argfirst(a, which)
        return argext_sym(a, which, axis)
    rest = [k for k in range(a.ndim) if k != axis]

    def fn(idx):
        best, bi = None, None
        for j in range(int(n)):
            f = list(idx[:axis]) + [T.const(j)] + list(idx[axis:])
            v = num(r(tuple(f)))
            if best is None:
                best, bi = v, num(0)
            else:
                c = (v < best) if which == "min" else (v > best)
                best, bi = select(c, v, best), select(c, num(j), bi)
        return bi
    out = NDArray([a._shape[k] for k in rest], fn, dtype="i")
    return out.at() if not rest else out


def in_range(i, n):
    return T.and_(T.ge0(i), T.gt(n, i))


def per_cell(facts):
    """Facts about one cell, stated when a value of that cell is first read."""
    def state(rest):
        c = V.Ctx.cur
        if c is None:
            return          # an instance of a fact, made while it is used
        names = [v.name for x in rest for v in x.fv]
        if any(v.startswith("#b") for v in names):
            raise Unsupported("position that depends on a bound index")
        if any(v.startswith("#") for v in names):
            return          # a pattern, to be instantiated
        key = (id(facts), tuple(x.id for x in rest))
        if key not in c.stated:
            c.stated[key] = facts
            facts(c, rest)
    return state


def argext_sym(a, which, axis):
    """Position of the first smallest/largest element along an axis of any extent."""
    c0 = ctx()
    n = a._shape[axis]
    if c0.prover.prove(c0.pc, T.gt0(n), nra=False).status != "proved":
        raise Unsupported("argmin of a possibly empty axis")
    r = a.reader()
    name = c0.fresh("!arg")

    def at(k, rest):
        v = num(r(rest[:axis] + (k,) + rest[axis:]))
        if v.nan is not FALSE or v.bad is not FALSE:
            raise Unsupported("extreme of values that may be missing")
        return v.p
    w = lambda rest: T.app(name, rest, "I") if rest else T.var(name, "I")

    def facts(c, rest):
        p = w(rest)
        c.assume(in_range(p, n))
        best = lambda k: (T.ge(at(k, rest), at(p, rest)), T.gt(at(k, rest), at(p, rest))) if which == "min" else (T.ge(at(p, rest), at(k, rest)), T.gt(at(p, rest), at(k, rest)))
        c.forall(1, lambda k: T.implies(in_range(k, n), T.and_(best(k)[0], T.or_(T.ge(k, p), best(k)[1]))))
    state = per_cell(facts)

    def fn(idx):
        state(idx)
        return Num(w(idx))
    out = NDArray([d for k, d in enumerate(a._shape) if k != axis], fn, dtype="i")
    return out.at() if a.ndim == 1 else out


def argfirst(a, which):
    """Index of the first False (min) / True (max) of a Boolean vector; 0 if there is none."""
    c = ctx()
    r = a.reader()
    n = a._shape[0]
    w = T.var(c.fresh("!first"), "I")
    hit = (lambda i: T.not_(to_bool(r((i,))))) if which == "min" else (lambda i: to_bool(r((i,))))
    c.assume(T.and_(T.ge0(w), T.gt(n, w)))
    c.assume(T.or_(hit(w), T.eq0(w)))
    c.forall(1, lambda i: T.implies(T.and_(T.ge0(i), T.gt(n, i), hit(i)), T.and_(T.ge(i, w), hit(w))))
    return Num(w)


def np_insert(arr, obj, values, axis=None):
    a = asarray(arr)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("insert without axis")
        axis = 0
    axis %= a.ndim
    pos = int(obj)
    v = asarray(values)
    if a.kind == "i" and v.kind == "f":
        v = ew(trunc, v, kind="i")
    # scalar or array without the axis
    if v.ndim == 0:
        new = NDArray([T.ONE if k == axis else d for k, d in enumerate(a._shape)], lambda i: v.at(), dtype=v.kind)
    elif v.ndim == a.ndim - 1:
        vf = v.reader()
        for d, e in zip(v._shape, [d for k, d in enumerate(a._shape) if k != axis]):
            if not same_dim(d, e):
                import os, traceback
                os.environ.get("VC_TB") and (print(a._shape, v._shape, axis), traceback.print_stack(limit=4))
                raise ValueError("insert shape mismatch")
        # numpy: values of lower rank broadcast against the inserted slab; for axis 0 that is the
        # slab itself, otherwise numpy moves axis 0 of values to `axis` -- equivalent for an int index
        new = NDArray([T.ONE if k == axis else d for k, d in enumerate(a._shape)],
                      lambda i: vf(i[:axis] + i[axis + 1:]), dtype=v.kind)
    else:
        raise Unsupported("insert values rank")
    key0 = tuple(slice(None, pos) if k == axis else slice(None) for k in range(a.ndim))
    key1 = tuple(slice(pos, None) if k == axis else slice(None) for k in range(a.ndim))
    parts = ([getitem(a, key0)] if pos else []) + [new, getitem(a, key1)]
    out = concat(parts, axis)
    out.kind = a.kind if a.kind != "b" else kinds(parts)
    return out


def np_take(a, idx, axis=None):
    a = asarray(a)
    axis = 0 if axis is None else axis % a.ndim
    return getitem(a, tuple(idx if k == axis else slice(None) for k in range(a.ndim)))


def np_moveaxis(a, s, d):
    a = asarray(a)
    s, d = s % a.ndim, d % a.ndim
    order = [k for k in range(a.ndim) if k != s]
    order.insert(d, s)
    return transpose(a, *order)


def np_flip(a, axis=None):
    a = asarray(a)
    ax = [axis % a.ndim] if axis is not None else list(range(a.ndim))
    return getitem(a, tuple(slice(None, None, -1) if k in ax else slice(None) for k in range(a.ndim)))


def np_argsort(a, axis=-1, **kw):
    """Stable sorting permutation for a concrete small extent (rank of each element)."""
    a = asarray(a)
    axis %= a.ndim
    n = a._shape[axis].const()
    if n is None or n > 8:
        return argsort_sym(a, axis)
    n = int(n)
    r = a.reader()

    def ranks(rest):
        vs = [num(r(rest[:axis] + (T.const(j),) + rest[axis:])) for j in range(n)]
        out = []
        for j in range(n):
            k = num(0)
            for i in range(n):
                if i < j:
                    k = k + num(vs[i] <= vs[j])
                elif i > j:
                    k = k + num(vs[i] < vs[j])
            out.append(k)
        return out

    def fn(idx):
        rest = idx[:axis] + idx[axis + 1:]
        rk = ranks(rest)
        i = Num(idx[axis])
        out = num(n - 1)
        for j in reversed(range(n - 1)):
            out = select(rk[j] == i, num(j), out)
        return out
    return NDArray(a._shape, fn, dtype="i")


def same_values(a, b):
    """Provably the same numbers, by normal form, everywhere."""
    if a is b:
        return True
    if a.ndim != b.ndim or not all(same_dim(x, y) for x, y in zip(a._shape, b._shape)):
        return False
    c = ctx()
    sk = tuple(T.var(c.fresh("!same"), "I") for _ in a._shape)
    x, y = num(a.reader()(sk)), num(b.reader()(sk))
    return x.nan is y.nan and x.bad is y.bad and T.eq(x.p, y.p) is TRUE


def argsort_sym(a, axis):
    """Sorting along an axis of any extent: in every cell some permutation that puts the values in order,
    the same one whenever the same values are sorted (ties are left open)."""
    c0 = ctx()
    for other, ax, out in c0.sorts:
        if ax == axis and same_values(a, other):
            return out
    n = a._shape[axis]
    frozen_a = a.copy()
    r = frozen_a.reader()
    q, p = c0.fresh("!order"), c0.fresh("!place")

    def within(i):
        c = V.Ctx.cur
        if c is None:
            return False
        return c.prover.entails_quick(c.pc, in_range(i, n), [x for x in c.quants if x[0] == 1 and len(x) > 2])

    def pos(k, rest):
        m = only_app(k, p)
        if m is not None and tuple(x.id for x in m[1:]) == tuple(x.id for x in rest) and within(m[0]):
            return m[0]
        return T.app(q, (k,) + rest, "I")

    def place(i, rest):
        m = only_app(i, q)
        if m is not None and tuple(x.id for x in m[1:]) == tuple(x.id for x in rest) and within(m[0]):
            return m[0]
        return T.app(p, (i,) + rest, "I")

    def key(i, rest):
        v = num(r(rest[:axis] + (i,) + rest[axis:]))
        if v.nan is not FALSE or v.bad is not FALSE:
            raise Unsupported("sorting values that may be missing")
        return v.p
    raw = lambda f, k, rest: T.app(f, (k,) + rest, "I")

    def facts(c, rest):
        c.forall(1, lambda k: T.implies(in_range(k, n), T.and_(in_range(raw(q, k, rest), n), T.eq(raw(p, raw(q, k, rest), rest), k))), ((q, rest),))
        c.forall(1, lambda i: T.implies(in_range(i, n), T.and_(in_range(raw(p, i, rest), n), T.eq(raw(q, raw(p, i, rest), rest), i))), ((p, rest),))
        c.forall(2, lambda k, j: T.implies(T.and_(T.ge0(k), T.gt(j, k), T.gt(n, j)), T.ge(key(raw(q, j, rest), rest), key(raw(q, k, rest), rest))), ((q, rest),))
        # the ends
        ends = lambda i: T.implies(in_range(i, n), T.and_(T.ge(key(i, rest), key(raw(q, T.ZERO, rest), rest)), T.ge(key(raw(q, n.sub(T.ONE), rest), rest), key(i, rest))))
        c.forall(1, ends)
        for k in (0, 1):
            c.assume(ends(T.const(k)))
        # read at a place: the value sorted there
        c.forall(2, lambda i, k: T.implies(T.and_(in_range(i, n), in_range(k, n)), T.and_(
            T.implies(T.gt(k, raw(p, i, rest)), T.ge(key(raw(q, k, rest), rest), key(i, rest))),
            T.implies(T.gt(raw(p, i, rest), k), T.ge(key(i, rest), key(raw(q, k, rest), rest))))), ((p, rest), (q, rest)))
        c.forall(2, lambda i, k: T.implies(T.and_(in_range(i, n), in_range(k, n), T.gt(raw(p, k, rest), raw(p, i, rest))), T.ge(key(k, rest), key(i, rest))), ((p, rest),))
    state = per_cell(facts)

    def fn(idx):
        rest = idx[:axis] + idx[axis + 1:]
        state(rest)
        return Num(pos(idx[axis], rest))
    out = NDArray(a._shape, fn, dtype="i")

    def placed(i, rest):
        state(rest)
        return place(i, rest)
    c0.sorts.append((frozen_a, axis, out))
    c0.cell_places.append(placed)
    return out


def only_app(t, name):
    """The arguments if t is just an application of that function."""
    if len(t.d) != 1:
        return None
    (m, k), = t.d.items()
    if k != 1 or len(m) != 1 or m[0][1] != 1:
        return None
    a = m[0][0]
    return a.args if a.kind == "app" and a.name == name else None


def count_sym(a, axis):
    """Number of true entries along an axis where, in every cell, they come first (or last); None if not provable."""
    c0 = ctx()
    n = a._shape[axis]
    r = a.reader()
    sk = [T.var(c0.fresh("!cnt"), "I") for _ in a._shape]
    k = sk[axis]
    hit = lambda k, rest: to_bool(r(rest[:axis] + (k,) + rest[axis:]))
    rest = tuple(x for q, x in enumerate(sk) if q != axis)
    h = [in_range(x, d) for q, (x, d) in enumerate(zip(sk, a._shape)) if q != axis] + [T.ge0(k), T.gt(n, k.add(T.ONE))]
    x, y = hit(k, rest), hit(k.add(T.ONE), rest)
    pr = lambda g: c0.prover.prove(c0.pc + h, g, nra=False, quants=c0.quants).status == "proved"
    first = pr(T.implies(y, x))
    if not first and not pr(T.implies(x, y)):
        return None
    name = c0.fresh("!count")
    w = lambda rest: T.app(name, rest, "I") if rest else T.var(name, "I")

    def facts(c, rest):
        m = w(rest)
        c.assume(T.and_(T.ge0(m), T.ge(n, m)))
        before = (lambda k: T.gt(m, k)) if first else (lambda k: T.ge(k, n.sub(m)))
        fact = lambda k: T.implies(in_range(k, n), T.bite(before(k), hit(k, rest), T.not_(hit(k, rest))))
        c.forall(1, fact)
        for k in (m, m.sub(T.ONE)) if first else (n.sub(m), n.sub(m).sub(T.ONE)):
            c.assume(fact(k))
    state = per_cell(facts)

    def fn(idx):
        state(idx)
        return Num(w(idx))
    out = NDArray([d for q, d in enumerate(a._shape) if q != axis], fn, dtype="i")
    return out.at() if a.ndim == 1 else out


def np_take_along_axis(arr, idx, axis):
    a, ix = asarray(arr), asarray(idx)
    axis %= a.ndim
    f, g = a.reader(), ix.reader()
    n = a._shape[axis].const()

    def fn(i):
        j = num(g(i)).p
        if n is not None and j.const() is None:
            out = None
            for k in reversed(range(int(n))):
                v = f(i[:axis] + (T.const(k),) + i[axis + 1:])
                out = v if out is None else select(SBool(T.eq(j, T.const(k))), v, out)
            return out
        return f(i[:axis] + (j,) + i[axis + 1:])
    return NDArray(ix._shape, fn, dtype=a.kind)


def np_median(a, **k):
    """Median: of a vector whose elements are provably all equal, that value; else opaque."""
    a = asarray(a)
    if a.ndim != 1:
        raise Unsupported("median")
    c = ctx()
    sk = T.var(c.fresh("!med"), "I")
    r = a.reader()
    v0, v = num(r((T.ZERO,))), num(r((sk,)))
    h = [T.ge0(sk), T.gt(a._shape[0], sk)]
    if c.prover.prove(c.pc + h, T.eq(v.p, v0.p), nra=False).status == "proved":
        return v0
    raise Unsupported("median of unequal elements")


def uf(name, facts=None):
    def g(x):
        x = num(x)
        k = x.p.const()
        if k == 0 and name in ("sin",):
            return num(0)
        if k == 0 and name in ("cos", "exp"):
            return num(1)
        return Num(T.app(name, (x.p,)), x.nan, x.bad)
    return g


PI = Num(T.var("PI"))


class NP:
    """Model of the numpy namespace."""
    pi = PI
    nan = float("nan")
    ndarray = NDArray
    float32, float64, int64, int32, bool_ = real_np.float32, real_np.float64, real_np.int64, real_np.int32, real_np.bool_
    newaxis = None

    class _S:
        def __getitem__(self, k):
            return k
    s_ = _S()

    class random:
        @staticmethod
        def randint(*a):
            return 1

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        def missing(*a, **k):
            raise Unsupported(f"numpy.{name} is not modelled")
        return missing


def _xr_dispatch(f):
    def g(*args, **kw):
        for a in args:
            if getattr(a, "_is_xr", False):
                return a._np_apply(f, args, kw)
        return f(*args, **kw)
    return g


def _u1(fun, kind=None):
    return _xr_dispatch(lambda x: ew(fun, x, kind=kind))


def _u2(fun, kind=None):
    return _xr_dispatch(lambda x, y: ew(fun, x, y, kind=kind))


def np_expand1(v):
    a = asarray(v)
    x = a.at()
    return NDArray([T.ONE], lambda i: x, dtype=a.kind)


def _unsupported(why):
    raise Unsupported(why)


def make_np():
    n = NP()
    n.abs = n.absolute = n.fabs = _u1(abs_)
    n.sign = _u1(sign_)
    n.negative = _u1(lambda a: -num(a))
    n.minimum = _u2(min_)
    n.maximum = _u2(max_)
    n.add = _u2(lambda a, b: a + b)
    n.subtract = _u2(lambda a, b: a - b)
    n.multiply = _u2(lambda a, b: a * b)
    n.divide = n.true_divide = _u2(lambda a, b: num(a) / b, "f")
    n.square = _u1(lambda a: num(a) * num(a))
    n.greater = _u2(lambda a, b: a > b, "b")
    n.less = _u2(lambda a, b: a < b, "b")
    n.greater_equal = _u2(lambda a, b: a >= b, "b")
    n.less_equal = _u2(lambda a, b: a <= b, "b")
    n.equal = _u2(lambda a, b: a == b, "b")
    n.logical_and = _u2(lambda a, b: SBool(T.and_(to_bool(a), to_bool(b))), "b")
    n.logical_or = _u2(lambda a, b: SBool(T.or_(to_bool(a), to_bool(b))), "b")
    n.logical_not = _u1(lambda a: SBool(T.not_(to_bool(a))), "b")
    n.isnan = _u1(lambda a: SBool(num(a).nan), "b")
    n.isfinite = _u1(lambda a: SBool(T.and_(T.not_(num(a).nan), T.not_(num(a).bad))), "b")
    n.cos, n.sin, n.exp = _u1(uf("cos"), "f"), _u1(uf("sin"), "f"), _u1(uf("exp"), "f")
    n.log, n.sqrt = _u1(uf("log"), "f"), _u1(uf("sqrt"), "f")
    n.deg2rad = n.radians = _u1(lambda a: num(a) * PI / 180, "f")
    n.rad2deg = _u1(lambda a: num(a) * 180 / PI, "f")
    n.where = lambda c, *ab: np_where(c, *ab)
    n.clip = _xr_dispatch(lambda a, lo, hi: ew(lambda x, l, h: min_(max_(x, l), h), a, lo, hi))
    n.pad = np_pad
    n.zeros = lambda shape, dtype=None, **k: full(shape, 0, dtype)
    n.ones = lambda shape, dtype=None, **k: full(shape, 1, dtype)
    n.full = lambda shape, v, dtype=None, **k: full(shape, v, dtype)
    def empty(shape, dtype=None, **k):
        """Uninitialised memory: an arbitrary value per element."""
        name = ctx().fresh("!uninit")
        return NDArray(shape_of(shape), lambda i: Num(T.app(name, tuple(i))), dtype=dtype_kind(dtype) if dtype is not None else "f")
    n.empty = empty

    def like(v):
        def g(a, dtype=None, **k):
            if getattr(a, "_is_xr", False):
                return a._np_apply(lambda x: full(asarray(x)._shape, v, dtype), (a,), {})
            a = asarray(a)
            return full(a._shape, v, dtype if dtype is not None else a.dtype)
        return g
    n.zeros_like, n.ones_like = like(0), like(1)
    n.empty_like = lambda a, dtype=None, **k: empty(asarray(a)._shape, dtype)
    n.full_like = lambda a, v, dtype=None, **k: full(asarray(a)._shape, v, dtype if dtype is not None else asarray(a).dtype)
    n.gradient = np_gradient
    n.diff = np_diff
    n.sum = _xr_reduce("sum", np_sum)
    n.mean = _xr_reduce("mean", lambda a, axis=None, **k: np_mean(a, axis))
    n.any = lambda a, axis=None, **k: np_any(a, axis)
    n.all = lambda a, axis=None, **k: np_all(a, axis)
    n.min = n.amin = lambda a, axis=None, **k: np_extreme(a, "min", axis)
    n.max = n.amax = lambda a, axis=None, **k: np_extreme(a, "max", axis)
    n.argmin = lambda a, axis=None: np_argext(a, "min", axis)
    n.argmax = lambda a, axis=None: np_argext(a, "max", axis)
    n.array = lambda v, dtype=None, **k: asarray(v, dtype, copy=True)
    n.asarray = lambda v, dtype=None, **k: asarray(v, dtype)
    n.copy = lambda v, **k: asarray(v).copy()
    n.concatenate = lambda parts, axis=0: concat(list(parts), axis)
    one = lambda p: p if asarray(p).ndim else np_expand1(p)
    n.block, n.hstack, n.vstack, n.column_stack = np_block, np_hstack, np_vstack, np_column_stack
    n.reshape = lambda a, shape: asarray(a).reshape(shape)
    n.ravel = lambda a: asarray(a).ravel()
    n.cumsum, n.sort = np_cumsum, np_sort
    n.nansum = lambda a, axis=None: np_sum(a, axis, skipna=True)
    nan_or = lambda f: lambda x, y: select(SBool(num(x).nan), num(y), select(SBool(num(y).nan), num(x), f(x, y)))
    n.fmin, n.fmax = _u2(nan_or(min_)), _u2(nan_or(max_))
    n.power = _u2(lambda a, b: num(a) ** b)
    n.not_equal = _u2(lambda a, b: ~(a == b), "b")
    n.positive = _u1(lambda a: num(a))
    n.atleast_1d = lambda a: one(a)
    n.append = lambda a, b, axis=None: concat([asarray(a), asarray(b)], axis or 0)
    n.insert, n.take = np_insert, np_take
    n.moveaxis, n.flip = np_moveaxis, np_flip
    n.swapaxes = lambda a, x, y: transpose(asarray(a), *[(y % asarray(a).ndim if k == x % asarray(a).ndim else x % asarray(a).ndim if k == y % asarray(a).ndim else k) for k in range(asarray(a).ndim)])
    n.transpose = lambda a, axes=None: transpose(asarray(a), *(axes or ()))
    n.argsort, n.take_along_axis, n.median = np_argsort, np_take_along_axis, np_median
    n.size = lambda a, axis=None: (asarray(a).size if axis is None else asarray(a).shape[axis % asarray(a).ndim])
    n.ndim = lambda a: asarray(a).ndim
    n.shape = lambda a: asarray(a).shape
    n.squeeze = lambda a, axis=None: squeeze(asarray(a), axis)
    n.expand_dims = lambda a, axis: getitem(asarray(a), tuple([slice(None)] * (axis % (asarray(a).ndim + 1)) + [None]))
    n.roll = np_roll
    n.stack = lambda parts, axis=0: np_stack([asarray(p) for p in parts], axis)
    n.broadcast_to = lambda a, shape: ew(lambda x, y: x, asarray(a), full(shape, 0))

    def arange(*a, **k):
        a = [P(x) for x in a]
        lo, hi = (T.ZERO, a[0]) if len(a) == 1 else (a[0], a[1])
        if len(a) == 3:
            raise Unsupported("arange step")
        return NDArray([hi.sub(lo)], lambda i: Num(i[0].add(lo)), dtype="i")
    n.arange = arange

    def meshgrid(*xs, indexing="xy"):
        xs = [asarray(x if not isinstance(x, SymRange) else x.arr()) for x in xs]
        if indexing != "ij":
            raise Unsupported("meshgrid xy")
        sh = [x._shape[0] for x in xs]
        return [NDArray(sh, (lambda r, k: lambda i: r((i[k],)))(x.reader(), k), dtype=x.kind) for k, x in enumerate(xs)]
    n.meshgrid = meshgrid

    def indices(shape, **k):
        sh = shape_of(shape)
        return [NDArray(sh, (lambda k: lambda i: Num(i[k]))(k), dtype="i") for k in range(len(sh))]
    n.indices = indices
    n.ogrid = None

    def repeat(a, repeats, axis=None):
        a = asarray(a)
        if a.ndim != 1:
            raise Unsupported("repeat")
        r, k = a.reader(), int(repeats)
        return NDArray([a._shape[0].scale(Fraction(k))], lambda i: r((T.floor_(i[0].scale(Fraction(1, k))),)), dtype=a.kind)
    n.repeat = repeat
    return n


def np_roll(a, shift, axis=None):
    a = asarray(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("roll flat")
        axis = 0
    axis %= a.ndim
    n = a._shape[axis]
    r = a.reader()
    s = P(shift)

    def fn(idx):
        x = idx[axis].sub(s)
        if s.const() is not None or True:
            # |shift| <= n is enough for one wrap in either direction; checked below
            x = T.ite(T.ge0(x), T.ite(T.gt(n, x), x, x.sub(n)), x.add(n))
        return r(idx[:axis] + (x,) + idx[axis + 1:])
    if not ctx().entails(T.and_(T.ge(n, s), T.ge(n, s.neg()))):
        raise Unsupported("roll by more than the extent")
    return NDArray(a._shape, fn, dtype=a.kind)


def _xr_reduce(name, f):
    def g(a, axis=None, **k):
        if getattr(a, "_is_xr", False):
            return getattr(a, name)() if axis is None else getattr(a, name)(axis=axis)
        return f(a, axis=axis, **k)
    return g


class SymRange:
    """range(n) with a symbolic bound."""
    def __init__(self, *a):
        a = [num(x) for x in a]
        self.lo, self.hi = (num(0), a[0]) if len(a) == 1 else (a[0], a[1])
        if len(a) == 3:
            raise Unsupported("range step")

    def arr(self):
        lo = self.lo.p
        return NDArray([self.hi.p.sub(lo)], lambda i: Num(i[0].add(lo)), dtype="i")

    def __iter__(self):
        raise Unsupported("loop over a symbolic range needs an invariant")
