"""Model of the part of xarray used by the code under verification."""
from __future__ import annotations
import operator
from fractions import Fraction
from . import terms as T
from .terms import Unsupported, TRUE, FALSE
from .values import *
from . import values as V
from . import arrays as A
from .arrays import NDArray, asarray, ew, P


class Var:
    """Named-dimension variable; the data buffer may be shared."""
    __slots__ = ("dims", "data", "attrs", "encoding")

    def __init__(self, dims, data, attrs=None):
        data = asarray(data)
        if isinstance(dims, str):
            dims = (dims,)
        self.dims = tuple(dims)
        if len(self.dims) != data.ndim:
            raise ValueError(f"different number of dimensions on data and dims: {data.ndim} vs {len(self.dims)}")
        self.data = data
        self.attrs = dict(attrs or {})
        self.encoding = {}

    def copy(self, deep=True):
        return Var(self.dims, self.data.copy() if deep else self.data, self.attrs)

    def dimsizes(self):
        return dict(zip(self.dims, self.data._shape))

    ndim = property(lambda self: self.data.ndim)
    shape = property(lambda self: self.data.shape)
    values = property(lambda self: self.data)
    sizes = property(lambda self: dict(zip(self.dims, self.data.shape)))


def same_data(a: NDArray, b: NDArray) -> bool:
    """Definitely the same coordinate values?"""
    if a is b:
        return True
    ra, rb = a.reader(), b.reader()
    if ra.src is rb.src or ra.src == rb.src:
        return True
    if len(a._shape) != len(b._shape):
        return False
    c = ctx()
    for x, y in zip(a._shape, b._shape):
        if not c.entails(T.eq(x, y)):
            return False
    sk = tuple(T.var(c.fresh("!crd"), "I") for _ in a._shape)
    h = [q for s, d in zip(sk, a._shape) for q in (T.ge0(s), T.gt(d, s))]
    va, vb = ra(sk), rb(sk)
    if isinstance(va, Time):
        va, vb = va.s, vb.s
    va, vb = num(va), num(vb)
    return c.prover.prove(c.pc + h, T.eq(va.p, vb.p), nra=False).status == "proved"


def definitely_different(a, b):
    ctx_ = ctx()
    for x, y in zip(a._shape, b._shape):
        if ctx_.entails(T.not_(T.eq(x, y))):
            return True
    return False


def align_coords(objs):
    """Merge coordinates; dimension coordinates must agree (inner joins of different indexes are
    outside the model)."""
    out = {}
    for o in objs:
        for k, v in o.items():
            if k in out:
                if out[k] is v:
                    continue
                if not same_data(out[k].data, v.data):
                    if k in v.dims and len(v.dims) == 1:
                        raise Unsupported(f"alignment of different '{k}' indexes")
                    out[k] = None  # conflicting non-index coordinate is dropped
            else:
                out[k] = v
    return {k: v for k, v in out.items() if v is not None}


def bcast_vars(vs):
    dims = []
    for v in vs:
        for d in v.dims:
            if d not in dims:
                dims.append(d)
    return tuple(dims)


def expand(v: Var, dims):
    """Array of v with dims order `dims` (missing ones get extent 1)."""
    order = [d for d in dims if d in v.dims]
    a = v.data
    if tuple(order) != v.dims:
        a = A.transpose(a, *[v.dims.index(d) for d in order])
    key = tuple(slice(None) if d in v.dims else None for d in dims)
    return a[key] if any(k is None for k in key) else a


def var_op(f, *vs, kind=None):
    """Elementwise on Vars / scalars / raw arrays."""
    named = [v for v in vs if isinstance(v, Var)]
    dims = bcast_vars(named)
    args = []
    for v in vs:
        if isinstance(v, Var):
            args.append(expand(v, dims))
        else:
            a = asarray(v)
            if a.ndim not in (0,) and a.ndim != len(dims):
                if a.ndim > len(dims):
                    raise ValueError("array with more dimensions than the DataArray")
            args.append(v if a.ndim == 0 else a)
    r = asarray(ew(f, *args, kind=kind))
    return Var(dims, r)


class Indexes(dict):
    pass


class _IndexView:
    def __init__(self, owner):
        self.o = owner

    def __getitem__(self, k):
        return self.o[k].to_index()


class Coords:
    _is_coords = True

    def __init__(self, owner):
        self.o = owner

    def __getitem__(self, k):
        if k not in self.o._coords:
            raise KeyError(k)
        return self.o._coord_da(k)

    def __setitem__(self, k, v):
        self.o._set_coord(k, v)

    def __contains__(self, k):
        return k in self.o._coords

    def __iter__(self):
        return iter(list(self.o._coords))

    def keys(self):
        return list(self.o._coords)

    def items(self):
        return [(k, self[k]) for k in self.o._coords]

    def values(self):
        return [self[k] for k in self.o._coords]

    def __len__(self):
        return len(self.o._coords)


def as_var(v, name=None):
    if isinstance(v, DataArray):
        return v._var
    if isinstance(v, Var):
        return v
    if isinstance(v, tuple):
        return Var(v[0], v[1], v[2] if len(v) > 2 else None)
    a = asarray(v)
    if a.ndim == 0:
        return Var((), a)
    if a.ndim == 1 and name is not None:
        return Var((name,), a)
    raise ValueError("could not convert to a variable")


class _Dt:
    def __init__(self, da):
        self.da = da

    def _part(self, f):
        return self.da._unop(lambda t: Num(f(t.s.p)), "i")

    @property
    def hour(self):
        return self._part(lambda s: T.floor_(_inday(s).scale(Fraction(1, 3600))))

    @property
    def minute(self):
        return self._part(lambda s: T.floor_(_inday(s).scale(Fraction(1, 60))).sub(T.floor_(_inday(s).scale(Fraction(1, 3600))).scale(Fraction(60))))

    @property
    def second(self):
        return self._part(lambda s: T.floor_(_inday(s)).sub(T.floor_(_inday(s).scale(Fraction(1, 60))).scale(Fraction(60))))

    def __getattr__(self, k):
        raise Unsupported(f".dt.{k}")


def _inday(s):
    """Seconds since midnight."""
    return s.sub(T.floor_(s.scale(Fraction(1, 86400))).scale(Fraction(86400)))


class _Base:
    _is_xr = True
    __array_priority__ = 3000
    __array_ufunc__ = None

    @property
    def coords(self):
        return Coords(self)

    @property
    def indexes(self):
        return _IndexView(self)

    def _sizes(self):
        raise NotImplementedError

    @property
    def sizes(self):
        return {k: A.dimval(v) for k, v in self._sizes().items()}

    def __add__(self, o): return self._binop(o, lambda a, b: a + b)
    def __radd__(self, o): return self._binop(o, lambda a, b: b + a)
    def __sub__(self, o): return self._binop(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._binop(o, lambda a, b: b - a)
    def __mul__(self, o): return self._binop(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._binop(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._binop(o, lambda a, b: num(a) / b, "f")
    def __rtruediv__(self, o): return self._binop(o, lambda a, b: num(b) / a, "f")
    def __floordiv__(self, o): return self._binop(o, lambda a, b: num(a) // b)
    def __mod__(self, o): return self._binop(o, lambda a, b: num(a) % b)
    def __pow__(self, o): return self._binop(o, lambda a, b: num(a) ** b)
    def __neg__(self): return self._unop(lambda a: -num(a))
    def __abs__(self): return self._unop(abs_)
    def __invert__(self): return self._unop(lambda a: SBool(T.not_(to_bool(a))), "b")
    def __and__(self, o): return self._binop(o, lambda a, b: a & b, "b")
    __rand__ = __and__
    def __or__(self, o): return self._binop(o, lambda a, b: a | b, "b")
    __ror__ = __or__
    def __lt__(self, o): return self._binop(o, lambda a, b: a < b, "b")
    def __le__(self, o): return self._binop(o, lambda a, b: a <= b, "b")
    def __gt__(self, o): return self._binop(o, lambda a, b: a > b, "b")
    def __ge__(self, o): return self._binop(o, lambda a, b: a >= b, "b")
    def __eq__(self, o): return self._binop(o, lambda a, b: a == b, "b")
    def __ne__(self, o): return self._binop(o, lambda a, b: a != b, "b")
    __hash__ = None

    def __iadd__(self, o): return self._inplace(o, lambda a, b: a + b)
    def __isub__(self, o): return self._inplace(o, lambda a, b: a - b)
    def __imul__(self, o): return self._inplace(o, lambda a, b: a * b)
    def __itruediv__(self, o): return self._inplace(o, lambda a, b: num(a) / b)

    def fillna(self, v):
        return self._binop(v, lambda a, b: select(SBool(num(a).nan), num(b), Num(num(a).p, FALSE, num(a).bad)))

    def isnull(self):
        return self._unop(lambda a: SBool(num(a).nan), "b")
    isna = isnull

    def notnull(self):
        return ~self.isnull()

    def clip(self, min=None, max=None):
        r = self
        if min is not None:
            r = r._binop(min, max_)
        if max is not None:
            r = r._binop(max, min_)
        return r

    def load(self, *a, **k): return self
    def compute(self, *a, **k): return self.copy()
    def persist(self, *a, **k): return self
    def close(self): pass

    def reset_coords(self, names=None, drop=False):
        if not drop:
            raise Unsupported("reset_coords")
        return self.drop_vars(names)


class DataArray(_Base):
    def __init__(self, data=None, coords=None, dims=None, name=None, attrs=None, **kw):
        cs = {}
        if isinstance(coords, (Coords,)):
            cs = {k: v._var for k, v in coords.items()}
            if dims is None:
                dims = coords.o._dim_order()
        elif isinstance(coords, dict):
            for k, v in coords.items():
                cs[k] = as_var(v, k)
            if dims is None:
                dims = tuple(coords)
        elif coords is not None:
            if dims is None:
                raise Unsupported("coords list without dims")
            cs = {d: as_var(c, d) for d, c in zip(dims, coords)}
        if isinstance(data, DataArray):
            if coords is None:
                cs = dict(data._coords)
                dims = dims or data.dims
            if name is None:
                name = data.name
            data = data._var.data
        a = asarray(data)
        if isinstance(dims, str):
            dims = (dims,)
        if a.ndim == 0 and dims:
            sizes = {}
            for v in cs.values():
                sizes.update(v.dimsizes())
            x = a.at()
            a = NDArray([sizes[d] for d in dims], lambda i: x, dtype=a.kind)
        if dims is None:
            dims = tuple(f"dim_{k}" for k in range(a.ndim))
        if len(dims) != a.ndim:
            raise ValueError(f"different number of dimensions on data and dims: {a.ndim} vs {len(dims)}")
        self._var = Var(dims, a, attrs)
        for k, v in cs.items():
            for d, n in v.dimsizes().items():
                if d in self._var.dims and not A.same_dim(n, self._var.dimsizes()[d]):
                    raise ValueError(f"conflicting sizes for dimension {d!r}")
        self._coords = {k: v for k, v in cs.items() if all(d in self._var.dims for d in v.dims)}
        if len(self._coords) != len(cs):
            raise ValueError("coordinate has dimensions not in the array")
        self.name = name
        self.encoding = {}

    @classmethod
    def _mk(cls, var, coords, name=None):
        o = cls.__new__(cls)
        o._var, o.name = var, name
        o._coords = {k: v for k, v in coords.items() if all(d in var.dims for d in v.dims)}
        o.encoding = {}
        return o

    # properties
    @property
    def attrs(self): return self._var.attrs

    @attrs.setter
    def attrs(self, v): self._var.attrs = dict(v)

    @property
    def units(self):
        return self._var.attrs["units"]

    @property
    def dims(self): return self._var.dims

    @property
    def shape(self): return self._var.data.shape

    @property
    def ndim(self): return self._var.data.ndim

    @property
    def size(self): return self._var.data.size

    @property
    def dtype(self): return self._var.data.dtype

    @property
    def variable(self): return self._var

    @property
    def values(self): return self._var.data

    @values.setter
    def values(self, v):
        v = asarray(v)
        if v.ndim != self.ndim or any(not A.same_dim(a, b) for a, b in zip(v._shape, self._var.data._shape)):
            raise ValueError(f"replacement data must match the Variable's shape {v._shape} {self._var.data._shape}")
        self._var.data = v
    data = values

    @property
    def dt(self): return _Dt(self)

    @property
    def T(self): return self.transpose()

    def to_numpy(self): return self._var.data
    def __array__(self, *a, **k): raise Unsupported("conversion of symbolic array")
    def _dim_order(self): return self.dims
    def _sizes(self): return self._var.dimsizes()

    def __len__(self): return len(self._var.data)

    def _coord_da(self, k):
        v = self._coords[k]
        return DataArray._mk(v, {c: w for c, w in self._coords.items() if set(w.dims) <= set(v.dims)}, k)

    def _set_coord(self, k, v):
        self._coords[k] = as_var(v, k)

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        if k in self._coords:
            return self._coord_da(k)
        if k in self.attrs:
            return self.attrs[k]
        raise AttributeError(k)

    def __contains__(self, k): raise Unsupported("in DataArray")

    def __iter__(self):
        for i in range(len(self)):
            yield self.isel({self.dims[0]: i})

    def __getitem__(self, key):
        if isinstance(key, str):
            if key in self._coords:
                return self._coord_da(key)
            raise KeyError(key)
        if isinstance(key, dict):
            return self.isel(key)
        key = A.norm_key(self._var.data, key)
        return self.isel(dict(zip(self.dims, key)))

    def __setitem__(self, key, value):
        if isinstance(key, str):
            self._set_coord(key, value)
            return
        if isinstance(key, DataArray):
            raise Unsupported("masked DataArray assignment")
        if isinstance(key, dict):
            key = tuple(key.get(d, slice(None)) for d in self.dims)
        self._var.data[key] = value._var.data if isinstance(value, DataArray) else value

    def __bool__(self):
        return bool(self._var.data)

    def __float__(self): return float(self.item())
    def item(self): return self._var.data.item()

    def __repr__(self): return f"DataArray({self.name}, {self.dims})"
    def __format__(self, s): return repr(self)

    # ops
    def _binop(self, o, f, kind=None):
        if isinstance(o, Dataset):
            return NotImplemented
        if isinstance(o, DataArray):
            coords = align_coords([self._coords, o._coords])
            v = var_op(f, self._var, o._var, kind=kind)
            return DataArray._mk(v, coords, self.name if self.name == o.name else None)
        if isinstance(o, (str, type(None))):
            return NotImplemented
        return DataArray._mk(var_op(f, self._var, o, kind=kind), self._coords, self.name)

    def _unop(self, f, kind=None):
        return DataArray._mk(var_op(f, self._var, kind=kind), self._coords, self.name)

    def _inplace(self, o, f):
        if isinstance(o, DataArray):
            align_coords([self._coords, o._coords])
            ov = o._var
        else:
            ov = o
        r = var_op(f, self._var, ov)
        if r.dims != self.dims:
            raise ValueError("dimensions cannot change for in-place operations")
        if self._var.data.kind in "bi" and r.data.kind == "f":
            raise Unsupported("in-place float op on integer array")
        self._var.data.write(r.data.reader())
        return self

    def _np_apply(self, f, args, kw):
        if kw:
            raise Unsupported("numpy keyword on DataArray")
        ds = [a for a in args if isinstance(a, Dataset)]
        if ds:
            return ds[0]._np_apply(f, args, kw)
        named = [a for a in args if isinstance(a, DataArray)]
        coords = align_coords([a._coords for a in named])
        dims = bcast_vars([a._var for a in named])
        raw = [expand(a._var, dims) if isinstance(a, DataArray) else a for a in args]
        r = asarray(f(*raw))
        names = {a.name for a in named}
        return DataArray._mk(Var(dims, r), coords, names.pop() if len(names) == 1 else None)

    def copy(self, deep=True, data=None):
        v = self._var.copy(deep)
        if data is not None:
            v.data = asarray(data)
        return DataArray._mk(v, {k: c.copy(deep) if deep and k not in self.dims else c for k, c in self._coords.items()}, self.name)

    __copy__ = lambda self: self.copy(deep=False)

    def __deepcopy__(self, memo): return self.copy(deep=True)

    def astype(self, dt, **k):
        return DataArray._mk(Var(self.dims, self._var.data.astype(dt), self.attrs), self._coords, self.name)

    def assign_attrs(self, *a, **k):
        r = DataArray._mk(Var(self.dims, self._var.data, self.attrs), self._coords, self.name)
        for x in a:
            r.attrs.update(x)
        r.attrs.update(k)
        return r

    def assign_coords(self, coords=None, **k):
        r = DataArray._mk(Var(self.dims, self._var.data, self.attrs), self._coords, self.name)
        for c, v in {**(coords or {}), **k}.items():
            v = as_var(v, c)
            for d, n in v.dimsizes().items():
                if d not in r.dims or not A.same_dim(n, r._sizes()[d]):
                    raise ValueError(f"conflicting sizes for dimension {d!r}")
            r._coords[c] = v
        return r

    def rename(self, new=None, **k):
        m = dict(new) if isinstance(new, dict) else {}
        m.update(k)
        r = DataArray._mk(Var(tuple(m.get(d, d) for d in self.dims), self._var.data, self.attrs),
                          {m.get(c, c): Var(tuple(m.get(d, d) for d in v.dims), v.data, v.attrs) for c, v in self._coords.items()}, self.name)
        if not isinstance(new, dict) and new is not None:
            r.name = new
        return r

    def drop_vars(self, names, errors="raise"):
        names = [names] if isinstance(names, str) else list(names)
        for n in names:
            if n not in self._coords and errors == "raise":
                raise ValueError(f"{n} not found")
        return DataArray._mk(self._var, {k: v for k, v in self._coords.items() if k not in names}, self.name)
    drop = drop_vars

    def transpose(self, *dims):
        if not dims:
            dims = tuple(reversed(self.dims))
        if Ellipsis in dims:
            i = dims.index(Ellipsis)
            rest = [d for d in self.dims if d not in dims]
            dims = dims[:i] + tuple(rest) + dims[i + 1:]
        return DataArray._mk(Var(dims, A.transpose(self._var.data, *[self.dims.index(d) for d in dims]), self.attrs), self._coords, self.name)

    def get_axis_num(self, d): return self.dims.index(d)

    def squeeze(self, dim=None, drop=False):
        return self._to_ds().squeeze(dim, drop)._from_ds(self.name)

    def expand_dims(self, dim=None, axis=None, **k):
        return self._to_ds().expand_dims(dim)._from_ds(self.name)

    def _to_ds(self):
        d = Dataset()
        d._vars = {"__x__": self._var}
        d._coords = dict(self._coords)
        return d

    def isel(self, indexers=None, drop=False, **k):
        return self._to_ds().isel(indexers, drop=drop, **k)._from_ds(self.name)

    def sel(self, indexers=None, method=None, drop=False, **k):
        return self._to_ds().sel(indexers, method=method, drop=drop, **k)._from_ds(self.name)

    def roll(self, shifts=None, roll_coords=False, **k):
        return self._to_ds().roll(shifts, roll_coords, **k)._from_ds(self.name)

    def sortby(self, variables, ascending=True):
        return self._to_ds().sortby(variables, ascending)._from_ds(self.name)

    def to_dataset(self, name=None):
        d = self._to_ds()
        d._vars = {name or self.name: self._var}
        return d

    def to_index(self):
        return Index(self)

    def broadcast_like(self, other, exclude=None):
        sizes = dict(other._sizes())
        coords = align_coords([self._coords, other._coords])
        # the other's dimensions first, in their order
        dims = tuple(other.dims)
        base = NDArray([sizes[d] for d in dims], lambda i: num(0))
        v = var_op(lambda a, b: b, Var(dims, base), self._var, kind=self._var.data.kind)
        return DataArray._mk(v, coords, self.name)

    def where(self, cond, other=float("nan"), drop=False):
        if drop:
            raise Unsupported("where(drop=True)")
        if callable(cond):
            cond = cond(self)
        return where(cond, self, other, _name=self.name, _first=True)

    def diff(self, dim, n=1, label="upper"):
        a = self.isel({dim: slice(1, None)})
        b = self.isel({dim: slice(None, -1)})
        coords = a._coords if label == "upper" else b._coords
        r = var_op(lambda x, y: x - y, a._var, b._var)
        return DataArray._mk(r, coords, self.name)

    def _axes(self, dim, axis=None):
        if dim is None and axis is not None:
            return [axis]
        if dim is None or dim is Ellipsis:
            return list(range(self.ndim))
        return [self.dims.index(d) for d in ([dim] if isinstance(dim, str) else dim)]

    def _reduce(self, f, dim, axis=None, **k):
        axes = self._axes(dim, axis)
        rest = tuple(d for i, d in enumerate(self.dims) if i not in axes)
        r = asarray(f(self._var.data, tuple(axes))) if axes else self._var.data
        return DataArray._mk(Var(rest, r), {c: v for c, v in self._coords.items() if set(v.dims) <= set(rest)}, self.name)

    def sum(self, dim=None, axis=None, skipna=None, **k):
        return self._reduce(lambda a, ax: A.np_sum(a, ax, skipna=skipna is not False), dim, axis)

    def mean(self, dim=None, axis=None, skipna=None, **k):
        cnt = self.notnull().sum(dim)
        return self.sum(dim) / cnt

    def count(self, dim=None, **k):
        return self.notnull().sum(dim)

    def any(self, dim=None, **k): return self._reduce(lambda a, ax: A.np_any(a, ax), dim)
    def all(self, dim=None, **k): return self._reduce(lambda a, ax: A.np_all(a, ax), dim)

    def _ext(self, which, dim):
        if dim is None or len(self._axes(dim)) == self.ndim:
            a = self._var.data
            if A._const_elems(a, range(a.ndim)) is None:
                return ExtDA(a, which)
            return DataArray._mk(Var((), asarray(A.np_extreme(a, which))), {}, self.name)
        ax = self._axes(dim)
        return self._reduce(lambda a, axs: A.np_extreme(a, which, axs[0]), dim)

    def min(self, dim=None, **k): return self._ext("min", dim)
    def max(self, dim=None, **k): return self._ext("max", dim)

    def argmin(self, dim=None, axis=None, **k):
        axes = self._axes(dim, axis)
        if len(axes) != 1:
            raise Unsupported("argmin")
        r = A.np_argext(self._var.data, "min", axes[0])
        rest = tuple(d for i, d in enumerate(self.dims) if i not in axes)
        return DataArray._mk(Var(rest, asarray(r)), {}, self.name)

    def argmax(self, dim=None, axis=None, **k):
        axes = self._axes(dim, axis)
        r = A.np_argext(self._var.data, "max", axes[0])
        return DataArray._mk(Var(tuple(d for i, d in enumerate(self.dims) if i not in axes), asarray(r)), {}, self.name)

    def median(self, dim=None, **k):
        return DataArray._mk(Var((), asarray(A.np_median(self._var.data))), {}, self.name)

    def interp(self, *a, **k): return self._to_ds().interp(*a, **k)._from_ds(self.name)
    def to_netcdf(self, *a, **k): ctx().log.append(("to_netcdf", self, a, k))


class ExtDA:
    """Full reduction min/max over symbolic extents: comparisons only.  Missing values are skipped; nothing left compares false."""
    _is_xr = False

    def __init__(self, a, which):
        self.e = A.Extreme(a, which)

    def item(self): return self

    def _cmp(self, all_, f):
        a, r = self.e.a, self.e.a.reader()
        if a.kind != "f":
            return getattr(self.e, f[0])(f[1])
        v = lambda i: A.num(r(i))
        nan = lambda i: v(i).nan
        body = lambda i: A.to_bool(getattr(v(i), f[0])(f[1]))
        some = A.np_any(NDArray(a._shape, lambda i: A.SBool(T.not_(nan(i))), dtype="b"))
        if all_:
            c = A.np_all(NDArray(a._shape, lambda i: A.SBool(T.or_(nan(i), body(i))), dtype="b"))
        else:
            c = A.np_any(NDArray(a._shape, lambda i: A.SBool(T.and_(T.not_(nan(i)), body(i))), dtype="b"))
        return A.SBool(T.and_(A.to_bool(some), A.to_bool(c)))

    def __ge__(self, o): return self._cmp(self.e.which == "min", ("__ge__", o))
    def __gt__(self, o): return self._cmp(self.e.which == "min", ("__gt__", o))
    def __le__(self, o): return self._cmp(self.e.which == "max", ("__le__", o))
    def __lt__(self, o): return self._cmp(self.e.which == "max", ("__lt__", o))
    def __truediv__(self, o): return self
    def __format__(self, s): return "<ext>"


class Index:
    def __init__(self, da):
        self.da = da

    @property
    def is_monotonic_increasing(self):
        a = self.da._var.data
        r, n = a.reader(), a._shape[0]
        return A.np_all(NDArray([n.sub(T.ONE)], lambda i: r((i[0].add(T.ONE),)) >= r(i), dtype="b"))

    @property
    def is_unique(self):
        raise Unsupported("is_unique")


class Dataset(_Base):
    def __init__(self, data_vars=None, coords=None, attrs=None):
        self._vars, self._coords = {}, {}
        self.attrs = dict(attrs or {})
        self.encoding = {}
        if coords is not None:
            for k, v in coords.items():
                self._coords[k] = as_var(v, k)
        for k, v in (data_vars or {}).items():
            self[k] = v

    def _sizes(self):
        s = {}
        for v in list(self._vars.values()) + list(self._coords.values()):
            for d, n in v.dimsizes().items():
                s.setdefault(d, n)
        return s

    @property
    def dims(self): return {k: A.dimval(v) for k, v in self._sizes().items()}

    def _dim_order(self):
        return tuple(k for k, v in self._coords.items() if v.dims == (k,)) or tuple(self._sizes())

    @property
    def data_vars(self):
        return _DataVars(self)

    @property
    def variables(self):
        return {**self._vars, **self._coords}

    def __contains__(self, k): return k in self._vars or k in self._coords
    def __iter__(self): return iter(list(self._vars))
    def __len__(self): return len(self._vars)
    def keys(self): return list(self._vars)
    def items(self): return [(k, self[k]) for k in self._vars]
    def values(self): return [self[k] for k in self._vars]

    def _coord_da(self, k):
        v = self._coords[k]
        return DataArray._mk(v, {c: w for c, w in self._coords.items() if set(w.dims) <= set(v.dims)}, k)

    def _set_coord(self, k, v):
        nv = as_var(v, k)
        self._coords[k] = nv

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        if k in self._vars or k in self._coords:
            return self[k]
        raise AttributeError(k)

    def __getitem__(self, key):
        if isinstance(key, str):
            if key in self._vars:
                v = self._vars[key]
                return DataArray._mk(v, {c: w for c, w in self._coords.items() if set(w.dims) <= set(v.dims)}, key)
            if key in self._coords:
                return self._coord_da(key)
            raise KeyError(key)
        if isinstance(key, (list, tuple)):
            r = Dataset(attrs=self.attrs)
            dims = set()
            for k in key:
                if k in self._vars:
                    r._vars[k] = self._vars[k]
                    dims |= set(self._vars[k].dims)
                elif k not in self._coords:
                    raise KeyError(k)
            r._coords = {c: w for c, w in self._coords.items() if set(w.dims) <= dims or c in key}
            return r
        raise Unsupported("Dataset indexing")

    def __setitem__(self, key, value):
        if isinstance(key, (list, tuple)):
            if isinstance(value, Dataset):
                for k, n in zip(key, value._vars):
                    self[k] = value[n]
                return
            raise Unsupported("list assignment")
        if isinstance(value, DataArray):
            for c, w in value._coords.items():
                if c == key:
                    continue
                if c in self._coords:
                    if not same_data(self._coords[c].data, w.data):
                        if c in w.dims:
                            raise Unsupported(f"alignment of different '{c}' indexes on assignment")
                else:
                    self._coords[c] = w
            nv = Var(value.dims, value._var.data, value.attrs)
        else:
            nv = as_var(value, key)
        sz = {}
        for n, v in list(self._vars.items()) + list(self._coords.items()):
            if n != key:
                for d, m in v.dimsizes().items():
                    sz.setdefault(d, m)
        for d, n in nv.dimsizes().items():
            if d in sz and not A.same_dim(sz[d], n):
                raise ValueError(f"conflicting sizes for dimension {d!r}")
        if key in self._coords or key in nv.dims:
            self._coords[key] = nv
        else:
            self._vars[key] = nv

    def __delitem__(self, k):
        self._vars.pop(k, None)
        self._coords.pop(k, None)

    # ops
    def _map(self, f):
        r = Dataset(attrs={})
        r._coords = dict(self._coords)
        for k, v in self._vars.items():
            r._vars[k] = f(k, v)
        return r

    def _binop(self, o, f, kind=None):
        if isinstance(o, Dataset):
            coords = align_coords([self._coords, o._coords])
            r = Dataset()
            r._coords = coords
            for k, v in self._vars.items():
                if k in o._vars:
                    r._vars[k] = var_op(f, v, o._vars[k], kind=kind)
            return r
        if isinstance(o, DataArray):
            coords = align_coords([self._coords, o._coords])
            r = Dataset()
            r._coords = coords
            for k, v in self._vars.items():
                r._vars[k] = var_op(f, v, o._var, kind=kind)
            return r
        return self._map(lambda k, v: var_op(f, v, o, kind=kind))

    def _unop(self, f, kind=None):
        return self._map(lambda k, v: var_op(f, v, kind=kind))

    def _inplace(self, o, f):
        r = self._binop(o, f)
        self._vars = dict(r._vars)
        return self

    def _np_apply(self, f, args, kw):
        ds = [a for a in args if isinstance(a, Dataset)]
        r = Dataset()
        r._coords = align_coords([a._coords for a in args if isinstance(a, (Dataset, DataArray))])
        for k in ds[0]._vars:
            sub = [a[k] if isinstance(a, Dataset) else a for a in args]
            first = next(x for x in sub if isinstance(x, DataArray))
            r._vars[k] = first._np_apply(f, sub, kw)._var
        return r

    def copy(self, deep=False, data=None):
        r = Dataset(attrs=self.attrs)
        r._vars = {k: v.copy(deep) for k, v in self._vars.items()}
        r._coords = {k: v.copy(deep) for k, v in self._coords.items()}
        return r

    def __copy__(self): return self.copy(False)
    def __deepcopy__(self, memo): return self.copy(True)

    def astype(self, dt, **k):
        return self._keepattrs(self._map(lambda n, v: Var(v.dims, v.data.astype(dt), v.attrs)))

    def _keepattrs(self, r):
        r.attrs = dict(self.attrs)
        return r

    def assign(self, variables=None, **k):
        r = self.copy()
        for n, v in {**(variables or {}), **k}.items():
            r[n] = v(r) if callable(v) else v
        return r

    def assign_coords(self, coords=None, **k):
        r = self.copy()
        for c, v in {**(coords or {}), **k}.items():
            r._coords[c] = as_var(v, c)
        return r

    def assign_attrs(self, *a, **k):
        r = self.copy()
        for x in a:
            r.attrs.update(x)
        r.attrs.update(k)
        return r

    def rename(self, m=None, **k):
        m = {**(m or {}), **k}
        r = Dataset(attrs=self.attrs)
        for n, v in self._vars.items():
            r._vars[m.get(n, n)] = Var(tuple(m.get(d, d) for d in v.dims), v.data, v.attrs)
        for n, v in self._coords.items():
            r._coords[m.get(n, n)] = Var(tuple(m.get(d, d) for d in v.dims), v.data, v.attrs)
        return r

    def rename_vars(self, m=None, **k):
        m = {**(m or {}), **k}
        r = Dataset(attrs=self.attrs)
        r._vars = {m.get(n, n): v for n, v in self._vars.items()}
        r._coords = {m.get(n, n): v for n, v in self._coords.items()}
        return r

    def drop_vars(self, names, errors="raise"):
        names = [names] if isinstance(names, str) else list(names)
        for n in names:
            if n not in self and errors == "raise":
                raise ValueError(f"{n} not found")
        r = Dataset(attrs=self.attrs)
        r._vars = {k: v for k, v in self._vars.items() if k not in names}
        r._coords = {k: v for k, v in self._coords.items() if k not in names}
        return r
    drop = drop_vars

    def drop_dims(self, dims):
        dims = [dims] if isinstance(dims, str) else list(dims)
        for d in dims:
            if d not in self._sizes():
                raise ValueError(f"Dimensions {d} not found")
        r = Dataset(attrs=self.attrs)
        r._vars = {k: v for k, v in self._vars.items() if not set(v.dims) & set(dims)}
        r._coords = {k: v for k, v in self._coords.items() if not set(v.dims) & set(dims)}
        return r

    def _each(self, f):
        r = Dataset(attrs=self.attrs)
        r._vars = {k: f(k, v) for k, v in self._vars.items()}
        r._coords = {k: f(k, v) for k, v in self._coords.items()}
        return r

    def _from_ds(self, name):
        return DataArray._mk(self._vars["__x__"], self._coords, name)

    def isel(self, indexers=None, drop=False, missing_dims="raise", **k):
        ix = {**(indexers or {}), **k}
        for d in ix:
            if d not in self._sizes():
                raise ValueError(f"Dimensions {{{d!r}}} do not exist")
        ix = {d: (v.item() if isinstance(v, DataArray) and v.ndim == 0 else v) for d, v in ix.items()}
        for d, v in ix.items():
            if isinstance(v, (DataArray, NDArray)) and v.ndim:
                raise Unsupported("array isel")

        def f(n, v):
            if not set(v.dims) & set(ix):
                return v
            key = tuple(ix.get(d, slice(None)) for d in v.dims)
            dims = tuple(d for d in v.dims if isinstance(ix.get(d, slice(None)), slice))
            return Var(dims, asarray(A.getitem(v.data, key)), v.attrs)
        r = self._each(f)
        if drop:
            r._coords = {c: w for c, w in r._coords.items() if not (c in ix and not isinstance(ix[c], slice))}
        return r

    def sel(self, indexers=None, method=None, drop=False, tolerance=None, **k):
        ix = {**(indexers or {}), **k}
        r = self
        for d, v in ix.items():
            r = r._sel1(d, v, method, drop)
        return r

    def _sel1(self, d, v, method, drop):
        if d not in self._coords:
            raise KeyError(f"no index for {d}")
        cv = self._coords[d]
        if cv.dims != (d,):
            raise Unsupported("sel on non-dimension coordinate")
        if isinstance(v, slice):
            if v.step is not None:
                raise Unsupported("sel step")
            return self._sel_range(d, v.start, v.stop)
        if isinstance(v, DataArray) and v._var.data.kind == "b":
            return self._sel_mask(d, v)
        if isinstance(v, (DataArray, NDArray)) and v.ndim == 0:
            v = v.item()
        if isinstance(v, (list, tuple)) or (isinstance(v, (DataArray, NDArray)) and v.ndim == 1):
            if method is not None:
                raise Unsupported("sel of labels with a method")
            return self._sel_labels(d, asarray(v._var.data if isinstance(v, DataArray) else v))
        if isinstance(v, str):
            hit = V._tokens.get(v)
            if hit is None or hit[0] != "strftime" or hit[1] not in ("%Y-%m-%dT%H:%M:%S", "%Y-%m-%d %H:%M:%S") or method is not None:
                raise Unsupported(f"label text {v!r}")
            return self._sel_label(d, Time(Num(T.floor_(hit[2].s.p))), None, keep=True)
        if isinstance(v, Time) or is_num(v):
            return self._sel_label(d, v, method, drop=drop)
        raise Unsupported(f"sel {d}={type(v)}")

    def _sel_label(self, d, v, method, keep=False, drop=False):
        """The entry of an index (with distinct labels) that carries, or is nearest to, a label."""
        c = ctx()
        cv = self._coords[d]
        x, n = cv.data.reader(), cv.data._shape[0]
        key = lambda e: e.s.p if isinstance(e, Time) else num(e).p
        want = key(v)
        q = T.var(c.fresh("!pos"), "I")
        inr = lambda i: T.and_(T.ge0(i), T.gt(n, i))
        if method == "nearest":
            c.assume(inr(q))
            dist = lambda i: V.poly_abs(key(x((i,))).sub(want))
            c.forall(1, lambda i: T.implies(inr(i), T.ge(dist(i), dist(q))))
        elif method is None:
            if c.decide(T.bvar(c.fresh("!found"))):
                c.assume(T.and_(inr(q), T.eq(key(x((q,))), want)))
            else:
                c.forall(1, lambda i: T.implies(inr(i), T.not_(T.eq(key(x((i,))), want))))
                raise KeyError(f"not all values found in index {d!r}")
        else:
            raise Unsupported(f"sel method {method}")
        if keep:
            return self._run(d, q, T.ONE)
        return self.isel({d: Num(q)}, drop=drop)

    def _run(self, d, a, L):
        """Contiguous run of L entries from a."""
        ctx().places.append((lambda i: i.sub(a),))
        def f(nm, v):
            if d not in v.dims:
                return v
            k = v.dims.index(d)
            r = v.data.reader()
            sh = list(v.data._shape)
            sh[k] = L
            org = list(v.data.origin)
            org[k] = org[k].add(a)
            return Var(v.dims, NDArray(sh, lambda i: r(i[:k] + (i[k].add(a),) + i[k + 1:]), dtype=v.data.kind, origin=org), v.attrs)
        return self._each(f)

    def _sel_range(self, d, start, stop):
        """Label slice on a strictly monotonic index: the contiguous run of labels inside."""
        c = ctx()
        cv = self._coords[d]
        x, n = cv.data.reader(), cv.data._shape[0]
        a, b = T.var(c.fresh("!a"), "I"), T.var(c.fresh("!a"), "I")
        a1, a2 = T.var(c.fresh("!mono"), "I"), T.var(c.fresh("!mono"), "I")
        h = [T.ge0(a1), T.gt(a2, a1), T.gt(n, a2)]
        v1, v2 = num(x((a1,))).p, num(x((a2,))).p
        inc = c.prover.prove(c.pc + h, T.gt(v2, v1), nra=False, quants=c.quants).status == "proved"
        dec = (not inc) and c.prover.prove(c.pc + h, T.gt(v1, v2), nra=False, quants=c.quants).status == "proved"
        if not inc and not dec:
            raise Unsupported("label slice on an index that is not provably monotonic")
        lo, hi = (start, stop)
        # inside(i): label within the slice in index order
        def ge_start(v):
            return TRUE if lo is None else (T.ge(v, poly(lo)) if inc else T.ge(poly(lo), v))

        def le_stop(v):
            return TRUE if hi is None else (T.ge(poly(hi), v) if inc else T.ge(v, poly(hi)))
        # a = number of labels before the start, b = number of labels not after the stop
        c.assume(T.and_(T.ge0(a), T.ge(n, a), T.ge0(b), T.ge(n, b)))
        for i, lab in ((a.sub(T.ONE), "before"), (a, "at")):
            inr = T.and_(T.ge0(i), T.gt(n, i))
            g = ge_start(num(x((i,))).p)
            c.assume(T.implies(inr, T.not_(g) if lab == "before" else g))
        for i, lab in ((b.sub(T.ONE), "at"), (b, "after")):
            inr = T.and_(T.ge0(i), T.gt(n, i))
            g = le_stop(num(x((i,))).p)
            c.assume(T.implies(inr, T.not_(g) if lab == "after" else g))
        ln = T.ite(T.ge(b, a), b.sub(a), T.ZERO)
        L = T.var(c.fresh("!len"), "I")
        c.assume(T.eq(L, ln))
        c.assume(T.ge0(L))
        # characterisation for every index (sound by strict monotonicity): instantiated on demand
        c.forall(1, lambda i: T.implies(
            T.and_(T.ge0(i), T.gt(n, i)),
            T.and_(T.or_(T.and_(ge_start(num(x((i,))).p), T.ge(i, a)), T.and_(T.not_(ge_start(num(x((i,))).p)), T.gt(a, i))),
                   T.or_(T.and_(le_stop(num(x((i,))).p), T.gt(b, i)), T.and_(T.not_(le_stop(num(x((i,))).p)), T.ge(i, b))))))

        return self._run(d, a, L)

    def _gather(self, d, pos, n, place=None):
        """Entry k of the result is entry pos(k) along d; entry i is found at place(i)."""
        if place is not None:
            ctx().places.append((place,))
        def f(nm, v):
            if d not in v.dims:
                return v
            k = v.dims.index(d)
            r = v.data.reader()
            sh = list(v.data._shape)
            sh[k] = n
            org = list(v.data.origin)
            org[k] = T.ZERO
            return Var(v.dims, NDArray(sh, lambda i: r(i[:k] + (pos(i[k]),) + i[k + 1:]), dtype=v.data.kind, origin=org), v.attrs)
        return self._each(f)

    def _sel_labels(self, d, labels):
        """Entries carrying the given labels, in their order (index with distinct labels)."""
        c = ctx()
        cv = self._coords[d]
        if same_data(cv.data, labels):
            return self
        x, n, y, m = cv.data.reader(), cv.data._shape[0], labels.reader(), labels._shape[0]
        i1, i2 = T.var(c.fresh("!u"), "I"), T.var(c.fresh("!u"), "I")
        h = [T.ge0(i1), T.gt(i2, i1), T.gt(n, i2)]
        if c.prover.prove(c.pc + h, T.not_(T.eq(num(x((i1,))).p, num(x((i2,))).p)), nra=False, quants=c.quants).status != "proved":
            raise Unsupported("label selection on an index whose labels may repeat")
        q = c.fresh("!at")
        pos = lambda k: T.app(q, (k,), "I")
        inr = lambda i, b: T.and_(T.ge0(i), T.gt(b, i))
        if m.const() is not None and m.const() <= 64:
            for k in range(int(m.const())):
                k = T.const(k)
                if c.decide(T.bvar(c.fresh("!found"))):
                    c.assume(T.and_(inr(pos(k), n), T.eq(num(x((pos(k),))).p, num(y((k,))).p)))
                else:
                    c.forall(1, lambda i, k=k: T.implies(inr(i, n), T.not_(T.eq(num(x((i,))).p, num(y((k,))).p))))
                    raise KeyError(f"not all values found in index {d!r}")
        elif c.decide(T.bvar(c.fresh("!found"))):
            c.forall(1, lambda k: T.implies(inr(k, m), T.and_(inr(pos(k), n), T.eq(num(x((pos(k),))).p, num(y((k,))).p))))
        else:
            w = T.var(c.fresh("!absent"), "I")
            c.assume(inr(w, m))
            c.forall(1, lambda i: T.implies(inr(i, n), T.not_(T.eq(num(x((i,))).p, num(y((w,))).p))))
            raise KeyError(f"not all values found in index {d!r}")
        return self._gather(d, pos, m)

    def interp(self, coords=None, method="linear", assume_sorted=False, kwargs=None, **k):
        """Linear interpolation along one dimension with increasing labels, at labels that each lie
        between two neighbouring ones whose position is known."""
        ix = {**(coords or {}), **k}
        if len(ix) != 1 or method != "linear" or kwargs:
            raise Unsupported("interp")
        (d, new), = ix.items()
        c = ctx()
        cv = self._coords.get(d)
        if cv is None or cv.dims != (d,):
            raise Unsupported("interp without index")
        new = asarray(new._var.data if isinstance(new, DataArray) else new)
        if new.ndim != 1:
            raise Unsupported("interp at a scalar")
        x, n, y, m = cv.data.reader(), cv.data._shape[0], new.reader(), new._shape[0]
        X, Y = (lambda i: num(x((i,))).p), (lambda i: num(y((i,))).p)
        a, b = T.var(c.fresh("!u"), "I"), T.var(c.fresh("!u"), "I")
        pr = lambda h, g: c.prover.prove(c.pc + h, g, nra=False, quants=c.quants).status == "proved"
        if not pr([T.ge0(a), T.gt(b, a), T.gt(n, b)], T.gt(X(b), X(a))):
            raise Unsupported("interp along labels that do not increase")
        h = [T.ge0(a), T.gt(m, a)]
        for off in (0, -1, 1):
            s = a.add(T.const(off))
            if pr(h, T.and_(T.ge0(s), T.gt(n, s.add(T.ONE)), T.ge(Y(a), X(s)), T.ge(X(s.add(T.ONE)), Y(a)))):
                break
        else:
            raise Unsupported("interp at labels of unknown place")

        def f(nm, v):
            if nm == d:
                return Var((d,), new, v.attrs)
            if d not in v.dims:
                return v
            if v.data.kind == "b":
                raise Unsupported("interp of Booleans")
            ax = v.dims.index(d)
            r = v.data.reader()
            sh = list(v.data._shape)
            sh[ax] = m

            def g(i):
                s = i[ax].add(T.const(off))
                at = lambda q: num(r(i[:ax] + (q,) + i[ax + 1:]))
                lo, hi = at(s), at(s.add(T.ONE))
                x0 = Num(X(s))
                return lo + (hi - lo) * ((Num(Y(i[ax])) - x0) / (Num(X(s.add(T.ONE))) - x0))
            return Var(v.dims, NDArray(sh, g, dtype="f"), v.attrs)
        return self._each(f)

    def _sel_mask(self, d, mask):
        """Entries where the mask holds, in their order: an increasing map onto exactly those entries."""
        c = ctx()
        mv = mask._var if isinstance(mask, DataArray) else Var((d,), mask)
        if mv.dims != (d,):
            raise Unsupported("mask along another dimension")
        n = dict(self._sizes())[d]
        if not A.same_dim(n, mv.data._shape[0]):
            raise IndexError("boolean index did not match")
        if isinstance(mask, DataArray) and d in mask._coords and not same_data(mask._coords[d].data, self._coords[d].data):
            raise Unsupported("mask with other labels")
        r = mv.data.reader()
        hit = lambda i: to_bool(r((i,)))
        q, p = c.fresh("!kept"), c.fresh("!rank")
        L = T.var(c.fresh("!len"), "I")
        pos = lambda k: T.app(q, (k,), "I")
        rank = lambda i: T.app(p, (i,), "I")
        inr = lambda i, b: T.and_(T.ge0(i), T.gt(b, i))
        c.assume(T.and_(T.ge0(L), T.ge(n, L)))
        c.forall(1, lambda k: T.implies(inr(k, L), T.and_(inr(pos(k), n), hit(pos(k)), T.eq(rank(pos(k)), k))))
        c.forall(1, lambda i: T.implies(T.and_(inr(i, n), hit(i)), T.and_(inr(rank(i), L), T.eq(pos(rank(i)), i))))
        c.forall(2, lambda k, j: T.implies(T.and_(T.ge0(k), T.gt(j, k), T.gt(L, j)), T.gt(pos(j), pos(k))))
        return self._gather(d, pos, L, rank)

    def roll(self, shifts=None, roll_coords=False, **k):
        sh = {**(shifts or {}), **k}
        for dd, s in sh.items():
            w, n = num(s).p, dict(self._sizes())[dd]
            ctx().places.append((lambda i, w=w: i.add(w), lambda i, w=w, n=n: i.add(w).add(n), lambda i, w=w, n=n: i.add(w).sub(n)))

        def f(n, v, iscoord):
            out = v.data
            for dd, s in sh.items():
                if dd in v.dims and not (iscoord and not roll_coords):
                    out = A.np_roll(out, num(s), v.dims.index(dd))
            return Var(v.dims, out, v.attrs)
        r = Dataset(attrs=self.attrs)
        r._vars = {n: f(n, v, False) for n, v in self._vars.items()}
        r._coords = {n: f(n, v, True) for n, v in self._coords.items()}
        return r

    def sortby(self, variables, ascending=True):
        """Reorder along one dimension by its labels (stable): identity or reversal where the labels
        are provably monotonic, else a permutation that sorts them."""
        if isinstance(variables, (list, tuple)):
            if len(variables) != 1:
                raise Unsupported("sortby several")
            variables = variables[0]
        if not isinstance(variables, str):
            raise Unsupported("sortby values")
        d = variables
        cv = self._coords[d]
        if cv.dims != (d,):
            raise Unsupported("sortby a coordinate that is not a dimension")
        c = ctx()
        x, n = cv.data.reader(), cv.data._shape[0]
        key = lambda i: (lambda v: v.s.p if isinstance(v, Time) else num(v).p)(x((i,)))
        i1, i2 = T.var(c.fresh("!s"), "I"), T.var(c.fresh("!s"), "I")
        h = [T.ge0(i1), T.gt(i2, i1), T.gt(n, i2)]
        up = lambda a, b: T.ge(b, a) if ascending else T.ge(a, b)
        pr = lambda g: c.prover.prove(c.pc + h, g, nra=False, quants=c.quants).status == "proved"
        if pr(up(key(i1), key(i2))):
            return self
        if pr(T.and_(up(key(i2), key(i1)), T.not_(T.eq(key(i1), key(i2))))):
            return self._gather(d, lambda k: n.sub(T.ONE).sub(k), n, lambda k: n.sub(T.ONE).sub(k))
        q, p = c.fresh("!sorted"), c.fresh("!place")
        pos = lambda k: T.app(q, (k,), "I")
        place = lambda i: T.app(p, (i,), "I")
        inr = lambda i: T.and_(T.ge0(i), T.gt(n, i))
        c.forall(1, lambda k: T.implies(inr(k), T.and_(inr(pos(k)), T.eq(place(pos(k)), k), inr(place(k)), T.eq(pos(place(k)), k))))
        c.forall(2, lambda k, j: T.implies(T.and_(T.ge0(k), T.gt(j, k), T.gt(n, j)), up(key(pos(k)), key(pos(j)))))
        return self._gather(d, pos, n, place)

    def squeeze(self, dim=None, drop=False):
        out = self
        for d, n in self._sizes().items():
            if dim is not None and d not in ([dim] if isinstance(dim, str) else dim):
                continue
            if n.const() == 1 or (n.const() is None and ctx().entails(T.eq(n, T.ONE))):
                out = out.isel({d: 0}, drop=drop)
            elif n.const() is None and not ctx().entails(T.gt(n, T.ONE)):
                raise Unsupported("squeeze of possibly-unit dimension")
        return out

    def expand_dims(self, dim=None, axis=None, **k):
        dims = [dim] if isinstance(dim, str) else list(dim or ())
        r = Dataset(attrs=self.attrs)
        r._coords = dict(self._coords)
        for d in dims:
            if d in r._coords and r._coords[d].dims == ():
                r._coords[d] = Var((d,), r._coords[d].data[None], r._coords[d].attrs)
        for n, v in self._vars.items():
            a = v.data
            for d in reversed(dims):
                a = a[None]
            r._vars[n] = Var(tuple(dims) + v.dims, a, v.attrs)
        return r

    def transpose(self, *dims):
        def f(n, v):
            ds = [d for d in dims if d in v.dims] if Ellipsis not in dims else [d for d in dims if d in v.dims and d is not Ellipsis] + [d for d in v.dims if d not in dims]
            return Var(ds, A.transpose(v.data, *[v.dims.index(d) for d in ds]), v.attrs) if v.dims else v
        return self._each(f)

    def where(self, cond, other=float("nan"), drop=False):
        r = Dataset(attrs=self.attrs)
        r._coords = align_coords([self._coords, cond._coords])
        for n in self._vars:
            r._vars[n] = self[n].where(cond, other, drop)._var
        return r

    def sum(self, dim=None, **k):
        r = Dataset()
        for n in self._vars:
            d = dim
            x = self[n].sum([q for q in ([dim] if isinstance(dim, str) else dim) if q in self[n].dims] if dim is not None else None)
            r._vars[n] = x._var
            for c, w in x._coords.items():
                r._coords[c] = w
        return r

    def load(self, *a, **k): return self

    def to_netcdf(self, path=None, **k):
        ctx().log.append(("to_netcdf", self.copy(deep=True), path, k))


    def to_dataset(self): return self

    def to_array(self, *a): raise Unsupported("to_array")

    def stack(self, *a, **k): raise Unsupported("stack")


class _DataVars:
    def __init__(self, d):
        self.d = d

    def __iter__(self): return iter(list(self.d._vars))
    def __contains__(self, k): return k in self.d._vars
    def __len__(self): return len(self.d._vars)
    def keys(self): return list(self.d._vars)
    def items(self): return self.d.items()
    def values(self): return self.d.values()
    def __getitem__(self, k): return self.d[k]
    def __repr__(self): return repr(list(self.d._vars))


def where(cond, x, y, _name=None, _first=False, keep_attrs=None):
    args = [cond, x, y]
    das = [a for a in args if isinstance(a, (DataArray,))]
    if any(isinstance(a, Dataset) for a in args):
        raise Unsupported("xr.where on Dataset")
    if not das:
        return A.np_where(cond, x, y)
    coords = align_coords([a._coords for a in ([x] if False else das)])
    order = [x, cond, y] if _first else args
    dims = bcast_vars([a._var for a in order if isinstance(a, DataArray)])
    raw = []
    for a in args:
        if isinstance(a, DataArray):
            raw.append(expand(a._var, dims))
        else:
            raw.append(a)
    kind = A.kinds([asarray(r) for r in raw[1:]])
    r = asarray(ew(lambda c, p, q: select(c, p, q), *raw, kind=kind))
    return DataArray._mk(Var(dims, r), coords, _name)


def concat(objs, dim, **k):
    raise Unsupported("xr.concat")


class XR:
    """Model of the xarray namespace."""
    def __init__(self):
        self.DataArray, self.Dataset, self.where = DataArray, Dataset, where
        self.files = {}

    def _open(self, path):
        ds = self.files.get(str(path))
        if ds is None:
            ds = next((d for k, d in self.files.items() if V.same_text(k, str(path))), None)
        if ds is None:
            raise FileNotFoundError(str(path))
        return ds.copy(deep=True)

    def open_dataset(self, path, **k):
        ds = self._open(path)
        return ds if isinstance(ds, Dataset) else Dataset({ds.name or "x": ds})
    load_dataset = open_dataset

    def open_dataarray(self, path, **k):
        ds = self._open(path)
        if isinstance(ds, Dataset):
            if len(ds._vars) != 1:
                raise ValueError("Given file dataset contains more than one data variable")
            ds = ds[next(iter(ds._vars))]
        return ds
    load_dataarray = open_dataarray

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        def missing(*a, **k):
            raise Unsupported(f"xarray.{name} is not modelled")
        return missing
