"""netCDF files opened for appending (netCDF4.Dataset) and the CF encoding xarray applies to variables.

A file holds variables over named dimensions, some of them unlimited: writing beyond the end of an unlimited
dimension extends it; what was not written there is undefined.  Times are stored as numbers in the unit and
calendar of the file's variable."""
from __future__ import annotations
import builtins, re, types
from fractions import Fraction
from . import terms as T, values as V, arrays as A, xrmodel as X
from .terms import Unsupported
from .values import Num, Time, num, ctx, select

UNIT = {"seconds": 1, "minutes": 60, "hours": 3600, "days": 86400}


class Unit:
    """`<unit> since <date>`: the date is some number of seconds on the calendar."""
    def __init__(self, scale, ref):
        self.scale, self.ref = scale, ref

    @staticmethod
    def of(text, cal):
        m = re.fullmatch(r"(seconds|minutes|hours|days) since (.+)", str(text))
        if not m:
            raise Unsupported(f"time unit {text!r}")
        return Unit(UNIT[m[1]], Num(T.var(f"!date {m[2]} {cal}", "I")))

    def encode(self, t):
        return (t.s - self.ref) / self.scale

    def decode(self, x, cal):
        return Time(num(x) * self.scale + self.ref, cal)


class NcDim:
    def __init__(self, file, name):
        self._f, self.name = file, name

    def _sym_len(self): return A.dimval(self._f.sizes[self.name])
    size = property(_sym_len)
    def isunlimited(self): return self.name in self._f.unlimited


class NcVar:
    def __init__(self, file, name, dims, read, attrs, integer=False):
        self.__dict__.update(_f=file, name=name, dimensions=tuple(dims), _read=read, _attrs=dict(attrs), _int=integer)

    def __getattr__(self, k):
        if k in self.__dict__.get("_attrs", ()):
            return self._attrs[k]
        raise AttributeError(k)

    def __setattr__(self, k, v): self._attrs[k] = v
    def ncattrs(self): return list(self._attrs)
    def getncattr(self, k): return getattr(self, k)
    def set_auto_mask(self, *a): pass
    def set_auto_maskandscale(self, *a): raise Unsupported("scaling of a netCDF variable")

    @property
    def ndim(self): return len(self.dimensions)

    @property
    def shape(self): return tuple(A.dimval(self._f.sizes[d]) for d in self.dimensions)

    def _sym_len(self):
        if not self.dimensions:
            raise TypeError("len() of unsized object")
        return A.dimval(self._f.sizes[self.dimensions[0]])

    def _array(self):
        read = self._read
        return A.NDArray([self._f.sizes[d] for d in self.dimensions], lambda i: read(i))

    def __getitem__(self, key): return self._array()[key]

    def __setitem__(self, key, value):
        key = list(key) if isinstance(key, tuple) else [key]
        if any(k is Ellipsis for k in key):
            at = next(i for i, k in builtins.enumerate(key) if k is Ellipsis)
            key[at:at + 1] = [slice(None)] * (self.ndim - len(key) + 1)
        key += [slice(None)] * (self.ndim - len(key))
        if len(key) > self.ndim:
            raise IndexError("too many indices")
        val = A.asarray(value.values if getattr(value, "_is_xr", False) else value.data if isinstance(value, X.Var) else value)
        c, sizes = ctx(), self._f.sizes
        region, used = [], 0            # (start, stop or None for one place)
        for d, k in zip(self.dimensions, key):
            if isinstance(k, slice):
                if k.step not in (None, 1):
                    raise Unsupported("stride")
                lo = T.ZERO if k.start is None else num(k.start).p
                if k.stop is not None:
                    hi = num(k.stop).p
                elif d in self._f.unlimited and used < val.ndim:
                    hi = lo.add(val._shape[used])
                    if not c.entails(T.ge(hi, sizes[d])):
                        raise Unsupported("open slice of an unlimited dimension")
                else:
                    hi = sizes[d]
                for x in (lo, hi):
                    if not c.entails(T.ge0(x)):
                        raise Unsupported("negative position")
                if val.ndim:
                    if used >= val.ndim or not (val._shape[used] is hi.sub(lo) or c.entails(T.eq(val._shape[used], hi.sub(lo)))):
                        raise Unsupported("shape of the data written to a file")
                region.append((lo, hi))
                used += 1
            else:
                lo = num(k).p
                if not c.entails(T.ge0(lo)):
                    raise Unsupported("negative position")
                region.append((lo, None))
            end = lo.add(T.ONE) if region[-1][1] is None else region[-1][1]
            if not c.entails(T.ge(sizes[d], end)):
                if d not in self._f.unlimited:
                    raise IndexError("beyond the end of a dimension")
                if not c.entails(T.ge(end, sizes[d])):
                    raise Unsupported("writing across the end of an unlimited dimension")
                sizes[d] = end
        if val.ndim and used != val.ndim:
            raise Unsupported("shape of the data written to a file")
        old, new = self._read, val.reader()
        trunc = A.trunc if self._int else (lambda x: x)

        def read(i):
            inside = T.and_(*[q for x, (lo, hi) in zip(i, region) for q in ((T.ge(x, lo), T.gt(hi, x)) if hi is not None else (T.eq(x, lo),))])
            src = tuple(x.sub(lo) for x, (lo, hi) in zip(i, region) if hi is not None) if val.ndim else ()
            return select(inside, trunc(num(new(src))), old(i))
        self.__dict__["_read"] = read


class File:
    def __init__(self, ds, unlimited=(), encoding=None):
        self.sizes = dict(ds._sizes())
        self.unlimited, self.variables, self.open = set(unlimited), {}, False
        self.coords = list(ds._coords)
        for name, v in {**ds._vars, **ds._coords}.items():
            self._store(name, v, (encoding or {}).get(name, {}))

    def _store(self, name, v, enc):
        r, attrs = v.data.reader(), dict(v.attrs)
        probe = r(tuple(T.var(f"#{k}", "I") for k in range(v.data.ndim)))
        if isinstance(probe, Time):
            cal = enc.get("calendar", probe.cal)
            u = Unit.of(enc["units"], cal)
            attrs |= {"units": enc["units"], "calendar": cal}
            read = lambda i: u.encode(r(i))
        else:
            read = lambda i: num(r(i))
        was = [self.sizes[d] for d in v.dims]

        def bounded(i):
            inside = T.and_(*[T.gt(n, x) for x, n, d in zip(i, was, v.dims) if d in self.unlimited])
            return select(inside, read(i), Num(T.ZERO, T.TRUE))
        self.variables[name] = NcVar(self, name, v.dims, bounded, attrs, integer=enc.get("dtype") == "int64")

    def dataset(self):
        """The file as xarray reads it."""
        vs = {}
        for name, v in self.variables.items():
            a = v._array()
            if "calendar" in v._attrs:
                u, r = Unit.of(v.units, v.calendar), a.reader()
                a = A.NDArray(a._shape, lambda i, u=u, r=r, cal=v.calendar: u.decode(r(i), cal), dtype="O")
            vs[name] = (v.dimensions, a)
        return X.Dataset({k: x for k, x in vs.items() if k not in self.coords}, coords={k: vs[k] for k in self.coords})


class NcDataset:
    """netCDF4.Dataset"""
    def __init__(self, files, path, mode="r", **k):
        f = files.get(str(path))
        if not isinstance(f, File):
            f = next((x for p, x in files.items() if isinstance(x, File) and V.same_text(p, str(path))), None)
        if f is None:
            raise FileNotFoundError(str(path))
        if mode in ("w", "x"):
            f.variables.clear()
            f.sizes.clear()
        elif mode not in ("a", "r+", "r"):
            raise Unsupported(f"mode {mode!r}")
        self._f, self._mode = f, mode

    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def close(self): pass
    def sync(self): pass

    def __getitem__(self, k):
        if k not in self._f.variables:
            raise IndexError(f"{k} not found in /")
        v = self._f.variables[k]
        if self._mode == "r":
            raise Unsupported("file opened for reading")
        return v

    @property
    def variables(self):
        if self._mode == "r":
            raise Unsupported("file opened for reading")
        return self._f.variables

    @property
    def dimensions(self): return {k: NcDim(self._f, k) for k in self._f.sizes}


def encode_cf_variable(var, needs_copy=True, name=None):
    v = X.as_var(var)
    r = v.data.reader()
    probe = r(tuple(T.var(f"#{k}", "I") for k in range(v.data.ndim)))
    out = X.Var(v.dims, v.data, v.attrs)
    if not isinstance(probe, Time):
        return out
    c, enc = ctx(), v.encoding
    cal = enc.get("calendar", probe.cal)
    if cal != probe.cal:
        raise Unsupported("times encoded in another calendar")
    if "units" in enc:
        u = Unit.of(enc["units"], cal)
    else:                   # some unit that suits the data
        scale = T.var(c.fresh("!unit"), "R")
        c.assume(T.gt0(scale))
        u = Unit(Num(scale), Num(T.var(c.fresh("!since"), "I")))
    out.data = A.NDArray(v.data._shape, lambda i: u.encode(r(i)))
    out.attrs |= {"calendar": cal, "units": enc.get("units", "of the data")}
    return out


def encode_dataset_coordinates(ds):
    def shallow(v):
        w = X.Var(v.dims, v.data, v.attrs)
        w.encoding = dict(v.encoding)
        return w
    return {k: shallow(v) for k, v in {**ds._vars, **ds._coords}.items()}, {}


def make(xr):
    m = types.ModuleType("netCDF4")
    m.Dataset = lambda path, mode="r", **k: NcDataset(xr.files, path, mode, **k)
    m.Variable, m.Dimension = NcVar, NcDim
    xr.conventions = types.SimpleNamespace(encode_cf_variable=encode_cf_variable, encode_dataset_coordinates=encode_dataset_coordinates)
    return m
