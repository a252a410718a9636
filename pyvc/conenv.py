"""ConEnv: the same contracts evaluated on the real code with concrete inputs (CPython, /opt/venv)."""
import importlib, itertools, math, os, re, tempfile, warnings
from .source import Skip, Random, Table

RTOL = 1e-8


class ConEnv:
    symbolic = False

    def __init__(self, source, scratch):
        import numpy, xarray
        self.source, self.scratch = source, scratch
        self.np, self.xr = numpy, xarray
        self.failed = []
        self._undo = []
        self.memory = {}
        self.persist = {}
        self.loop_driver = None
        self.known = set()
        self.count = 0
        self.values = []
        self.logs = []
        self.worst = None

    def is_sym(self): return False

    # inputs
    def mod(self, name): return importlib.import_module(name)

    def fn(self, spec):
        mod, attr = spec.split(":")
        obj = importlib.import_module(mod)
        for part in attr.split("."):
            obj = getattr(obj, part)
        return obj

    def assume(self, c):
        if not bool(c):
            raise Skip()

    def dim(self, name, lo=1, hi=None): return int(self.source.dim(name, lo, hi))
    def int(self, name, lo=None, hi=None, prefer=None): return int(self.source.int(name, lo, hi, prefer))
    def real(self, name, lo=None, hi=None, pos=False, scale=1):
        v = self.source.real(name, lo, hi, pos, scale)
        if (pos and v <= 0) or (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip()
        return v
    def bool(self, name): return bool(self.source.bool(name))
    def choice(self, name, options): return options[self.source.choice(name, len(options))]

    def text(self, name, pool): return pool[self.source.choice(name, len(pool))]

    def anytext(self, name, draw, pattern=None):
        t = self.source.text(name, draw)
        if pattern and not re.fullmatch(pattern, t):
            raise Skip()
        return t

    def fullmatch(self, pattern, text): return re.fullmatch(pattern, text)
    def same_text(self, label, a, b): self.check(f"{label} ({a!r} and {b!r})", isinstance(a, str) and a == b)

    def array(self, name, shape, lo=None, hi=None, pos=False, kind="f", nan=False, scale=1):
        a = self.source.array(name, tuple(int(s) for s in shape), lo, hi, pos, kind, nan, scale)
        if kind == "f":
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if (pos and (a <= 0).any()) or (lo is not None and (a < float(lo)).any()) or (hi is not None and (a > float(hi)).any()):
                    raise Skip()
        return a

    def build(self, shape, f, kind="f"):
        a = self.np.zeros(tuple(int(s) for s in shape), dtype={"f": float, "i": int, "b": bool}[kind])
        for t in itertools.product(*[range(n) for n in a.shape]):
            a[t] = f(*t)
        return a

    def da(self, dims, arr, coords=None, attrs=None, name=None):
        return self.xr.DataArray(arr, dims=list(dims), coords={k: v if isinstance(v, tuple) else ((k,), v) for k, v in (coords or {}).items()}, attrs=attrs, name=name)

    def ds(self, data, coords=None, attrs=None):
        return self.xr.Dataset({k: (list(v[0]), v[1]) for k, v in data.items()},
                               coords={k: v if isinstance(v, tuple) else ((k,), v) for k, v in (coords or {}).items()}, attrs=attrs)

    def time(self, name, cal="standard"):
        import cftime
        s = self.source.time(name)
        cls = {"standard": cftime.DatetimeGregorian, "noleap": cftime.DatetimeNoLeap, "360_day": cftime.Datetime360Day, "julian": cftime.DatetimeJulian, "all_leap": cftime.DatetimeAllLeap,
               "proleptic_gregorian": cftime.DatetimeProlepticGregorian}[cal]
        import datetime
        if not hasattr(self, "_start"):
            self._start = ((2001, 2, 27), (2001, 2, 27), (2000, 12, 29), (2004, 2, 27))[self.source.choice("days from", 4)]
        return cls(*self._start) + datetime.timedelta(seconds=round(float(s)))

    def only(self, **attrs):
        import types
        return types.SimpleNamespace(**attrs)

    def pool(self):
        """Worker processes, one after another (functions replaced in this process cannot be sent to others)."""
        class Pool:
            def __init__(self, *a, **k): pass
            def __enter__(self): return self
            def __exit__(self, *a): return None
            close = join = terminate = lambda self: None
            def starmap(self, f, xs, chunksize=None): return [f(*x) for x in xs]
            def map(self, f, xs, chunksize=None): return [f(x) for x in xs]
        return Pool

    def scratch_path(self, name):
        from pathlib import Path
        return Path(self.scratch) / name

    def make_dir(self, path):
        os.makedirs(path, exist_ok=True)

    def forget(self, what):
        pass

    def at_time(self, a, *idx):
        return self.np.asarray(a)[tuple(int(i) for i in idx)]

    def written_file(self, folder):
        fs = [os.path.join(folder, f) for f in sorted(os.listdir(folder)) if f.endswith(".nc")]
        if len(fs) != 1:
            self.failed.append((f"exactly one file written: {fs}", None))
            raise Skip()
        import xarray, cftime
        with xarray.open_dataset(fs[0], use_cftime=True) as d:
            return d.load()

    def provide_file(self, path, ds):
        ds.to_netcdf(path)

    def store(self, path, ds, unlimited=(), encoding=None):
        ds.to_netcdf(path, unlimited_dims=list(unlimited), encoding=encoding or {}, mode="w")

    def reopened(self, path):
        import xarray
        with xarray.open_dataset(path, decode_times=xarray.coders.CFDatetimeCoder(use_cftime=True)) as d:
            return d.load()

    def telescope(self, n, g):
        pass

    def lemma_forall(self, label, ranges, f, lo=0):
        self.forall(label, ranges, f, lo)

    def percentages(self, text):
        import re
        return {a: float(b) for a, b in re.findall("([A-Z][A-Za-z ]*): ([-+0-9.einfa]+)%", text)}

    def shown(self, shown, exact):
        return abs(shown - exact) <= 0.0051 + 1e-7 * abs(exact)

    def unsupported(self, why):
        raise Skip()

    def bbox(self, w, s, e, n):
        from wam2layers.config import BoundingBox
        return BoundingBox(w, s, e, n)

    def config(self, **kw):
        from .fakeconfig import DEFAULTS
        from wam2layers.config import Config
        from pathlib import Path
        d = dict(DEFAULTS)
        d.update(output_folder=Path(self.scratch), preprocessed_data_folder=Path(self.scratch))
        d.update(kw)
        return Config.model_construct(**d)

    def patch(self, mod, **kw):
        m = importlib.import_module(mod)
        for k, v in kw.items():
            if not hasattr(m, k):
                raise Skip()
            self._undo.append((m, k, getattr(m, k)))
            setattr(m, k, v)

    def close(self):
        for m, k, v in reversed(self._undo):
            setattr(m, k, v)
        self._undo = []

    def strftime(self, t, fmt):
        return t.strftime(fmt)

    def times(self, name, n, increasing=True):
        import datetime
        t, out = self.time(name), []
        for k in range(int(n)):
            out.append(t)
            t = t + datetime.timedelta(hours=self.source.choice(f"{name}.{k} gap", 3) * 6 + (6 if increasing else -6))
        return self.np.array(out)

    def time_axis(self, t0, step, n):
        import datetime
        return self.np.array([t0 + datetime.timedelta(seconds=float(step) * k) for k in range(int(n))])

    def exp_facts(self, *xs):
        pass

    def secs(self, t):
        import datetime
        d = t - type(t)(1970, 1, 1)
        return d.days * 86400 + d.seconds + d.microseconds / 1e6

    def plus(self, t, seconds):
        import datetime
        return t + datetime.timedelta(seconds=float(seconds))

    def freq(self, name, options):
        return self.choice(name, options)

    def period(self, f):
        import pandas as pd
        return pd.Timedelta(f).total_seconds()

    def field(self, name, t, shape, pos=False, lo=None, scale=1):
        import zlib
        r = self.np.random.RandomState(zlib.crc32(f"{name}|{self.secs(t)}".encode()))
        a = r.randint(-200, 200, tuple(int(s) for s in shape)) / 16 * scale
        if pos:
            a = self.np.abs(a) + 0.5
        elif lo is not None:
            a = self.np.abs(a) + lo
        return a

    # logic
    def val(self, x):
        f = getattr(x, "item", None)
        return f() if f is not None and getattr(x, "size", 1) == 1 else x

    def at(self, a, *idx):
        a = self.np.asarray(a)
        for i, n in zip(idx, a.shape):
            if not 0 <= i < n:
                raise IndexError(f"specification index {idx} outside {a.shape}")
        return a[tuple(int(i) for i in idx)].item()

    def shape(self, a): return self.np.shape(a)
    def ndim(self, a): return self.np.ndim(a)

    def _f(self, x):
        return float(self.val(x))

    def eq(self, a, b, scale=1):
        if not isinstance(self.val(a), (int, float, bool, complex)) and not hasattr(self.val(a), "__float__"):
            return a == b
        a, b = self._f(a), self._f(b)
        self.values.append(a)
        if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
            return False
        return abs(a - b) <= RTOL * max(float(scale), abs(a), abs(b))

    def le(self, a, b, scale=1):
        a, b = self._f(a), self._f(b)
        self.values.append(a)
        if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
            return False
        return a <= b + RTOL * max(float(scale), abs(a), abs(b))

    def ge(self, a, b, scale=1): return self.le(b, a, scale)

    def lt(self, a, b): return self._f(a) < self._f(b)

    def defined(self, a):
        a = self._f(a)
        self.values.append(a)
        return not (math.isnan(a) or math.isinf(a))

    def isnan(self, a): return math.isnan(self._f(a))
    def iff(self, a, b): return bool(a) == bool(b)
    def truth(self, a): return bool(a)
    def and_(self, *cs): return all(bool(c() if callable(c) else c) for c in cs)
    def or_(self, *cs): return any(bool(c() if callable(c) else c) for c in cs)
    def not_(self, c): return not bool(c)
    def implies(self, a, b): return (not bool(a)) or bool(b() if callable(b) else b)
    def ite(self, c, a, b):
        x = a if bool(c) else b
        return x() if callable(x) else x
    def name(self, a): return a
    def abs(self, a): return abs(self._f(a))
    def min(self, *a): return min(self._f(x) for x in a)
    def max(self, *a): return max(self._f(x) for x in a)
    def sign(self, a):
        a = self._f(a)
        return (a > 0) - (a < 0)
    def floor(self, a): return math.floor(a)
    def const(self, a): return float(a)
    def fun(self, name, x): return getattr(math, name)(x)
    @property
    def pi(self): return math.pi
    def sum(self, n, f, lo=0): return math.fsum(f(i) for i in range(int(lo), int(n)))
    def sum2(self, n, m, f, lo=(0, 0)): return math.fsum(f(i, j) for i in range(int(lo[0]), int(n)) for j in range(int(lo[1]), int(m)))

    # obligations
    def check(self, label, cond):
        self.count += 1
        if not bool(cond):
            self.failed.append((label, None))

    prove = check

    def forall(self, label, ranges, f, lo=0):
        self.count += 1
        for t in itertools.product(*[range(int(lo), int(n)) for n in ranges]):
            if not bool(f(*t)):
                self.failed.append((label, list(t)))
                return

    def check_known(self, finding, label, ranges, cond, alt):
        self.count += 1
        for t in itertools.product(*[range(int(n)) for n in ranges]):
            if not bool(cond(*t)):
                if bool(alt(*t)):
                    self.known.add(finding)
                else:
                    self.failed.append((label, list(t)))
                    return

    lemma_forall = forall

    def forall_value(self, ranges, f, name=None):
        return all(bool(f(*t)) for t in itertools.product(*[range(int(n)) for n in ranges]))

    def assume_forall(self, ranges, f, lo=0):
        for t in itertools.product(*[range(int(lo), int(n)) for n in ranges]):
            if not bool(f(*t)):
                raise Skip()

    def snapshot(self, a): return self.np.array(a, copy=True)

    def same(self, label, a, b, scale=1):
        self.count += 1
        a, b = self.np.asarray(a), self.np.asarray(b)
        if a.shape != b.shape:
            self.failed.append((label + " (shape)", [list(a.shape), list(b.shape)]))
            return
        for t in itertools.product(*[range(n) for n in a.shape]):
            x, y = a[t], b[t]
            if isinstance(x, (self.np.bool_, bool)):
                ok = bool(x) == bool(y)
            else:
                x, y = float(x), float(y)
                self.values.append(x)
                ok = (math.isnan(x) and math.isnan(y)) or (not math.isinf(x) and abs(x - y) <= RTOL * max(float(scale), abs(x), abs(y)))
            if not ok:
                self.failed.append((label, list(t)))
                return

    def shape_is(self, label, a, shape):
        self.count += 1
        if tuple(self.np.shape(a)) != tuple(int(s) for s in shape):
            self.failed.append((label, list(self.np.shape(a))))

    def raises(self, fn, *exc):
        try:
            return False, fn()
        except (exc or (Exception,)) as ex:
            return True, ex

    def warned(self, fn):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            raised, ex = self.raises(fn)
        self.check(f"checks never fail ({ex if raised else ''})", not raised)
        return any(issubclass(x.category, UserWarning) for x in w)

    def log(self, kind): return []
    def note(self, text): pass
