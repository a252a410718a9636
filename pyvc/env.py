"""SymEnv: the contract language interpreted symbolically (obligations for the prover)."""
from __future__ import annotations
import itertools, math, inspect, types
from fractions import Fraction
from . import terms as T, values as V, arrays as A, xrmodel as X
from .terms import TRUE, FALSE, Unsupported, Poly
from .values import Num, SBool, Time, Delta, num, poly, to_bool, is_num, ctx
from .loader import Loader, default_models, clear_memos


def asnd(a):
    if isinstance(a, A.NDArray):
        return a
    if isinstance(a, X.DataArray):
        return a._var.data
    return A.asarray(a)


def frozen(f, memo=None):
    """f with the values its free variables have now: elements are evaluated later, when a loop
    variable of the contract may have moved on."""
    if not isinstance(f, types.FunctionType) or not f.__closure__ or not f.__module__.startswith("contracts"):
        return f
    memo = {} if memo is None else memo
    if id(f) in memo:
        return memo[id(f)]
    cells = tuple(types.CellType() for _ in f.__closure__)
    g = memo[id(f)] = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, cells)
    g.__kwdefaults__ = f.__kwdefaults__
    for new, old in zip(cells, f.__closure__):
        try:
            new.cell_contents = frozen(old.cell_contents, memo)
        except ValueError:
            pass
    return g


class Raised(Exception):
    pass


class SymEnv:
    symbolic = True

    def __init__(self, harness, stubs=(), models=None, source=None, transforms=None):
        self.harness = harness
        self.models = default_models()
        self.models["wam2layers.config"] = None    # filled below
        from .fakeconfig import make_config_module
        self.models["wam2layers.config"] = make_config_module()
        self.models.update(models or {})
        self.stubs = list(stubs)
        self.source = source        # concrete values for model conformance runs
        self.transforms = transforms or {}
        self.loader = None
        self.functions = set()
        self.stubbed = set()
        self.observed = []
        self.persist = {}       # survives paths: what loops look like
        self.loop_driver = None
        self.np = self.models["numpy"]
        self.xr = self.models["xarray"]

    # ---------------------------------------------------------------- life cycle
    def begin(self):
        """A fresh copy of the modules for every path (module state must not leak between paths)."""
        clear_memos()
        from . import remodel
        remodel.begin()
        self.memory = {}        # per path: state of harness-specific stubs
        self.loader = Loader(self.models, self.transforms)
        self.loop_driver = None
        self.xr.files = {}
        if V.Ctx.cur is not None:
            V.Ctx.cur.log = []
        from .loops import Loop, Plain
        self.loader.builtins["__vc_loop"] = lambda lid, names: Loop(self, lid, names)
        self.loader.builtins["__vc_for"] = lambda lid, names, xs: Loop(self, lid, names, xs) if getattr(xs, "_is_symseq", False) else Plain(xs)
        for st in self.stubs:
            self._install(st)

    def _install(self, st):
        mod, attr = st.target.split(":")
        env = self

        def wrapper(*a, **k):
            try:
                inspect.signature(wrapper.spec).bind(*a, **k)
            except TypeError:
                return wrapper.orig(*a, **k)
            env.stubbed.add(st.target)
            return wrapper.spec(*a, **k)
        wrapper.spec = st.make(env)
        m = self.loader.load(mod)
        if not hasattr(m, attr):
            return
        wrapper.orig = getattr(m, attr)
        # replace in the defining module and wherever it was imported by name already
        for mm in list(self.loader.modules.values()):
            for k, v in list(mm.__dict__.items()):
                if v is wrapper.orig and not k.startswith("__"):
                    mm.__dict__[k] = wrapper
        self.loader.overlay[(mod, attr)] = wrapper

    def mod(self, name):
        return self.loader.load(name)

    def fn(self, spec):
        mod, attr = spec.split(":")
        m = self.loader.load(mod)
        obj = m
        for part in attr.split("."):
            try:
                obj = getattr(obj, part)
            except AttributeError:
                raise Unsupported(f"target {spec} not found")
        self.functions.add(spec)
        return obj

    def patch(self, mod, **kw):
        m = self.loader.load(mod) if self.loader.models.get(mod) is None or mod.startswith("wam2layers") else self.loader.models[mod]
        for k, v in kw.items():
            if not hasattr(m, k):
                raise Unsupported(f"{mod}.{k} not found")
            m.__dict__[k] = v

    # ---------------------------------------------------------------- inputs
    def assume(self, cond):
        c = to_bool(cond)
        if self.source is not None and c is FALSE:
            raise V.Infeasible()
        ctx().assume(c)

    def dim(self, name, lo=1, hi=None):
        if self.source is not None:
            return int(self.source.dim(name, lo, hi))
        v = T.var(name, "I")
        T.declare(name, pos=lo >= 1, nonneg=lo >= 0)
        ctx().assume(T.raw(T.ge, v, T.const(lo)))
        if hi is not None:
            ctx().assume(T.ge(T.const(hi), v))
        return Num(v)

    def int(self, name, lo=None, hi=None, prefer=None):
        if self.source is not None:
            return num(int(self.source.int(name, lo, hi)))
        v = T.var(name, "I")
        self._bounds(v, lo, hi)
        return Num(v)

    def _bounds(self, v, lo, hi, strict=False):
        if lo is not None:
            k = poly(lo).const()
            if k is not None:
                T.declare(next(iter(v.d))[0][0].name, pos=k > 0, nonneg=k >= 0)
            ctx().assume(T.raw(T.gt, v, poly(lo)) if strict else T.raw(T.ge, v, poly(lo)))
        if hi is not None:
            ctx().assume(T.ge(poly(hi), v))

    def real(self, name, lo=None, hi=None, pos=False, scale=1):
        if self.source is not None:
            return num(self.source.real(name, lo, hi, pos, scale))
        v = T.var(name)
        if pos:
            T.declare(name, pos=True)
            ctx().assume(T.raw(T.gt0, v))
        self._bounds(v, lo, hi)
        return Num(v)

    def bool(self, name):
        if self.source is not None:
            return bool(self.source.bool(name))
        return bool(SBool(T.bvar(name)))

    def choice(self, name, options):
        if self.source is not None:
            return options[self.source.choice(name, len(options))]
        for k, o in enumerate(options[:-1]):
            if bool(SBool(T.bvar(f"{name}={k}"))):
                return o
        return options[-1]

    def text(self, name, pool):
        """Any text (in concrete runs one of the pool)."""
        if self.source is not None:
            return pool[self.source.choice(name, len(pool))]
        return V.SText(name)

    def anytext(self, name, draw, pattern=None):
        """Any printable ASCII text, matching the pattern (in concrete runs drawn by draw(random))."""
        from . import remodel
        return remodel.text(name, pattern)

    def fullmatch(self, pattern, text):
        return self.models["re"].fullmatch(pattern, text)

    def same_text(self, label, a, b):
        from . import remodel
        remodel.same(label, a, b)

    def array(self, name, shape, lo=None, hi=None, pos=False, kind="f", nan=False, scale=1):
        shape = tuple(shape)
        if self.source is not None:
            tab = self.source.array(name, tuple(int(num(s).p.const()) for s in shape), lo, hi, pos, kind, nan, scale)
            return A.from_real(tab)
        pr = ctx().prover
        nm = name
        if kind == "b":
            return A.NDArray([poly(s) for s in shape], lambda i: SBool(T.bapp(nm, tuple(i))), dtype="b")
        sort = "I" if kind == "i" else "R"
        fs = []
        if pos:
            T.declare(nm, pos=True)
            fs.append(lambda a: T.raw(T.gt0, T.app(nm, a, sort)))
        if lo is not None:
            k = poly(lo).const()
            if k is not None:
                T.declare(nm, pos=k > 0, nonneg=k >= 0)
            fs.append(lambda a: T.raw(T.ge, T.app(nm, a, sort), poly(lo)))
        if hi is not None:
            fs.append(lambda a: T.ge(poly(hi), T.app(nm, a, sort)))
        pr.facts[nm] = fs

        def el(i):
            fl = T.bapp(nm + "?nan", tuple(i)) if nan else FALSE
            return Num(T.app(nm, tuple(i), sort), fl)
        return A.NDArray([poly(s) for s in shape], el, dtype="i" if kind == "i" else "f")

    def build(self, shape, f, kind="f"):
        """An array given by its elements."""
        f = frozen(f)
        return A.NDArray([poly(s) for s in shape], lambda i: f(*[Num(x) for x in i]), dtype=kind)

    def da(self, dims, arr, coords=None, attrs=None, name=None):
        return X.DataArray(asnd(arr), dims=list(dims), coords={k: ((k,), asnd(v)) if not isinstance(v, tuple) else v for k, v in (coords or {}).items()}, attrs=attrs, name=name)

    def ds(self, data, coords=None, attrs=None):
        d = {k: (list(v[0]), asnd(v[1])) for k, v in data.items()}
        c = {k: ((k,), asnd(v)) if not isinstance(v, tuple) else v for k, v in (coords or {}).items()}
        return X.Dataset(d, coords=c, attrs=attrs)

    def time(self, name, cal="standard"):
        if self.source is not None:
            return Time(num(self.source.time(name)), cal)
        return Time(Num(T.var(name)), cal)

    def times(self, name, n, increasing=True):
        """An increasing (or arbitrary) axis of n instants (whole seconds)."""
        f = lambda i: Num(T.app(name, (poly(i),), "I"))
        if self.source is None and increasing:
            ctx().forall(2, lambda i, j: T.implies(T.and_(T.ge0(i), T.gt(j, i), T.gt(poly(n), j)), T.gt(f(j).p, f(i).p)))
        return A.NDArray([poly(n)], lambda i: Time(f(i[0]), "standard"), dtype="O")

    def time_axis(self, t0, step, n):
        """n instants, `step` seconds apart."""
        return A.NDArray([poly(n)], lambda i: Time(t0.s + Num(i[0]) * num(step), t0.cal), dtype="O")

    def exp_facts(self, *xs):
        """exp is positive and strictly increasing (assumed mathematical facts), at these arguments."""
        xs = [num(x).p for x in xs]
        ex = [num(A.uf("exp")(Num(x))).p for x in xs]
        for a in ex:
            ctx().assume(T.gt0(a))
        for a, x in zip(ex, xs):
            for b, y in zip(ex, xs):
                if a is not b:
                    ctx().assume(T.implies(T.gt(y, x), T.gt(b, a)))

    def strftime(self, t, fmt):
        return t.strftime(fmt)

    def secs(self, t):
        """Seconds since the epoch that frequencies are counted from."""
        return t.s

    def plus(self, t, seconds):
        return Time(t.s + num(seconds), t.cal)

    def freq(self, name, options):
        """A frequency setting; symbolically of any length of whole seconds."""
        from .pdmodel import Freq
        return Freq(self.int(name, 1))

    def every(self, seconds):
        from .pdmodel import Freq
        return Freq(seconds)

    def only(self, **attrs):
        """An object with these attributes."""
        import types
        return types.SimpleNamespace(**attrs)

    def pool(self):
        """Worker processes: calls are independent of each other; an arbitrary one is made."""
        env = self

        class Pool:
            def __init__(self, *a, **k): pass
            def __enter__(self): return self
            def __exit__(self, *a): return None
            close = join = terminate = lambda self: None

            def _each(self, f, xs, star):
                if not getattr(xs, "_is_symseq", False):
                    return [f(*x) if star else f(x) for x in xs]
                k = env.int("pool call", 0)
                env.assume(k < xs.n)
                x = xs.at(k)
                f(*x) if star else f(x)
            def starmap(self, f, xs, chunksize=None): return self._each(f, xs, True)
            def map(self, f, xs, chunksize=None): return self._each(f, xs, False)
        return Pool

    def day_of(self, t):
        """Timestamps of one day in increasing order."""
        from .cfmodel import TimeSeq
        c = ctx()
        n = self.int("timestamps", 1)
        f = lambda k: Num(T.app("!stamp", (num(k).p,), "I"))
        day = lambda s: T.floor_((s / 86400).p)
        c.forall(1, lambda k: T.implies(T.and_(T.ge0(k), T.gt(n.p, k)), T.eq(day(f(k)), day(f(0)))))
        c.forall(1, lambda k: T.implies(T.and_(T.ge0(k), T.gt(n.p, k.add(T.ONE))), T.gt(f(Num(k) + 1).p, f(k).p)))

        def at(k):
            if k.p.const() is not None and k.p.const() != 0:
                raise Unsupported("entry of a day at a fixed place")
            return Time(f(k), t.cal)
        return TimeSeq(n, at)

    def names_day(self, path, folder, t):
        """The path names a file of the folder by year, month and day of t, and by nothing else that varies."""
        path = str(path)
        toks = V.decode_tokens(path)
        if len(toks) != 1 or toks[0][0] != "strftime" or not isinstance(toks[0][2], Time):
            raise Unsupported("name of a preprocessed file in an unknown form")
        fmt = toks[0][1]
        import re
        if sorted(re.findall("%(.)", fmt)) != ["Y", "d", "m"]:
            return False
        same = self.eq(self.floor(toks[0][2].s / 86400), self.floor(t.s / 86400))
        rest = re.sub("\u27e6[^\u27e7]*\u27e7", fmt.replace("%Y", "2001").replace("%m", "02").replace("%d", "03"), path)
        return self.and_(same, rest == str(folder / "2001-02-03_fluxes_storages.nc"))

    def group(self, times):
        """A group of timestamps: the sequence it is taken from, its entries and their number."""
        if not hasattr(times, "base"):
            raise Unsupported("timestamps of a day made in an unknown way")
        return times.base, times.at, times.n

    def period(self, f):
        from .pdmodel import freq_seconds
        return freq_seconds(f)

    def field(self, name, t, shape, pos=False, lo=None, scale=1):
        """A field of unknown content that depends on the time."""
        k = t.s.p
        if pos:
            T.declare(name, pos=True)
            ctx().prover.facts[name] = [lambda a: T.raw(T.gt0, T.app(name, a))]
        elif lo is not None:
            T.declare(name, nonneg=True)
            ctx().prover.facts[name] = [lambda a: T.raw(T.ge, T.app(name, a), poly(lo))]
        return A.NDArray([poly(s) for s in shape], lambda i: Num(T.app(name, (k,) + tuple(i))), dtype="f")

    def havoc(self, ds, tag):
        """Arbitrary contents for every variable of a dataset."""
        for k in list(ds.data_vars):
            v = asnd(ds[k])
            ds[k].values = self.array(f"{k}@{tag}", v.shape)

    def scratch_path(self, name):
        import pathlib
        return pathlib.Path("/scratch") / name

    def make_dir(self, path):
        pass

    def forget(self, what):
        """Caches may lose entries at any moment."""
        from . import loader
        loader._evict[0] = True

    def at_time(self, a, *idx):
        return self.at(a, *idx)

    def written_file(self, folder):
        """The dataset written by the last to_netcdf call."""
        w = self.log("to_netcdf")
        if not w:
            raise Unsupported("nothing was written")
        return w[-1][1]

    def tells_minutes(self, text, t):
        """The text contains t in a format that shows year, month, day, hour and minute."""
        for kind, fmt, x in V.decode_tokens(text):
            if kind == "strftime" and x.s.p is t.s.p and all("%" + c in fmt for c in "YmdHM"):
                return True
        raise Unsupported("name of an output file in an unknown form")

    def provide_file(self, path, ds):
        """A file with this content exists."""
        self.xr.files[str(path)] = ds

    def store(self, path, ds, unlimited=(), encoding=None):
        """A netCDF file with this content exists; its unlimited dimensions can grow."""
        from .ncmodel import File
        self.xr.files[str(path)] = File(ds, unlimited, encoding)

    def reopened(self, path):
        """What the netCDF file holds now."""
        return self.xr.files[str(path)].dataset()

    def percentages(self, text):
        import re
        out = {}
        for label, tok in re.findall("([A-Z][A-Za-z ]*): (\u27e6[^\u27e7]*\u27e7|[-+0-9.e]+)%", text):
            out[label] = V.decode_number(tok) if tok.startswith("\u27e6") else num(Fraction(tok))
        return out

    def shown(self, shown, exact):
        """A number in a text equals the exact one up to the digits displayed."""
        return self.eq(shown, exact)

    def unsupported(self, why):
        raise Unsupported(why)

    def bbox(self, w, s, e, n):
        from .fakeconfig import BBox
        return BBox(w, s, e, n)

    def config(self, **kw):
        from .fakeconfig import FakeConfig
        return FakeConfig(**kw)

    # ---------------------------------------------------------------- logic
    def at(self, a, *idx):
        a = asnd(a)
        return a.reader()(tuple(poly(i) for i in idx))

    def shape(self, a):
        return asnd(a).shape

    def ndim(self, a):
        return asnd(a).ndim

    def val(self, x):
        if isinstance(x, (A.NDArray, X.DataArray)):
            return asnd(x).item()
        return x

    def eq(self, a, b, scale=1):
        if isinstance(a, Time) or isinstance(b, Time):
            return a == b
        a, b = num(self.val(a)), num(self.val(b))
        self._obs(a)
        return SBool(T.and_(T.not_(a.nan), T.not_(a.bad), T.not_(b.nan), T.not_(b.bad), T.eq(a.p, b.p)))

    def le(self, a, b, scale=1):
        a, b = num(self.val(a)), num(self.val(b))
        self._obs(a)
        return SBool(T.and_(T.not_(a.nan), T.not_(a.bad), T.not_(b.nan), T.not_(b.bad), T.ge(b.p, a.p)))

    def ge(self, a, b, scale=1):
        return self.le(b, a)

    def lt(self, a, b):
        a, b = num(self.val(a)), num(self.val(b))
        return SBool(T.and_(T.not_(a.nan), T.not_(b.nan), T.gt(b.p, a.p)))

    def defined(self, a):
        a = num(self.val(a))
        self._obs(a)
        return SBool(T.and_(T.not_(a.nan), T.not_(a.bad)))

    def isnan(self, a):
        return SBool(num(self.val(a)).nan)

    def _obs(self, a):
        if self.source is not None:
            self.observed.append(a)

    def iff(self, a, b):
        a, b = to_bool(a), to_bool(b)
        return SBool(T.bite(a, b, T.not_(b)))

    def truth(self, a):
        return SBool(to_bool(self.val(a) if not isinstance(a, SBool) else a))

    def and_(self, *cs): return SBool(T.and_(*[to_bool(c() if callable(c) else c) for c in cs]))
    def or_(self, *cs): return SBool(T.or_(*[to_bool(c() if callable(c) else c) for c in cs]))
    def not_(self, c): return SBool(T.not_(to_bool(c)))
    def implies(self, a, b): return SBool(T.implies(to_bool(a), to_bool(b() if callable(b) else b)))

    def ite(self, c, a, b):
        c = to_bool(c)
        if c is TRUE:
            return a() if callable(a) else a
        if c is FALSE:
            return b() if callable(b) else b
        return V.select(SBool(c), a() if callable(a) else a, b() if callable(b) else b)

    def name(self, a):
        """The same value under a name, so that large parts stay opaque where their content does not matter."""
        a = num(a)
        return Num(T.let(a.p, 2), a.nan, a.bad)

    def abs(self, a): return V.abs_(a)
    def min(self, a, *bs):
        for b in bs:
            a = V.min_(a, b)
        return num(a)
    def max(self, a, *bs):
        for b in bs:
            a = V.max_(a, b)
        return num(a)
    def sign(self, a): return V.sign_(a)
    def floor(self, a): return Num(T.floor_(poly(a)))
    def const(self, a): return num(a)

    def fun(self, name, x):
        return A.uf(name)(x)

    @property
    def pi(self): return A.PI

    def sum(self, n, f, lo=0):
        """Sum over lo <= i < n."""
        bad = []
        def body(bv):
            v = num(f(Num(bv[0])))
            if v.nan is not FALSE or v.bad is not FALSE:
                raise Unsupported("possibly undefined summand in a specification")
            return v.p
        return Num(T.sum_over([(poly(lo), poly(n))], body))

    def telescope(self, n, g):
        """Sum of g(k + 1) - g(k) over 0 <= k < n is g(n) - g(0), for n >= 0 (an axiom about finite sums)."""
        if self.source is None:
            ctx().assume(self.eq(self.sum(n, lambda k: g(k + 1) - g(k)), g(n) - g(0)))

    def sum2(self, n, m, f, lo=(0, 0)):
        """Sum over lo[0] <= i < n, lo[1] <= j < m."""
        def body(bv):
            v = num(f(Num(bv[0]), Num(bv[1])))
            return v.p
        return Num(T.sum_over([(poly(lo[0]), poly(n)), (poly(lo[1]), poly(m))], body))

    # ---------------------------------------------------------------- obligations
    def check(self, label, cond):
        if cond is False and self.source is None:
            from . import remodel
            if remodel.STATE.vars:
                m = remodel.query()
                if m is not None:
                    remodel.witness(m)
        ctx().oblige(label, to_bool(cond))

    def prove(self, label, cond):
        """An intermediate fact: an obligation, then available to later ones."""
        b = to_bool(cond)
        ctx().oblige(label, b)
        ctx().assume(b)

    def check_known(self, finding, label, ranges, cond, alt):
        """Obligation `cond`; the recorded finding is exactly the case that `cond` fails but `alt` holds."""
        self.forall(label, ranges, cond)
        o1 = ctx().obligations.pop()
        if self.source is not None:
            return
        self.forall(label + " [as recorded in finding " + finding + "]", ranges, alt)
        o2 = ctx().obligations.pop()
        o1.meta = dict(o1.meta, known=finding, alt=o2)
        ctx().obligations.append(o1)

    def forall(self, label, ranges, f, lo=0):
        """For every index with lo <= i < n."""
        c = ctx()
        if self.source is not None:
            for t in itertools.product(*[range(int(num(lo).p.const()), int(num(n).p.const())) for n in ranges]):
                c.oblige(label, to_bool(f(*t)))
            return
        idx, hyps = [], []
        for k, n in enumerate(ranges):
            v = T.var(c.fresh(f"!{'ijklm'[k]}"), "I")
            idx.append(Num(v))
            hyps += [T.ge(v, poly(lo)), T.gt(poly(n), v)]
        # the body is evaluated under the range hypotheses (they matter to branch decisions)
        n0 = len(c.pc)
        c.pc = c.pc + hyps
        try:
            b = to_bool(f(*idx))
        finally:
            extra = c.pc[n0 + len(hyps):]
            c.pc = c.pc[:n0] + extra
        c.oblige(label, b, hyps)

    def found(self, i, n, f):
        """Some k < n satisfies f(k), where k is one of the positions that the selections made by the code
        give to entry i (a condition that implies the existence of k)."""
        cand = [poly(i)]
        for places in ctx().places:
            cand += [g(x) for x in cand for g in places]
            if len(cand) > 64:
                raise Unsupported("too many selections")
        cand = list({x.id: x for x in cand}.values())
        return SBool(T.or_(*[T.and_(T.ge0(x), T.gt(poly(n), x), to_bool(f(Num(x)))) for x in cand]))

    def fresh_array(self, name, shape):
        return self.array(ctx().fresh("!" + name), shape)

    def record(self, kind, *what):
        self.memory.setdefault(("record", kind), []).append(what)

    def recorded(self, kind):
        return self.memory.get(("record", kind), [])

    def located(self, label, i, n, cell, f):
        """Obligation: some k < n satisfies f(k); k is a position that the sorting done by the code gives to entry
        i + d of the cell, d being the number of entries inserted before it.  Returns k."""
        c = ctx()
        rest = tuple(poly(x) for x in cell)
        shifts = range(len(c.cell_places) + 3)
        cand = [poly(i).add(T.const(d)) for d in shifts]
        for place in c.cell_places:
            cand = cand + [place(x, rest).add(T.const(d)) for x in cand for d in shifts[:3]]
            cand = list({x.id: x for x in cand}.values())
        tries = []
        for k in cand:
            n0 = len(c.pc)
            c.pc = c.pc + [T.ge0(k), T.gt(poly(n), k)]
            try:
                g = to_bool(f(Num(k)))
            finally:
                del c.pc[n0:n0 + 2]
            if g is not FALSE:
                atoms = [a for a in T.atoms_of(g) if a.kind == "app"]
                tries.append((sum(a.name.startswith(("!order", "!place")) for a in atoms), len(atoms), k.id, k, g))
        tries.sort(key=lambda t: t[:3])
        simple = [x for x in c.quants if x[0] == 1 and len(x) > 2]
        for _, _, _, k, g in tries[:12]:
            g = T.and_(T.ge0(k), T.gt(poly(n), k), g)
            if all(c.prover.entails_quick(c.pc, x, simple) for x in (g.args if g.kind == "and" else [g])):
                c.oblige(label, g)
                return Num(k)
        for _, _, _, k, g in tries[:6]:
            g = T.and_(T.ge0(k), T.gt(poly(n), k), g)
            if c.prover.cheap(c.pc, g, [x for x in c.quants if x[0] == 1]):
                c.oblige(label, g)
                return Num(k)
        c.oblige(label, FALSE)
        return None

    def trivially(self, ranges, f):
        """Whether f holds by normal form alone for arbitrary indices (used to match calls, never to prove)."""
        c = ctx()
        n0 = len(c.pc)
        idx = [Num(T.var(c.fresh("!q"), "I")) for _ in ranges]
        b = to_bool(f(*idx))
        del c.pc[n0:]
        return b is TRUE

    def lemma_forall(self, label, ranges, f, lo=0):
        """Prove a universally quantified fact and make it available to later obligations."""
        self.forall(label, ranges, f, lo)
        if self.source is None:
            rs = [poly(n) for n in ranges]
            l0 = poly(lo)
            ctx().forall(len(rs), lambda *i: T.implies(
                T.and_(*[x for k, n in zip(i, rs) for x in (T.ge(k, l0), T.gt(n, k))]), to_bool(f(*[Num(k) for k in i]))))

    def forall_value(self, ranges, f, name="everywhere"):
        """Whether a condition holds everywhere: both cases, the second with an arbitrary witness."""
        if self.bool(name):
            self.assume_forall(ranges, f)
            return True
        w = [self.int(name + f" not at {k}", 0) for k in range(len(ranges))]
        for i, n in zip(w, ranges):
            self.assume(i < n)
        self.assume(self.not_(f(*w)))
        return False

    def assume_forall(self, ranges, f, lo=0):
        if self.source is not None:
            return
        f = frozen(f)
        rs = [poly(n) for n in ranges]
        l0 = poly(lo)

        def body(*i):
            A.GUARDED.append(1)
            try:
                b = to_bool(f(*[Num(k) for k in i]))
            finally:
                A.GUARDED.pop()
            return T.implies(T.and_(*[x for k, n in zip(i, rs) for x in (T.ge(k, l0), T.gt(n, k))]), b)
        ctx().forall(len(rs), body)

    def snapshot(self, a):
        a = asnd(a)
        r = a.reader()
        return A.NDArray(a._shape, r, dtype=a.kind)

    def same(self, label, a, b, scale=1):
        """Same shape and elementwise equal (missing values in the same places)."""
        a, b = asnd(a), asnd(b)
        if a.ndim != b.ndim:
            ctx().oblige(label + " (rank)", FALSE)
            return
        for x, y in zip(a._shape, b._shape):
            ctx().oblige(label + " (shape)", T.eq(x, y))
        ra, rb = a.reader(), b.reader()

        def f(*i):
            t = tuple(poly(x) for x in i)
            x, y = ra(t), rb(t)
            if isinstance(x, SBool) or isinstance(y, SBool):
                return self.iff(x, y)
            x, y = num(x), num(y)
            self._obs(x)
            return SBool(T.and_(T.bite(x.nan, y.nan, T.not_(y.nan)), T.not_(x.bad), T.or_(x.nan, T.eq(x.p, y.p))))
        self.forall(label, [Num(d) for d in a._shape], f)

    def shape_is(self, label, a, shape):
        a = asnd(a)
        if a.ndim != len(shape):
            ctx().oblige(label, FALSE)
        else:
            ctx().oblige(label, T.and_(*[T.eq(x, poly(y)) for x, y in zip(a._shape, shape)]))

    def raises(self, fn, *exc):
        """Returns (raised, value)."""
        exc = exc or (Exception,)
        try:
            return False, fn()
        except (Unsupported, V.Infeasible, V.PathEnd):
            raise
        except exc as ex:
            self._genuine(ex)
            return True, ex

    def _genuine(self, ex):
        """Only exceptions the code itself raises (or a modelled library error) count."""
        if isinstance(ex, (TypeError, AttributeError, NameError)):
            raise Unsupported(f"exception from the models: {ex!r}")

    def log(self, kind):
        return [x for x in ctx().log if x[0] == kind]

    def warned(self, fn):
        """Whether a call issued a warning (and that it did not fail)."""
        n = len(self.log("warnings.warn"))
        raised, ex = self.raises(fn)
        self.check("checks never fail", not raised)
        return len(self.log("warnings.warn")) > n

    def note(self, text):
        pass

    def is_sym(self):
        return self.source is None
