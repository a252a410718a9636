"""Executes the *real* source text of /repo's modules with library imports bound to the models.

What is dropped or replaced (reported in every evidence file):
  * `import numpy/xarray/pandas/cftime/...` binds the models in this package;
  * builtins len, range, isinstance, float, int, bool, abs, min, max, sum, enumerate, zip, round
    accept symbolic values;
  * decimal literals denote exact numbers (Python would round 287.0597 / 461.525);
  * `[f(x) for x in xs]` over an array of symbolic length is the array of the f(x);
  * functools.lru_cache/cache become a transparent memo model;
  * `while` loops of functions verified with a loop contract are turned into
    `for _ in loop: ...` so that one arbitrary iteration is executed from a havocked state
    (the loop body's statements themselves are untouched).
Type annotations are not evaluated (the compiler flag of `from __future__ import annotations`).
"""
from __future__ import annotations
import ast, builtins, sys, types, os, importlib, math as _math
import __future__
from fractions import Fraction
from . import terms as T, values as V, arrays as A
from .terms import Unsupported
from .values import Num, SBool, Time, Delta, num, is_num

SRC = os.environ.get("VERIF_REPO", "/repo") + "/src"


# ------------------------------------------------------------------ shadowed builtins
def _symbolic(x):
    return isinstance(x, (Num, SBool))


def s_len(x):
    f = getattr(type(x), "_sym_len", None)
    if f is not None:
        return f(x)
    if getattr(x, "_is_symseq", False):
        return Num(x.n) if isinstance(x.n, T.Poly) else x.n
    if isinstance(x, A.NDArray):
        if not x._shape:
            raise TypeError("len() of unsized object")
        return A.dimval(x._shape[0])
    if getattr(x, "_is_xr", False) and hasattr(x, "_var"):
        return s_len(x._var.data)
    return builtins.len(x)


def s_range(*a):
    if any(_symbolic(x) and x.__class__ is Num and x.p.const() is None for x in a):
        return A.SymRange(*a)
    return builtins.range(*[int(x) for x in a])


class TypeTag(type):
    pass


def s_type(x, *a):
    if not a and isinstance(x, V.Time):
        from .cfmodel import CLASSES, CALS
        return CLASSES[CALS[x.cal]] if CALS.get(x.cal) in CLASSES else V.Time
    return builtins.type(x, *a)


def s_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    out = False
    for c in ts:
        if isinstance(c, types.UnionType):
            out = out or s_isinstance(x, c.__args__)
            continue
        if hasattr(c, "_model_cal"):
            from .cfmodel import CALS
            out = out or (isinstance(x, V.Time) and CALS.get(x.cal) == c._model_cal)
            continue
        names = getattr(c, "_model_types", None)
        if names is not None:
            out = out or builtins.isinstance(x, names)
            continue
        c = {s_float: float, s_int: int, s_bool: bool, s_range: range, s_type: type}.get(c, c) if callable(c) and not isinstance(c, type) else c
        if _symbolic(x):
            if c is float:
                out = out or (isinstance(x, Num) and not x.p.isint)
            elif c is int:
                out = out or (isinstance(x, Num) and x.p.isint) or isinstance(x, SBool)
            elif c is bool:
                out = out or isinstance(x, SBool)
            elif c is Num or c is SBool:
                out = out or isinstance(x, c)
            continue
        if isinstance(c, type):
            out = out or builtins.isinstance(x, c)
        else:
            raise Unsupported(f"isinstance with {c!r}")
    return out


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return s_isinstance(x, float)


def s_float(x=0):
    if _symbolic(x):
        return num(x)
    f = getattr(x, "_to_float", None)
    if f is not None:
        return f()
    if isinstance(x, A.NDArray) or getattr(x, "_is_xr", False):
        return num(x.item())
    if isinstance(x, str) and "\u27e6" in x:
        return V.decode_number(x)
    return builtins.float(x)


def s_int(x=0, *a):
    if _symbolic(x):
        return A.trunc(num(x))
    if isinstance(x, A.NDArray) or getattr(x, "_is_xr", False):
        return A.trunc(num(x.item()))
    return builtins.int(x, *a)


def s_bool(x=False):
    return builtins.bool(x)


def s_abs(x):
    return builtins.abs(x)


def _sym_in(xs):
    return any(_symbolic(x) for x in xs)


def s_min(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if k or not _sym_in(xs):
        return builtins.min(*a, **k)
    r = num(xs[0])
    for x in xs[1:]:
        r = V.min_(r, x)
    return r


def s_max(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if k or not _sym_in(xs):
        return builtins.max(*a, **k)
    r = num(xs[0])
    for x in xs[1:]:
        r = V.max_(r, x)
    return r


def s_sum(xs, start=0):
    if isinstance(xs, A.NDArray):
        return xs.sum(axis=0)
    return builtins.sum(xs, start)


def s_enumerate(xs, start=0):
    f = getattr(type(xs), "_sym_enumerate", None)
    if f is not None:
        return f(xs, start)
    return builtins.enumerate(xs, start)


def s_round(x, n=None):
    if _symbolic(x):
        raise Unsupported("round")
    return builtins.round(x) if n is None else builtins.round(x, n)


def s_print(*a, **k):
    return None


# ------------------------------------------------------------------ caches
_memo_registry = {}


def lru_cache(maxsize=128, typed=False):
    """Transparent memo keyed by the arguments: what the real cache returns when it hits.
    The cached *object* is returned again (identity), as functools does."""
    def deco(f):
        memo = {}

        def g(*a, **k):
            try:
                key = (a, tuple(sorted(k.items())))
                hash(key)
            except TypeError:
                raise Unsupported("unhashable cache key")
            for kk, v in memo.items():
                if _keyeq(kk, key):
                    if evicting() and not V.ctx().decide(T.bvar(V.ctx().fresh("!cached"))):
                        break
                    return v
            r = f(*a, **k)
            memo[key] = r
            return r
        g.__name__ = getattr(f, "__name__", "cached")
        g.cache_clear = memo.clear
        g.cache_info = lambda: None
        g._memo = memo
        g.__wrapped__ = f
        _memos.append(memo)
        return g
    if callable(maxsize):
        f, maxsize = maxsize, 128
        return deco(f)
    return deco


_memos = []
_evict = [False]


def evicting():
    """Bounded caches may have dropped an entry."""
    return _evict[0]


def _keyeq(a, b):
    try:
        return bool(a == b)
    except Unsupported:
        return a is b


def clear_memos():
    _evict[0] = False
    for m in _memos:
        m.clear()


# ------------------------------------------------------------------ modules
class Blank(types.ModuleType):
    """A library that is not modelled: attributes exist, calling one leaves the supported subset."""
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return BlankThing(f"{self.__name__}.{k}")


class BlankThing:
    def __init__(self, name):
        self._name = name

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return BlankThing(f"{self._name}.{k}")

    def __call__(self, *a, **k):
        raise Unsupported(f"{self._name} is not modelled")

    def __getitem__(self, k):
        return BlankThing(f"{self._name}[]")

    def __class_getitem__(cls, k):
        return cls

    def __mro_entries__(self, bases):
        return (object,)

    def __or__(self, o):
        return self
    __ror__ = __or__


class Quiet:
    """Logging, warnings: effects are recorded in the context log."""
    def __init__(self, kind):
        self._kind = kind

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)

        def f(*a, **kw):
            c = V.Ctx.cur
            if c is not None:
                c.log.append((self._kind + "." + k, a, kw))
            return Quiet(self._kind)
        return f


class Exact(ast.NodeTransformer):
    """Decimal literals denote exact reals; comprehensions `[f(x) for x in xs]` accept arrays of symbolic length."""
    def visit_Constant(self, n):
        if type(n.value) is float:
            return ast.copy_location(ast.Call(ast.Name("__vc_real__", ast.Load()), [n], []), n)
        return n

    def visit_MatchValue(self, n):
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        g = n.generators[0]
        if len(n.generators) == 1 and not g.ifs and not g.is_async and isinstance(g.target, ast.Name):
            lam = ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), n.elt)
            return ast.copy_location(ast.Call(ast.Name("__vc_map__", ast.Load()), [lam, g.iter], []), n)
        return n


def vc_map(f, xs):
    if getattr(xs, "_is_symseq", False):
        return xs.mapped(f)
    if isinstance(xs, A.NDArray) and xs.ndim == 1 and xs._shape[0].const() is None:
        r = xs.reader()
        return A.NDArray(xs._shape, lambda i: num(f(r(i))), dtype=xs.kind)
    return [f(x) for x in xs]


class Loader:
    REAL = {"re", "datetime", "calendar", "pathlib", "typing", "copy", "dataclasses", "collections", "itertools",
            "operator", "math", "__future__", "enum", "abc", "string", "textwrap", "json", "csv", "io", "os",
            "contextlib", "numbers", "types", "os.path", "collections.abc", "traceback", "time", "shutil", "urllib",
            "urllib.parse", "tempfile", "sys", "inspect", "importlib", "glob", "fnmatch", "multiprocessing"}

    def __init__(self, models=None, transforms=None, src=None):
        self.src = src or SRC
        self.models = dict(models or {})
        self.modules = {}
        self.transforms = transforms or {}
        self.builtins = dict(vars(builtins))
        self.builtins.update(len=s_len, range=s_range, isinstance=s_isinstance, type=s_type, abs=s_abs, min=s_min, max=s_max,
                             sum=s_sum, enumerate=s_enumerate, round=s_round, print=s_print)
        self.builtins["__import__"] = self._import
        self.builtins["__vc_loop"] = lambda *a: (_ for _ in ()).throw(Unsupported("loop without a contract"))
        self.builtins["__vc_real__"] = num
        self.builtins["__vc_map__"] = vc_map
        self.overlay = {}       # (module, name) -> object replacing a global after load
        self.hashes = {}

    def path(self, name):
        base = os.path.join(self.src, *name.split("."))
        if os.path.isdir(base):
            return os.path.join(base, "__init__.py"), True
        return base + ".py", False

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
        path, pkg = self.path(name)
        if pkg and not os.path.exists(path):
            text = ""      # namespace package
        else:
            with open(path) as f:
                text = f.read()
        m = types.ModuleType(name)
        m.__file__ = path
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__package__ = name if pkg else name.rsplit(".", 1)[0]
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["float"] = s_float
        m.__dict__["int"] = s_int
        self.modules[name] = m
        tree = ast.parse(text, path)
        Exact().visit(tree)
        ast.fix_missing_locations(tree)
        tr = self.transforms.get(name)
        if tr is not None:
            tree = tr(tree)
            ast.fix_missing_locations(tree)
        code = compile(tree, path, "exec", flags=__future__.annotations.compiler_flag, dont_inherit=True)
        exec(code, m.__dict__)
        for k in ("float", "int"):
            pass
        import hashlib
        self.hashes[name] = hashlib.sha256(text.encode()).hexdigest()[:16]
        if "." in name:
            parent, _, leaf = name.rpartition(".")
            setattr(self.modules[parent], leaf, m)
        for (mod, attr), obj in self.overlay.items():
            if mod == name and attr in m.__dict__:
                m.__dict__[attr] = obj
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__", "")
            parts = pkg.split(".")
            base = parts[:len(parts) - (level - 1)]
            name = ".".join(base + ([name] if name else []))
        root = name.split(".")[0]
        if self.models.get(name) is not None:
            m = self.models[name]
            if not fromlist and "." in name:
                return self._root(root)
            return m
        if root == "wam2layers":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        try:
                            self.load(name + "." + f)
                        except FileNotFoundError:
                            pass
                return m
            return self.load(root)
        if root in self.models:
            m = self.models[root]
            for part in name.split(".")[1:]:
                m = getattr(m, part, None)
                if m is None or isinstance(m, types.FunctionType):
                    m = Blank(name)
                    break
            return m if fromlist else self.models[root]
        if root in self.REAL or name in self.REAL:
            return builtins.__import__(name, globals, locals, fromlist, 0)
        b = self.modules.get("~" + root)
        if b is None:
            b = Blank(root)
            self.modules["~" + root] = b
        if fromlist and "." in name:
            return Blank(name)
        return b

    def _root(self, root):
        m = self.models.get(root)
        if m is None:
            m = Blank(root)
        return m


def yaml_load(text):
    """YAML text of the module itself (a constant), by the library; decimals are exact."""
    if type(text) is not str:
        raise Unsupported("yaml.safe_load of a file")
    import yaml

    def exact(v):
        if isinstance(v, dict):
            return {k: exact(x) for k, x in v.items()}
        if isinstance(v, list):
            return [exact(x) for x in v]
        return num(v) if type(v) is float else v
    return exact(yaml.safe_load(text))


def default_models():
    from . import xrmodel as X
    np_ = A.make_np()
    xr_ = X.XR()
    log = types.SimpleNamespace(getLogger=lambda *a: Quiet("log"), DEBUG=10, INFO=20, WARNING=30, ERROR=40,
                                **{k: getattr(Quiet("log"), k) for k in ("info", "warning", "debug", "error")})
    ft = types.SimpleNamespace(lru_cache=lru_cache, cache=lru_cache, partial=__import__("functools").partial,
                               wraps=__import__("functools").wraps, reduce=__import__("functools").reduce,
                               cached_property=property)
    warn = Quiet("warnings")
    yml = Blank("yaml")
    yml.safe_load = yaml_load
    tm = types.SimpleNamespace(time=lambda: 0.0, sleep=lambda s: None, perf_counter=lambda: 0.0)
    ps = types.SimpleNamespace(Process=lambda *a: types.SimpleNamespace(memory_info=lambda: types.SimpleNamespace(rss=0)))
    from . import pdmodel, cfmodel, ncmodel
    import itertools as it
    xr_.CFTimeIndex = cfmodel.CFTimeIndex
    xr_.cftime_range = xr_.date_range = cfmodel.cftime_range
    itm = types.ModuleType("itertools")
    itm.__dict__.update({k: v for k, v in vars(it).items() if not k.startswith("__")})
    itm.product = cfmodel.product
    return {"itertools": itm, "yaml": yml, "netCDF4": ncmodel.make(xr_), "cftime": cfmodel.make(), "pandas": pdmodel.make(), "numpy": np_, "xarray": xr_, "logging": log, "functools": ft, "warnings": warn, "time": tm, "psutil": ps}
