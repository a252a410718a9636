"""pydantic: which validators of a model run, on what, and when (creation and validated assignment).

Values are taken as already of the declared type; declared numeric bounds, Annotated validators, field and model
validators are applied in pydantic's order.  A validator that raises ValueError or AssertionError rejects.
"""
import inspect, sys, types, typing
from .terms import Unsupported

MISSING = object()


class ValidationError(ValueError):
    pass


class FieldInfo:
    def __init__(self, default=MISSING, *, ge=None, le=None, gt=None, lt=None, description=None, title=None, **other):
        if other:
            raise Unsupported(f"Field({', '.join(other)})")
        self.default, self.bounds = default, (ge, le, gt, lt)

    def __call__(self, x):
        ge, le, gt, lt = self.bounds
        if (ge is not None and not x >= ge) or (le is not None and not x <= le) or (gt is not None and not x > gt) or (lt is not None and not x < lt):
            raise ValueError("outside the declared bounds")
        return x


class AfterValidator:
    def __init__(self, func): self.func = func
    def __call__(self, x): return self.func(x)


class Mark:
    """A decorated validator."""
    def __init__(self, kind, mode, fields, func):
        self.kind, self.mode, self.fields, self.func = kind, mode, fields, func

    def __get__(self, obj, cls=None):
        return self.func.__get__(obj, cls) if hasattr(self.func, "__get__") else self.func


def field_validator(*fields, mode="after", check_fields=None):
    if mode not in ("after", "before"):
        raise Unsupported(f"field validator mode {mode}")
    return lambda f: Mark("field", mode, fields, f)


def model_validator(*, mode):
    if mode not in ("after", "before"):
        raise Unsupported(f"model validator mode {mode}")
    return lambda f: Mark("model", mode, (), f)


def _call(mark, cls, x):
    f = mark.func
    if isinstance(f, classmethod):
        return f.__get__(None, cls)(x)
    if isinstance(f, staticmethod):
        f = f.__func__
    n = len([p for p in inspect.signature(f).parameters.values() if p.default is p.empty])
    if n == 1:
        return f(x)
    raise Unsupported("validator signature")


def _annotated(text, env):
    """[(type, metadata, whether it is the whole annotation)] of the Annotated parts."""
    out = []

    def walk(t, top):
        if isinstance(t, (str, typing.ForwardRef)):
            try:
                t = eval(getattr(t, "__forward_arg__", t), dict(env))
            except Unsupported:
                raise
            except Exception as ex:
                raise Unsupported(f"annotation {text!r}: {ex!r}")
        if hasattr(t, "__metadata__"):
            out.append((t.__origin__, t.__metadata__, top))
            walk(t.__origin__, top)
        elif typing.get_origin(t) in (typing.Union, types.UnionType):
            for a in typing.get_args(t):
                walk(a, False)
    walk(text, True)
    return out


def _tuple_bounds(x):
    cls = type(x)
    if not isinstance(x, tuple) or not hasattr(cls, "_fields"):
        return
    env = _MODULES.get(cls.__module__, {})
    for n in cls._fields:
        a = cls.__annotations__.get(n)
        for _, ms, _ in _annotated(a, env):
            for m in ms:
                if isinstance(m, (FieldInfo, AfterValidator)):
                    m(getattr(x, n))


def _branch(t, value):
    """Whether a value belongs to this member of a union."""
    if isinstance(value, tuple):
        return isinstance(t, type) and isinstance(value, t)
    return (t is str) == isinstance(value, str) and not (isinstance(t, type) and issubclass(t, tuple))


_MODULES = {}


class BaseModel:
    model_config = {}

    def __init_subclass__(cls):
        env = sys._getframe(1).f_globals
        _MODULES[env.get("__name__")] = env
        cls.__vc_env__ = env
        cls.model_fields = dict(getattr(cls, "model_fields", {}))
        for n, a in cls.__dict__.get("__annotations__", {}).items():
            if n != "model_config" and not n.startswith("_") and "ClassVar" not in str(a):
                cls.model_fields[n] = a
        marks = []
        for b in reversed(cls.__mro__):
            for k, v in vars(b).items():
                if isinstance(v, Mark):
                    marks = [m for m in marks if m[0] != k] + [(k, v)]
        cls.__vc_marks__ = [m for _, m in marks]
        if set(cls.model_config) - {"validate_assignment", "arbitrary_types_allowed", "extra"}:
            raise Unsupported("model_config")

    @classmethod
    def _field(cls, name, value):
        for m in cls.__vc_marks__:
            if m.kind == "field" and name in m.fields and m.mode == "before":
                value = _call(m, cls, value)
        if value is not None:
            _tuple_bounds(value)
            for t, ms, top in reversed(_annotated(cls.model_fields[name], cls.__vc_env__)):
                if top or _branch(t, value):
                    for m in ms:
                        if not isinstance(m, (AfterValidator, FieldInfo)):
                            raise Unsupported("annotation")
                        value = m(value)
        for m in cls.__vc_marks__:
            if m.kind == "field" and name in m.fields and m.mode == "after":
                value = _call(m, cls, value)
        return value

    def __init__(self, **data):
        cls = type(self)
        try:
            for m in cls.__vc_marks__:
                if m.kind == "model" and m.mode == "before":
                    data = _call(m, cls, data)
            new = {}
            for n in cls.model_fields:
                if n in data:
                    new[n] = cls._field(n, data[n])
                else:
                    d = getattr(cls, n, MISSING)
                    d = d.default if isinstance(d, FieldInfo) else d
                    if d is MISSING:
                        raise ValueError(f"{n} is missing")
                    new[n] = d
            if set(data) - set(new) and cls.model_config.get("extra") == "forbid":
                raise ValueError("extra settings")
            self.__dict__.update(new)
            self._after()
        except (ValueError, AssertionError) as ex:
            raise ValidationError(str(ex)) from ex

    def _after(self):
        for m in type(self).__vc_marks__:
            if m.kind == "model" and m.mode == "after":
                if _call(m, type(self), self) is not self:
                    raise Unsupported("validator returns another model")

    def __setattr__(self, name, value):
        cls = type(self)
        if name not in cls.model_fields:
            raise ValueError(f"no setting {name}")
        if not cls.model_config.get("validate_assignment"):
            self.__dict__[name] = value
            return
        try:
            data = dict(self.__dict__)
            for m in cls.__vc_marks__:
                if m.kind == "model" and m.mode == "before":
                    data = _call(m, cls, data)
            data = dict(data)
            data[name] = cls._field(name, value)
            self.__dict__.update(data)
            self._after()
        except (ValueError, AssertionError) as ex:
            raise ValidationError(str(ex)) from ex


def make():
    m = types.ModuleType("pydantic")
    m.BaseModel, m.AfterValidator, m.Field, m.ValidationError = BaseModel, AfterValidator, FieldInfo, ValidationError
    m.field_validator, m.model_validator, m.ConfigDict = field_validator, model_validator, dict
    m.FilePath, m.HttpUrl = (type(n, (), {}) for n in ("FilePath", "HttpUrl"))

    def other(k):
        raise Unsupported(f"pydantic.{k}")
    m.__getattr__ = other
    return m
