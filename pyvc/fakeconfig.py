"""Stand-in for wam2layers.config in symbolic runs of code that merely *reads* a configuration."""
from __future__ import annotations
import types
from .terms import Unsupported

DEFAULTS = dict(
    preprocessed_data_folder="/data", tagging_region=None, tracking_domain=None, output_folder="/out",
    tracking_direction="forward", tagging_start_date=None, tagging_end_date=None, tracking_start_date=None,
    tracking_end_date=None, preprocess_start_date=None, preprocess_end_date=None, input_frequency="1h",
    output_frequency="1d", restart=False, periodic_boundary=False, timestep=600, kvf=3, calendar="standard",
    level_type=None, filename_template=None, levels=None, level_layer_boundary=111,
    pressure_boundary_factor=0.72878581, pressure_boundary_offset=7438.803223, parallel_processes=None, parallel_preprocess=False)


class FakePath(str):
    @property
    def name(self): return self.rsplit("/", 1)[-1]

    @property
    def suffix(self):
        n = self.name
        return "." + n.rsplit(".", 1)[1] if "." in n else ""

    @property
    def stem(self):
        n = self.name
        return n.rsplit(".", 1)[0] if "." in n else n

    def __truediv__(self, o): return FakePath(f"{self}/{o}")
    def absolute(self): return self
    def resolve(self): return self
    def mkdir(self, *a, **k): return None
    def exists(self): raise Unsupported("file system")
    def glob(self, pat): return iter([FakePath(f"{self}/{pat}")])
    def expanduser(self): return self

    @property
    def parent(self): return FakePath(self.rsplit("/", 1)[0])


class BBox:
    """BoundingBox: four numbers and the text the real class prints."""
    def __init__(self, west, south, east, north):
        self.west, self.south, self.east, self.north = west, south, east, north

    def __iter__(self):
        return iter((self.west, self.south, self.east, self.north))

    def __str__(self):
        from .values import number_token
        return ", ".join(number_token(x) for x in self)
    __format__ = lambda self, s: str(self)


class FakeConfig:
    _is_config = True

    def __init__(self, **kw):
        d = dict(DEFAULTS)
        d.update(kw)
        for k in ("output_folder", "preprocessed_data_folder"):
            if isinstance(d[k], str) and not isinstance(d[k], FakePath):
                d[k] = FakePath(d[k])
        self.__dict__.update(d)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"configuration setting {k} is not modelled")

    def to_string(self):
        return "config"


def make_config_module():
    m = types.ModuleType("wam2layers.config")
    m.Config = FakeConfig
    m.BoundingBox = BBox
    m.FakePath = FakePath
    return m
