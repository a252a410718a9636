"""C01, C02, C07 (configuration), C03, C04 (calendar utilities) on the real classes."""
import itertools
from pyvc.contract import harness

CFG = "wam2layers.config"
CAL = "wam2layers.utils.calendar"
CALENDARS = ("standard", "gregorian", "proleptic_gregorian", "noleap", "365_day", "360_day", "julian", "all_leap", "366_day")
BASE = dict(standard="standard", gregorian="standard", proleptic_gregorian="proleptic_gregorian", noleap="noleap")
BASE.update({"365_day": "noleap", "360_day": "360_day", "julian": "julian", "all_leap": "all_leap", "366_day": "all_leap"})
DATES = [f"{a}_{b}_date" for a in ("tracking", "tagging", "preprocess") for b in ("start", "end")]


def month_length(cal, y, m):
    if BASE[cal] == "360_day":
        return 30
    leap = {"noleap": False, "all_leap": True, "julian": y % 4 == 0}.get(BASE[cal], y % 4 == 0 and (y % 100 != 0 or y % 400 == 0))
    return [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


def date(e, name, cal, near=None):
    """Components of a date on the calendar; near: close to another one, so that ties and small differences occur."""
    if near is not None:
        how = e.int(name + "#", 0, 5)
        if how == 0:
            return near
        if how == 1:
            y, m, d, h, mi, s = near
            return (y, m, d, h, mi, min(59, max(0, s + e.choice(name + "+s", (-1, 1)))))
        if how == 2:
            y, m, d, h, mi, s = near
            d = min(month_length(cal, y, m), max(1, d + e.choice(name + "+d", (-1, 1))))
            return (y, m, d, e.int(name + ".h", 0, 23), mi, s)
        y = near[0] + e.choice(name + "+y", (-1, 0, 0, 0, 1))
    else:
        y = e.choice(name + ".y", (1900, 1970, 1999, 2000, 2001, 2004, 2020, 2021, 2023, 2100))
    m = e.int(name + ".m", 1, 12)
    d = e.choice(name + ".d", (1, 2, 15, 28, month_length(cal, y, m)))
    return (y, m, d, e.int(name + ".h", 0, 23), e.choice(name + ".mi", (0, 0, 1, 10, 30, 59)), e.choice(name + ".s", (0, 0, 0, 1, 7, 30, 59)))


def text(t, seconds=True):
    return "%04d-%02d-%02dT%02d:%02d" % t[:5] + (":%02d" % t[5] if seconds else "")


def parts(x):
    return (x.year, x.month, x.day, x.hour, x.minute, x.second)


def cf_class(cal):
    import cftime
    return {"standard": cftime.DatetimeGregorian, "proleptic_gregorian": cftime.DatetimeProlepticGregorian, "noleap": cftime.DatetimeNoLeap,
            "360_day": cftime.Datetime360Day, "julian": cftime.DatetimeJulian, "all_leap": cftime.DatetimeAllLeap}[BASE[cal]]


def box(e, name):
    lon = lambda k: e.choice(f"{name}.{k}", (-180, -180.0001, 180, 180.0001, -20, 0, 5, 5.25, 170, -170, 200))
    lat = lambda k: e.choice(f"{name}.{k}", (-80, -80.0001, 80, 80.0001, -10, -10, 0, 5, 45.5, 45.5, 60, 85))
    return (lon("w"), lat("s"), lon("e"), lat("n"))


def box_ok(b):
    w, s, ea, n = b
    return -180 <= w <= 180 and -180 <= ea <= 180 and -80 <= s <= 80 and -80 <= n <= 80 and s < n


def settings(e, cal="standard", **over):
    from pathlib import Path
    p = Path(e.scratch_path("region.nc"))
    if not p.exists():
        p.write_text("")
    d = dict(filename_template="{variable}.nc", preprocessed_data_folder=str(e.scratch_path("pre")), calendar=cal, tracking_direction="backward",
             tagging_region=str(p), output_folder=str(e.scratch_path("out")), input_frequency="1h", timestep=600, output_frequency="1d",
             level_type="model_levels", levels="all", restart=False, periodic_boundary=False, kvf=3)
    for k in DATES:
        d[k] = "2020-02-01T00:00" if "start" in k else "2020-02-05T00:00"
    d.update(over)
    return d


def all_dates(e, cal):
    out = {}
    for a in ("tracking", "tagging", "preprocess"):
        out[f"{a}_start_date"] = s = date(e, a + ".start", cal)
        out[f"{a}_end_date"] = date(e, a + ".end", cal, near=s)
    if e.bool("fix order"):
        for a in ("tracking", "tagging", "preprocess"):
            s, t = f"{a}_start_date", f"{a}_end_date"
            if out[s] > out[t] and e.choice("only " + a, (True, True, False)):
                out[s], out[t] = out[t], out[s]
    return out


def ordered(ds):
    return all(ds[f"{a}_start_date"] <= ds[f"{a}_end_date"] for a in ("tracking", "tagging", "preprocess"))


def consistent(e, label, cfg):
    """The invariant of an accepted configuration."""
    from wam2layers.config import BoundingBox
    cls = cf_class(cfg.calendar)
    for k in DATES:
        e.check(f"{label}: dates on the calendar of the configuration", type(getattr(cfg, k)) is cls)
    e.check(f"{label}: start dates not after end dates", ordered({k: parts(getattr(cfg, k)) for k in DATES}))
    for r in (cfg.tagging_region, cfg.tracking_domain):
        if isinstance(r, (BoundingBox, tuple)):
            e.check(f"{label}: boxes in range, south below north", box_ok(r))


def config_models():
    from pyvc import pydmodel
    import typing
    return {"pydantic": pydmodel.make(), "typing_extensions": typing, "wam2layers.config": None}


def in_range(e, b):
    w, s, ea, n = b
    return e.and_(e.le(-180, w), e.le(w, 180), e.le(-180, ea), e.le(ea, 180), e.le(-80, s), e.le(n, 80), e.lt(s, n))


def some_box(e, name):
    lon = lambda k: e.real(f"{name} {k}", -181, 181)
    lat = lambda k: e.real(f"{name} {k}", -81, 81)
    return (lon("west"), lat("south"), lon("east"), lat("north"))


def in_order(e, ds):
    return e.and_(*[e.le(e.secs(ds[f"{a}_start_date"]), e.secs(ds[f"{a}_end_date"])) for a in ("tracking", "tagging", "preprocess")])


@harness("C01", cases=200, models=config_models, paths=3000)
def config_validated(e):
    """Any dates and boxes: accepted exactly if consistent, on creation and on a change; a rejected change changes nothing."""
    from pathlib import Path
    cfg_mod = e.mod("wam2layers.config")
    changed = e.choice("changed", ("nothing", "domain", "tagging box", *DATES))
    cal = "noleap" if changed not in DATES[:2] else e.choice("calendar", ("standard", "360_day", "all_leap"))
    if e.is_sym():
        d = dict(filename_template="{variable}.nc", preprocessed_data_folder="pre", calendar=cal, tracking_direction="backward", tagging_region=Path("/region.nc"),
                 output_folder="out", input_frequency="1h", timestep=600, output_frequency="1d", level_type="model_levels", levels="all",
                 restart=False, periodic_boundary=False, kvf=3)
    else:
        d = settings(e, cal)
    ds = {k: e.time(k, cal) for k in DATES}
    as_text = changed == DATES[1] or changed == "nothing"
    d.update({k: e.strftime(t, "%Y-%m-%dT%H:%M:%S") if as_text else t for k, t in ds.items()})
    ok, boxes = in_order(e, ds), {}
    if changed == "nothing":
        which = e.choice("boxes", ("none", "domain", "tagging"))
        for k, name in (("tracking_domain", "domain"), ("tagging_region", "tagging")):
            if which == name:
                boxes[k] = some_box(e, name)
                d[k] = cfg_mod.BoundingBox(*boxes[k])
                ok = e.and_(ok, in_range(e, boxes[k]))
    raised, cfg = e.raises(lambda: cfg_mod.Config(**d))
    e.check("a configuration is accepted exactly if it is consistent", e.iff(not raised, ok))
    if raised:
        return

    def as_given(label):
        for k, t in ds.items():
            e.check(f"{label}: dates as given", e.eq(e.secs(getattr(cfg, k)), e.secs(t)))
            e.check(f"{label}: dates on the calendar", getattr(cfg, k).calendar == t.calendar)
        for k, b in boxes.items():
            for x, y in zip(getattr(cfg, k), b):
                e.check(f"{label}: boxes as given", e.eq(x, y))
        e.check(f"{label}: no other box", all(k in boxes or not isinstance(getattr(cfg, k), tuple) for k in ("tracking_domain", "tagging_region")))
    as_given("created")
    if changed == "nothing":
        return
    old, k = (dict(ds), dict(boxes)), changed
    if changed in DATES:
        ds[k] = v = e.time("new", cal)
        ok = in_order(e, ds)
    else:
        k = {"domain": "tracking_domain", "tagging box": "tagging_region"}[changed]
        boxes[k] = some_box(e, "new")
        v, ok = cfg_mod.BoundingBox(*boxes[k]), in_range(e, boxes[k])
    raised, _ = e.raises(lambda: setattr(cfg, k, v))
    e.check("a change is accepted exactly if it leaves the configuration consistent", e.iff(not raised, ok))
    if raised:
        ds.clear(), ds.update(old[0]), boxes.clear(), boxes.update(old[1])
    as_given("rejected change" if raised else "changed")


@harness("C01", cases=300, sym=False, bounded_reason="histories of several changes, calendars and dates on other calendars; one change is proved in config_validated")
def config_accepted(e):
    """A configuration is accepted exactly if it is consistent; changing settings keeps it consistent."""
    from wam2layers.config import Config
    cal = e.choice("calendar", CALENDARS)
    ds = all_dates(e, cal)
    over, ok = {k: text(t, seconds=t[5] != 0 or e.bool(k + " seconds")) for k, t in ds.items()}, ordered(ds)
    if e.bool("domain"):
        over["tracking_domain"] = b = box(e, "domain")
        ok = ok and box_ok(b)
    if e.bool("tagging box"):
        over["tagging_region"] = b = box(e, "tagging")
        ok = ok and box_ok(b)
    if e.int("bad calendar", 0, 14) == 0:
        over["calendar"], ok = e.choice("which", ("julien", "Standard", "", "none", "utc")), False
        raised, cfg = e.raises(lambda: Config(**settings(e, **over)))
        e.check("unknown calendars are rejected", raised)
        return
    raised, cfg = e.raises(lambda: Config(**settings(e, cal, **over)))
    e.check("inconsistent configurations are rejected", ok or raised)
    e.check("consistent configurations are accepted", raised or not ok or cfg is not None)
    if ok and raised:
        e.check(f"consistent configurations are accepted ({str(cfg)[:100]})", False)
    if raised:
        return
    consistent(e, "initially", cfg)
    for k, t in ds.items():
        e.check("dates as given", parts(getattr(cfg, k)) == t)
    for step in range(e.int("changes", 1, 4)):
        what = e.choice(f"what{step}", ("date", "date", "date", "domain", "tagging", "calendar", "direction"))
        before = dict(cfg.__dict__)
        now = cfg.calendar
        try:
            if what == "date":
                k = e.choice(f"which{step}", DATES)
                other = k.replace("start", "END").replace("end", "start").replace("END", "end")
                t = date(e, f"new{step}", now, near=parts(getattr(cfg, other)))
                good = (t <= parts(getattr(cfg, other))) if "start" in k else (t >= parts(getattr(cfg, other)))
                setattr(cfg, k, cf_class(now)(*t))
                e.check("the new date is in place", parts(getattr(cfg, k)) == t)
            elif what in ("domain", "tagging"):
                b = box(e, f"new{step}")
                good = box_ok(b)
                setattr(cfg, {"domain": "tracking_domain", "tagging": "tagging_region"}[what], b)
            elif what == "calendar":
                new = e.choice(f"cal{step}", CALENDARS)
                good = None
                cfg.calendar = new
            else:
                good = True
                cfg.tracking_direction = e.choice(f"dir{step}", ("forward", "backward"))
        except Exception as ex:
            e.check(f"a consistent change of {what} is accepted: {type(ex).__name__} {str(ex)[:80]}", good is not True)
            e.check("a rejected change leaves the configuration as it was", dict(cfg.__dict__) == before)
        else:
            e.check(f"an inconsistent change of {what} is rejected", good is not False)
        consistent(e, "after a change", cfg)


def rich_settings(e):
    cal = e.choice("calendar", CALENDARS)
    ds = all_dates(e, cal)
    for a in ("tracking", "tagging", "preprocess"):
        s, t = f"{a}_start_date", f"{a}_end_date"
        if ds[s] > ds[t]:
            ds[s], ds[t] = ds[t], ds[s]
    over = {k: text(t) for k, t in ds.items()}
    good = (-20.5, -10.25, 33.333333333333336, 45.1)
    over["tagging_region"] = e.choice("region", (settings(e)["tagging_region"], good, (170.1, -80, -170.7, 80), (1e-7, -1e-7, 2.5e-5, 0.1)))
    over["tracking_domain"] = e.choice("domain", (None, good, (100, -5, -100, 5)))
    over["filename_template"] = e.choice("template", ("{year}/{month:02}/ERA5_{year}-{month:02d}{levtype}_{variable}.nc", "a b: # c.nc", 'quote"s\\.nc', "'x'", "- y", "é ü 水.nc",
                                                      "true", "1e3", "null", " pad ", "a,b", "[z]", "{variable}", "%Y", "line\nbreak", "tab\tx", "\U0001f30a.nc"))
    over["preprocessed_data_folder"] = e.choice("pre", (str(e.scratch_path("pre")), "http://example.org/data?x=1", "https://opendap.4tu.nl/thredds/dodsC/x/y.nc", str(e.scratch_path("with space/ünï")),
                                                        str(e.scratch_path("deep/er/pre"))))
    over["output_folder"] = e.choice("out", (str(e.scratch_path("out")), str(e.scratch_path("o: #1"))))
    over["levels"] = e.choice("levels", ("all", "All", [1], [20, 40, 137], [137, 3]))
    over["level_type"] = e.choice("level_type", ("model_levels", "pressure_levels"))
    over["tracking_direction"] = e.choice("direction", ("forward", "backward"))
    over["input_frequency"] = e.choice("if", ("1h", "1H", "3h", "30T", "10min", "1d"))
    over["output_frequency"] = e.choice("of", ("1D", "6H", "1d", "90min"))
    over["timestep"] = e.choice("timestep", (600, 1, 86400))
    over["kvf"] = e.choice("kvf", (3, 0, 0.1, 1e-7, 1e22, 2.5))
    over["restart"], over["periodic_boundary"] = e.bool("restart"), e.bool("periodic")
    over["parallel_preprocess"], over["parallel_processes"] = e.bool("par"), e.choice("procs", (None, 1, 8))
    over["level_layer_boundary"] = e.choice("llb", (111, 1, 0))
    over["pressure_boundary_factor"], over["pressure_boundary_offset"] = e.choice("pbf", (0.72878581, 1e-9)), e.choice("pbo", (7438.803223, 0.0, 1e16))
    return settings(e, cal, **over), ds


def same_config(e, label, a, b):
    for k in type(a).model_fields:
        x, y = getattr(a, k), getattr(b, k)
        e.check(f"{label}: {k} unchanged", type(x) is type(y) and x == y)


@harness("C02", cases=150, sym=False, bounded_reason="serialisation is done by pydantic, json and yaml")
def config_round_trip(e):
    """Text and file of a configuration read back as the same configuration."""
    import json
    from wam2layers.config import Config
    st, ds = rich_settings(e)
    cfg = Config(**st)
    if e.bool("changed afterwards"):
        cfg.kvf = 7.25
        cfg.tracking_domain = (0.1, 0.2, 0.3, 0.7)
    same_config(e, "text", cfg, Config(**json.loads(cfg.to_string())))
    f = e.scratch_path("exported.yaml")
    cfg.to_file(str(f) if e.bool("as text path") else f)
    again = Config.from_yaml(f)
    same_config(e, "file", cfg, again)
    e.check("dates to the second", all(parts(getattr(again, k)) == t for k, t in ds.items()))
    g = e.scratch_path("again.yaml")
    again.to_file(g)
    import yaml
    e.check("exporting again gives the same settings", yaml.safe_load(f.read_text("utf-8")) == yaml.safe_load(g.read_text("utf-8")))


@harness("C07", cases=120, sym=False, bounded_reason="file system and pydantic")
def folders_absolute(e):
    """Folder settings are absolute, expanded and exist; region files are absolute; addresses are untouched."""
    import os
    from pathlib import Path
    from wam2layers.config import Config
    home = Path(os.environ["HOME"])
    here = Path(e.scratch_path("work"))
    here.mkdir()
    old = os.getcwd()
    uid = Path(e.scratch).name + str(e.int("uid", 0, 10 ** 6))
    os.chdir(here)
    try:
        if e.bool("a folder really named ~"):
            (here / "~" / uid / "a b").mkdir(parents=True)
        forms = {"relative": ("data/pre", here / "data/pre"), "dot": ("./x", here / "x"), "single": ("pre", here / "pre"),
                 "tilde": (f"~/{uid}/a b", home / uid / "a b"), "absolute": (str(e.scratch_path("abs/deep/er")), Path(e.scratch_path("abs/deep/er"))),
                 "existing": (str(here), here), "up": ("../sib", here.parent / "sib"), "inner tilde": ("a/~/b", here / "a/~/b")}
        over, want = {}, {}
        for k in ("preprocessed_data_folder", "output_folder"):
            form = e.choice(k, tuple(forms))
            over[k], want[k] = forms[form]
            if e.bool(k + " as Path"):
                over[k] = Path(over[k])
        url = e.choice("url", (None, None, "http://localhost:1/thredds/x", "https://a.org/b/"))
        if url:
            over["preprocessed_data_folder"] = url
        (here / "sub").mkdir(exist_ok=True)
        region = e.choice("region kind", ("sub/r.nc", "sub/r.shp"))
        (here / region).write_text("")
        over["tagging_region"] = e.choice("region", (region, "./" + region, str(here / region)))
        cfg = Config(**settings(e, **over))
        if e.bool("assigned"):
            form = e.choice("new", tuple(forms))
            over["output_folder"], want["output_folder"] = Path(forms[form][0]), forms[form][1]
            cfg.output_folder = over["output_folder"]
            if e.bool("region assigned"):
                cfg.tagging_region = Path(region)
        os.chdir(home)
        for k in ("preprocessed_data_folder", "output_folder"):
            v = getattr(cfg, k)
            if k == "preprocessed_data_folder" and url:
                e.check("addresses are left as they are", str(v).rstrip("/") == url.rstrip("/") and not isinstance(v, Path))
                continue
            e.check(f"{k} absolute, tilde resolved", isinstance(v, Path) and v.is_absolute() and v.resolve() == want[k].resolve())
            e.check(f"{k} exists", v.is_dir() and want[k].is_dir())
        r = cfg.tagging_region
        e.check("region file absolute", r.is_absolute() and r.resolve() == (here / region).resolve() and r.exists())
        e.check("no stray folder for an address", not (here / "http:").exists() and not (here / "https:").exists())
    finally:
        os.chdir(old)


# ---------------------------------------------------------------- C03
def days_since(cal, y, m, d):
    """Days since 1970-01-01 of that calendar, counted independently."""
    n = 0
    for k in range(1970, y):
        n += sum(month_length(cal, k, q) for q in range(1, 13))
    for k in range(y, 1970):
        n -= sum(month_length(cal, k, q) for q in range(1, 13))
    return n + sum(month_length(cal, y, q) for q in range(1, m)) + d - 1


@harness("C03", cases=120)
def date_text_read(e):
    """The text of an instant (with or without seconds) is read as that instant, on the configured calendar."""
    cal = e.choice("calendar", ("standard", "proleptic_gregorian", "noleap", "360_day", "julian", "all_leap"))
    alias = e.choice("alias", (False, True))
    name = {"standard": "gregorian", "noleap": "365_day", "all_leap": "366_day"}.get(cal, cal) if alias else cal
    t = e.time("t", cal)
    sec = e.choice("with seconds", (True, False))
    if not sec:
        e.assume(e.eq(60 * e.floor(e.secs(t) / 60), e.secs(t)))
    x = e.fn(CAL + ":cftime_from_iso")(e.strftime(t, "%Y-%m-%dT%H:%M:%S" if sec else "%Y-%m-%dT%H:%M"), name)
    e.prove("that instant", e.eq(e.secs(x), e.secs(t)))
    e.check("on the calendar", BASE[x.calendar] == cal)
    if cal == "standard":
        y = e.fn(CAL + ":cftime_from_timestamp")(t, name)
        e.prove("timestamps are read exactly", e.eq(e.secs(y), e.secs(t)))


@harness("C03", cases=120)
def date_rounding(e):
    """Rounding down or up gives the nearest multiple not after or not before, for whole-second times and any frequency."""
    cal = e.choice("calendar", ("standard", "proleptic_gregorian", "noleap", "360_day", "julian", "all_leap"))
    t = e.time("t", cal)
    f = e.freq("freq", ["1h", "3h", "6h", "1D", "30min", "90s", "7min", "5h", "1s"])
    p = e.period(f)
    if e.choice("on a multiple", (False, True)):
        t = e.plus(t, p * e.floor(e.secs(t) / p) - e.secs(t))
    s = e.secs(t)
    k = e.floor(s / p)
    lo, hi = e.fn(CAL + ":round_cftime")(t, f, "floor"), e.fn(CAL + ":round_cftime")(t, f, "ceil")
    e.prove("rounded down: the nearest multiple not after", e.eq(e.secs(lo), k * p))
    e.prove("rounded up: the nearest multiple not before", e.or_(e.and_(e.eq(s, k * p), e.eq(e.secs(hi), s)), e.and_(s > k * p, e.eq(e.secs(hi), (k + 1) * p))))
    e.check("on the same calendar", lo.calendar == t.calendar and hi.calendar == t.calendar)


@harness("C03", cases=300, sym=False, bounded_reason="cftime and xarray do the calendar arithmetic")
def dates_read_and_rounded(e):
    """Reading and rounding dates against an independent count of seconds."""
    cal = e.choice("calendar", CALENDARS)
    t = date(e, "t", cal)
    u = e.mod(CAL)
    sec = t[5] != 0 or e.bool("with seconds")
    x = u.cftime_from_iso(text(t, sec), cal)
    e.check("read as exactly that date and time", parts(x) == t and x.microsecond == 0)
    e.check("on the calendar", type(x) is cf_class(cal))
    tot = lambda p: days_since(cal, *p[:3]) * 86400 + p[3] * 3600 + p[4] * 60 + p[5]
    freq, p = e.choice("freq", (("1h", 3600), ("3h", 10800), ("6h", 21600), ("1D", 86400), ("30min", 1800), ("10min", 600), ("90s", 90), ("7min", 420), ("5h", 18000), ("2D", 172800), ("1min", 60), ("1s", 1)))
    s = tot(t)
    if e.bool("on a multiple"):
        x = u.round_cftime(x, freq, "floor")
        s = tot(parts(x))
    lo, hi = u.round_cftime(x, freq, "floor"), u.round_cftime(x, freq, "ceil")
    e.check("floor is the nearest multiple not after", tot(parts(lo)) == s // p * p and lo.microsecond == 0)
    e.check("ceil is the nearest multiple not before", tot(parts(hi)) == -(-s // p) * p and hi.microsecond == 0)
    e.check("multiples are left unchanged", s % p != 0 or (lo == x and hi == x))
    e.check("rounded on the same calendar", type(lo) is type(x) and type(hi) is type(x))
    if cal in ("standard", "proleptic_gregorian", "gregorian"):
        import pandas as pd
        ts = pd.Timestamp(text(t))
        y = u.cftime_from_timestamp(ts, cal)
        e.check("timestamps are read exactly", parts(y) == t and type(y) is cf_class(cal))


# ---------------------------------------------------------------- C04
NEW = {"h": "h", "t": "min", "s": "s", "l": "ms", "u": "us", "n": "ns", "bh": "bh", "cbh": "cbh"}


def text_models():
    from pyvc import remodel
    return {"re": remodel.make()}


def some_frequency(rng):
    old = rng.choice(list(NEW) + ["d", "min", "ms", "W-SUN", "hb", "", "Y"])
    old = "".join(rng.choice((c.lower(), c.upper())) for c in old)
    n = "".join(rng.choice("0123456789") for _ in range(rng.choice((0, 0, 1, 1, 2, 3, 12))))
    text = n + old
    if rng.random() < 0.3:
        k = rng.randrange(len(text) + 1)
        text = text[:k] + rng.choice("0aHhTsSlLcCbB -.+1") + text[k:]
    return text


@harness("C04", cases=400, models=text_models)
def any_frequency_name(e):
    """Any printable text: a deprecated name with any number in front becomes the modern one, everything else is unchanged."""
    f = e.fn(CAL + ":fix_deprecated_frequency")
    text = e.anytext("frequency", some_frequency)
    want = text
    for old, new in NEW.items():
        m = e.fullmatch("([0-9]*)" + "".join(f"[{c.lower()}{c.upper()}]" for c in old), text)
        if m:
            want = m.group(1) + new
            break
    got = f(text)
    e.same_text("translated with the same number and meaning, everything else unchanged", got, want)
    e.same_text("translating twice is translating once", f(got), got)


@harness("C04", cases=4, maxdim=4, sym=False, bounded_reason="all texts up to length 4 over a representative alphabet")
def frequency_names(e):
    """Translation of deprecated frequency names for all short texts."""
    f = e.fn(CAL + ":fix_deprecated_frequency")
    part = e.choice("part", (0, 1, 2, 3))
    alphabet = "019hHtTsSlLuUnNbBcCdDmMiAyW -."
    bad = []
    n = 0
    for L in (0, 1, 2, 3, 4):
        for k, s in enumerate(itertools.product(alphabet, repeat=L)):
            if L == 4 and (k % 16 != 4 * part + 1):
                continue
            s = "".join(s)
            n += 1
            d = len(s) - len(s.lstrip("0123456789"))
            want = s[:d] + NEW[s[d:].lower()] if s[d:].lower() in NEW else s
            got = f(s)
            if got != want:
                bad.append((s, got, want))
            elif f(got) != got:
                bad.append((s, got, "not stable"))
    for s in ("123456789012345678901234567890CbH", "00H", "1min", "5ms", "10us", "3ns", "1MS", "2W-SUN", "QS-DEC", "1h30min", "12bH", "YE", "1Min", "7Us", "H1", "1 H", "-1H", "1.5H"):
        d = len(s) - len(s.lstrip("0123456789"))
        want = s[:d] + NEW[s[d:].lower()] if s[d:].lower() in NEW else s
        if f(s) != want:
            bad.append((s, f(s), want))
    e.check(f"translated with the same number and meaning, everything else unchanged {bad[:3]}", not bad)
