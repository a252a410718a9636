"""P07 (each timestamp once, in the file of its day) and P08 (rejection of invalid input)."""
import datetime, os
from pyvc import loops
from pyvc.contract import harness
from contracts.t_core import D2
from contracts.p_flux import DL, PRE

STATES = [f"{k}_{l}" for k in ("fx", "fy", "s") for l in ("upper", "lower")]


@harness("P07", cases=60, sym=False, bounded_reason="random windows, frequencies and calendars through real files, one after another and in parallel")
def days_cases(e):
    """prep_experiment: one file per day, one record per timestamp of that day, each with its own fields."""
    import cftime, xarray, warnings
    np = e.np
    m, n, nl = 2, 3, 2
    cal = e.choice("calendar", ("standard", "noleap", "360_day", "proleptic_gregorian", "julian", "all_leap"))
    cls = {"standard": cftime.DatetimeGregorian, "noleap": cftime.DatetimeNoLeap, "360_day": cftime.Datetime360Day,
           "proleptic_gregorian": cftime.DatetimeProlepticGregorian, "julian": cftime.DatetimeJulian, "all_leap": cftime.DatetimeAllLeap}[cal]
    freq, sec = e.choice("frequency", (("6h", 21600), ("3h", 10800), ("12h", 43200), ("1D", 86400), ("5h", 18000), ("480min", 28800), ("90min", 5400), ("30min", 1800), ("20min", 1200)))
    y, mo, d = e.choice("start day", ((2020, 2, 28), (2021, 12, 30), (2021, 2, 27), (2000, 1, 1), (2021, 7, 29)))
    start = cls(y, mo, d) + datetime.timedelta(seconds=60 * e.choice("start minute", (0, 0, 0, 60, 330, 1080, 1439, 30)))
    end = start + datetime.timedelta(seconds=60 * e.choice("length", (0, 180, 720, 1440, 1439, 2880, 3000, 1441)))
    lat, lon = np.array([20.0, 10.0]), np.array([-5.0, 0.0, 5.0])

    def value(k, t):
        s = (t - cls(1990, 1, 1)).total_seconds()
        r = np.random.RandomState(int(s // 60) % (2 ** 31))
        base = r.randint(1, 60, (len(k), nl, m, n))
        return base

    def load(t, cfg, source="ERA5"):
        v = value("quvdepw", t)
        f = {k: (DL, v[i] / 16 * (1 if k != "d" else 1000)) for i, k in enumerate("quvd")}
        f["dp"] = f.pop("d")
        f |= {k: (D2, v[i, 0] / 16) for i, k in ((4, "evap"), (5, "precip"), (6, "ps"))}
        # netCDF input carries its time as a scalar coordinate
        return xarray.Dataset(f, coords={"level": [100, 120], "latitude": lat, "longitude": lon, "time": t}), {}

    if sec >= 86400:        # more days than processes have hands
        end = start + datetime.timedelta(days=e.choice("days", (1, 7, 40)))
    e.patch(PRE + "shared", get_input_data=load)
    pre = e.scratch_path("pre")
    cfg = e.config(level_type="model_levels", level_layer_boundary=110, preprocessed_data_folder=pre, calendar=cal, input_frequency=freq,
                   preprocess_start_date=start, preprocess_end_date=end, parallel_preprocess=e.bool("parallel"), parallel_processes=3)
    e.make_dir(pre)
    C = e.fn("wam2layers.config:Config")
    old = C.__dict__["from_yaml"]
    C.from_yaml = staticmethod(lambda f: cfg)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for k in range(2 if e.bool("run again") else 1):
                e.fn(PRE + "shared:prep_experiment")("none.yaml", "ERA5")
    finally:
        C.from_yaml = old
    want = {}
    t = start
    while t <= end:
        r = t
        want.setdefault((r.year, r.month, r.day), []).append(r)
        t = t + datetime.timedelta(seconds=sec)
    names = {"%04d-%02d-%02d_fluxes_storages.nc" % k: v for k, v in want.items()}
    e.check("one file per day", sorted(os.listdir(pre)) == sorted(names))
    for name, ts in names.items():
        if not os.path.exists(os.path.join(pre, name)):
            continue
        with xarray.open_dataset(os.path.join(pre, name), use_cftime=True) as ds:
            ds.load()
        have = list(ds["time"].values)
        e.check("records of that day, once each, in order", have == ts and all(isinstance(h, cls) for h in have))
        if have != ts:
            continue
        for r, t in enumerate(ts):
            q, u, v, dp, ev, pr, ps = value("quvdepw", t) / 16.0
            dp = dp * 1000
            cw = q * dp / 9.80665
            for k, f in (("s", cw), ("fx", u * cw), ("fy", v * cw)):
                e.check(f"{k} of its own timestamp", np.allclose(ds[k + "_upper"][r], f[0], rtol=1e-5) and np.allclose(ds[k + "_lower"][r], f[1], rtol=1e-5))
            e.check("surface fluxes of its own timestamp", np.allclose(ds["evap"][r], ev[0], rtol=1e-5) and np.allclose(ds["precip"][r], pr[0], rtol=1e-5))


@harness("P07", cases=150, sym=False, bounded_reason="calendar dates of long windows")
def day_groups(e):
    """Requested timestamps of windows of any length: each in exactly one group, one group per calendar day."""
    import cftime, warnings
    cal = e.choice("calendar", ("standard", "noleap", "360_day", "proleptic_gregorian", "julian", "all_leap"))
    cls = {"standard": cftime.DatetimeGregorian, "noleap": cftime.DatetimeNoLeap, "360_day": cftime.Datetime360Day,
           "proleptic_gregorian": cftime.DatetimeProlepticGregorian, "julian": cftime.DatetimeJulian, "all_leap": cftime.DatetimeAllLeap}[cal]
    freq, sec = e.choice("frequency", (("6h", 21600), ("12h", 43200), ("1D", 86400), ("5h", 18000), ("36h", 129600), ("5D", 432000), ("480min", 28800)))
    y, mo, d = e.choice("start day", ((2020, 2, 28), (2021, 12, 30), (1999, 1, 1), (2000, 1, 1), (2021, 7, 29), (850, 11, 3)))
    start = cls(y, mo, d) + datetime.timedelta(seconds=60 * e.choice("start minute", (0, 60, 330, 1439)))
    count = e.choice("count", (1, 2, 3, 40, 400, 1500))
    end = start + datetime.timedelta(seconds=sec * (count - 1) + e.choice("more", (0, 0, 60, sec - 1)))
    cfg = e.config(calendar=cal, input_frequency=freq, preprocess_start_date=start, preprocess_end_date=end)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        dates = e.fn(PRE + "shared:get_input_dates")(cfg)
        groups = e.fn(PRE + "shared:group_timestamps_by_day")(dates)
    want = [start + datetime.timedelta(seconds=sec * k) for k in range(count)]
    e.check("every requested timestamp, in order", list(dates) == want)
    by_day = {}
    for t in want:
        by_day.setdefault((t.year, t.month, t.day), []).append(t)
    got = [list(g) for g in groups.values()]
    e.check("one group per calendar day holding its timestamps in order", sorted(got, key=lambda g: g[0]) == sorted(by_day.values(), key=lambda g: g[0]))


class Each:
    """Loop contract without a state: every iteration is judged on its own."""
    def __init__(self, judge):
        self.judge = judge
        self.left = False

    def settle(self, k):
        self.judge(k)

    def exit(self, k):
        self.left = True


def same_day(e, a, b):
    return e.eq(e.floor(e.secs(a) / 86400), e.floor(e.secs(b) / 86400)) if e.is_sym() else (a.year, a.month, a.day) == (b.year, b.month, b.day)


@harness("P07", cases=80, loops=lambda: {PRE + "shared": loops.transform({"prep_experiment", "parallel_preprocess"})})
def days_dispatched(e):
    """prep_experiment: preprocess gets the requested timestamps, each in one call, day by day, one after another or in parallel."""
    minute = lambda name, lo, hi, **k: 60 * e.int(name, lo, hi, **k)
    cal = e.choice("calendar", ("standard", "noleap", "360_day"))
    start = e.time("start", cal)
    if e.is_sym():
        e.assume(e.eq(e.secs(start), minute("start minute", None, None)))
        period = minute("minutes", 1, None)
        freq = e.every(period)
        end = e.plus(start, minute("length", 0, None))
    else:
        start = start.replace(second=0)
        mins = e.choice("minutes", (360, 180, 1440, 2160, 90, 7, 30))
        freq, period = f"{mins}min", 60 * mins
        end = e.plus(start, e.choice("steps", (0, 1, 2, 5, 9, 40)) * period + 60 * e.choice("more", (0, 0, 1)))
    parallel = e.bool("parallel")
    cfg = e.config(preprocess_start_date=start, preprocess_end_date=end, input_frequency=freq, calendar=cal, parallel_preprocess=parallel, parallel_processes=2, level_type="model_levels")
    source = e.choice("source", ("ERA5", "CMIP"))
    calls = []
    record = lambda *a: calls.append(a)
    e.patch(PRE + "shared", preprocess=record, Config=e.only(from_yaml=lambda f: cfg), validate_calendar_type=lambda c: None, Pool=e.pool())
    count = e.floor((e.secs(end) - e.secs(start)) / period) + 1

    def judge(k):
        e.check("one call per day", len(calls) == 1)
        for times, s, c in calls:
            e.check("the source and the settings are handed on", s == source and c is cfg)
            base, at, size = e.group(times)
            e.check("as many timestamps as requested", e.eq(base.n, count))
            e.forall("the requested timestamps", (count,), lambda k: e.eq(e.secs(base.at(k)), e.secs(start) + k * period))
            e.forall("together exactly if of the same day", (count, count), lambda a, b: e.iff(e.eq(times.keys.at(a), times.keys.at(b)), same_day(e, base.at(a), base.at(b))))
        calls.clear()
    driver = e.loop_driver = Each(judge)
    e.fn(PRE + "shared:prep_experiment")("none.yaml", source)
    if e.is_sym():
        if calls:           # in parallel: an arbitrary one of the calls
            judge(None)
        else:
            e.check("all days, one after another", driver.left and not parallel)
        return
    want = []
    for k in range(int(count)):
        t = e.plus(start, k * period)
        if want and same_day(e, want[-1][0], t):
            want[-1].append(t)
        else:
            want.append([t])
    e.check("one call per day, with the timestamps of that day in order", sorted((list(c[0]) for c in calls), key=lambda g: g[0]) == want)
    e.check("the source and the settings are handed on", all(c[1] == source and c[2] is cfg for c in calls))


# ---------------------------------------------------------------- P08
def needs(level_type):
    level, surface = ["q", "u", "v"], ["ps", "precip", "evap"]
    if level_type == "pressure_levels":
        surface += ["qs", "us", "vs"]
    else:
        level += ["dp"]
    return level, surface


@harness("P08", cases=600, sym=False, bounded_reason="random defects of otherwise valid data")
def rejection_cases(e):
    """validate_input accepts exactly the complete data sets."""
    import xarray
    np = e.np
    m, n, nl = e.dim("M", 1, 3), e.dim("N", 1, 3), e.dim("L", 1, 3)
    lt = e.choice("level_type", ("pressure_levels", "model_levels"))
    level, surface = needs(lt)
    size = {"level": nl, "latitude": m, "longitude": n, "time": 1, "lev": 2}
    vs = {k: list(DL) for k in level} | {k: list(D2) for k in surface}
    for k in ("tcw", "extra"):
        if e.bool("with " + k):
            vs[k] = list(D2) if k == "tcw" else list(e.choice("extra dims", (D2, DL, ("time",), ())))
    valid = True
    for r in range(e.choice("defects", (0, 1, 1, 1, 2))):
        k = e.choice(f"where{r}", tuple(sorted(vs)))
        how = e.choice(f"how{r}", ("absent", "lacks", "extra", "renamed", "order", "dim"))
        if how == "absent":
            vs.pop(k)
        elif how == "lacks" and vs[k]:
            vs[k] = [x for x in vs[k] if x != e.choice(f"dim{r}", tuple(vs[k]))]
        elif how == "extra":
            new = e.choice(f"new{r}", ("time", "lev", "level"))
            vs[k] = vs[k] + ([new] if new not in vs[k] else [])
        elif how == "renamed" and vs[k]:
            vs[k] = ["lev"] + [x for x in vs[k][1:] if x != "lev"]
        elif how == "order":
            vs[k] = vs[k][::-1]
        elif how == "dim":
            gone = e.choice(f"gone{r}", ("level", "latitude", "longitude"))
            vs = {k: [x for x in d if x != gone] for k, d in vs.items()}
    data = {}
    nans = e.choice("missing values", (False, False, False, True))
    bad = e.choice("nan in", tuple(sorted(vs)) + ("tcw", "extra") * 3) if nans else None
    bad = bad if bad in vs else None
    for k, d in sorted(vs.items()):
        a = np.array(e.array("x " + k, tuple(size[x] for x in d))) if not e.bool("integer " + k) else np.ones(tuple(size[x] for x in d), int)
        if k == bad:
            a = a.astype(float)
            a.reshape(-1)[e.int("at", 0, 10 ** 6) % a.size] = np.nan
        data[k] = (d, a)
    ds = xarray.Dataset(data)
    if e.bool("with time"):
        ds = ds.assign_coords(t0=0.0)
    ok = bad is None and {"level", "latitude", "longitude"} <= set(ds.dims)
    ok = ok and all(k in vs and set(vs[k]) == set(DL) for k in level) and all(k in vs and set(vs[k]) == set(D2) for k in surface)
    cfg = e.config(level_type=lt)
    V = e.fn(PRE + "input_validation:ValidationError")
    before = ds.copy(deep=True)
    raised, r = e.raises(lambda: e.fn(PRE + "input_validation:validate_input")(ds, cfg), V)
    e.check("accepted exactly if complete", raised == (not ok))
    e.check("input not modified", ds.identical(before))
    source = e.choice("source", ("ERA5", "CMIP", "ARCO"))
    e.patch(PRE + source.lower(), get_input_data=(lambda t, c: ds) if source == "CMIP" else (lambda t, c: (ds, {"title": "x"})))
    raised, r = e.raises(lambda: e.fn(PRE + "shared:get_input_data")(None, cfg, source), V)
    e.check("data of every source are checked before use", raised == (not ok))
    if not raised:
        e.check("accepted data are passed on", r[0].identical(before))


def lacking(e, tag, dims):
    """Some way in which dimensions can be wrong: one absent, one too many, or another in its place."""
    how = e.choice(f"{tag} dims", ("less", "more", "other"))
    k = e.choice(f"{tag} which", tuple(range(len(dims))))
    return {"less": dims[:k] + dims[k + 1:], "more": dims + ("time",), "other": dims[:k] + ("lev",) + dims[k + 1:]}[how]


def dataset(e, lt, odd=None, nan=(), order=None):
    """A complete data set of any extents, except for the variable `odd`."""
    level, surface = needs(lt)
    size = {"level": e.dim("L"), "latitude": e.dim("M"), "longitude": e.dim("N"), "time": e.dim("T"), "lev": e.dim("K")}
    order = order or e.choice("order", (DL, ("latitude", "longitude", "level")))
    dims = {k: order for k in level} | {k: (D2 if order is DL else D2[::-1]) for k in surface}
    dims |= {"tcw": D2, "extra": ("time",), "single": ()}
    for k, d in ([odd] if isinstance(odd, tuple) else odd or ()):
        dims[k] = d
    ds = {k: (d, e.array("x " + k, tuple(size[x] for x in d), nan=k in nan)) for k, d in dims.items() if d is not None}
    return e.ds(ds), {k: tuple(size[x] for x in d) for k, d in dims.items() if d is not None}


@harness("P08", cases=60)
def missing_dimensions(e):
    """validate_dims: an error exactly if one of the three dimensions is absent."""
    size = {"level": e.dim("L"), "latitude": e.dim("M"), "longitude": e.dim("N"), "time": e.dim("T")}
    have = [k for k in size if e.bool("has " + k)]
    ds = e.ds({"x": (tuple(have), e.array("x", tuple(size[k] for k in have))), "y": ((), e.array("y", ()))})
    V = e.fn(PRE + "input_validation:ValidationError")
    raised, r = e.raises(lambda: e.fn(PRE + "input_validation:validate_dims")(ds), V)
    e.check("rejected exactly if a dimension is missing", raised == (not {"level", "latitude", "longitude"} <= set(have)))


@harness("P08", cases=150)
def variables_required(e):
    """validate_vars: an error exactly if a required variable is absent or has other dimensions than it must have."""
    lt = e.choice("level_type", ("pressure_levels", "model_levels"))
    level, surface = needs(lt)
    k = e.choice("defect in", (None, "other") + tuple(level + surface))
    if k is None or k == "other":
        odd = None if k is None else (e.choice("other", ("tcw", "extra", "single", "qs", "dp")), e.choice("other dims", (None, ("time",), DL, ())))
        bad = odd is not None and odd[0] in level + surface and set(odd[1] or ()) != set(DL if odd[0] in level else D2)
    elif e.bool("absent"):
        odd, bad = (k, None), True
    else:
        odd, bad = (k, lacking(e, "defect", DL if k in level else D2)), True
    ds, _ = dataset(e, lt, odd)
    V = e.fn(PRE + "input_validation:ValidationError")
    raised, r = e.raises(lambda: e.fn(PRE + "input_validation:validate_vars")(ds, e.config(level_type=lt)), V)
    e.check("rejected exactly if a variable is absent or has other dimensions", raised == bad)


@harness("P08", cases=60)
def variables_two_defects(e):
    """validate_vars: two defects do not make up for each other."""
    lt = e.choice("level_type", ("pressure_levels", "model_levels"))
    level, surface = needs(lt)
    names = tuple(level + surface)
    a = e.choice("first", tuple(range(len(names) - 1)))
    b = e.choice("second", tuple(range(a + 1, len(names))))
    odd = []
    for q, k in ((a, names[a]), (b, names[b])):
        right = DL if k in level else D2
        odd.append((k, e.choice(f"how {q}", (None, D2 if right is DL else DL))))
    ds, _ = dataset(e, lt, odd, order=DL)
    V = e.fn(PRE + "input_validation:ValidationError")
    raised, r = e.raises(lambda: e.fn(PRE + "input_validation:validate_vars")(ds, e.config(level_type=lt)), V)
    e.check("rejected", raised)


@harness("P08", cases=150)
def missing_values(e):
    """validate_input on otherwise complete data: an error exactly if some value of some variable is missing."""
    lt = e.choice("level_type", ("pressure_levels", "model_levels"))
    level, surface = needs(lt)
    k = e.choice("missing in", (None,) + tuple(level + surface) + ("tcw", "extra", "single"))
    ds, shapes = dataset(e, lt, nan=(k,))
    if k is not None:
        at = tuple(e.int(f"at {q}", 0) for q in range(len(shapes[k])))
        if not e.is_sym():
            at = tuple(i % n for i, n in zip(at, shapes[k]))
            ds[k].values[at] = e.np.nan
        for i, n in zip(at, shapes[k]):
            e.assume(i < n)
        e.assume(e.isnan(e.at(ds[k], *at)))
    before = {q: e.snapshot(ds[q]) for q in shapes}
    V = e.fn(PRE + "input_validation:ValidationError")
    raised, r = e.raises(lambda: e.fn(PRE + "input_validation:validate_input")(ds, e.config(level_type=lt)), V)
    e.check("rejected exactly if a value is missing", raised == (k is not None))
    for q in shapes:
        e.same(f"{q} not modified", ds[q], before[q])


@harness("P08", cases=60)
def checked_before_use(e):
    """get_input_data: data of every source pass validate_input before they are handed on."""
    lt = e.choice("level_type", ("pressure_levels", "model_levels"))
    level, surface = needs(lt)
    k = e.choice("defect in", (None,) + tuple(level + surface))
    ds, shapes = dataset(e, lt, None if k is None else (k, None))
    source = e.choice("source", ("ERA5", "CMIP", "ARCO"))
    e.patch(PRE + source.lower(), get_input_data=(lambda t, c: ds) if source == "CMIP" else (lambda t, c: (ds, {"title": "x"})))
    V = e.fn(PRE + "input_validation:ValidationError")
    raised, r = e.raises(lambda: e.fn(PRE + "shared:get_input_data")(None, e.config(level_type=lt), source), V)
    e.check("rejected exactly if invalid", raised == (k is not None))
    if not raised:
        for q in shapes:
            e.same(f"{q} handed on", r[0][q], ds[q])


@harness("P07", cases=60)
def record_appended(e):
    """append_to_netcdf: the records are added after those in the file, which stay as they are; times keep the file's unit and calendar."""
    r, k, m, n = e.dim("records", 1), e.dim("added", 1), e.dim("M", 2), e.dim("N", 2)
    cal = e.choice("calendar", ("standard", "noleap", "360_day"))
    unit, dtype = e.choice("unit", (("seconds since 1900-01-01", "int64"), ("minutes since 1970-01-01", "float64"), ("hours since 2000-03-01 12:00:00", "float64"), ("days since 1850-01-01", "float64")))
    co = {"latitude": e.build((m,), lambda i: 40 - i), "longitude": e.build((n,), lambda j: j)}
    kinds = {"evap": ("time",) + D2, "fx_upper": ("time",) + D2, "late": D2 + ("time",), "inner": ("latitude", "time", "longitude"), "bounds": ("longitude",), "series": ("time",)}
    size = lambda t: {"time": t, "latitude": m, "longitude": n}

    def part(tag, count, start):
        x = {name: e.array(f"{name} {tag}", tuple(size(count)[d] for d in dims)) for name, dims in kinds.items()}
        times = e.time_axis(start, 60 * e.int(f"minutes {tag}", 1, None, prefer=[30, 180, 360]), count)
        return x, times, e.ds({name: (kinds[name], e.snapshot(v)) for name, v in x.items()}, coords=dict(co, time=times))
    first, second = e.time("first", cal), e.time("second", cal)
    if e.is_sym():      # requested times are whole minutes
        for t, name in ((first, "first minute"), (second, "second minute")):
            e.assume(e.eq(e.secs(t), 60 * e.int(name, None, None)))
    else:
        first, second = first.replace(second=0), second.replace(second=0)
    x0, t0, ds0 = part("before", r, first)
    x1, t1, ds1 = part("added", k, second)
    e.make_dir(e.scratch_path("pre"))
    path = e.scratch_path("pre") / "2000-01-01_fluxes_storages.nc"
    e.store(path, ds0, unlimited=("time",), encoding={"time": {"units": unit, "dtype": dtype, **({} if e.is_sym() else {"calendar": cal})}})
    e.fn("wam2layers.preprocessing.xarray_append:append_to_netcdf")(path, ds1, expanding_dim="time")
    out = e.reopened(path)
    near = lambda a, b: e.eq(a, b) if e.is_sym() else abs(a - b) < 1e-3       # the unit of the file may not divide a minute
    e.check("one more record for each timestamp added", e.eq(out.sizes["time"], r + k))
    if not e.is_sym() and out.sizes["time"] != r + k:
        return
    e.forall("times before", (r,), lambda a: near(e.secs(e.at_time(out["time"].values, a)), e.secs(e.at_time(t0, a))))
    e.forall("times added", (k,), lambda a: near(e.secs(e.at_time(out["time"].values, r + a)), e.secs(e.at_time(t1, a))))
    for name, dims in kinds.items():
        got = out[name]
        e.check(f"{name}: dimensions", tuple(got.dims) == dims)
        if "time" not in dims:
            e.same(f"{name}: unchanged", got, x0[name])
            continue
        at = dims.index("time")
        for label, x, count, off in (("earlier records unchanged", x0, r, 0), ("new records are those given", x1, k, r)):
            e.forall(f"{name}: {label}", tuple(size(count)[d] for d in dims), lambda *i: e.eq(e.at(got, *[q + off if p == at else q for p, q in enumerate(i)]), e.at(x[name], *i)))
