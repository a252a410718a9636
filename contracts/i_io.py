"""I01, I02 (reading preprocessed data), I04 (tagging box), I06 (output files), R02 (time-dependent regions)."""
from pathlib import Path
from pyvc.contract import harness
from contracts.t_core import D2

TR = "wam2layers.tracking."
STATES = ("s_upper", "s_lower")
FLUX = ("fx_upper", "fx_lower", "fy_upper", "fy_lower", "evap", "precip")
GROUPS = {"states": STATES, "fluxes": FLUX}
D3 = ("time",) + D2
FREQS = ["1h", "1h", "3h", "6h", "30min", "12h", "1D", "2D", "36h"]


def grid(e, m, n):
    return {"latitude": e.build((m,), lambda i: 40 - 2 * i), "longitude": e.build((n,), lambda j: 3 * j)}


class Folder:
    """Preprocessed data: one file per day; field `name` at input time t is an unknown function of (name, t)."""
    def __init__(self, e, path, m, n, tag=""):
        self.e, self.path, self.m, self.n, self.tag = e, path, m, n, tag
        self.co = grid(e, m, n)
        self.count = 0

    def field(self, name, t):
        return self.e.field(self.tag + name, t, (self.m, self.n))

    def provide(self, times):
        e = self.e
        if e.is_sym():
            for t in times:
                self.count += 1
                nt = e.dim(f"{self.tag}times{self.count}", 1)
                ax = e.times(f"{self.tag}T{self.count}", nt)
                k = e.int(f"{self.tag}k{self.count}", 0)
                e.assume(k < nt)
                e.assume(e.secs(e.at(ax, k)) == e.secs(t))
                self.write(t, ax, nt)
            return
        days = {}
        for t in times:
            days.setdefault(t.strftime("%Y-%m-%d"), []).append(t)
        import numpy as np
        for day, ts in days.items():
            ts = sorted(set(ts) | {ts[0].replace(hour=h, minute=0) for h in (0, 12)})
            self.write(ts[0], np.array(ts), len(ts))

    def write(self, t, ax, nt):
        e = self.e
        name = f"{self.path}/{e.strftime(t, '%Y-%m-%d')}_fluxes_storages.nc"
        if e.is_sym():
            val = lambda k: e.build((nt, self.m, self.n), lambda a, i, j: e.at(self.field(k, e.at(ax, a)), i, j))
        else:
            val = lambda k: e.np.stack([self.field(k, x) for x in ax])
        e.provide_file(name, e.ds({k: (D3, val(k)) for k in STATES + FLUX}, coords=dict(self.co, time=ax)))


def setting(e):
    m, n = e.dim("M", 2), e.dim("N", 2)
    freq = e.freq("input_frequency", FREQS)
    return m, n, freq, e.period(freq)


def around(e, t, p):
    """The input times before and after t (equal if t is one)."""
    s = e.secs(t)
    k = e.floor(s / p)
    if bool(s == k * p):
        return t, t
    return e.plus(t, k * p - s), e.plus(t, (k + 1) * p - s)


def expected(e, fol, name, t, lo, hi):
    a, b = fol.field(name, lo), fol.field(name, hi)
    if bool(e.secs(lo) == e.secs(hi)):
        return a
    w = (e.secs(t) - e.secs(lo)) / (e.secs(hi) - e.secs(lo))
    return e.build((fol.m, fol.n), lambda i, j: (1 - w) * e.at(a, i, j) + w * e.at(b, i, j))


@harness("I01", cases=60)
def interpolate(e):
    """Data at any time: the stored field at an input time, else linear in elapsed time between the surrounding input times."""
    m, n, freq, p = setting(e)
    load = e.fn(TR + "io:load_data")
    t = e.time("t")
    lo, hi = around(e, t, p)
    fol = Folder(e, e.scratch_path("in"), m, n)
    e.make_dir(fol.path)
    fol.provide([lo] if bool(e.secs(lo) == e.secs(hi)) else [lo, hi])
    cfg = e.config(preprocessed_data_folder=fol.path, input_frequency=freq, tracking_domain=None, calendar="standard")
    subset = e.choice("subset", ("states", "fluxes", "default"))
    got = load(t, cfg) if subset == "default" else load(t, cfg, subset)
    subset = "fluxes" if subset == "default" else subset
    e.check("exactly the variables of the group", e.truth(set(got.data_vars) == set(GROUPS[subset])))
    for k in GROUPS[subset]:
        e.same(f"{k} interpolated", got[k], expected(e, fol, k, t, lo, hi))
    for c in D2:
        e.same(f"{c} of the file", got[c], fol.co[c])


def spoil(e, ds, group):
    """What a caller may do in place to loaded data (symbolically: everything, one after the other)."""
    todo = ("scale", "element", "add variable", "values")
    if not e.is_sym():
        todo = (e.choice("how", todo),)
    for how in todo:
        for k in GROUPS[group]:
            if how == "scale":
                ds[k] *= 7.0
            elif how == "values":
                ds[k].values = e.build(e.shape(ds[k]), lambda i, j: -1.0)
            elif how == "add variable":
                ds[k] += 1000.0
                ds["extra"] = ds[k]
            else:
                ds[k].values[0, 0] = 12345.0
                ds[k].values[1:, :] += 3.0


@harness("I02", cases=40)
def reload_data(e):
    """Loading again after changing the first result in place."""
    m, n, freq, p = setting(e)
    load = e.fn(TR + "io:load_data")
    t = e.time("t")
    lo, hi = around(e, t, p)
    fol = Folder(e, e.scratch_path("a"), m, n, "a_")
    e.make_dir(fol.path)
    fol.provide([lo] if lo is hi else sorted([lo, hi]) if not e.is_sym() else [lo, hi])
    cfg = e.config(preprocessed_data_folder=fol.path, input_frequency=freq, tracking_domain=None, calendar="standard")
    e.forget("cache")
    g = e.choice("group", ("states", "fluxes"))
    spoil(e, load(t, cfg, g), g)
    again = load(t, cfg, g)
    for k in GROUPS[g]:
        e.same(f"{k} loaded again", again[k], expected(e, fol, k, t, lo, hi))
    e.check("no other variables", e.truth(set(again.data_vars) == set(GROUPS[g])))


@harness("I02", cases=40)
def slices_independent(e):
    """Results for different times, groups, folders and regions never get mixed up."""
    m, n = e.dim("M", 2), e.dim("N", 2)
    load = e.fn(TR + "io:load_slice")
    t1 = e.time("t1")
    t2 = e.plus(t1, 60 * e.int("minutes", -10 ** 6, 10 ** 6, prefer=[-60, 0, 60, 180, 1440, 2880, 525600]))
    A, B = Folder(e, e.scratch_path("a"), m, n, "a_"), Folder(e, e.scratch_path("b"), m, n, "b_")
    same = bool(e.secs(t1) == e.secs(t2))
    for fol in (A, B):
        e.make_dir(fol.path)
        fol.provide([t1] if same else sorted([t1, t2]) if not e.is_sym() else [t1, t2])
    cfg = lambda fol: e.config(preprocessed_data_folder=fol.path, input_frequency="1h", tracking_domain=None, calendar="standard")
    e.forget("cache")
    g1, g2 = e.choice("first group", ("states", "fluxes")), e.choice("second group", ("states", "fluxes"))
    F = B if e.bool("other folder") else A
    spoil(e, load(t1, g1, cfg(A)), g1)
    got = load(t2, g2, cfg(F))
    for k in GROUPS[g2]:
        e.same(f"{k} of its own time, group and folder", got[k], F.field(k, t2))
    e.check("only its own group", e.truth(set(got.data_vars) == set(GROUPS[g2])))
    spoil(e, got, g2)
    again = load(t1, g1, cfg(A))
    for k in GROUPS[g1]:
        e.same(f"{k} after another load", again[k], A.field(k, t1))


@harness("I02", cases=40, sym=False, bounded_reason="longer sequences of loads; the step from one load to the next is proved by the other contracts")
def repeated_loads(e):
    """Sequences of loads with changes in between, more of them than a cache holds, and with regions."""
    m, n, freq, p = 4, 6, e.freq("input_frequency", FREQS), None
    p = e.period(freq)
    load = e.fn(TR + "io:load_data")
    t0 = e.time("t0")
    A, B = Folder(e, e.scratch_path("a"), m, n, "a_"), Folder(e, e.scratch_path("b"), m, n, "b_")
    ts = [e.plus(t0, p * k / 2) for k in range(6)]
    need = sorted({x for t in ts for x in around(e, t, p)})
    for fol in (A, B):
        e.make_dir(fol.path)
        fol.provide(need)
    boxes = (None, e.bbox(2, 35, 10, 39), e.bbox(2, 33, 20, 39), e.bbox(12, 33, 3, 41))
    for k in range(e.int("loads", 6, 14)):
        fol = B if e.bool(f"b{k}") else A
        t, g, box = e.choice(f"t{k}", ts), e.choice(f"g{k}", ("states", "fluxes")), e.choice(f"box{k}", boxes)
        got = load(t, e.config(preprocessed_data_folder=fol.path, input_frequency=freq, tracking_domain=box, calendar="standard"), g)
        lo, hi = around(e, t, p)
        la, lo_ = got["latitude"].values, got["longitude"].values
        for v in GROUPS[g]:
            want = expected(e, fol, v, t, lo, hi)
            ii = [int(round((40 - x) / 2)) for x in la]
            jj = [int(round(x / 3)) for x in lo_]
            e.same(f"{v} in load {k}", got[v], want[e.np.ix_(ii, jj)])
        if box is None:
            e.check("whole grid", got[GROUPS[g][0]].shape == (m, n))
        else:
            inx = lambda x: (box.west <= x <= box.east) if box.west < box.east else (x >= box.west or x <= box.east)
            e.check("only the region", len(lo_) == sum(inx(3 * j) for j in range(n)) and len(la) == sum(box.south <= 40 - 2 * i <= box.north for i in range(m)))
        how = e.int(f"spoil{k}", 0, 2)
        if how:
            for v in GROUPS[g]:
                if how == 1:
                    got[v] *= 3
                else:
                    got[v].values[:] = -5


# ---------------------------------------------------------------- I04
@harness("I04")
def tagging_box(e):
    """The weights of a tagging box."""
    m, n = e.dim("M", 1), e.dim("N", 1)
    lat, lon = e.array("lat", (m,), lo=-90, hi=90), e.array("lon", (n,), lo=-180, hi=180)
    f = e.fn(TR + "shared:initialize_tagging_region")
    w, s, ea, no = e.real("west", -180, 180), e.real("south", -80, 80), e.real("east", -180, 180), e.real("north", -80, 80)
    if not e.is_sym() and e.bool("on centres"):
        w, ea = e.at(lon, 0), e.at(lon, n - 1)
        s, no = sorted([e.at(lat, 0), e.at(lat, m - 1)])
    box = e.bbox(w, s, ea, no)
    got = f(box, e.da(("latitude",), lat), e.da(("longitude",), lon))
    e.shape_is("one weight per cell", got, (m, n))

    def want(i, j):
        x, y = e.at(lon, j), e.at(lat, i)
        inlat = e.and_(s <= y, y <= no)
        plain, across = e.and_(w <= x, x <= ea), e.or_(w <= x, x <= ea)
        return e.ite(e.and_(inlat, e.ite(w > ea, lambda: across, lambda: plain)), lambda: 1, lambda: 0)
    e.forall("one inside, zero outside", (m, n), lambda i, j: e.eq(e.at(got, i, j), want(i, j)))


# ---------------------------------------------------------------- R02: time-dependent regions
@harness("R02", cases=60)
def region_nearest(e):
    """A time-dependent region is read at the time nearest to the requested one."""
    m, n, nt = e.dim("M", 2), e.dim("N", 2), e.dim("T", 1)
    f = e.fn(TR + "io:load_tagging_region")
    r = e.array("region", (nt, m, n), lo=0, hi=1)
    t = e.time("t")
    if e.is_sym():
        ax = e.times("axis", nt)
    else:
        t0 = e.plus(t, -3600 * e.int("before", 0, 6))
        step = e.choice("step", (600, 3600, 86400))
        ax = e.np.array([e.plus(t0, step * i + 60 * e.int(f"jitter{i}", 0, 5)) for i in range(nt)])
    p = e.scratch_path("region.nc")
    e.provide_file(p, e.da(D3, r, coords=dict(grid(e, m, n), time=ax), name="tagging_region"))
    k = e.int("k", 0, 3)
    e.assume(k < nt)
    d = lambda i: e.abs(e.secs(e.at_time(ax, i)) - e.secs(t))
    e.assume_forall((nt,), lambda i: e.or_(i == k, lambda: d(k) < d(i)))
    cfg = e.config(tagging_region=p, tracking_domain=None)
    got = f(cfg, t)
    e.same("the region of the nearest time", got, e.build((m, n), lambda i, j: e.at(r, k, i, j)))
    whole = f(cfg)
    e.same("without a time: the region at all times", whole, r)


# ---------------------------------------------------------------- I06
def write_setting(e, d):
    m, n = e.dim("M", 2), e.dim("N", 2)
    lat0, dlat, lon0, dlon = e.real("lat0", -60, 60), e.real("dlat", -4, 4), e.real("lon0", -180, 180), e.real("dlon", -4, 4)
    if not e.is_sym():
        e.assume(abs(dlat) > 0.01 and abs(dlon) > 0.01)
    co = {"latitude": e.build((m,), lambda i: lat0 + i * dlat), "longitude": e.build((n,), lambda j: lon0 + j * dlon)}
    freq = e.freq("output_frequency", ["1h", "3h", "6h", "1D", "12h"])
    return m, n, lat0, dlat, lon0, dlon, co, freq


def written(e, d):
    """The content of an output file."""
    from contracts.t_step import ACCS
    m, n, lat0, dlat, lon0, dlon, co, freq = write_setting(e, d)
    p = e.period(freq)
    t = e.time("t")
    if not e.is_sym() and e.bool("on an output time"):
        t = around(e, t, p)[0]
    lo, hi = around(e, t, p)
    start = e.plus(t, -e.int("since start", 1 if d == "forward" else 0, 10 ** 8, prefer=[60, 600, 3600, 7200, 10800, 86400, 200000]))
    end = e.plus(t, e.int("until end", 0 if d == "forward" else 1, 10 ** 8, prefer=[60, 600, 3600, 7200, 10800, 86400, 200000]))
    cfg = e.config(output_frequency=freq, tracking_direction=d, tracking_start_date=start, tracking_end_date=end, calendar="standard",
                   tagging_start_date=start, tagging_end_date=end, preprocess_start_date=start, preprocess_end_date=end,
                   output_folder=e.scratch_path("out"), preprocessed_data_folder=e.scratch_path("out"), tagging_region=e.scratch_path("r.nc"),
                   filename_template="x", level_type="model_levels", levels="all")
    e.make_dir(e.scratch_path("out"))
    names = ("s_track_upper_restart", "s_track_lower_restart") + ACCS[d]
    vals = {k: e.array(k, (m, n)) for k in names}
    out = e.ds({k: (D2, e.snapshot(v)) for k, v in vals.items()}, coords=co)
    e.fn(TR + "io:write_output")(out, t, cfg)
    f = e.written_file(e.scratch_path("out"))
    sgl = (lambda a, b: e.eq(a, b)) if e.is_sym() else (lambda a, b: abs(a - b) <= 1e-6 * abs(b))
    for k in names:
        e.check(f"{k} in the file", e.truth(k in f))
        e.shape_is(f"{k} has one record", f[k], (1, m, n))
        e.forall(f"{k} unchanged up to single precision", (m, n), lambda i, j: sgl(e.at(f[k], 0, i, j), e.at(vals[k], i, j)))
        e.same(f"{k} of the run not modified", out[k], vals[k])
    for c in D2:
        e.same(f"{c} of the file", f[c], co[c])
    e.check("the instant of the file", e.and_(e.shape(f["time"])[0] == 1, e.secs(e.at_time(f["time"], 0)) == e.secs(t)))
    tb = f["time_bnds"]
    if d == "forward":
        prev = e.max(e.secs(lo) if not bool(e.secs(lo) == e.secs(hi)) else e.secs(t) - p, e.secs(start))
    else:
        prev = e.min(e.secs(hi) if not bool(e.secs(lo) == e.secs(hi)) else e.secs(t) + p, e.secs(end))
    e.shape_is("one pair of time bounds", tb, (1, 2))
    b = [e.secs(e.at_time(tb, 0, i)) for i in (0, 1)]
    e.check("the instant is one bound of the interval", e.or_(b[0] == e.secs(t), b[1] == e.secs(t)))
    e.check("the bounds of the interval the amounts were accumulated over", e.or_(e.and_(b[0] == prev, b[1] == e.secs(t)), e.and_(b[1] == prev, b[0] == e.secs(t))))
    for nm, cnt, x0, dx in (("latitude", m, lat0, dlat), ("longitude", n, lon0, dlon)):
        bn = f[nm + "_bnds"]
        e.shape_is(f"bounds of every {nm}", bn, (cnt, 2))
        e.forall(f"{nm} bounds", (cnt,), lambda i: e.and_(
            e.eq(e.min(e.at(bn, i, 0), e.at(bn, i, 1)), x0 + i * dx - e.abs(dx) / 2, scale=360),
            e.eq(e.max(e.at(bn, i, 0), e.at(bn, i, 1)), x0 + i * dx + e.abs(dx) / 2, scale=360)))


for _d in ("forward", "backward"):
    def _fn(e, d=_d):
        written(e, d)
    _fn.__doc__ = f"Content of an output file of a {_d} run."
    harness("I06", name=f"write_output_{_d}", cases=50)(_fn)


@harness("I06", cases=80)
def output_names(e):
    """The name of an output file is a function of folder, direction and instant, and tells instants a minute apart from each other."""
    path = e.fn(TR + "io:output_path")
    t = e.time("t")
    d1 = "backward" if e.bool("backward") else "forward"
    cfg = lambda d, folder="out", **k: e.config(tracking_direction=d, output_folder=e.scratch_path(folder), **k)
    a = str(path(t, cfg(d1)))
    e.check("same instant, same name", e.truth(a == str(path(t, cfg(d1, restart=True, timestep=123, kvf=2)))))
    e.check("depends on the direction", e.truth(a != str(path(t, cfg("forward" if d1 == "backward" else "backward")))))
    e.check("inside the output folder", e.truth(a.startswith(str(e.scratch_path("out")) + "/") and "/" not in a[len(str(e.scratch_path("out"))) + 1:]))
    e.check("depends on the folder", e.truth(a != str(path(t, cfg(d1, "other")))))
    if e.is_sym():
        e.check("distinct names for instants a minute apart", e.truth(e.tells_minutes(a, t)))
    else:
        off = e.choice("offset", (60, 60, 120, 600, 1800, 3600, 43200, 86400, 7 * 86400, 28 * 86400, 31 * 86400, 365 * 86400, 366 * 86400, 3653 * 86400, 36525 * 86400))
        e.check("distinct names for instants a minute apart", a != str(path(e.plus(t, off), cfg(d1))))
