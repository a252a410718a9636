"""P01, P02 (two layers), P06 (grid of the preprocessed files)."""
from pyvc import loops
from pyvc.contract import harness
from contracts.t_core import D2
from contracts.p_flux import DL, PRE, axes

G = 9.80665
NAMES = ("s", "fx", "fy")


def grid(e, m, n, wrapped=False):
    """Regular grid; latitudes in either order; longitudes between -180 and 180 unless wrapped."""
    if e.is_sym():
        lat0, dlat = e.real("lat0", -90, 90), e.real("dlat", pos=True)
        lon0, dlon = e.real("lon0", -180), e.real("dlon", pos=True)
        e.assume(lon0 + dlon * (n - 1) <= (lon0 + 359 if wrapped else 180))
        if not wrapped:
            e.lemma_forall("no column beyond the last", (n,), lambda j: e.and_(lon0 + dlon * j >= -180, lon0 + dlon * j <= 180))
    else:
        lat0, dlat = e.choice("lat0", (10.0, -40.5)), e.choice("dlat", (2.5, 0.25))
        dlon = e.choice("dlon", (0.5, 5.0, 22.5))
        lon0 = e.choice("lon0", (0.0, 100.0, 170.0, 182.5, 359.5, 350.0, -180.0, -3.25)) if wrapped else e.choice("lon0", (-180.0, -30.25, 3.5))
    sign = 1 if e.bool("south to north") else -1
    lat = e.build((m,), lambda i: lat0 + sign * dlat * i)
    lon = e.build((n,), lambda j: lon0 + dlon * j)
    return lat, lon, dlat, dlon, sign


def columns(e, co, fields, t):
    return e.ds({k: (DL if e.ndim(v) == 3 else D2, v) for k, v in fields.items()}, coords=dict(co, time=((), t)))


def process(e, fields, co, cfg, t, judge):
    """Runs the preprocessor on the timestamps of a day, given the input of one of them, at any place of the day;
    judge sees what it writes for that one."""
    data = columns(e, co, fields, t)
    shared = PRE + "shared"
    if not e.is_sym():
        first = t.replace(hour=0, minute=0, second=0)
        before = [first] if first < t and e.bool("not the first of its day") else []
        other = columns(e, co, {k: v * 0 + 1 for k, v in fields.items()}, first)
        e.patch(shared, get_input_data=lambda tt, c, source="ERA5": (data if tt == t else other, {}))
        e.make_dir(cfg.preprocessed_data_folder)
        e.fn(shared + ":preprocess")(before + [t], "ERA5", cfg)
        out = e.written_file(cfg.preprocessed_data_folder)
        e.check("one record per timestamp", list(out["time"].values) == before + [t])
        judge(out.isel(time=[len(before)]))
        return
    asked, added = [], []
    e.patch(shared, get_input_data=lambda tt, c, source="ERA5": asked.append((tt, c, source)) or (data, {}),
            append_to_netcdf=lambda path, ds, expanding_dim="time": added.append((path, ds.copy(deep=True), expanding_dim)))
    e.make_dir(cfg.preprocessed_data_folder)
    day = e.day_of(t)

    def settle(k):
        made = e.log("to_netcdf")
        first = e.truth(e.eq(k, 0))
        e.check("the first of a day makes the file, the others are added to it", (len(made), len(added)) == ((1, 0) if first else (0, 1)))
        if (len(made), len(added)) not in ((1, 0), (0, 1)):
            return
        path, ds = (made[0][2], made[0][1]) if made else added[0][:2]
        e.check("a new file is begun", not made or made[0][3].get("mode", "w") == "w" and tuple(made[0][3].get("unlimited_dims", ())) == ("time",))
        e.check("added along time", not added or added[0][2] == "time")
        e.check("in the file of its day", e.names_day(path, cfg.preprocessed_data_folder, t))
        e.check("input asked for once, of that source and with these settings", len(asked) == 1 and asked[0][1] is cfg and asked[0][2] == "ERA5")
        e.check("input of that timestamp", e.eq(e.secs(asked[0][0]), e.secs(t)))
        judge(ds)
    e.loop_driver = e.only(start=lambda k: e.assume(e.eq(e.secs(day.at(k)), e.secs(t))), settle=settle)
    e.fn(shared + ":preprocess")(day, "ERA5", cfg)
    e.check("nothing is written after the last", not e.log("to_netcdf") and not added)


day_loop = lambda: {PRE + "shared": loops.transform({"preprocess"})}


TOL = 2e-6     # files are in single precision


def close(e, a, b, scale):
    return e.eq(a, b) if e.is_sym() else abs(a - b) <= TOL * max(scale, abs(a), abs(b))


@harness("P01", "P06", "P07", cases=150, loops=day_loop)
def layers_model(e):
    """Model levels: the lower layer holds the levels numbered above the boundary level, the upper layer all others."""
    m, n, nl = e.dim("M", 2), e.dim("N", 2), e.dim("L", 1)
    lat, lon, dlat, dlon, sign = grid(e, m, n)
    b = e.int("boundary", 1, 137)
    if e.is_sym():
        lev = e.array("level", (nl,), lo=1, hi=137, kind="i")
        e.assume_forall((nl, nl), lambda a, c: e.implies(a < c, e.at(lev, a) < e.at(lev, c)))
    else:
        lev = e.np.arange(nl) * e.choice("level step", (1, 2)) + max(1, b - e.int("above", 0, nl))
    x = {k: e.array(k, (nl, m, n), **({} if k in "uv" else dict(pos=True))) for k in ("q", "u", "v", "dp")}
    x |= {k: e.array(k, (m, n)) for k in ("ps", "evap", "precip")}
    t = e.time("t")
    co = {"level": lev, "latitude": lat, "longitude": lon}
    cfg = e.config(level_type="model_levels", level_layer_boundary=b, preprocessed_data_folder=e.scratch_path("pre"), calendar="standard")
    process(e, {k: e.snapshot(v) for k, v in x.items()}, co, cfg, t, lambda out: model_levels_judged(e, out, x, lat, lon, lev, b, sign, t))


def model_levels_judged(e, out, x, lat, lon, lev, b, sign, t):
    nl, m, n = e.shape(x["q"])
    row = lambda i: m - 1 - i if sign > 0 else i
    e.check("one record, of its own time", e.eq(e.secs(e.at_time(out["time"].values, 0)), e.secs(t)))
    e.forall("latitudes decrease from north to south", (m,), lambda i: e.eq(e.at(out["latitude"], i), e.at(lat, row(i))))
    e.same("longitudes unchanged", out["longitude"], lon)
    g = e.const(G)
    for name, factor in zip(NAMES, (None, "u", "v")):
        def term(l, i, j):
            w = e.at(x["q"], l, i, j) * e.at(x["dp"], l, i, j) / g
            return w if factor is None else e.at(x[factor], l, i, j) * w
        for layer in ("lower", "upper"):
            got = out[f"{name}_{layer}"]
            e.check(f"{name}_{layer} dimensions", tuple(got.dims) == ("time",) + D2)
            inside = lambda l: (e.at(lev, l) > b) if layer == "lower" else (e.at(lev, l) <= b)
            e.forall(f"{name}_{layer} is the integral over its levels", (m, n), lambda i, j: close(
                e, e.at(got, 0, i, j), e.sum(nl, lambda l: e.ite(inside(l), term(l, row(i), j), 0)), 0 if e.is_sym() else sum(abs(term(l, row(i), j)) for l in range(nl))))
        e.forall(f"{name}: both layers make up the column", (m, n), lambda i, j: close(
            e, e.at(out[name + "_lower"], 0, i, j) + e.at(out[name + "_upper"], 0, i, j), e.sum(nl, lambda l: term(l, row(i), j)), 0 if e.is_sym() else sum(abs(term(l, row(i), j)) for l in range(nl))))
    for k in ("evap", "precip"):
        e.forall(f"{k} of the same cell", (m, n), lambda i, j: close(e, e.at(out[k], 0, i, j), e.at(x[k], row(i), j), 0))


def weight(e, x, l, i, j):
    return e.at(x["q"], l, i, j) * e.at(x["dp"], l, i, j) / e.const(G)


@harness("P02", cases=150, loops=day_loop)
def column_water(e):
    """With total column water both layers together hold exactly that amount; every level is scaled by the same factor."""
    m, n, nl = e.dim("M", 2), e.dim("N", 2), e.dim("L", 1)
    lat, lon, dlat, dlon, sign = grid(e, m, n)
    b = e.int("boundary", 1, 137)
    if e.is_sym():
        lev = e.array("level", (nl,), lo=1, hi=137, kind="i")
        e.assume_forall((nl, nl), lambda a, c: e.implies(a < c, e.at(lev, a) < e.at(lev, c)))
    else:
        lev = e.np.arange(nl) * e.choice("level step", (1, 2)) + max(1, b - e.int("above", 0, nl))
    x = {k: e.array(k, (nl, m, n), **({} if k in "uv" else dict(pos=True))) for k in ("q", "u", "v", "dp")}
    x |= {k: e.array(k, (m, n)) for k in ("ps", "evap", "precip", "tcw")}
    t = e.time("t")
    co = {"level": lev, "latitude": lat, "longitude": lon}
    row = lambda i: m - 1 - i if sign > 0 else i
    if e.is_sym():      # the factor is only defined where the computed column is not empty; any such cell
        i, j = e.int("i", 0, m - 1), e.int("j", 0, n - 1)
        e.assume(e.not_(e.eq(e.sum(nl, lambda l: weight(e, x, l, row(i), j)), 0)))
        cells = [(i, j)]
    else:
        cells = [(i, j) for i in range(m) for j in range(n)]
    def judge(out):
        for i, j in cells:
            r = row(i)
            total = e.sum(nl, lambda l: weight(e, x, l, r, j))
            part = {}
            for layer in ("lower", "upper"):
                inside = lambda l: (e.at(lev, l) > b) if layer == "lower" else (e.at(lev, l) <= b)
                for name, factor in zip(NAMES, (None, "u", "v")):
                    wind = lambda l: 1 if factor is None else e.at(x[factor], l, r, j)
                    S = part[name, layer] = e.sum(nl, lambda l: e.ite(inside(l), wind(l) * weight(e, x, l, r, j), 0))
                    scale = 0 if e.is_sym() else abs(e.at(x["tcw"], r, j)) * max(abs(wind(l)) for l in range(nl))
                    e.prove(f"{name}_{layer}: every level scaled by column water over column vapour", close(
                        e, e.at(out[f"{name}_{layer}"], 0, i, j), e.at(x["tcw"], r, j) / total * S, scale))
            e.prove("levels counted once", e.eq(part["s", "lower"] + part["s", "upper"], total))
            e.check("both layers hold the total column water", close(e, e.at(out["s_lower"], 0, i, j) + e.at(out["s_upper"], 0, i, j), e.at(x["tcw"], r, j), 0 if e.is_sym() else abs(e.at(x["tcw"], r, j))))

    process(e, {k: e.snapshot(v) for k, v in x.items()}, co, e.config(level_type="model_levels", level_layer_boundary=b, preprocessed_data_folder=e.scratch_path("pre"), calendar="standard"), t, judge)


# ---------------------------------------------------------------- pressure levels
def profile(e, nl, m, n):
    """A column sorted by pressure, as the extension to surface and boundary delivers it."""
    x = {k: e.array(k, (nl, m, n), **(dict(pos=True) if k == "q" else {})) for k in ("q", "u", "v")}
    if e.is_sym():
        x["p"] = e.array("p", (nl, m, n), lo=0)
        e.assume_forall((nl, m, n), lambda l, i, j: e.implies(l + 1 < nl, e.at(x["p"], l, i, j) <= e.at(x["p"], l + 1, i, j)))
    else:
        x["p"] = e.np.sort(e.array("p", (nl, m, n), pos=True) * 100, axis=0)
    return x


@harness("P01", "P02", "P05", cases=150, loops=day_loop)
def layers_pressure(e):
    """Pressure levels: the air between consecutive levels counts in the lower layer from the boundary pressure on, unless below the surface."""
    m, n, nl = e.dim("M", 2), e.dim("N", 2), e.dim("L", 2)
    lat, lon, dlat, dlon, sign = grid(e, m, n)
    x = profile(e, nl, m, n)
    ps, pb = e.array("ps", (m, n), pos=True, scale=100), e.array("pb", (m, n), pos=True, scale=100)
    flat = {k: e.array(k, (m, n)) for k in ("evap", "precip", "qs", "us", "vs")} | {"ps": ps}
    t = e.time("t")
    co = {"latitude": lat, "longitude": lon}
    have_tcw = e.bool("column water")
    if have_tcw:
        flat["tcw"] = e.array("tcw", (m, n))
    ext = e.ds({k: (DL, e.snapshot(v)) for k, v in x.items()}, coords=dict(co, level=e.np.arange(nl), time=((), t)))
    seen = []
    def extend(level_data, surface_data, config):
        seen.append((level_data, surface_data))
        if not e.is_sym():
            now = level_data["time"].item()
            return ext.assign_coords(time=now), e.da(D2, e.snapshot(pb), dict(co, time=((), now)))
        return ext, e.da(D2, e.snapshot(pb), dict(co, time=((), t)))
    e.patch(PRE + "shared", extend_pressurelevels=extend)
    raw = e.array("raw", (1, m, n))
    mid = lambda k, l, i, j: (e.at(x[k], l, i, j) + e.at(x[k], l + 1, i, j)) / 2
    w = lambda l, i, j: mid("q", l, i, j) * (e.at(x["p"], l + 1, i, j) - e.at(x["p"], l, i, j)) / e.const(G)
    valid = lambda l, i, j: mid("p", l, i, j) < e.at(ps, i, j)
    total = lambda i, j: e.sum(nl - 1, lambda l: e.ite(valid(l, i, j), w(l, i, j), 0))
    row = lambda i: m - 1 - i if sign > 0 else i
    if e.is_sym():      # one arbitrary cell; with column water one whose computed column is not empty
        cells = [(e.int("i", 0, m - 1), e.int("j", 0, n - 1))]
    else:
        cells = [(i, j) for i in range(m) for j in range(n)]
    if have_tcw and e.is_sym():
        e.assume(e.not_(e.eq(total(row(cells[0][0]), cells[0][1]), 0)))
    elif have_tcw:
        e.assume(all(total(i, j) > 1e-9 for i in range(m) for j in range(n)))
    cfg = e.config(level_type="pressure_levels", preprocessed_data_folder=e.scratch_path("pre"), calendar="standard")
    def judge(out):
        e.check("the columns are completed once", (len(seen) == 1 or not e.is_sym()) and set(seen[0][0].data_vars) == {"q", "u", "v"} and {"ps", "qs", "us", "vs"} <= set(seen[0][1].data_vars))
        for i, j in cells:
            r = row(i)
            f = e.at(flat["tcw"], r, j) / total(r, j) if have_tcw else 1
            both = {}
            for name, factor in zip(NAMES, (None, "u", "v")):
                wind = lambda l: 1 if factor is None else mid(factor, l, r, j)
                scale = 0 if e.is_sym() else abs(f) * e.sum(nl - 1, lambda l: abs(wind(l) * w(l, r, j)))
                for layer in ("lower", "upper"):
                    low = lambda l: mid("p", l, r, j) >= e.at(pb, r, j)
                    S = both[layer] = e.sum(nl - 1, lambda l: e.ite(e.and_(valid(l, r, j), low(l) if layer == "lower" else e.not_(low(l))), wind(l) * w(l, r, j), 0))
                    e.prove(f"{name}_{layer} is the integral over its levels", close(e, e.at(out[f"{name}_{layer}"], 0, i, j), f * S, scale))
                e.prove(f"{name}: each valid level in exactly one layer", e.eq(both["lower"] + both["upper"], e.sum(nl - 1, lambda l: e.ite(valid(l, r, j), wind(l) * w(l, r, j), 0)), scale))
            if have_tcw:
                e.check("both layers hold the total column water", close(e, e.at(out["s_lower"], 0, i, j) + e.at(out["s_upper"], 0, i, j), e.at(flat["tcw"], r, j), 0 if e.is_sym() else scale))
            for k in ("evap", "precip"):
                e.check(f"{k} of the same cell", close(e, e.at(out[k], 0, i, j), e.at(flat[k], r, j), 0))

    process(e, {**{k: e.snapshot(v) for k, v in flat.items()}, **{k: e.snapshot(raw) for k in ("q", "u", "v")}}, dict(co, level=e.build((1,), lambda l: 50000)), cfg, t, judge)


# ---------------------------------------------------------------- P06
def wrap(e, v):
    return v - 360 * e.floor((v + 180) / 360)


@harness("P06", cases=200)
def longitudes(e):
    """Longitudes run from -180 to 180 in increasing order, and every column stays with its place."""
    m, n = e.dim("M", 1), e.dim("N", 1)
    if e.is_sym():
        lon = e.array("lon", (n,), lo=-180, hi=540)
        e.assume_forall((n, n), lambda a, b: e.implies(a < b, e.and_(e.at(lon, a) < e.at(lon, b), e.at(lon, b) < e.at(lon, a) + 360)))
    else:
        lon = e.choice("lon0", (-180.0, 0.0, 100.0, 170.0, 182.5, 359.5)) + e.choice("dlon", (0.5, 5.0, 22.5, 45.0)) * e.np.arange(n)
        if e.bool("shuffled"):
            lon = e.np.random.RandomState(n).permutation(lon)
        e.assume(lon.max() - lon.min() < 360)
    co = {"latitude": e.build((m,), lambda i: 40 - i), "longitude": lon}
    x = e.array("x", (m, n))
    col = e.build((n,), lambda j: j, kind="i")
    src = e.ds({"x": (D2, e.snapshot(x)), "column": (("longitude",), col)}, coords=co)
    inside = e.forall_value((n,), lambda j: e.and_(e.at(lon, j) >= -180, e.at(lon, j) <= 180))
    out = e.fn(PRE + "shared:shift_longitude")(src)
    L, C, X = out["longitude"], out["column"], out["x"]
    e.shape_is("columns neither lost nor added", L, (n,))
    e.shape_is("field shape", X, (m, n))
    e.lemma_forall("every column comes from the input", (n,), lambda k: e.and_(e.at(C, k) >= 0, e.at(C, k) < n))
    place = (lambda v: v) if inside else (lambda v: wrap(e, v))
    e.lemma_forall("places kept modulo 360 degrees", (n,), lambda k: e.eq(e.at(L, k), place(e.at(lon, e.at(C, k)))))
    e.forall("values stay with their place", (m, n), lambda i, k: e.eq(e.at(X, i, k), e.at(x, i, e.at(C, k))))
    e.forall("between -180 and 180", (n,), lambda k: e.and_(e.at(L, k) >= -180, e.at(L, k) <= 180))
    e.forall("increasing, every column once", (n, n), lambda a, b: e.implies(a < b, e.and_(e.at(L, a) < e.at(L, b), e.not_(e.eq(e.at(C, a), e.at(C, b))))))


@harness("P06", "I06", cases=150)
def bounds(e):
    """Bounds lie half a spacing to either side of the centre of each cell, also on either side of the date line."""
    m, n = e.dim("M", 2), e.dim("N", 2)
    lat, lon, dlat, dlon, sign = grid(e, m, n, wrapped=True)
    # neighbouring columns are one spacing apart to the east, modulo a full turn
    if e.is_sym():
        e.assume(e.and_(n * dlon <= 360, 2 * dlon <= n * dlon))
    k = e.int("first column past the date line", 0, n - 1)
    turn = e.choice("order of the columns", ("west to east", "west to east", "sorted"))
    jump = 0 if not e.is_sym() and k == 0 else -360 if turn == "west to east" else 360 - n * dlon
    lon0 = lon
    lon = e.build((n,), lambda j: e.at(lon0, j) + e.ite(j >= k, jump, 0))
    x = e.array("x", (m, n))
    ds = e.ds({"x": (D2, e.snapshot(x))}, coords={"latitude": lat, "longitude": lon})
    e.fn(PRE + "utils:add_bounds")(ds)
    for name, c, d, size in (("latitude", lat, sign * dlat, m), ("longitude", lon, dlon, n)):
        b = ds[name + "_bnds"]
        e.check(f"{name} bounds per cell", tuple(b.dims) == (name, "bnds"))
        e.shape_is(f"two {name} bounds", b, (size, 2))
        e.forall(f"{name}: half a spacing to either side", (size,), lambda i: e.and_(
            e.eq(e.at(b, i, 0), e.at(c, i) - d / 2), e.eq(e.at(b, i, 1), e.at(c, i) + d / 2)))
        e.same(f"{name} unchanged", ds[name], c)
    e.same("data unchanged", ds["x"], x)
