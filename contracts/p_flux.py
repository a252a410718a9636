"""P03 (precipitation and evaporation), P09 (unit conversions), P10 (three-hourly climate-model fluxes)."""
from pyvc.contract import harness
from contracts.t_core import D2

PRE = "wam2layers.preprocessing."
D3 = ("time",) + D2
DL = ("level",) + D2
FREQS = ["1h", "3h", "6h", "30min", "12h", "1D", "90min", "2D", "36h", "5D", "90s"]
RHO, LATENT = 1000, 2450000


def axes(e, m, n):
    return {"latitude": e.build((m,), lambda i: 40 - 2 * i), "longitude": e.build((n,), lambda j: 3 * j)}


def setting(e):
    m, n = e.dim("M", 1), e.dim("N", 1)
    return m, n, axes(e, m, n)


# ---------------------------------------------------------------- P09
@harness("P09", cases=120)
def depth_to_flux(e):
    """Accumulated metres of water become kg m-2 s-1: times the density over the length of the interval."""
    m, n, co = setting(e)
    f = e.freq("input_frequency", FREQS)
    x = e.array("depth", (m, n))
    d = e.da(D2, e.snapshot(x), co)
    r = e.fn(PRE + "utils:accumulation_to_flux")(d, f)
    e.shape_is("shape kept", r, (m, n))
    e.forall("density times depth over seconds", (m, n), lambda i, j: e.eq(e.at(r, i, j) * e.period(f), RHO * e.at(x, i, j)))
    e.check("unit of the result", r.attrs.get("units") == "kg m-2 s-1")
    e.same("argument not modified", d, x)


RD, RV, A1, A3, A4, T0 = 287.0597, 461.5250, 611.21, 17.502, 32.19, 273.15


def saturation(e, d):
    return e.const(A1) * e.fun("exp", e.const(A3) * (d - e.const(T0)) / (d - e.const(A4)))


def humidity_spec(e, d, p):
    c = e.const(RD) / e.const(RV)
    v = saturation(e, d)
    return c * v / (p - (1 - c) * v)


def admissible(e, d, p):
    """Dew points on the earth; a pressure above the vapour part of the saturation pressure."""
    return e.and_(e.lt((1 - e.const(RD) / e.const(RV)) * saturation(e, d), p))


@harness("P09", cases=120)
def humidity(e):
    """Specific humidity from dew point and pressure: the formula of the IFS documentation, positive, increasing in the dew point."""
    m, n, co = setting(e)
    d = e.array("dewpoint", (m, n), lo=150, hi=340)
    w = e.array("warmer", (m, n), pos=True)
    p = e.array("pressure", (m, n), pos=True) if e.is_sym() else 3000 + 500 * e.array("pressure", (m, n), pos=True)
    wd = e.build((m, n), lambda i, j: e.at(d, i, j) + e.at(w, i, j))
    f = e.fn(PRE + "utils:calculate_humidity")
    q = f(e.da(D2, d, co), e.da(D2, p, co))
    q2 = f(e.da(D2, wd, co), e.da(D2, p, co))
    e.shape_is("shape kept", q, (m, n))
    arg = lambda x: e.const(A3) * (x - e.const(T0)) / (x - e.const(A4))
    if e.is_sym():      # one arbitrary cell
        i, j = e.int("i", 0), e.int("j", 0)
        e.assume(e.and_(i < m, j < n))
        cells = [(i, j)]
    else:
        cells = [(i, j) for i in range(m) for j in range(n)]
    for i, j in cells:
        x, y, pr = e.at(d, i, j), e.at(wd, i, j), e.at(p, i, j)
        if not bool(e.and_(e.lt(x, y), admissible(e, x, pr), admissible(e, y, pr))):
            continue
        e.exp_facts(arg(x), arg(y))
        e.check("formula", e.eq(e.at(q, i, j), humidity_spec(e, x, pr)))
        e.check("positive", e.lt(0, e.at(q, i, j)))
        if not e.is_sym():
            e.check("increasing with the dew point", e.le(e.at(q, i, j), e.at(q2, i, j)))
            continue
        e.prove("dew point term increases", e.lt(arg(x), arg(y)))
        e.prove("saturation pressure increases", e.lt(saturation(e, x), saturation(e, y)))
        sx, sy, c = e.real("sx"), e.real("sy"), e.const(RD) / e.const(RV)
        e.assume(e.and_(e.eq(sx, saturation(e, x)), e.eq(sy, saturation(e, y))))
        dx, dy = pr - (1 - c) * sx, pr - (1 - c) * sy
        e.prove("cross product", e.lt(c * sx * dy, c * sy * dx))
        qx, qy = e.real("qx"), e.real("qy")
        e.assume(e.and_(e.eq(qx, e.at(q, i, j)), e.eq(qy, e.at(q2, i, j))))
        e.prove("humidity times denominator", e.and_(e.eq(qx * dx, c * sx), e.eq(qy * dy, c * sy)))
        e.prove("denominators", e.and_(e.lt(0, dx), e.lt(0, dy)))
        e.prove("increasing, cleared", e.lt(qx * dx * dy, qy * dx * dy))
        e.check("increasing with the dew point", e.lt(e.at(q, i, j), e.at(q2, i, j)))


# ---------------------------------------------------------------- P10
def day_start(e, t):
    s = e.secs(t)
    return e.plus(t, 86400 * e.floor(s / 86400) - s)


@harness("P10", "P03", cases=120)
def pair_means(e):
    """Pairs of three-hourly means become the six-hourly mean labelled with its end; other starts are rejected."""
    m, n, co = setting(e)
    k = e.dim("pairs", 1)
    right = e.bool("right start")
    t0 = e.time("t0")
    if right:
        t0 = e.plus(day_start(e, t0), 5400)
    x = e.array("x", (2 * k, m, n))
    ax = e.time_axis(t0, 10800, 2 * k)
    d = e.da(D3, e.snapshot(x), dict(co, time=ax), name=e.choice("name", ("pr", "hfls")))
    raised, r = e.raises(lambda: e.fn(PRE + "cmip:resample_3hr_var")(d), ValueError)
    s = e.secs(t0)
    inday = s - 86400 * e.floor(s / 86400)
    e.check("accepted exactly if the first interval is centred at 01:30", e.iff(e.not_(raised), e.and_(inday >= 5400, inday < 5460)))
    if raised:
        return
    e.check("dimensions kept", tuple(r.dims) == D3)
    e.shape_is("half the number of times", r, (k, m, n))
    e.forall("mean of each pair", (k, m, n), lambda a, i, j: e.eq(2 * e.at(r, a, i, j), e.at(x, 2 * a, i, j) + e.at(x, 2 * a + 1, i, j)))
    lab = r["time"].values
    e.forall("labelled with the end of the six hours", (k,), lambda a: e.eq(e.secs(e.at_time(lab, a)), s + 21600 * a + 16200))
    e.same("argument not modified", d, x)
    e.forall("times of the argument not modified", (2 * k,), lambda a: e.eq(e.secs(e.at_time(d["time"].values, a)), s + 10800 * a))
    for c in D2:
        e.same(f"{c} kept", r[c], co[c])


@harness("P10", "P03", cases=120)
def climate_variable(e):
    """A climate-model field at a time: fluxes are pair means (latent heat divided by its constant), others are the stored field."""
    m, n = e.dim("M", 1), e.dim("N", 1)
    k = e.dim("pairs", 1)
    var, name = e.choice("variable", (("tp", "pr"), ("e", "hfls"), ("ps", "ps"), ("qs", "huss"), ("us", "uas"), ("vs", "vas")))
    three = var in ("tp", "e")
    t0 = day_start(e, e.time("t0"))
    nt = 2 * k if three else k
    x = e.array("x", (nt, m, n))
    co = axes(e, m, n)
    # climate-model files call their dimensions lat and lon
    src = e.da(("time", "lat", "lon"), e.snapshot(x), dict(lat=co["latitude"], lon=co["longitude"],
               time=e.time_axis(e.plus(t0, 5400), 10800, nt) if three else e.time_axis(e.plus(t0, 21600), 21600, nt)), name=name)
    asked = {}
    mod = PRE + "cmip"
    e.patch(mod, template_to_files=lambda cfg, v, *a: asked.setdefault("var", v) and ["file"], open_var=lambda files, v: asked.setdefault("open", v) and src)
    a = e.int("a", 0, k - 1)
    t = e.plus(t0, 21600 * (a + 1))
    r = e.fn(mod + ":load_cmip_var")(var, t, e.config(calendar="standard"))
    e.check("the right variable is read", asked == {"var": name, "open": name})
    e.check("dimensions renamed", tuple(r.dims) == D2)
    e.shape_is("one field", r, (m, n))
    if three:
        f = 1 if var == "tp" else LATENT
        e.forall("mean over the six hours", (m, n), lambda i, j: e.eq(2 * f * e.at(r, i, j), e.at(x, 2 * a, i, j) + e.at(x, 2 * a + 1, i, j)))
    else:
        e.forall("stored field", (m, n), lambda i, j: e.eq(e.at(r, i, j), e.at(x, a, i, j)))


# ---------------------------------------------------------------- P03
def balance(e, got, tp, ev, m, n, factor):
    """P, E >= 0 and P - E = factor (max(tp, 0) + ev); ev is downward (dew) positive."""
    P, E = got
    e.shape_is("precipitation per cell", P, (m, n))
    e.shape_is("evaporation per cell", E, (m, n))
    e.forall("precipitation not negative", (m, n), lambda i, j: e.ge(e.at(P, i, j), 0))
    e.forall("evaporation not negative", (m, n), lambda i, j: e.ge(e.at(E, i, j), 0))
    e.forall("balance kept", (m, n), lambda i, j: e.eq(e.at(P, i, j) - e.at(E, i, j), factor * (e.max(e.at(tp, i, j), 0) + e.at(ev, i, j))))
    e.forall("dew does not evaporate", (m, n), lambda i, j: e.implies(e.at(ev, i, j) >= 0, lambda: e.eq(e.at(E, i, j), 0)))


@harness("P03", cases=120)
def era5_fluxes(e):
    """ERA5: evaporation is negative, dew positive, both accumulated depths."""
    m, n, co = setting(e)
    f = e.freq("input_frequency", FREQS)
    tp, ev = e.array("tp", (m, n)), e.array("e", (m, n))
    fields = {"tp": e.da(D2, e.snapshot(tp), co), "e": e.da(D2, e.snapshot(ev), co)}
    e.patch(PRE + "era5", load_data=lambda v, t, c: fields[v])
    got = e.fn(PRE + "era5:preprocess_precip_and_evap")(e.time("t"), e.config(input_frequency=f))
    balance(e, got, tp, ev, m, n, e.const(RHO) / e.period(f))
    e.same("loaded precipitation not modified", fields["tp"], tp)
    e.same("loaded evaporation not modified", fields["e"], ev)


LEVELS = {"q": "q", "u": "u", "v": "v"}
SURFACE = ("ps", "qs", "us", "vs")


@harness("P03", "P01", cases=80)
def climate_input(e):
    """Climate-model input: evaporation is positive; every field under its own name, on the common levels."""
    m, n, co = setting(e)
    nl = e.dim("L", 1)
    lev = e.array("level", (nl,), kind="i") if e.is_sym() else 100 * e.np.arange(1, nl + 1)
    if e.is_sym():
        e.assume_forall((nl, nl), lambda a, b: e.implies(a < b, e.at(lev, a) < e.at(lev, b)))
    tp, ev = e.array("tp", (m, n)), e.array("e", (m, n))
    fields = {k: e.array("f_" + k, (nl, m, n)) for k in LEVELS} | {k: e.array("f_" + k, (m, n)) for k in SURFACE} | {"tp": tp, "e": ev}
    mod = PRE + "cmip"
    t = e.time("t")
    make = lambda v: e.da(DL, e.snapshot(fields[v]), dict(co, level=lev)) if v in LEVELS else e.da(D2, e.snapshot(fields[v]), co)
    e.patch(mod, load_cmip_var=lambda v, tt, c: make(v))
    if e.is_sym():
        e.patch(mod, common_levels=lambda *ls: ls[0].to_numpy())
    data = e.fn(mod + ":get_input_data")(t, e.config(level_type="pressure_levels"))
    balance(e, (data["precip"], data["evap"]), tp, e.build((m, n), lambda i, j: -e.at(ev, i, j)), m, n, 1)
    for k in SURFACE:
        e.same(f"{k} as loaded", data[k], fields[k])
    for k in LEVELS:
        if e.is_sym():
            e.same(f"{k} as loaded", data[k].transpose(*DL), fields[k])
        else:
            e.same(f"{k} as loaded", data[k].sel(level=lev).transpose(*DL), fields[k])
    e.check("all levels", e.eq(e.shape(data["level"])[0], nl))


@harness("P03", "P01", cases=80)
def cloud_input(e):
    """ERA5 from the cloud: evaporation is negative; every field under its own name, on the configured levels."""
    m, n, co = setting(e)
    nl = e.dim("L", 1)
    lev = e.array("level", (nl,), kind="i", lo=1) if e.is_sym() else 50 * e.np.arange(1, nl + 1)
    if e.is_sym():
        e.assume_forall((nl, nl), lambda a, b: e.implies(a < b, e.at(lev, a) < e.at(lev, b)))
    f = e.freq("input_frequency", FREQS)
    t = e.time("t")
    nt = e.dim("times", 1)
    a = e.int("a", 0, nt - 1)
    p = 3600
    ax = e.time_axis(e.plus(t, -p * a), p, nt)
    names = {"total_precipitation": "tp", "evaporation": "e", "surface_pressure": "ps", "10m_u_component_of_wind": "us", "10m_v_component_of_wind": "vs", "2m_dewpoint_temperature": "d2m", "2m_temperature": "t2m",
             "total_column_water": "tcw", "specific_humidity": "q", "u_component_of_wind": "u", "v_component_of_wind": "v"}
    x = {k: e.array(v, (nt, nl, m, n) if v in LEVELS else (nt, m, n), **(dict(lo=150, hi=340) if v == "d2m" else {})) for k, v in names.items()}
    by = {v: x[k] for k, v in names.items()}
    src = e.ds({k: (("time",) + (DL if names[k] in LEVELS else D2), x[k]) for k in names}, coords=dict(co, level=lev, time=ax))
    mod = PRE + "arco"
    e.patch(mod, open_arco_pl=lambda: src)
    humid = {}
    if e.is_sym():
        hum = e.array("hum", (m, n))
        e.patch(mod, calculate_humidity=lambda d, q: humid.setdefault("x", (d, q)) and e.da(D2, hum, co))
    cfg = e.config(level_type="pressure_levels", calendar="proleptic_gregorian", levels=lev if e.is_sym() else [int(v) for v in lev], input_frequency=f)
    data = e.fn(mod + ":get_input_data")(t, cfg)[0]
    at = lambda k: e.build((m, n), lambda i, j: e.at(by[k], a, i, j))
    balance(e, (data["precip"], data["evap"]), at("tp"), at("e"), m, n, e.const(RHO) / e.period(f))
    for k in ("ps", "us", "vs", "tcw"):
        e.same(f"{k} as stored", data[k], at(k))
    if e.is_sym():
        e.same("humidity from the dew point", humid["x"][0], at("d2m"))
        e.same("humidity from the surface pressure", humid["x"][1], at("ps"))
        e.same("humidity at the surface", data["qs"], hum)
    for k in LEVELS:
        e.same(f"{k} as stored", data[k].transpose(*DL), e.build((nl, m, n), lambda l, i, j: e.at(by[k], a, l, i, j)))
    e.forall("levels in pascal", (nl,), lambda l: e.eq(e.at(data["level"], l), 100 * e.at(lev, l)))
