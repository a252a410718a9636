"""T05, T06, T07 (functions), T12 (divergence): limiter, vertical flux, vertical exchange."""
from pyvc.contract import harness, stub
from contracts.t_grid import regular_grid, GRID

CORE = "wam2layers.tracking.core"
D2 = ("latitude", "longitude")


class Tracker:
    """The progress tracker only reports (R05); it may not influence the limiter."""
    def track_stability_correction(self, *a, **k):
        pass

    def print_progress(self, *a, **k):
        pass

    def store_intermediate_states(self, *a, **k):
        pass


def fields(e, names, m, n, coords, pos=(), lo=()):
    arrs = {k: e.array(k, (m, n), pos=k in pos, lo=0 if k in lo else None) for k in names}
    return arrs, e.ds({k: (D2, v) for k, v in arrs.items()}, coords=coords)


def grid_coords(e):
    m, n, lat0, dlat, lon0, dlon, lat, lon = regular_grid(e, False)
    return m, n, {"latitude": lat, "longitude": lon}


FLUXES = ("fx_upper", "fx_lower", "fy_upper", "fy_lower")


@harness("T05", stubs=("get_grid_info",))
def stabilize(e):
    """The limiter: bound, sign, proportional share, zero stays zero."""
    f = e.fn(CORE + ":stabilize_fluxes")
    m, n, co = grid_coords(e)
    # scales such that both limited and unlimited cells occur on the real code
    arrs = {k: e.array(k, (m, n), scale=1e8) for k in FLUXES}
    arrs["evap"], arrs["precip"] = e.array("evap", (m, n)), e.array("precip", (m, n))
    F = e.ds({k: (D2, v) for k, v in arrs.items()}, coords=co)
    before = {k: e.snapshot(v) for k, v in arrs.items()}
    st, S = fields(e, ("s_upper", "s_lower"), m, n, co, pos=("s_upper", "s_lower"))
    sb = {k: e.snapshot(v) for k, v in st.items()}
    dt = e.int("timestep", 1, 86400)
    cfg = e.config(timestep=dt)
    a, dy, dx = e.fn(GRID + ":get_grid_info")(F)
    f(F, S, Tracker(), cfg, e.time("t"))
    for lev in ("upper", "lower"):
        x0, y0, s = before["fx_" + lev], before["fy_" + lev], sb["s_" + lev]
        x1, y1 = F["fx_" + lev], F["fy_" + lev]
        ax = lambda i, j: e.abs(e.at(x0, i, j))
        ay = lambda i, j: e.abs(e.at(y0, i, j))
        store = lambda i, j: e.at(s, i, j) * e.at(a, i)
        e.forall(f"{lev}: no missing values", (m, n), lambda i, j: e.and_(e.defined(e.at(x1, i, j)), e.defined(e.at(y1, i, j))))
        e.forall(f"{lev}: at most half of the storage leaves", (m, n), lambda i, j: e.le(
            (e.abs(e.at(x1, i, j)) + e.abs(e.at(y1, i, j))) * dt, store(i, j) / 2))
        for nm, b, c in (("eastward", x0, x1), ("northward", y0, y1)):
            e.forall(f"{lev}: {nm} flux not amplified", (m, n), lambda i, j: e.le(e.abs(e.at(c, i, j)), e.abs(e.at(b, i, j))))
            e.forall(f"{lev}: {nm} flux not reversed", (m, n), lambda i, j: e.or_(
                e.and_(e.ge(e.at(b, i, j), 0), lambda: e.ge(e.at(c, i, j), 0)),
                lambda: e.and_(e.le(e.at(b, i, j), 0), lambda: e.le(e.at(c, i, j), 0))))
            e.forall(f"{lev}: {nm} flux within its share untouched", (m, n), lambda i, j: e.implies(
                e.le((ax(i, j) + ay(i, j)) * dt, store(i, j) / 2), lambda: e.eq(e.at(c, i, j), e.at(b, i, j))))
            e.forall(f"{lev}: zero {nm} flux stays zero", (m, n), lambda i, j: e.implies(
                e.eq(e.at(b, i, j), 0), lambda: e.eq(e.at(c, i, j), 0)))
        e.same(f"{lev}: storage unmodified", S["s_" + lev], s)
    e.same("evaporation unmodified", F["evap"], before["evap"])
    e.same("precipitation unmodified", F["precip"], before["precip"])


# ---------------------------------------------------------------- divergence and vertical flux
def ddx(e, f, i, j, n, per):
    """Change of f per column: central differences, one-sided at closed edges."""
    right, left = (lambda: e.at(f, i, j + 1)), (lambda: e.at(f, i, j - 1))
    if per:
        r = e.ite(j == n - 1, lambda: e.at(f, i, 0), right)
        l = e.ite(j == 0, lambda: e.at(f, i, n - 1), left)
        return (r - l) / 2
    here = lambda: e.at(f, i, j)
    return e.ite(j == 0, lambda: right() - here(),
                 lambda: e.ite(j == n - 1, lambda: here() - left(), lambda: (right() - left()) / 2))


def ddy(e, f, i, j, m):
    here, down, up = (lambda: e.at(f, i, j)), (lambda: e.at(f, i + 1, j)), (lambda: e.at(f, i - 1, j))
    return e.ite(i == 0, lambda: down() - here(),
                 lambda: e.ite(i == m - 1, lambda: here() - up(), lambda: (down() - up()) / 2))


def div_at(e, fx, fy, i, j, m, n, per):
    """Latitude decreases with the row, so a southward increase of fy is convergence."""
    return e.name(e.name(ddx(e, fx, i, j, n, per)) - e.name(ddy(e, fy, i, j, m)))


def check_divergence(e, per):
    m, n = e.dim("M", 2), e.dim("N", 2)
    fx, fy = e.array("fx", (m, n)), e.array("fy", (m, n))
    f = e.fn(CORE + ":divergence")
    X, Y = e.snapshot(fx), e.snapshot(fy)
    r = f(fx, fy, per) if per else f(fx, fy)
    e.shape_is("one value per cell", r, (m, n))
    e.forall("central differences of the fluxes", (m, n), lambda i, j: e.eq(e.at(r, i, j), div_at(e, X, Y, i, j, m, n, per)))
    e.same("eastward flux unmodified", fx, X)
    e.same("northward flux unmodified", fy, Y)


@harness("T06", support=("T12",))
def divergence_closed(e):
    """Horizontal divergence, closed edges."""
    check_divergence(e, False)


@harness("T06", "T12")
def divergence_periodic(e):
    """Horizontal divergence across the seam of a periodic domain."""
    check_divergence(e, True)


@stub("divergence", CORE + ":divergence", ["divergence_closed", "divergence_periodic"])
def div_stub(e):
    def divergence(fx, fy, periodic_x=False):
        per = bool(periodic_x)
        m, n = e.shape(fx)
        X, Y = e.snapshot(fx), e.snapshot(fy)
        return e.build((m, n), lambda i, j: div_at(e, X, Y, i, j, m, n, per))
    return divergence


def fz_parts(e, F, S0, S1, a, m, n, dt, kvf, per, area_bug):
    """(closure amount, bound) per cell; F, S0, S1: name -> array."""
    mean = lambda k, i, j: (e.at(S0[k], i, j) + e.at(S1[k], i, j)) / 2

    def residual(lev, i, j):
        w = mean("s_" + lev, i, j) / (mean("s_upper", i, j) + mean("s_lower", i, j))
        src = e.at(F["precip"], i, j) * w - (e.at(F["evap"], i, j) if lev == "lower" else 0)
        d = div_at(e, F["fx_" + lev], F["fy_" + lev], i, j, m, n, per) / e.at(a, i)
        if area_bug:
            src = src / e.at(a, i)
        return e.at(S1["s_" + lev], i, j) - e.at(S0["s_" + lev], i, j) + dt * (d + src)

    def closure(i, j):
        up, lo = residual("upper", i, j), residual("lower", i, j)
        s1u, s1l = e.at(S1["s_upper"], i, j), e.at(S1["s_lower"], i, j)
        return e.name(lo - s1l / (s1l + s1u) * (up + lo))

    def bound(i, j):
        return e.min(mean("s_upper", i, j), mean("s_lower", i, j)) / (1 + kvf)
    return closure, bound


def fz_value(e, closure, bound):
    def v(i, j):
        c, b = closure(i, j), bound(i, j)
        return e.ite(e.le(c, b), lambda: e.ite(e.le(-b, c), lambda: c, lambda: -b), lambda: b)
    return v


def setup_fz(e, per, F_scale=1):
    m, n, co = grid_coords(e)
    farr = {k: e.array(k, (m, n), scale=1e9) for k in FLUXES}
    farr["evap"] = e.array("evap", (m, n), lo=0)
    farr["precip"] = e.array("precip", (m, n), lo=0)
    s0 = {k: e.array(k + "0", (m, n), pos=True) for k in ("s_upper", "s_lower")}
    s1 = {k: e.array(k + "1", (m, n), pos=True) for k in ("s_upper", "s_lower")}
    mk = lambda d: e.ds({k: (D2, v) for k, v in d.items()}, coords=co)
    snap = lambda d: {k: e.snapshot(v) for k, v in d.items()}
    return m, n, mk(farr), mk(s0), mk(s1), snap(farr), snap(s0), snap(s1)


def vertical_flux(e, per):
    m, n, F, S0, S1, f, s0, s1 = setup_fz(e, per)
    dt = e.int("timestep", 1, 86400)
    kvf = e.real("kvf", 0, 10)
    fz = e.fn(CORE + ":calculate_fz")
    a, _, _ = e.fn(GRID + ":get_grid_info")(F)
    r = fz(F, S0, S1, dt, kvf, per) if per else fz(F, S0, S1, dt, kvf)
    e.shape_is("one value per cell", r, (m, n))
    c_ok, b = fz_parts(e, f, s0, s1, a, m, n, dt, kvf, per, False)
    c_bug, _ = fz_parts(e, f, s0, s1, a, m, n, dt, kvf, per, True)
    e.forall("magnitude times timestep within the bound", (m, n), lambda i, j: e.le(e.abs(e.at(r, i, j)) * dt, b(i, j)))
    amount = lambda i, j: e.at(r, i, j) * dt
    e.check_known("T06-area", "closure flux, or cut to the bound with its sign kept", (m, n),
                  lambda i, j: e.eq(amount(i, j), fz_value(e, c_ok, b)(i, j)),
                  lambda i, j: e.eq(amount(i, j), fz_value(e, c_bug, b)(i, j)))
    for k in f:
        e.same(f"{k} unmodified", F[k], f[k])
    for k in s0:
        e.same(f"{k} at the start unmodified", S0[k], s0[k])
        e.same(f"{k} at the end unmodified", S1[k], s1[k])


@harness("T06", stubs=("get_grid_info", "divergence"))
def fz_closed(e):
    """Vertical flux from the closure of the two layer balances."""
    vertical_flux(e, False)


@harness("T06", stubs=("get_grid_info", "divergence"))
def fz_periodic(e):
    """Vertical flux on a periodic domain."""
    vertical_flux(e, True)


@harness("T06", con=False)
def fz_proportional(e):
    """The closure flux leaves residuals proportional to the new storages (lemma over the contract)."""
    lo, up = e.real("residual_lower"), e.real("residual_upper")
    s1l, s1u = e.real("s_lower1", pos=True), e.real("s_upper1", pos=True)
    c = lo - s1l / (s1l + s1u) * (up + lo)
    e.check("residuals in proportion to the storages", e.eq((lo - c) * s1u, (up + c) * s1l))


# ---------------------------------------------------------------- vertical exchange
def vadv(e, f, l, u):
    return f * e.ite(f >= 0, lambda: u, lambda: l)


def vdisp(e, f, l, u, k):
    return k * e.abs(f) * (u - l)


@harness("T07")
def vertical_exchange(e):
    """vertical_advection is upwind (positive downward), vertical_dispersion acts along the difference."""
    m, n = e.dim("M", 1), e.dim("N", 1)
    fv, lo, up = e.array("fv", (m, n)), e.array("lower", (m, n)), e.array("upper", (m, n))
    k = e.real("kvf", 0, 10)
    F, L, U = e.snapshot(fv), e.snapshot(lo), e.snapshot(up)
    ra = e.fn(CORE + ":vertical_advection")(fv, lo, up)
    rd = e.fn(CORE + ":vertical_dispersion")(fv, lo, up, k)
    e.forall("takes from the layer the flux comes from", (m, n), lambda i, j: e.eq(
        e.at(ra, i, j), vadv(e, e.at(F, i, j), e.at(L, i, j), e.at(U, i, j))))
    e.forall("mixing along the difference in tracked fraction", (m, n), lambda i, j: e.eq(
        e.at(rd, i, j), vdisp(e, e.at(F, i, j), e.at(L, i, j), e.at(U, i, j), k)))
    e.forall("mixing vanishes for equal fractions", (m, n), lambda i, j: e.implies(
        e.eq(e.at(L, i, j), e.at(U, i, j)), lambda: e.eq(e.at(rd, i, j), 0)))
    e.forall("mixing vanishes for factor zero", (m, n), lambda i, j: e.implies(e.eq(k, 0), lambda: e.eq(e.at(rd, i, j), 0)))
    for nm, a, b in (("flux", fv, F), ("lower", lo, L), ("upper", up, U)):
        e.same(f"{nm} unmodified", a, b)


@stub("vertical_advection", CORE + ":vertical_advection", ["vertical_exchange"])
def va_stub(e):
    def vertical_advection(fv, s_lower, s_upper):
        F, L, U = e.snapshot(fv), e.snapshot(s_lower), e.snapshot(s_upper)
        return e.build(e.shape(F), lambda i, j: vadv(e, e.at(F, i, j), e.at(L, i, j), e.at(U, i, j)))
    return vertical_advection


@stub("vertical_dispersion", CORE + ":vertical_dispersion", ["vertical_exchange"])
def vd_stub(e):
    def vertical_dispersion(fv, s_lower, s_upper, kvf):
        F, L, U = e.snapshot(fv), e.snapshot(s_lower), e.snapshot(s_upper)
        return e.build(e.shape(F), lambda i, j: vdisp(e, e.at(F, i, j), e.at(L, i, j), e.at(U, i, j), kvf))
    return vertical_dispersion
