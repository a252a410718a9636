"""T07 (step), T08-T11: one tracking step in either direction."""
from pyvc.contract import harness
from contracts.t_core import D2, FLUXES, grid_coords, vadv, vdisp
from contracts.t_grid import GRID
from contracts.t_transport import hadv_at, stagx_at, stagy_at

T = "wam2layers.tracking."
STUBS = ("get_grid_info", "stagger_x", "stagger_y", "horizontal_advection", "vertical_advection", "vertical_dispersion")
DIRS = {"forward": T + "forwardtrack:forwardtrack", "backward": T + "backtrack:backtrack"}
ACCS = {"forward": ("p_track_upper", "p_track_lower", "tagged_evap", "losses", "gains"),
        "backward": ("e_track", "tagged_precip", "losses", "gains")}


class Step:
    """Inputs of one step, and what the step did."""

    def __init__(self, e, d, per, calm=False, rot=None):
        self.e, self.d, self.per = e, d, per
        m = e.dim("M", 3)
        n = e.dim("N", 3)
        lat0, dlat = e.real("lat0", -90, 90), e.real("dlat", -30, 30)
        e.assume(e.not_(e.eq(dlat, 0)))
        last = lat0 + (m - 1) * dlat
        e.assume(e.and_(e.ge(last, -90), e.le(last, 90)))
        lon0, dlon = e.real("lon0", -180, 180), e.real("dlon", 0, 90, pos=True)
        self.m, self.n = m, n
        self.co = {"latitude": e.build((m,), lambda i: lat0 + i * dlat), "longitude": e.build((n,), lambda j: lon0 + j * dlon)}
        self.dt = e.int("timestep", 1, 86400)
        self.kvf = e.real("kvf", 0, 10)
        A = {k: e.array(k, (m, n), scale=1e7) for k in FLUXES}
        A["evap"] = e.array("evap", (m, n), lo=0, scale=1e-4)
        A["precip"] = e.array("precip", (m, n), lo=0, scale=1e-4)
        A["f_vert"] = e.build((m, n), lambda i, j: 0) if calm else e.array("f_vert", (m, n), scale=1e-4)
        for k in ("s_upper", "s_lower"):
            A[k + "0"] = e.array(k + "0", (m, n), pos=True)
            A[k + "1"] = e.array(k + "1", (m, n), pos=True)
        self.edge = lambda i, j: e.or_(i == 0, i == m - 1, *(() if per else (j == 0, j == n - 1)))
        self.base = lambda lev: A[f"s_{lev}{0 if d == 'forward' else 1}"]     # storage the step starts from
        self.final = lambda lev: A[f"s_{lev}{1 if d == 'forward' else 0}"]    # storage at the end of the step
        for lev in ("upper", "lower"):
            # admissible state (T10): between zero and the physical storage, nothing on the edge
            fr = e.array("frac_" + lev, (m, n), lo=0, hi=1)
            A["track_" + lev] = e.build((m, n), lambda i, j, fr=fr, base=self.base(lev): e.ite(self.edge(i, j), 0, lambda: e.at(fr, i, j) * e.at(base, i, j)))
        for k in ACCS[d]:
            A[k] = e.array("out_" + k, (m, n))
        self.tagging = e.choice("tagging", ("field", "none"))
        A["region"] = e.array("region", (m, n), lo=0, hi=1)
        self.A = A

    def run(self):
        e, A, m, n = self.e, self.A, self.m, self.n
        ds = lambda **kw: e.ds({k: (D2, e.snapshot(v)) for k, v in kw.items()}, coords=self.co)
        self.F = ds(**{k: A[k] for k in FLUXES + ("evap", "precip", "f_vert")})
        self.S0 = ds(s_upper=A["s_upper0"], s_lower=A["s_lower0"])
        self.S1 = ds(s_upper=A["s_upper1"], s_lower=A["s_lower1"])
        self.out = ds(s_track_upper_restart=A["track_upper"], s_track_lower_restart=A["track_lower"], **{k: A[k] for k in ACCS[self.d]})
        cfg = e.config(timestep=self.dt, kvf=self.kvf, periodic_boundary=self.per)
        self.region = e.snapshot(A["region"]) if self.tagging == "field" else 0
        self.area, _, _ = e.fn(GRID + ":get_grid_info")(self.F)
        e.fn(DIRS[self.d])(self.F, self.S1, self.S0, self.region, self.out, cfg)
        return self

    # ------------------------------------------------------------- specification
    def w(self, i, j):
        return self.e.at(self.A["region"], i, j) if self.tagging == "field" else 0

    def rel(self, lev, i, j):
        e = self.e
        return e.min(e.at(self.A["track_" + lev], i, j) / e.at(self.base(lev), i, j), 1)

    def share(self, lev, i, j):
        e = self.e
        return e.at(self.base(lev), i, j) / (e.at(self.base("upper"), i, j) + e.at(self.base("lower"), i, j))

    def transport(self, lev, i, j):
        e, m, n, per = self.e, self.m, self.n, self.per
        sg = 1 if self.d == "forward" else -1
        rel = e.build((m, n), lambda i, j: self.rel(lev, i, j))
        fx, fy = self.A["fx_" + lev], self.A["fy_" + lev]
        u = e.build((m - 2, n + 1 if per else n - 1), lambda i, j: sg * stagx_at(e, fx, i, j, n, per))
        v = e.build((m - 1, n if per else n - 2), lambda i, j: sg * stagy_at(e, fy, i, j, per))
        return hadv_at(e, rel, u, v, i, j, m, n, per) / e.at(self.area, i)

    def tagged(self, lev, i, j):
        e = self.e
        if self.d == "forward":
            return self.w(i, j) * e.at(self.A["evap"], i, j) if lev == "lower" else 0
        return self.w(i, j) * e.at(self.A["precip"], i, j) * self.share(lev, i, j)

    def tracked(self, lev, i, j):
        e = self.e
        if self.d == "forward":
            return e.at(self.A["precip"], i, j) * self.share(lev, i, j) * self.rel(lev, i, j)
        return e.at(self.A["evap"], i, j) * self.rel("lower", i, j) if lev == "lower" else 0

    def grown(self, k, i, j):
        """What the step added to an accumulated field."""
        e = self.e
        return e.at(self.out[k], i, j) - e.at(self.A[k], i, j)

    def after(self, lev, i, j):
        return self.e.at(self.out[f"s_track_{lev}_restart"], i, j)

    def column(self, i, j):
        """Tracked column after the step plus recorded losses minus recorded gains."""
        return self.after("upper", i, j) + self.after("lower", i, j) + self.grown("losses", i, j) - self.grown("gains", i, j)

    def recorded(self, i, j):
        """(tagged, tracked) of the step as recorded in the output fields."""
        if self.d == "forward":
            return self.grown("tagged_evap", i, j), self.grown("p_track_upper", i, j) + self.grown("p_track_lower", i, j)
        return self.grown("tagged_precip", i, j), self.grown("e_track", i, j)


def budget(e, d, per):
    s = Step(e, d, per).run()
    before = lambda i, j: e.at(s.A["track_upper"], i, j) + e.at(s.A["track_lower"], i, j)
    move = lambda i, j: s.transport("upper", i, j) + s.transport("lower", i, j)
    both = lambda f, i, j: f("upper", i, j) + f("lower", i, j)
    for nm, f, k in (("tagged", s.tagged, 0), ("tracked", s.tracked, 1)):
        e.forall(f"recorded {nm} amount is the one in the budget", (s.m, s.n), lambda i, j: e.eq(
            s.recorded(i, j)[k], s.dt * both(f, i, j), scale=10))
    tracked = lambda i, j: s.recorded(i, j)[1] if d == "forward" else s.dt * both(s.tracked, i, j)
    e.forall("moisture budget of the column", (s.m, s.n), lambda i, j: e.eq(
        s.column(i, j), before(i, j) + s.dt * (move(i, j) + both(s.tagged, i, j)) - tracked(i, j), scale=10))


def layers(e, d, per):
    """Without vertical flux and where no limit acts, each layer follows its own budget."""
    s = Step(e, d, per, calm=True).run()

    def tracked(lev, i, j):
        return s.grown("p_track_" + lev, i, j) if d == "forward" else s.dt * s.tracked(lev, i, j)

    def target(lev, i, j):
        return e.at(s.A["track_" + lev], i, j) + s.dt * (s.transport(lev, i, j) + s.tagged(lev, i, j)) - tracked(lev, i, j)

    def inside(i, j):
        return e.and_(e.not_(s.edge(i, j)), *[c for lev in ("upper", "lower") for c in (
            lambda lev=lev: target(lev, i, j) >= 0, lambda lev=lev: target(lev, i, j) <= e.at(s.final(lev), i, j))])
    for lev in ("upper", "lower"):
        if d == "forward":
            e.forall(f"recorded tracked amount of the {lev} layer is the one in the budget", (s.m, s.n), lambda i, j: e.eq(
                s.grown("p_track_" + lev, i, j), s.dt * s.tracked(lev, i, j), scale=10))
        e.forall(f"budget of the {lev} layer where no limit acts", (s.m, s.n), lambda i, j: e.implies(
            inside(i, j), lambda: e.eq(s.after(lev, i, j), target(lev, i, j), scale=10)))


def bounds(e, d, per):
    s = Step(e, d, per).run()
    for lev in ("upper", "lower"):
        e.forall(f"{lev}: never negative", (s.m, s.n), lambda i, j: e.ge(s.after(lev, i, j), 0))
        e.forall(f"{lev}: never above the physical storage at the end of the step", (s.m, s.n),
                 lambda i, j: e.le(s.after(lev, i, j), e.at(s.final(lev), i, j)))
        e.forall(f"{lev}: nothing on the edge", (s.m, s.n), lambda i, j: e.implies(s.edge(i, j), lambda: e.eq(s.after(lev, i, j), 0)))
    e.forall("losses of the step not negative", (s.m, s.n), lambda i, j: e.ge(s.grown("losses", i, j), 0, scale=10))
    e.forall("gains of the step not negative", (s.m, s.n), lambda i, j: e.ge(s.grown("gains", i, j), 0, scale=10))


def amounts(e, d, per):
    s = Step(e, d, per).run()
    R = (s.m, s.n)
    phys = s.A["precip"] if d == "forward" else s.A["evap"]
    if d == "forward":
        e.forall("tagged evaporation", R, lambda i, j: e.eq(s.grown("tagged_evap", i, j), s.w(i, j) * e.at(s.A["evap"], i, j) * s.dt, scale=10))
        for lev in ("upper", "lower"):
            e.forall(f"tracked precipitation of the {lev} layer", R, lambda i, j: e.eq(
                s.grown("p_track_" + lev, i, j), s.tracked(lev, i, j) * s.dt, scale=10))
    else:
        e.forall("tagged precipitation", R, lambda i, j: e.eq(s.grown("tagged_precip", i, j), s.w(i, j) * e.at(s.A["precip"], i, j) * s.dt, scale=10))
        e.forall("tracked evaporation", R, lambda i, j: e.eq(s.grown("e_track", i, j), s.tracked("lower", i, j) * s.dt, scale=10))
    e.forall("tracked amount not negative", R, lambda i, j: e.ge(s.recorded(i, j)[1], 0, scale=10))
    e.forall("tracked amount at most the physical amount", R, lambda i, j: e.le(s.recorded(i, j)[1], e.at(phys, i, j) * s.dt, scale=10))


def exchange(e, d):
    """The same step with and without vertical flux."""
    s = Step(e, d, False).run()
    R = (s.m, s.n)
    z = Step.__new__(Step)
    z.__dict__.update(s.__dict__)
    z.A = dict(s.A, f_vert=e.build(R, lambda i, j: 0))
    z.run()
    e.forall("column independent of vertical flux and mixing factor", R, lambda i, j: e.eq(s.column(i, j), z.column(i, j), scale=10))
    sg = 1 if d == "forward" else -1

    def down(i, j):
        f = sg * e.at(s.A["f_vert"], i, j)
        l, u = s.rel("lower", i, j), s.rel("upper", i, j)
        return s.dt * (vadv(e, f, l, u) + vdisp(e, f, l, u, s.kvf))

    def calm(i, j):
        return e.and_(e.not_(s.edge(i, j)), *[c for q in (s, z) for lev in ("upper", "lower") for c in (
            lambda q=q, lev=lev: q.after(lev, i, j) > 0, lambda q=q, lev=lev: q.after(lev, i, j) < e.at(s.final(lev), i, j))])
    e.forall("the lower layer receives what the upper layer gives where no limit acts", R, lambda i, j: e.implies(
        calm(i, j), lambda: e.eq(s.after("lower", i, j) - z.after("lower", i, j), down(i, j), scale=10)))
    e.forall("the upper layer gives what the lower layer receives where no limit acts", R, lambda i, j: e.implies(
        calm(i, j), lambda: e.eq(s.after("upper", i, j) - z.after("upper", i, j), -down(i, j), scale=10)))


def unmodified(e, d, per):
    s = Step(e, d, per).run()
    for k in FLUXES + ("evap", "precip", "f_vert"):
        e.same(f"{k} unmodified", s.F[k], s.A[k])


for _d in DIRS:
    _pb = "T08" if _d == "forward" else "T09"
    for _p in (False, True):
        for _f, _pid in ((budget, _pb), (layers, _pb), (bounds, "T10"), (amounts, "T11")):
            def _h(e, _f=_f, _d=_d, _p=_p):
                _f(e, _d, _p)
            _h.__doc__ = f"{_f.__name__} of one {_d} step, periodic={_p}"
            harness(_pid, name=f"{_d}_{_f.__name__}_{'periodic' if _p else 'closed'}", stubs=STUBS)(_h)

    def _h(e, _d=_d):
        exchange(e, _d)
    _h.__doc__ = f"vertical exchange in a {_d} step"
    harness("T07", name=f"{_d}_exchange", stubs=STUBS)(_h)
