"""R01-R03, R05 (calls): the experiment loop of either direction, one arbitrary iteration.

The callees are replaced by recording contracts: loading returns unknown fields that depend on the
time only, the limiter and the vertical flux return unknown fields of the step, the step adds
unknown amounts to the accumulated fields and leaves unknown tracked storages.  What is checked is
what the loop hands to whom, when, and what it does to the output in between."""
from pathlib import Path
from pyvc import loops
from pyvc.contract import harness
from contracts.t_core import D2, FLUXES
from contracts.t_grid import GRID
from contracts.t_step import ACCS

TR = "wam2layers.tracking."
MODS = {"forward": TR + "forwardtrack", "backward": TR + "backtrack"}
STEPFN = {"forward": "forwardtrack", "backward": "backtrack"}
OFFSETS = [-90000, -7200, -3600, -900, -1, 0, 0, 1, 600, 900, 1800, 3600, 7200, 10800, 21600, 86400]


class Recorder:
    """The progress tracker as the loop sees it."""
    def __init__(self, w):
        self.w = w

    def __call__(self, output, mode="backtrack", periodic_x=False):
        e = self.w.e
        if self.w.aspect == "report":
            e.check("reports on the direction of the run", e.truth(mode == STEPFN[self.w.d]))
            e.check("reports with the boundary mode of the run", e.truth(bool(periodic_x) == bool(self.w.per)))
        return self

    def print_progress(self, t, output):
        self.w.reported(output)

    def store_intermediate_states(self, output):
        self.w.stored_totals(output)

    def track_stability_correction(self, *a, **k):
        pass


class World:
    def __init__(self, e, d, aspect):
        self.e, self.d, self.aspect = e, d, aspect
        self.sgn = 1 if d == "forward" else -1
        m, n = e.dim("M", 2), e.dim("N", 2)
        self.m, self.n = m, n
        self.coords = {"latitude": e.build((m,), lambda i: 40 - 2 * i), "longitude": e.build((n,), lambda j: 3 * j)}
        self.start = e.time("start")
        self.dt = e.int("timestep", 1, 10 ** 6, prefer=[60, 600, 900, 1000, 1800, 3600, 7200, 43200])
        self.end = e.plus(self.start, e.int("duration", 0, 10 ** 9, prefer=[0, 1, 599, 600, 1800, 3600, 3599, 7200, 9000, 10800, 21600]))
        if not e.is_sym() and e.secs(self.end) - e.secs(self.start) > 40 * self.dt:
            e.assume(False)
        self.freq = e.freq("output_frequency", ["1h", "1h", "3h", "30min", "15min", "7min", "1D", "20min"])
        self.tag0 = e.plus(self.start, e.int("tag_from", None, None, prefer=OFFSETS))
        self.tag1 = e.plus(self.tag0, e.int("tag_length", 0, 10 ** 9, prefer=[0, 1, 600, 900, 1800, 3600, 7200, 90000]))
        self.per = e.bool("periodic")
        self.kvf = e.real("kvf", 0, 10)
        self.kind = e.choice("region_kind", ("box", "static file", "dynamic file")) if aspect == "tagging" else "box"
        self.region = e.array("region", (m, n), lo=0, hi=1)
        self.cfg = e.config(timestep=self.dt, kvf=self.kvf, periodic_boundary=self.per, tracking_direction=d,
                            tracking_start_date=self.start, tracking_end_date=self.end, tagging_start_date=self.tag0,
                            tagging_end_date=self.tag1, output_frequency=self.freq, calendar="standard",
                            tagging_region="box" if self.kind == "box" else Path("/region.nc"))
        self.first = self.start if d == "forward" else self.end
        names = ("s_track_upper_restart", "s_track_lower_restart") + ACCS[d]
        self.output = self.ds({k: e.array("initial_" + k, (m, n)) if "restart" in k else e.build((m, n), lambda i, j: 0.0) for k in names})
        self.k, self.done, self.counts = 0, 0, {}
        self.ended = False
        self.fresh(0)

    def ds(self, d):
        return self.e.ds({k: (D2, v) for k, v in d.items()}, coords=self.coords)

    # ------------------------------------------------------------- the clock
    def T(self, k):
        return self.e.plus(self.first, self.sgn * self.dt * k)

    def middle(self, k):
        return self.e.plus(self.first, self.sgn * (self.dt * k + self.dt / 2))

    def lo_hi(self, k):
        a, b = self.T(k), self.T(k + 1)
        return (a, b) if self.d == "forward" else (b, a)

    def fits(self, k):
        """Iteration k lies inside the window."""
        e = self.e
        nxt = e.secs(self.T(k + 1))
        return nxt <= e.secs(self.end) if self.d == "forward" else nxt >= e.secs(self.start)

    # ------------------------------------------------------------- contract of the loop
    def fresh(self, k):
        self.k, self.stepped, self.written, self.reports, self.totals = k, 0, 0, 0, 0
        self.limited = self.have_fz = False
        self.before = {a: self.e.snapshot(self.output[a]) for a in ACCS[self.d]}

    def havoc(self, k):
        self.e.havoc(self.output, "head")
        e = self.e

    def start_iteration(self, k):
        self.fresh(k)

    def settle(self, k):
        e = self.e
        if self.aspect == "steps":
            e.check("one step per interval", e.truth(self.stepped == 1))
            return
        if self.stepped != 1:
            e.check("one step per interval", e.truth(False))
            return
        nxt = e.secs(self.T(k + 1))
        p = e.period(self.freq)
        due = e.or_(e.floor(nxt / p) * p == nxt, lambda: e.not_(self.fits(k + 1)))
        if self.aspect == "output":
            if self.written:
                e.check("written only at output times and after the last step", due)
                e.check("written once", e.truth(self.written == 1))
            else:
                e.check("written at output times and after the last step", e.not_(due))
            for a in ACCS[self.d]:
                if self.written:
                    e.same(f"{a} reset after the write", self.output[a], e.build((self.m, self.n), lambda i, j: 0.0))
                else:
                    e.same(f"{a} kept for a later output", self.output[a], self.amount(a))
            for lev in ("upper", "lower"):
                e.same(f"tracked storage {lev} kept", self.output[f"s_track_{lev}_restart"], self.state(lev))
        if self.aspect == "report":
            e.check("totals stored once per reset", e.truth(self.totals == self.written))

    def exit(self, k):
        e = self.e
        self.ended = True
        if self.aspect == "steps":
            e.check("no further interval fits into the window", e.not_(self.fits(k)))
            if not e.is_sym():
                e.check("the window is covered", e.truth(k == self.done))

    def amount(self, a):
        e, inc = self.e, self.e.field("inc_" + a, self.T(self.k), (self.m, self.n))
        b = self.before[a]
        return e.build((self.m, self.n), lambda i, j: e.at(b, i, j) + e.at(inc, i, j))

    def state(self, lev):
        return self.e.field("new_track_" + lev, self.T(self.k), (self.m, self.n), lo=0)

    # ------------------------------------------------------------- callees
    def load_data(self, t, config, subset="fluxes"):
        e, sh = self.e, (self.m, self.n)
        if subset == "states":
            return self.ds({k: e.field(k, t, sh, pos=True) for k in ("s_upper", "s_lower")})
        if subset != "fluxes":
            raise KeyError(subset)
        d = {k: e.field(k, t, sh) for k in FLUXES}
        d.update({k: e.field(k, t, sh, lo=0) for k in ("evap", "precip")})
        return self.ds(d)

    def expect_states(self, what, S, t):
        if self.aspect == "steps":
            for k in ("s_upper", "s_lower"):
                self.e.same(f"{what}: {k} of its own time", S[k], self.e.field(k, t, (self.m, self.n), pos=True))

    def expect_surface(self, what, F):
        if self.aspect == "steps":
            for k in ("evap", "precip"):
                self.e.same(f"{what}: {k} at the middle of the interval", F[k], self.e.field(k, self.middle(self.k), (self.m, self.n), lo=0))

    def sync(self):
        """Concrete runs: the first call for the next step ends the iteration before."""
        if not self.e.is_sym() and self.stepped:
            self.settle(self.k)
            self.fresh(self.done)

    def stabilize_fluxes(self, F, S, progress_tracker, config, t):
        self.sync()
        e, sh = self.e, (self.m, self.n)
        if self.aspect == "steps":
            if not self.limited:
                _, dy, dx = e.fn(GRID + ":get_grid_info")(F)
                for lev in ("upper", "lower"):
                    fx, fy = e.field("fx_" + lev, self.middle(self.k), sh), e.field("fy_" + lev, self.middle(self.k), sh)
                    e.same(f"limiter: eastward flux {lev} per cell side", F["fx_" + lev], e.build(sh, lambda i, j: e.at(fx, i, j) * dy), scale=1e5)
                    e.same(f"limiter: northward flux {lev} per cell side", F["fy_" + lev], e.build(sh, lambda i, j: e.at(fy, i, j) * e.at(dx, i, 0)), scale=1e5)
            else:
                e.check("limited once", e.truth(False))
        self.expect_states("limiter", S, self.T(self.k))
        self.limited = True
        for k in FLUXES:
            F[k] = (D2, e.field("limited_" + k, self.T(self.k), sh))

    def expect_limited(self, what, F):
        if self.aspect == "steps":
            for k in FLUXES:
                self.e.same(f"{what}: limited {k}", F[k], self.e.field("limited_" + k, self.T(self.k), (self.m, self.n)))

    def calculate_fz(self, F, S0, S1, dt=None, kvf=3, periodic_x=False):
        self.sync()
        e = self.e
        a, b = self.lo_hi(self.k)
        self.expect_states("vertical flux, start", S0, a)
        self.expect_states("vertical flux, end", S1, b)
        self.expect_limited("vertical flux", F)
        self.expect_surface("vertical flux", F)
        if self.aspect == "steps":
            e.check("vertical flux: timestep", e.eq(dt, self.dt))
            e.check("vertical flux: mixing factor", e.eq(kvf, self.kvf))
            e.check("vertical flux: boundary mode", e.truth(bool(periodic_x) == bool(self.per)))
        self.have_fz = True
        return e.da(D2, e.field("fz", self.T(self.k), (self.m, self.n)), coords=self.coords)

    def step(self, F, S1, S0, region, output, config):
        e, sh = self.e, (self.m, self.n)
        self.sync()
        self.done += 1
        self.stepped += 1
        a, b = self.lo_hi(self.k)
        self.expect_states("step, start", S0, a)
        self.expect_states("step, end", S1, b)
        self.expect_limited("step", F)
        self.expect_surface("step", F)
        if self.aspect == "steps":
            e.check("steps stay inside the window", self.fits(self.k))
            e.same("step: vertical flux of this step", F["f_vert"], e.field("fz", self.T(self.k), sh))
            e.check("step: configuration of the run", e.truth(config is self.cfg))
        if self.aspect == "tagging":
            now = e.secs(self.T(self.k))
            inside = e.and_(e.secs(self.tag0) <= now, now <= e.secs(self.tag1))
            want = self.dynamic(self.T(self.k)) if self.kind == "dynamic file" else self.region
            if e.ndim(region) == 0:
                e.check("tagged during the window", e.not_(inside))
                e.check("nothing tagged outside the window", e.eq(region, 0))
            else:
                e.shape_is("one weight per cell", region, sh)
                e.forall("the region during the window, nothing outside", sh, lambda i, j: e.eq(e.at(region, i, j), e.ite(inside, lambda: e.at(want, i, j), 0)))
        for k in ACCS[self.d]:
            inc = e.field("inc_" + k, self.T(self.k), sh)
            output[k] += e.da(D2, inc, coords=self.coords)
        for lev in ("upper", "lower"):
            output[f"s_track_{lev}_restart"].values = self.state(lev)
        self.limited = self.have_fz = False

    def dynamic(self, t):
        return self.e.field("region_at", t, (self.m, self.n), lo=0)

    def load_tagging_region(self, config, t=None):
        e = self.e
        if self.kind == "static file":
            return e.da(D2, self.region, coords=self.coords)
        if t is None:
            times = e.dim("region_times", 1)
            return e.da(("time",) + D2, e.array("region_all", (times, self.m, self.n), lo=0), coords=self.coords)
        return e.da(D2, self.dynamic(t), coords=self.coords)

    def initialize_tagging_region(self, bbox, lat, lon):
        return self.e.snapshot(self.region)

    def write_output(self, output, t, config):
        e = self.e
        self.written += 1
        if self.aspect != "output":
            return
        e.check("written after a step", e.truth(self.stepped == 1))
        e.check("written for the instant reached", e.secs(t) == e.secs(self.T(self.k + 1)))
        for a in ACCS[self.d]:
            e.same(f"{a} written completely", output[a], self.amount(a))
        for lev in ("upper", "lower"):
            e.same(f"tracked storage {lev} written", output[f"s_track_{lev}_restart"], self.state(lev))

    def reported(self, output):
        self.reports += 1

    def stored_totals(self, output):
        e = self.e
        self.totals += 1
        if self.aspect == "report":
            for a in ACCS[self.d]:
                e.same(f"totals of {a} stored before the reset", output[a], self.amount(a))

    # ------------------------------------------------------------- run
    def run(self):
        e, mod = self.e, MODS[self.d]
        e.fn(mod + ":run_experiment")
        e.patch(mod, initialize=lambda c: (self.cfg, self.output, self.ds({}).coords), load_data=self.load_data,
                stabilize_fluxes=self.stabilize_fluxes, calculate_fz=self.calculate_fz, write_output=self.write_output,
                load_tagging_region=self.load_tagging_region, initialize_tagging_region=self.initialize_tagging_region,
                ProgressTracker=Recorder(self), **{STEPFN[self.d]: self.step})
        w = self

        class Driver:
            start, settle, havoc, exit = (lambda s, k: w.start_iteration(k)), (lambda s, k: w.settle(k)), (lambda s, k: w.havoc(k)), (lambda s, k: w.exit(k))
        e.loop_driver = Driver()
        e.fn(mod + ":run_experiment")("config.yaml")
        if not e.is_sym():
            if self.done:
                self.settle(self.k)
            self.exit(self.done)
        elif not self.ended:        # the loop was left from within an iteration
            if self.stepped:
                self.settle(self.k)
            self.exit(self.k + self.stepped)


def whiles():
    return {m: loops.transform() for m in MODS.values()}


def _make(d, aspect, prop, doc):
    def fn(e):
        World(e, d, aspect).run()
    fn.__doc__ = doc
    harness(prop, name=f"run_{d}_{aspect}", stubs=("get_grid_info",), loops=whiles, cases=60)(fn)


for _d in ("forward", "backward"):
    _make(_d, "steps", "R01", f"The {_d} loop covers the window in contiguous steps with the data of each interval.")
    _make(_d, "tagging", "R02", f"The {_d} loop tags exactly during the window.")
    _make(_d, "output", "R03", f"The {_d} loop writes and resets accumulated amounts.")
    _make(_d, "report", "R05", f"The {_d} loop hands every amount to the progress report before the reset.")
