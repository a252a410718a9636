"""R02 (reading regions), R04 (start state), R05 (progress report)."""
import re
from pathlib import Path
from pyvc.contract import harness
from contracts.t_core import D2
from contracts.t_step import ACCS
from contracts.r_run import MODS, STEPFN, TR

PROF = "wam2layers.utils.profiling"


# ---------------------------------------------------------------- R05: the report
class Capture:
    def __init__(self):
        self.lines = []

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return lambda msg="", *a, **kw: self.lines.append((k, (str(msg) % a) if a else str(msg)))


def totals(e, arrs, lat, m, n, lo_i=0, lo_j=0, hi_i=0, hi_j=0):
    """Area-weighted sums (weight: cosine of latitude) of an array without the given margins."""
    w = lambda i: e.fun("cos", e.at(lat, i) * e.pi / 180)
    return lambda k: e.sum2(m - hi_i, n - hi_j, lambda i, j: e.at(arrs[k], i, j) * w(i), lo=(lo_i, lo_j))


def report(e, d, per):
    m, n = e.dim("M", 3), e.dim("N", 3)
    lat0, dlat = e.real("lat0", -80, 80), e.real("dlat", -2, 2)
    lat = e.build((m,), lambda i: lat0 + i * dlat)
    co = {"latitude": lat, "longitude": e.build((n,), lambda j: j * 2)}
    names = ("s_track_upper_restart", "s_track_lower_restart") + ACCS[d]
    cls = e.fn(PROF + ":ProgressTracker")
    log = Capture()
    e.patch(PROF, logger=log)
    mk = lambda tag: {k: e.array(k + tag, (m, n), lo=0) for k in names}
    D = lambda a: e.ds({k: (D2, e.snapshot(v)) for k, v in a.items()}, coords=co)
    first, second, last = mk("_a"), mk("_b"), mk("_c")
    sets = [first, second]
    tr = cls(D(first), mode=STEPFN[d], periodic_x=per)
    ghost = dict(tracked=0, total_tagged_moisture=0, lost_water=0, gained_water=0, boundary_transport=0)
    if e.is_sym():
        # any history: the totals so far are arbitrary
        if set(ghost) <= set(vars(tr)):
            add = {}
            for k in ghost:
                g = e.real("history_" + k)
                ghost[k] = g
                setattr(tr, k, getattr(tr, k) + g)
    tr.store_intermediate_states(D(second))
    out = D(last)
    tr.print_progress(e.time("t"), out)
    # expected totals
    tagged = {"forward": ("tagged_evap",), "backward": ("tagged_precip",)}[d]
    tracked = {"forward": ("p_track_upper", "p_track_lower"), "backward": ("e_track",)}[d]
    mj = 0 if per else 1
    sum_all = lambda ks, S=(first, second, last): _sum(e, [totals(e, a, lat, m, n)(k) for a in S for k in ks])
    T = sum_all(tagged) + ghost["total_tagged_moisture"]
    trk = sum_all(tracked) + ghost["tracked"]
    atm = sum_all(("s_track_upper_restart", "s_track_lower_restart"), (last,))
    gain = sum_all(("gains",)) + ghost["gained_water"]
    inner = _sum(e, [totals(e, a, lat, m, n, 1, mj, 1, mj)("losses") for a in (first, second, last)])
    lost = inner + ghost["lost_water"]
    edge = sum_all(("losses",)) - inner + ghost["boundary_transport"]
    e.assume(T > (0 if e.is_sym() else 1e-3))
    text = " ".join(s for k, s in log.lines if k == "info")
    got = e.percentages(text)
    for label, want in (("Tracked moisture", trk), ("Tagged in atmosphere", atm), ("Boundary transport", edge), ("Lost moisture", lost),
                        ("Gained moisture", gain), ("Tagging closure", trk + atm + edge + lost - gain)):
        if label not in got:
            e.unsupported(f"no {label} in the report")
        e.check(f"{label}: share of the tagged total", e.shown(got[label], want / T * 100))
    for k in names:
        e.same(f"{k} unmodified by the report", out[k], last[k])


def _sum(e, xs):
    r = xs[0]
    for x in xs[1:]:
        r = r + x
    return r


for _d in ("forward", "backward"):
    for _p in (False, True):
        def _fn(e, d=_d, p=_p):
            report(e, d, p)
        _fn.__doc__ = f"Progress report, {_d}, {'periodic' if _p else 'closed'} domain, after any history of resets."
        harness("R05", name=f"report_{_d}_{'periodic' if _p else 'closed'}")(_fn)


# ---------------------------------------------------------------- R04: start state
def start_state(e, d):
    m, n = e.dim("M", 2), e.dim("N", 2)
    co = {"latitude": e.build((m,), lambda i: 40 - 2 * i), "longitude": e.build((n,), lambda j: 3 * j)}
    mod = MODS[d]
    init = e.fn(mod + ":initialize")
    start = e.time("start")
    end = e.plus(start, e.int("duration", 3600, 10 ** 9, prefer=[3600, 7200, 86400, 90060]))
    restart = e.bool("restart")
    cfg = e.config(restart=restart, tracking_direction=d, tracking_start_date=start, tracking_end_date=end, calendar="standard",
                   tagging_start_date=start, tagging_end_date=end, preprocess_start_date=start, preprocess_end_date=end,
                   timestep=600, input_frequency="1h", output_frequency="1h")
    first, other = (start, end) if d == "forward" else (end, start)
    names = ("s_track_upper_restart", "s_track_lower_restart") + ACCS[d]
    path = e.fn(TR + "io:output_path")
    files = {}
    for tag, t in (("own", first), ("other", other)):
        files[tag] = {k: e.array(f"{tag}_{k}", (1, m, n), lo=0) for k in names}
        e.provide_file(path(t, cfg), e.ds({k: (("time",) + D2, v) for k, v in files[tag].items()}, coords=co))

    class C:
        @staticmethod
        def from_yaml(f):
            return cfg
    e.patch(mod, Config=C, load_data=lambda t, c, subset="fluxes": e.ds({k: (D2, e.field(k, t, (m, n), pos=True)) for k in ("s_upper", "s_lower")}, coords=co))
    config, out, grid = init("config.yaml")
    e.check("the configuration of the run", e.truth(config is cfg))
    e.check("exactly the output fields of the direction", e.truth(set(out.data_vars) == set(names)))
    zero = e.build((m, n), lambda i, j: 0.0)
    for k in names:
        if k.startswith("s_track") and bool(restart):
            want = e.build((m, n), lambda i, j: e.at(files["own"][k], 0, i, j))
            e.same(f"{k} continues from the file of the starting instant", out[k], want)
        else:
            e.same(f"{k} starts at zero", out[k], zero)
    for c in ("latitude", "longitude"):
        e.same(f"{c} of the grid", out[c], co[c])
        e.same(f"{c} of the returned grid", grid[c], co[c])


for _d in ("forward", "backward"):
    def _fn2(e, d=_d):
        start_state(e, d)
    _fn2.__doc__ = f"Start state of a {_d} run, with and without restart."
    harness("R04", name=f"initialize_{_d}", cases=20)(_fn2)


# ---------------------------------------------------------------- R02: reading regions
@harness("R02", cases=30)
def read_region(e):
    """A region file is read unchanged; a time-dependent one at the nearest time."""
    m, n = e.dim("M", 2), e.dim("N", 2)
    co = {"latitude": e.build((m,), lambda i: 40 - 2 * i), "longitude": e.build((n,), lambda j: 3 * j)}
    f = e.fn(TR + "io:load_tagging_region")
    r = e.array("region", (m, n), lo=0, hi=1)
    p = e.scratch_path("region.nc")
    e.provide_file(p, e.da(D2, r, coords=co, name="tagging_region"))
    cfg = e.config(tagging_region=p, tracking_domain=None)
    got = f(cfg)
    e.check("two-dimensional", e.truth(e.ndim(got) == 2))
    e.same("region unchanged", got, r)
