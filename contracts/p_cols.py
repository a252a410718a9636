"""P04 (model-level thicknesses) and P05 (pressure-level columns)."""
import csv, os
from pyvc.contract import harness, stub
from contracts.t_core import D2
from contracts.p_flux import DL, PRE

CSV = "wam2layers/preprocessing/tableERA5model_to_pressure.csv"


def half_levels(e):
    """a and b at the half levels, read independently of the code."""
    import wam2layers.preprocessing as p
    with open(os.path.join(os.path.dirname(p.__file__), "tableERA5model_to_pressure.csv"), encoding="utf-8-sig") as f:
        rows = list(csv.DictReader(f))
    return [float(r["a [Pa]"]) for r in rows], [float(r["b"]) for r in rows]


MIN_PS, MAX_PS = 31000, 120000       # surface pressures on earth lie in between


@harness("P04", cases=1)
def level_coefficients(e):
    """The table of the model: from the top of the atmosphere to the surface, pressure growing from half level to half level."""
    a, b = e.fn(PRE + "era5:load_era5_ab")()
    n = e.shape(a)[0]
    e.check("one value of each kind per half level", n == 138 and e.shape(b)[0] == n)
    e.check("the top is at zero pressure, the lowest half level is the surface", e.and_(e.eq(e.at(a, 0), 0), e.eq(e.at(b, 0), 0), e.eq(e.at(a, n - 1), 0), e.eq(e.at(b, n - 1), 1)))
    for s in (MIN_PS, MAX_PS):       # linear in between
        e.check(f"pressure grows downwards at {s} Pa", e.and_(*[e.at(a, h) + e.at(b, h) * s <= e.at(a, k) + e.at(b, k) * s for k in range(n) for h in range(k)]))


@harness("P04", cases=150)
def thickness(e):
    """For any table and any selection of levels: thicknesses are not negative, add up to the surface pressure, with edges at the mean of full levels."""
    n, m, k = e.dim("half levels", 1) if e.is_sym() else e.int("half levels", 2, 30), e.dim("M", 1), e.dim("N", 1)
    everything = e.bool("all levels")
    sp = e.array("sp", (m, k), lo=MIN_PS, hi=MAX_PS)
    if e.is_sym():
        a, b = e.array("a", (n + 1,)), e.array("b", (n + 1,))
        i, j = e.int("i", 0, m - 1), e.int("j", 0, k - 1)
        cells = [(i, j)]
    else:
        b = e.np.sort(e.np.append(e.array("b", (n,), lo=0, hi=1), 1.0))
        b[0] = 0.0
        a = e.array("a", (n + 1,), lo=0, hi=1) * 1000
        a = a * (1 - b)
        a[0] = 0
        for q in range(n):
            a[q + 1] = max(a[q + 1], a[q] - (b[q + 1] - b[q]) * MIN_PS) if q + 1 < n else 0
        e.assume(a[n - 1] <= (1 - b[n - 1]) * MIN_PS)
        cells = [(i, j) for i in range(m) for j in range(k)]
    e.assume(e.and_(*[e.eq(x, y) for x, y in ((e.at(a, 0), 0), (e.at(b, 0), 0), (e.at(a, n), 0), (e.at(b, n), 1))]))
    if everything:
        nl, level = n, lambda q: q + 1
        levels = "all"
    else:
        if e.is_sym():
            nl = e.dim("levels", 1)
            levels = e.array("level", (nl,), lo=1, hi=n, kind="i")
            e.assume_forall((nl,), lambda q: e.implies(q + 1 < nl, e.at(levels, q) < e.at(levels, q + 1)))
        else:
            levels = [q for q in range(1, n + 1) if e.bool(f"level {q}")] or [e.int("level", 1, n)]
            nl = len(levels)
        level = lambda q: e.at(levels, q)
    e.patch(PRE + "era5", load_era5_ab=lambda: (e.snapshot(a), e.snapshot(b)))
    co = {"latitude": e.build((m,), lambda i: 40 - 2 * i), "longitude": e.build((k,), lambda j: 3 * j)}
    dp = e.fn(PRE + "era5:get_dp_modellevels")(e.da(D2, e.snapshot(sp), co), levels)
    e.check("one thickness per level and cell", set(dp.dims) == set(DL))
    dp = dp.transpose(*DL)
    e.check("as many as levels", e.eq(e.shape(dp)[0], nl))
    e.forall("named by their level", (nl,), lambda q: e.eq(e.at(dp["level"], q), level(q)))
    full = lambda t, l: (e.at(t, l - 1) + e.at(t, l)) / 2
    for i, j in cells:
        s = e.at(sp, i, j)
        p = lambda h: e.at(a, h) + e.at(b, h) * s

        def edge(q):        # pressure above the q-th selected level
            inner = lambda: p(q) if everything else (full(a, level(q - 1)) + full(a, level(q))) / 2 + (full(b, level(q - 1)) + full(b, level(q))) / 2 * s
            return e.ite(e.eq(q, 0), 0, lambda: e.ite(e.eq(q, nl), s, inner))
        if e.is_sym():
            e.prove("outer edges", e.and_(e.eq(p(0), 0), e.eq(p(n), s)))
            e.lemma_forall("from edge to edge, directly", (nl,), lambda q: e.eq(e.at(dp, q, i, j), edge(q + 1) - edge(q)))
            # names for the edges and the thicknesses
            E, D = e.array("edge", (nl + 1,)), e.array("thickness", (nl,))
            e.assume_forall((nl + 1,), lambda q: e.eq(e.at(E, q), edge(q)))
            e.assume_forall((nl,), lambda q: e.eq(e.at(D, q), e.at(dp, q, i, j)))
            between = lambda q: e.at(E, q + 1) - e.at(E, q)
            thick = lambda q: e.at(D, q)
        else:
            thick = lambda q: e.at(dp, q, i, j)
            between = lambda q: edge(q + 1) - edge(q)
        e.lemma_forall("from edge to edge", (nl,), lambda q: e.eq(thick(q), between(q), 0 if e.is_sym() else s))
        if e.is_sym():
            e.telescope(nl, lambda q: e.at(E, q))
            e.prove("first and last edge", e.and_(e.eq(e.at(E, 0), 0), e.eq(e.at(E, nl), s)))
            e.prove("thickness by thickness", e.eq(e.sum(nl, thick), e.sum(nl, between)))
        e.check("thicknesses add up to the surface pressure", e.eq(e.sum(nl, thick), s))
        grows = lambda x, y: e.implies(e.and_(x >= 0, x <= y, y <= n), p(x) <= p(y))         # a precondition on the table

        def not_negative(q):
            at = thick(q)
            if not e.is_sym():
                return at >= -1e-9 * s
            if everything:
                return e.implies(grows(q, q + 1), e.ge(at, 0))
            low, l, up = level(q - 1), level(q), level(q + 1)
            pairs = [(low, up), (low - 1, up - 1), (0, l), (0, l - 1), (0, up), (0, up - 1), (low, n), (low - 1, n), (l, n), (l - 1, n)]
            return e.implies(e.and_(*[grows(x, y) for x, y in pairs], grows(0, n)), e.ge(at, 0))
        e.forall("no negative thickness", (nl,), not_negative)


@harness("P04", cases=250, sym=False, bounded_reason="random selections of levels")
def thickness_cases(e):
    """Thicknesses of selected model levels add up to the surface pressure; edges lie between consecutive selected levels."""
    a, b = half_levels(e)
    n = len(a) - 1
    kind = e.choice("selection", ("all", "single", "few", "many", "every", "tail", "consecutive"))
    if kind == "all":
        levels = "all"
    elif kind == "every":
        levels = list(range(1, n + 1))
    elif kind == "single":
        levels = [e.int("level", 1, n)]
    elif kind == "tail":
        levels = list(range(e.int("first", 1, n), n + 1))
    elif kind == "consecutive":
        f = e.int("first", 1, n - 1)
        levels = list(range(f, min(n, f + e.int("count", 1, 20)) + 1))
    else:
        p = 8 if kind == "few" else 2
        levels = [k for k in range(1, n + 1) if e.int(f"l{k}", 1, p) == 1] or [n]
    m, k = e.dim("M", 1), e.dim("N", 1)
    sp = e.array("sp", (m, k), lo=45000, hi=109000)
    co = {"latitude": e.build((m,), lambda i: 40 - 2 * i), "longitude": e.build((k,), lambda j: 3 * j)}
    before = list(levels) if levels != "all" else levels
    dp = e.fn(PRE + "era5:get_dp_modellevels")(e.da(D2, e.snapshot(sp), co), levels)
    e.check("selection not modified", levels == before)
    ls = list(range(1, n + 1)) if levels == "all" else levels
    e.check("one thickness per level and cell", set(dp.dims) == set(DL) and list(dp["level"].values) == ls)
    dp = dp.transpose(*DL).values
    full = lambda t, l: (t[l - 1] + t[l]) / 2
    for i in range(m):
        for j in range(k):
            s = sp[i, j]
            e.check("thicknesses add up to the surface pressure", e.eq(dp[:, i, j].sum(), s))
            e.check("no negative thickness", dp[:, i, j].min() >= -1e-9)
            at = 0.0
            for q, l in enumerate(ls):
                if q == len(ls) - 1:
                    edge = s
                elif levels == "all":
                    edge = a[l] + b[l] * s
                else:
                    edge = (full(a, l) + full(a, ls[q + 1])) / 2 + (full(b, l) + full(b, ls[q + 1])) / 2 * s
                e.check("edge at the mean of the full levels", abs(dp[q, i, j] - (edge - at)) <= 1e-7 * max(1, s))
                at = edge


@harness("P05", cases=300, sym=False, bounded_reason="random profiles in random order, surface above and below levels")
def column_cases(e):
    """Completed pressure-level columns: sorted, every given point kept, boundary by linear interpolation, thicknesses add up."""
    m, n, nl = e.dim("M", 1), e.dim("N", 1), e.dim("L", 2)
    np = e.np
    ints = e.bool("integer levels")
    order = e.choice("order", ("ascending", "descending", "shuffled"))
    pool = [1000, 2000, 5000, 10000, 20000, 30000, 40000, 50000, 60000, 70000, 75000, 80000, 85000, 90000, 92500, 95000, 97500, 100000]
    first, skip = e.int("first", 0, 17), e.int("skip", 0, 4)
    lev = sorted(pool[(first + 5 * k) % 18] for k in range(nl)) if e.bool("sparse") else sorted(pool[-nl - skip:][:nl])
    if order == "descending":
        lev = lev[::-1]
    elif order == "shuffled":
        lev = [lev[k] for k in np.random.RandomState(e.int("perm", 0, 50)).permutation(nl)]
    lev = np.array(lev, dtype=int if ints else float)
    kind = None if ints else e.choice("spacing", ("round", "round", "fractional", "close"))
    if kind == "fractional":
        lev = lev + 0.37
    elif kind == "close":         # levels a few pascals apart, around the surface or the boundary
        lev = 72000.0 + (lev - lev.min()) / e.choice("closeness", (40.0, 400.0, 4000.0))
    x = {k: e.array(k, (nl, m, n), **(dict(pos=True) if k == "q" else {})) for k in ("q", "u", "v")}
    ps = e.array("ps", (m, n), lo=52000, hi=105000) if not e.bool("surface on level") else np.full((m, n), 85000.0)
    s = {"ps": ps, "qs": e.array("qs", (m, n), pos=True), "us": e.array("us", (m, n)), "vs": e.array("vs", (m, n))}
    factor, off = e.choice("boundary", ((0.72878581, 7438.803), (0.5, 1000.0), (0.9, 0.0), (0.0, 40000.0)))
    if kind == "close" and factor and e.bool("boundary among the levels"):
        span = float(lev.max() - lev.min()) + 20
        ps = (72000.0 - 10 + span * e.array("place", (m, n), lo=0, hi=1) - off) / factor
        e.assume(bool((factor * ps + off <= ps).all()))
        s["ps"] = ps
    cfg = e.config(level_type="pressure_levels", pressure_boundary_factor=factor, pressure_boundary_offset=off)
    co = {"latitude": e.build((m,), lambda i: 40 - 2 * i), "longitude": e.build((n,), lambda j: 3 * j)}
    dims = e.choice("dims", (DL, DL, ("latitude", "level", "longitude"), D2 + ("level",)))
    arrange = lambda a: np.transpose(a, [DL.index(d) for d in dims])
    level_data = e.ds({k: (dims, arrange(v).copy()) for k, v in x.items()}, coords=dict(co, level=lev))
    surface = e.ds({k: (D2, v.copy()) for k, v in s.items()}, coords=co)
    out, pb = e.fn(PRE + "pressure_levels:extend_pressurelevels")(level_data, surface, cfg)
    cut = (lambda v: float(int(v))) if ints else float
    got = {k: out[k].transpose(*DL).values for k in ("p", "q", "u", "v")}
    e.check("dimensions kept", all(out[k].dims == dims for k in got) and got["p"].shape == (nl + 3, m, n))
    e.check("boundary pressure", np.allclose(pb.transpose(*D2).values, factor * ps + off, rtol=1e-12))
    mids, dp = e.fn(PRE + "pressure_levels:interp_dp_midpoints")(out)
    masked = e.fn(PRE + "pressure_levels:mask_below_surface_data")(mids, surface["ps"])
    mid = {k: masked[k].transpose(*DL).values for k in got}
    dp = dp.transpose(*DL).values
    e.check("one thickness per pair of points, on the same levels", dp.shape == (nl + 2, m, n) and mid["p"].shape == dp.shape)
    top = int(lev.argmin())
    for i in range(m):
        for j in range(n):
            b = factor * ps[i, j] + off
            for truncated in ((False, True) if ints else (False,)):
                t = cut if truncated else float
                pts = [(0.0, 0.0, x["u"][top, i, j], x["v"][top, i, j]), (t(ps[i, j]), s["qs"][i, j], s["us"][i, j], s["vs"][i, j])]
                pts += [(float(lev[l]), x["q"][l, i, j], x["u"][l, i, j], x["v"][l, i, j]) for l in range(nl)]
                pts.sort()
                hi = next((k for k, p in enumerate(pts) if p[0] >= b), None)
                # of several values at one pressure (surface on a level) either may be next to the boundary
                bounds = []
                for lo in (p for p in pts if p[0] == pts[hi - 1][0]):
                    for up in (p for p in pts if p[0] == pts[hi][0]):
                        w = (b - lo[0]) / (up[0] - lo[0])
                        bounds.append((t(b),) + tuple(lo[k] + (up[k] - lo[k]) * w for k in (1, 2, 3)))
                have = [tuple(float(got[k][l, i, j]) for k in ("p", "q", "u", "v")) for l in range(nl + 3)]
                rising = all(p[0] <= q[0] for p, q in zip(have, have[1:]))
                near = lambda p, q: all(abs(c - d) <= 1e-8 * max(1, abs(c), abs(d)) for c, d in zip(p, q))
                key = lambda p: tuple(round(c, 6) for c in p)
                same = any(all(near(p, q) for p, q in zip(sorted(have, key=key), sorted(pts + [bound], key=key))) for bound in bounds)
                # thickness of the valid air in either layer, from what the code calls mid points
                ok = ~np.isnan(mid["p"][:, i, j])
                low = mid["p"][:, i, j] >= b
                S, B = t(ps[i, j]), t(b)
                low_sum, up_sum = dp[ok & low, i, j].sum(), dp[ok & ~low, i, j].sum()
                sums = abs(low_sum - (S - B)) <= 1e-6 * S and abs(up_sum - B) <= 1e-6 * S
                good = rising and same and sums
                if not truncated:
                    exact = good
                    parts = dict(rising=rising, same=same, sums=sums)
            if exact or not ints:
                e.check(f"column sorted, complete, boundary interpolated, thicknesses add up {parts}", exact)
            else:
                e.check_known("P05-int", "column with integer-typed levels", (1,), lambda k: False, lambda k: good)
            below = [l for l in range(nl + 2) if got["p"][l, i, j] >= ps[i, j]]
            e.check("nothing below the surface", all(np.isnan(mid[k][l, i, j]) for l in below for k in mid))
            for k in got:
                half = (got[k][1:, i, j] + got[k][:-1, i, j]) / 2
                e.check(f"{k} at mid points", all(np.isnan(a) or abs(a - h) <= 1e-8 * max(1, abs(h)) for a, h in zip(mid[k][:, i, j], half)))
                e.check(f"{k} only masked below the surface", all(np.isnan(mid[k][l, i, j]) == (not (got["p"][l, i, j] + got["p"][l + 1, i, j]) / 2 < ps[i, j]) for l in range(nl + 2)))


# ---------------------------------------------------------------- P05, all extents
def rising(e, f, n, m, k):
    """Values along the first axis do not decrease, in any cell."""
    e.assume_forall((n, m, k), lambda l, i, j: e.implies(l + 1 < n, f(l, i, j) <= f(l + 1, i, j)))


@harness("P05", cases=150)
def interpolate_column(e):
    """interpolate: the value at x lies on the line between the two neighbouring points of the column."""
    m, n, nl = e.dim("M", 1), e.dim("N", 1), e.dim("L", 2)
    axis = e.choice("axis", (0, 1, 2))
    put = lambda a: e.np.moveaxis(a, 0, axis)
    fp = e.array("fp", (nl, m, n))
    if e.is_sym():
        xp = e.array("xp", (nl, m, n))
        rising(e, lambda l, i, j: e.at(xp, l, i, j), nl, m, n)
        x = e.array("x", (m, n))
    else:
        xp = e.np.sort(e.array("xp", (nl, m, n)) * e.choice("width", (1.0, 1e-2, 1e3)), axis=0)
        x = e.np.minimum(xp[0] + (xp[-1] - xp[0]) * e.choice("at", (0.0, 0.5, 0.125, 1.0)), xp[-1])
        if e.bool("on a level"):
            x = xp[nl // 2].copy()
    l = e.int("lower", 0, nl - 2)
    if e.is_sym():
        i, j = e.int("i", 0, m - 1), e.int("j", 0, n - 1)
        X = lambda k: e.at(xp, k, i, j)
        e.assume(X(0) < X(nl - 1))
        e.assume_forall((m, n), lambda a, b: e.and_(e.at(xp, 0, a, b) <= e.at(x, a, b), e.at(x, a, b) <= e.at(xp, nl - 1, a, b)))
        e.assume(e.and_(X(l) < e.at(x, i, j), e.at(x, i, j) <= X(l + 1)))
        cells = [(i, j)]
    else:
        cells = [(i, j) for i in range(m) for j in range(n) if xp[l, i, j] < x[i, j] <= xp[l + 1, i, j]]
    out = e.fn(PRE + "utils:interpolate")(x, put(xp), put(fp), axis=axis)
    e.shape_is("one value per cell", out, (m, n))
    for i, j in cells:
        F, X, v = (lambda k: e.at(fp, k, i, j)), (lambda k: e.at(xp, k, i, j)), e.at(x, i, j)
        e.check("on the line between its neighbours", e.eq(e.at(out, i, j), F(l) + (F(l + 1) - F(l)) * ((v - X(l)) / (X(l + 1) - X(l)))))


@stub("interpolate", PRE + "utils:interpolate", ["interpolate_column"])
def interpolate_stub(e):
    """Some value per cell, the one that interpolate_column describes; which one was asked for is recorded."""
    def interpolate(x, xp, fp, axis, descending=False):
        if e.truth(descending) or e.ndim(xp) != 3:
            e.unsupported("interpolation of another kind")
        X, P, F = e.snapshot(x), e.snapshot(e.np.moveaxis(xp, axis, 0)), e.snapshot(e.np.moveaxis(fp, axis, 0))
        nl, m, n = e.shape(P)
        e.shape_is("interpolate: one coordinate per cell", X, (m, n))
        e.shape_is("interpolate: one value per point", F, (nl, m, n))
        e.forall("interpolate: points sorted", (nl - 1, m, n), lambda l, i, j: e.at(P, l, i, j) <= e.at(P, l + 1, i, j))
        e.forall("interpolate: coordinate within the points", (m, n), lambda i, j: e.and_(e.at(P, 0, i, j) < e.at(X, i, j), e.at(X, i, j) <= e.at(P, nl - 1, i, j)))
        out = e.fresh_array("interpolated", (m, n))
        e.record("interpolate", X, P, F, e.snapshot(out))
        return out
    return interpolate


def extended(e, m, n, nl):
    """Input of the column completion: levels in increasing or decreasing order or any order, surface fields, boundary setting."""
    x = {k: e.array(k, (nl, m, n), **(dict(pos=True) if k == "q" else {})) for k in ("q", "u", "v")}
    if e.is_sym():
        lev = e.array("lev", (nl,))
        e.assume_forall((nl,), lambda l: e.at(lev, l) > 0)
        ps = e.array("ps", (m, n))
        factor, off = e.real("factor"), e.real("offset")
        e.assume_forall((m, n), lambda i, j: e.and_(e.at(ps, i, j) > 0, factor * e.at(ps, i, j) + off > 0, factor * e.at(ps, i, j) + off <= e.at(ps, i, j)))
    else:
        lev = e.np.random.RandomState(e.int("seed", 0, 99)).permutation(nl) * 7000.0 + e.choice("from", (500.0, 30000.0))
        ps = e.array("ps", (m, n), lo=52000, hi=105000)
        if e.bool("surface on level"):
            ps = e.np.full((m, n), lev[0])
        factor, off = e.choice("boundary", ((0.72878581, 7438.803), (0.5, 1000.0), (0.9, 0.0), (0.0, 400.0)))
        e.assume(bool((factor * ps + off <= ps).all()))
    s = {"ps": ps, "qs": e.array("qs", (m, n), pos=True), "us": e.array("us", (m, n)), "vs": e.array("vs", (m, n))}
    return x, lev, s, factor, off


def extend_columns(e, dims):
    m, n, nl = e.dim("M", 1), e.dim("N", 1), e.dim("L", 1)
    x, lev, s, factor, off = extended(e, m, n, nl)
    ps = s["ps"]
    arrange = lambda a: e.np.moveaxis(a, 0, dims.index("level"))
    co = {"latitude": e.build((m,), lambda i: 40 - 2 * i), "longitude": e.build((n,), lambda j: 3 * j)}
    level_data = e.ds({k: (dims, arrange(e.snapshot(v))) for k, v in x.items()}, coords=dict(co, level=lev))
    surface = e.ds({k: (D2, e.snapshot(v)) for k, v in s.items()}, coords=co)
    cfg = e.config(level_type="pressure_levels", pressure_boundary_factor=factor, pressure_boundary_offset=off)
    out, pb = e.fn(PRE + "pressure_levels:extend_pressurelevels")(level_data, surface, cfg)
    for k in ("p", "q", "u", "v"):
        e.check(f"{k} dimensions", tuple(out[k].dims) == dims)
    got = {k: out[k].transpose(*DL) for k in ("p", "q", "u", "v")}
    for k in got:
        e.shape_is(f"{k}: three points more", got[k], (nl + 3, m, n))
    bound = lambda i, j: factor * e.at(ps, i, j) + off
    e.check("boundary dimensions", tuple(pb.dims) == D2)
    e.forall("boundary pressure", (m, n), lambda i, j: e.eq(e.at(pb, i, j), bound(i, j)))
    e.forall("sorted by pressure", (nl + 2, m, n), lambda l, i, j: e.at(got["p"], l, i, j) <= e.at(got["p"], l + 1, i, j))
    if not e.is_sym():
        return
    i, j = e.int("i", 0, m - 1), e.int("j", 0, n - 1)
    here = lambda l: tuple(e.at(got[k], l, i, j) for k in ("p", "q", "u", "v"))
    all_eq = lambda a, b: e.and_(*[e.eq(c, d) for c, d in zip(a, b)])
    l = e.int("l", 0, nl - 1)
    given = lambda l: (e.at(lev, l),) + tuple(e.at(x[k], l, i, j) for k in ("q", "u", "v"))
    t = e.int("lowest pressure", 0, nl - 1)
    e.assume_forall((nl,), lambda k: e.implies(e.not_(e.eq(k, t)), e.at(lev, t) < e.at(lev, k)))
    l2 = e.int("l2", 0, nl - 1)
    e.assume(l < l2)
    cell, total = (i, j), nl + 3
    at = [e.located("a level keeps its values", l, total, cell, lambda k: all_eq(here(k), given(l))),
          e.located("another level keeps its values", l2, total, cell, lambda k: all_eq(here(k), given(l2))),
          e.located("the surface is a point of the column", 0, total, cell, lambda k: all_eq(here(k), tuple(e.at(s[q], i, j) for q in ("ps", "qs", "us", "vs")))),
          e.located("the top is a point of the column", 0, total, cell, lambda k: all_eq(here(k), (0, 0, e.at(x["u"], t, i, j), e.at(x["v"], t, i, j))))]
    # the boundary: what interpolate gives for the completed profile without it
    asked = e.recorded("interpolate")
    e.check("three quantities interpolated", len(asked) == 3)
    value = dict(zip(("u", "v", "q"), asked))
    at.append(e.located("the boundary is a point of the column", 0, total, cell, lambda k: all_eq(here(k), (bound(i, j),) + tuple(e.at(value[q][3], i, j) for q in ("q", "u", "v")))))
    if None not in at:
        for a in range(5):
            for b in range(a):
                e.check("no point stands for two", e.not_(e.eq(at[a], at[b])))
    for q in ("q", "u", "v"):
        X, P, F, _ = value[q]
        e.check(f"{q} at the boundary", e.eq(e.at(X, i, j), bound(i, j)))
        e.shape_is(f"{q}: profile without the boundary", P, (nl + 2, m, n))
        pair = lambda k: (e.at(P, k, i, j), e.at(F, k, i, j))
        e.located(f"{q}: a level is in the profile", l, nl + 2, cell, lambda k: all_eq(pair(k), (e.at(lev, l), e.at(x[q], l, i, j))))
        e.located(f"{q}: the surface is in the profile", 0, nl + 2, cell, lambda k: all_eq(pair(k), (e.at(ps, i, j), e.at(s[q + "s"], i, j))))
        e.located(f"{q}: the top is in the profile", 0, nl + 2, cell, lambda k: all_eq(pair(k), (0, 0 if q == "q" else e.at(x[q], t, i, j))))


for _name, _dims in (("first", DL), ("between", ("latitude", "level", "longitude")), ("last", D2 + ("level",))):
    def _harness(dims):
        def f(e):
            """Completed columns: sorted by pressure; every given point, the top, the surface and the boundary exactly once."""
            extend_columns(e, dims)
        return f
    harness("P05", name=f"extend_columns_{_name}", cases=60, stubs=("interpolate",), timeout=400)(_harness(_dims))


@harness("P05", cases=100)
def column_thickness(e):
    """Midpoints of a completed column: air above the boundary makes up the boundary pressure, the rest the surface pressure minus it."""
    m, n, nl = e.dim("M", 1), e.dim("N", 1), e.dim("L", 3)
    x = {k: e.array(k, (nl, m, n)) for k in ("q", "u", "v")}
    if e.is_sym():
        p = e.array("p", (nl, m, n))
        ps = e.array("ps", (m, n))
        i, j = e.int("i", 0, m - 1), e.int("j", 0, n - 1)
        P = lambda k: e.at(p, k, i, j)
        e.assume_forall((nl, m, n), lambda l, a, b: e.implies(l + 1 < nl, e.at(p, l, a, b) <= e.at(p, l + 1, a, b)))
        e.assume_forall((nl, nl), lambda a, b: e.implies(a <= b, P(a) <= P(b)))
        b, s = e.int("boundary", 0, nl - 1), e.int("surface", 0, nl - 1)
        e.assume(e.and_(b <= s, e.eq(P(0), 0), e.eq(P(s), e.at(ps, i, j))))
        cells = [(i, j, b)]
    else:
        p = e.np.sort(e.array("p", (nl, m, n), lo=0, hi=105000), axis=0)
        if e.bool("repeated point"):
            p[1] = p[min(2, nl - 1)]
        p[0] = 0
        s, b = e.int("surface", 0, nl - 1), e.int("boundary", 0, nl - 1)
        e.assume(b <= s)
        ps = p[s].copy()
        cells = [(i, j, b) for i in range(m) for j in range(n)]
    dims = e.choice("dims", (DL, D2 + ("level",)))
    arrange = lambda a: e.np.moveaxis(a, 0, dims.index("level"))
    co = {"latitude": e.build((m,), lambda i: 40 - 2 * i), "longitude": e.build((n,), lambda j: 3 * j)}
    data = e.ds({k: (dims, arrange(e.snapshot(v))) for k, v in dict(x, p=p).items()}, coords=dict(co, level=e.np.arange(nl)))
    mids, dp = e.fn(PRE + "pressure_levels:interp_dp_midpoints")(data)
    masked = e.fn(PRE + "pressure_levels:mask_below_surface_data")(mids, e.da(D2, e.snapshot(ps), co))
    e.check("thickness dimensions", set(dp.dims) == set(dims))
    e.same("thicknesses and midpoints on the same levels", dp["level"], masked["level"])
    dp = dp.transpose(*DL)
    mid = {k: masked[k].transpose(*DL) for k in ("p", "q", "u", "v")}
    half = lambda a, l, i, j: (e.at(a, l, i, j) + e.at(a, l + 1, i, j)) / 2
    below = lambda l, i, j: half(p, l, i, j) >= e.at(ps, i, j)
    e.shape_is("one thickness per pair of points", dp, (nl - 1, m, n))
    e.forall("thickness", (nl - 1, m, n), lambda l, i, j: e.eq(e.at(dp, l, i, j), e.at(p, l + 1, i, j) - e.at(p, l, i, j), 1e5))
    for k, v in dict(x, p=p).items():
        e.shape_is(f"{k}: one value per pair of points", mid[k], (nl - 1, m, n))
        if e.is_sym():
            e.forall(f"{k}: undefined exactly below the surface", (nl - 1, m, n), lambda l, i, j: e.iff(e.isnan(e.at(mid[k], l, i, j)), below(l, i, j)))
            e.forall(f"{k}: at the midpoint", (nl - 1, m, n), lambda l, i, j: e.implies(e.not_(below(l, i, j)), e.eq(e.at(mid[k], l, i, j), half(v, l, i, j))))
    for i, j, b in cells:
        P = lambda k: e.at(p, k, i, j)
        pb, S, D = P(b), e.at(ps, i, j), lambda l: P(l + 1) - P(l)
        if not e.is_sym():
            mp, d = mid["p"].values[:, i, j], dp.values[:, i, j]
            good = ~e.np.isnan(mp)
            e.check("undefined only below the surface", all(g or (P(l) + P(l + 1)) / 2 >= S for l, g in enumerate(good)))
            e.check("upper layer", abs(d[good & (mp < pb)].sum() - pb) < 1e-6 * max(1, S))
            e.check("lower layer", abs(d[good & (mp >= pb)].sum() - (S - pb)) < 1e-6 * max(1, S))
            continue
        valid = lambda l: e.not_(below(l, i, j))
        upper = lambda l: half(p, l, i, j) < pb
        e.lemma_forall("boundary and surface within the column", (nl,), lambda k: e.and_(e.implies(k <= b, P(k) <= pb), e.implies(k >= b, P(k) >= pb), e.implies(k <= s, P(k) <= S), e.implies(k >= s, P(k) >= S)))
        e.check("air above the boundary", e.eq(e.sum(nl - 1, lambda l: e.ite(e.and_(valid(l), upper(l)), D(l), 0)), e.sum(nl - 1, lambda l: e.min(P(l + 1), pb) - e.min(P(l), pb))))
        e.check("air between boundary and surface", e.eq(e.sum(nl - 1, lambda l: e.ite(e.and_(valid(l), e.not_(upper(l))), D(l), 0)),
                e.sum(nl - 1, lambda l: e.min(P(l + 1), S) - e.min(P(l), S)) - e.sum(nl - 1, lambda l: e.min(P(l + 1), pb) - e.min(P(l), pb))))
        e.telescope(nl - 1, lambda k: e.min(P(k), pb))
        e.telescope(nl - 1, lambda k: e.min(P(k), S))
        e.check("adds up to the boundary pressure", e.eq(e.sum(nl - 1, lambda l: e.min(P(l + 1), pb) - e.min(P(l), pb)), pb))
        e.check("adds up to the surface pressure minus it", e.eq(e.sum(nl - 1, lambda l: e.min(P(l + 1), S) - e.min(P(l), S)), S))
