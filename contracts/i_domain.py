"""I03 (tracking domain), I05 (shapefile regions)."""
import datetime, math
from pyvc.contract import harness
from contracts.i_io import D3, FLUX, GROUPS, STATES, TR
from contracts.t_core import D2


# ---------------------------------------------------------------- I03
@harness("I03", cases=200, maxdim=9)
def subdomain(e):
    """Loading with a tracking domain keeps exactly the cells inside it, west to east."""
    m, n = e.dim("M", 2), e.dim("N", 2)
    if e.is_sym():
        lon = e.array("lon", (n,), lo=-180, hi=180)
        lat = e.array("lat", (m,), lo=-90, hi=90)
        e.assume_forall((n, n), lambda a, b: e.implies(a < b, e.at(lon, a) < e.at(lon, b)))
        e.assume_forall((m, m), lambda a, b: e.implies(a < b, e.at(lat, a) > e.at(lat, b)))
        w, ea = e.real("west", -180, 180), e.real("east", -180, 180)
        s, no = e.real("south", -90, 90), e.real("north", -90, 90)
    else:
        step = e.choice("step", (40.0, 22.5, 10.0, 0.25))
        lon = e.np.sort((e.real("lon0", -180, 180) + step * e.np.arange(n) + 180) % 360 - 180)
        e.assume((e.np.diff(lon) > 1e-6).all())
        lat0 = e.choice("lat0", (80.0, 40.5, 0.0))
        lat = lat0 - e.choice("dlat", (10.0, 2.5)) * e.np.arange(m)
        at = lambda nm, xs, lo, hi: min(hi, max(lo, float(xs[e.int(nm + "#", 0, len(xs) - 1)]) + e.choice(nm + "+", (0.0, 0.0, 1.25, -1.25, 30.0, -30.0))))
        w, ea, s, no = at("west", lon, -180.0, 180.0), at("east", lon, -180.0, 180.0), at("south", lat, -80.0, 80.0), at("north", lat, -80.0, 80.0)
    e.assume(e.and_(s < no, e.not_(e.eq(w, ea))))
    t = e.time("t")
    if not e.is_sym():
        t = t.replace(minute=0, second=0)
    group = e.choice("group", ("states", "fluxes"))
    names = STATES + FLUX
    vals = {k: e.array(k, (m, n)) for k in (GROUPS[group] if e.is_sym() else names)}
    in_lat = lambda i: e.and_(e.at(lat, i) >= s, e.at(lat, i) <= no)
    crosses = bool(w > ea)
    in_lon = lambda j: (e.or_ if crosses else e.and_)(e.at(lon, j) >= w, e.at(lon, j) <= ea)
    cs = {"latitude": lat, "longitude": lon}
    if e.is_sym():      # ghost coordinates: which row and column an entry comes from
        cs.update(row=(("latitude",), e.build((m,), lambda i: i, "i")), column=(("longitude",), e.build((n,), lambda j: j, "i")))
    src = e.ds({k: (D2, e.snapshot(v)) for k, v in vals.items()}, coords=cs)
    text = str(e.bbox(w, s, ea, no))
    if e.is_sym():
        got = e.fn(TR + "io:select_subdomain")(src, text)
    else:
        rows, cols = [i for i in range(m) if in_lat(i)], [j for j in range(n) if in_lon(j)]
        fol = e.scratch_path("in")
        e.make_dir(fol)
        d = src.expand_dims(time=e.np.array([t, t + datetime.timedelta(days=400)]))
        d.to_netcdf(fol / f"{t.strftime('%Y-%m-%d')}_fluxes_storages.nc")
        cfg = e.config(preprocessed_data_folder=fol, input_frequency="1h", tracking_domain=e.bbox(w, s, ea, no), calendar="standard")
        raised, got = e.raises(lambda: e.fn(TR + "io:load_data")(t, cfg, group))
        if not cols or not rows:
            return                  # nothing inside: there is nothing to keep
        e.check(f"the domain can be loaded ({got if raised else ''})", not raised)
        order = sorted(cols, key=lambda j: ((lon[j] - w) % 360)) if crosses else cols
        e.check("exactly the rows inside, in their order", list(got.latitude.values) == [lat[i] for i in rows])
        e.check("exactly the columns inside, from west to east", list(got.longitude.values) == [lon[j] for j in order])
        for k in GROUPS[group]:
            e.check(f"{k}: original values", got[k].dims == D2 and (got[k].values == vals[k][e.np.ix_(rows, order)]).all())
        return
    glat, glon, row, col = (got[k] for k in ("latitude", "longitude", "row", "column"))
    gm, gn = e.shape(glat)[0], e.shape(glon)[0]
    C, R = (lambda k: e.at(col, k)), (lambda k: e.at(row, k))
    e.forall("only columns inside, with their longitude", (gn,), lambda k: e.and_(
        C(k) >= 0, C(k) < n, in_lon(C(k)), e.eq(e.at(glon, k), e.at(lon, C(k)))))
    e.forall("only rows inside, with their latitude", (gm,), lambda k: e.and_(
        R(k) >= 0, R(k) < m, in_lat(R(k)), e.eq(e.at(glat, k), e.at(lat, R(k)))))
    e.forall("every column inside", (n,), lambda j: e.implies(in_lon(j), lambda: e.found(j, gn, lambda k: e.eq(C(k), j))))
    e.forall("every row inside", (m,), lambda i: e.implies(in_lat(i), lambda: e.found(i, gm, lambda k: e.eq(R(k), i))))
    west = lambda k: e.at(lon, C(k)) >= w
    # from west to east: each column is east of the one before it, or the first one beyond the date line
    if crosses:
        e.forall("columns before the date line come first", (gn, gn), lambda k, q: e.implies(e.and_(k < q, west(q)), lambda: west(k)))
    e.forall("columns from west to east", (gn, gn), lambda k, q: e.implies(
        e.and_(k < q, e.iff(west(k), west(q))), lambda: C(k) < C(q)))
    e.forall("rows in their order", (gm, gm), lambda k, q: e.implies(k < q, lambda: R(k) < R(q)))
    for k in GROUPS[group]:
        v = got[k]
        e.check(f"{k}: dimensions", tuple(v.dims) == D2)
        e.shape_is(f"{k}: shape", v, (gm, gn))
        e.forall(f"{k}: original values", (gm, gn), lambda i, j: e.eq(e.at(v, i, j), e.at(vals[k], R(i), C(j))))


# ---------------------------------------------------------------- I05
def clip(poly, x0, y0, x1, y1):
    """Sutherland-Hodgman clipping of a polygon against a box (exact for convex polygons, and in area for simple ones)."""
    def side(p, f, cut):
        out = []
        for a, b in zip(p, p[1:] + p[:1]):
            fa, fb = f(a), f(b)
            if fa >= 0:
                out.append(a)
            if (fa >= 0) != (fb >= 0):
                s = fa / (fa - fb)
                out.append((a[0] + s * (b[0] - a[0]), a[1] + s * (b[1] - a[1])))
        return out
    for f in (lambda p: p[0] - x0, lambda p: x1 - p[0], lambda p: p[1] - y0, lambda p: y1 - p[1]):
        poly = side(poly, f, None)
        if not poly:
            return []
    return poly


def area(p):
    return abs(sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(p, p[1:] + p[:1]))) / 2 if p else 0.0


def write_shapefile(path, rings, more=()):
    import shapefile
    with shapefile.Writer(str(path)) as w:
        w.field("name", "C")
        for k, rs in enumerate([rings] + list(more)):
            w.poly([list(r) + [r[0]] for r in rs])
            w.record(str(k))


@harness("I05", cases=150, sym=False, maxdim=7, bounded_reason="polygon intersection is done by shapely")
def shapefile_region(e):
    """Weights are the covered fraction of every cell, on the grid of the data."""
    m, n = e.dim("M", 2, 8), e.dim("N", 2, 8)
    dlat, dlon = e.choice("dlat", (0.25, 0.5, 1.0, 2.0)), e.choice("dlon", (0.25, 0.5, 1.0, 2.0))
    lat = e.choice("lat0", (-3.0, 40.0, 51.5)) + dlat * e.np.arange(m)
    lon = e.choice("lon0", (-4.0, 0.0, 5.25, 100.0)) + dlon * e.np.arange(n)
    kind = e.choice("shape", ("box", "triangle", "quad", "hole", "two parts", "small", "everything", "edge aligned"))
    X = lambda k: float(lon[0] - 0.5 * dlon + e.int(k, -8, 8 * n + 8) / 8 * dlon)
    Y = lambda k: float(lat[0] - 0.5 * dlat + e.int(k, -8, 8 * m + 8) / 8 * dlat)
    cx, cy = X("cx"), Y("cy")
    more, holes, parts_ = [], [], []
    if kind == "triangle":
        ring = [(X("x1"), Y("y1")), (X("x2"), Y("y2")), (X("x3"), Y("y3"))]
    elif kind == "quad":       # convex: points on an ellipse
        a, b, ph = e.choice("a", (0.3, 1.0, 2.2)) * dlon, e.choice("b", (0.3, 1.0, 2.2)) * dlat, e.int("phase", 0, 7)
        ring = [(cx + a * math.cos(k * math.pi * 2 / 5 + ph), cy + b * math.sin(k * math.pi * 2 / 5 + ph)) for k in range(5)]
    elif kind == "small":
        ring = [(cx, cy), (cx + dlon / 16, cy), (cx + dlon / 16, cy + dlat / 32), (cx, cy + dlat / 32)]
    elif kind == "everything":
        ring = [(lon[0] - 5 * dlon, lat[0] - 5 * dlat), (lon[-1] + 5 * dlon, lat[0] - 5 * dlat), (lon[-1] + 5 * dlon, lat[-1] + 5 * dlat), (lon[0] - 5 * dlon, lat[-1] + 5 * dlat)]
    elif kind == "edge aligned":
        i, j = e.int("i", 0, m - 1), e.int("j", 0, n - 1)
        i2, j2 = e.int("i2", i, m - 1), e.int("j2", j, n - 1)
        ring = [(lon[j] - dlon / 2, lat[i] - dlat / 2), (lon[j2] + dlon / 2, lat[i] - dlat / 2), (lon[j2] + dlon / 2, lat[i2] + dlat / 2), (lon[j] - dlon / 2, lat[i2] + dlat / 2)]
    else:
        x2, y2 = X("x2"), Y("y2")
        x0, x1, y0, y1 = min(cx, x2), max(cx, x2), min(cy, y2), max(cy, y2)
        e.assume(x1 > x0 and y1 > y0)
        ring = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
        if kind == "hole":
            u, v = (x1 - x0) / 4, (y1 - y0) / 4
            holes = [[(x0 + u, y0 + v), (x1 - u, y0 + v), (x1 - u, y1 - v), (x0 + u, y1 - v)]]
        if kind == "two parts":
            gap = (x1 - x0) + dlon / 2
            parts_ = [[(x + gap, y) for x, y in ring]]
    e.assume(area(ring) > 1e-6)
    ccw = lambda r: r if sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(r, r[1:] + r[:1])) > 0 else r[::-1]
    cw = lambda r: ccw(r)[::-1]
    shp = e.scratch_path("region.shp")
    if e.bool("further polygons"):
        more = [[[(lon[0], lat[0]), (lon[0], lat[-1] + 3.0), (lon[-1] + 3.0, lat[-1] + 3.0)]]]
    write_shapefile(shp, [cw(ring)] + [cw(p) for p in parts_] + [ccw(h) for h in holes], more)
    order = e.choice("order", ("down", "up", "down, east first"))
    glat = lat if order == "up" else lat[::-1]
    glon = lon[::-1] if order == "down, east first" else lon
    pre = e.scratch_path("pre")
    e.make_dir(pre)
    dims = ("time",) + D2
    t0 = e.time("t")
    ds = e.xr.Dataset({"s_upper": (dims, e.np.ones((1, m, n)))}, coords=dict(time=[t0], latitude=glat, longitude=glon))
    ds["precip"] = ds["s_upper"]
    ds.to_netcdf(pre / "2001-01-01_fluxes_storages.nc")
    out = e.scratch_path("out")
    e.make_dir(out)
    cfg = e.config(tagging_region=shp, preprocessed_data_folder=pre, tracking_domain=None, output_folder=out)
    load = e.fn(TR + "io:load_tagging_region")
    raised, r = e.raises(lambda: load(cfg))
    full = (lon[0] - dlon / 2, lat[0] - dlat / 2, lon[-1] + dlon / 2, lat[-1] + dlat / 2)
    if raised and not sum(area(clip(p, *full)) for p in [ring] + parts_) > 0:
        return              # nothing of the region on the grid: an error is as good as zero everywhere
    e.check(f"the region can be made ({r if raised else ''})", not raised)
    if raised:
        return
    r = r.to_numpy() if hasattr(r, "to_numpy") else e.np.asarray(r)
    e.check("on the grid of the data", r.shape == (m, n))
    if r.shape != (m, n):
        return
    for i in range(m):
        for j in range(n):
            box = (glon[j] - dlon / 2, glat[i] - dlat / 2, glon[j] + dlon / 2, glat[i] + dlat / 2)
            f = sum(area(clip(p, *box)) for p in [ring] + parts_) - sum(area(clip(h, *box)) for h in holes)
            f /= dlat * dlon
            e.check("weight is the covered fraction of the cell", abs(r[i, j] - f) <= 1e-7)
            e.check("weights between zero and one", 0 <= r[i, j] <= 1 + 1e-12)
