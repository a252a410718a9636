"""T04: geometry of the grid; the contract of get_grid_info used by every caller."""
from pyvc.contract import harness, stub

GRID = "wam2layers.utils.grid"
DG = 111089.56      # [m] one degree of latitude, as documented in the code
ERAD = 6.371e6      # [m]


def regular_grid(e, wrap):
    m, n = e.dim("M", 2), e.dim("N", 2)
    lat0, dlat = e.real("lat0", -90, 90), e.real("dlat", -30, 30)
    e.assume(e.not_(e.eq(dlat, 0)))
    last = lat0 + (m - 1) * dlat
    e.assume(e.and_(e.ge(last, -90), e.le(last, 90)))
    lon0, dlon = e.real("lon0", -180, 180), e.real("dlon", 0, 90, pos=True)
    lat = e.build((m,), lambda i: lat0 + i * dlat)
    if wrap:
        w = e.int("wrap_column", 1)
        e.assume(w < n)
        lon = e.build((n,), lambda j: lon0 + j * dlon - e.ite(j >= w, 360, 0))
    else:
        lon = e.build((n,), lambda j: lon0 + j * dlon)
    return m, n, lat0, dlat, lon0, dlon, lat, lon


def geometry(e, wrap):
    f = e.fn(GRID + ":get_grid_info")
    m, n, lat0, dlat, lon0, dlon, lat, lon = regular_grid(e, wrap)
    ds = e.ds({}, coords={"latitude": lat, "longitude": lon})
    a, dy, dx = f(ds)
    ad = e.abs(dlat)
    rad = lambda x: x * e.pi / 180

    def zone(i):
        c = lat0 + i * dlat
        north = e.min(c + ad / 2, 90)
        south = e.max(c - ad / 2, -90)
        return ERAD * ERAD * rad(dlon) * e.abs(e.fun("sin", rad(north)) - e.fun("sin", rad(south)))
    e.shape_is("one area per row", a, (m,))
    e.forall("area of the spherical zone segment, clipped at the poles", (m,), lambda i: e.eq(e.at(a, i), zone(i), scale=1e6))
    e.check("north-south side from the latitude spacing", e.eq(dy, ad * DG))
    e.shape_is("one east-west side per row", dx, (m, 1))

    def side(i):
        c = lat0 + i * dlat
        return DG * dlon * (e.fun("cos", rad(c + ad / 2)) + e.fun("cos", rad(c - ad / 2))) / 2
    e.forall("east-west side from the longitude spacing and the mean cosine of the bounding parallels", (m,),
             lambda i: e.eq(e.at(dx, i, 0), side(i), scale=1e4))
    e.same("latitudes unmodified", ds["latitude"], lat)
    e.same("longitudes unmodified", ds["longitude"], lon)


@harness("T04")
def grid_info(e):
    """Areas and sides of a regular grid."""
    geometry(e, False)


@harness("T04")
def grid_info_dateline(e):
    """Areas and sides of a regular grid whose longitudes jump at the date line."""
    geometry(e, True)


class Grid:
    """What callers know: per-row area > 0, north-south side > 0, per-row east-west side (a column)."""


@stub("get_grid_info", GRID + ":get_grid_info", ["grid_info", "grid_info_dateline"])
def grid_stub(e):
    def get_grid_info(ds):
        m = e.shape(ds["latitude"])[0]
        a = e.array("area", (m,), pos=True)
        dy = e.real("side_y", pos=True)
        dx = e.array("side_x", (m, 1))
        return a, dy, dx
    return get_grid_info
