"""T01, T02, T03: donor-cell transport, conservation, staggering."""
from pyvc.contract import harness, stub

CORE = "wam2layers.tracking.core"
GRID = "wam2layers.utils.grid"


# ---------------------------------------------------------------- specification functions
def west_face(e, s, u, i, j, n, per):
    """Amount carried eastward through the west face of cell (i, j)."""
    if per:
        west = lambda: e.at(s, i, e.ite(j == 0, lambda: n - 1, lambda: j - 1))
        f = e.at(u, i - 1, j)
        return f * e.ite(f > 0, west, lambda: e.at(s, i, e.ite(j == n, lambda: 0, lambda: j)))
    f = e.at(u, i - 1, j - 1)
    return f * e.ite(f > 0, lambda: e.at(s, i, j - 1), lambda: e.at(s, i, j))


def gx(e, s, u, i, j, m, n, per):
    """Eastward transport through the west face of (i, j), 0 <= j <= n; nothing through closed edges."""
    inner_row = e.and_(i >= 1, i <= m - 2)
    if per:
        return e.ite(inner_row, lambda: west_face(e, s, u, i, j, n, per), 0)
    return e.ite(e.and_(inner_row, j >= 1, j <= n - 1), lambda: west_face(e, s, u, i, j, n, per), 0)


def gy(e, s, v, i, j, m, n, per):
    """Northward transport through the north face of (i, j), 0 <= i <= m (latitude decreasing:
    the cell north of row i is row i-1)."""
    col = True if per else e.and_(j >= 1, j <= n - 2)

    def carried():
        f = e.at(v, i - 1, j if per else j - 1)
        return f * e.ite(f > 0, lambda: e.at(s, i, j), lambda: e.at(s, i - 1, j))
    return e.ite(e.and_(col, i >= 1, i <= m - 1), carried, 0)


def hadv_at(e, s, u, v, i, j, m, n, per):
    return (gx(e, s, u, i, j, m, n, per) - gx(e, s, u, i, j + 1, m, n, per)
            + gy(e, s, v, i + 1, j, m, n, per) - gy(e, s, v, i, j, m, n, per))


def setup(e, per, same_edge=False, nan=False):
    m, n = e.dim("M", 3), e.dim("N", 3)
    s = e.array("s", (m, n), nan=nan)
    u = e.array("u", (m - 2, n + 1 if per else n - 1))
    if same_edge:
        # the west and the east edge are one face: both columns hold its flux (T03)
        u_ = e.snapshot(u)
        u = e.build((m - 2, n + 1), lambda i, j: e.at(u_, i, e.ite(j == n, lambda: 0, lambda: j)))
    v = e.array("v", (m - 1, n if per else n - 2))
    return m, n, s, u, v


# ---------------------------------------------------------------- contracts
def advection(e, per):
    f = e.fn(CORE + ":horizontal_advection")
    m, n, s, u, v = setup(e, per)
    s0, u0, v0 = e.snapshot(s), e.snapshot(u), e.snapshot(v)
    r = f(s, u, v, per) if per else f(s, u, v)
    e.shape_is("result has the shape of the field", r, (m, n))
    e.forall("tendency = inflow minus outflow over the four faces", (m, n),
             lambda i, j: e.eq(e.at(r, i, j), hadv_at(e, s0, u0, v0, i, j, m, n, per)))
    e.same("field unmodified", s, s0)
    e.same("eastward fluxes unmodified", u, u0)
    e.same("northward fluxes unmodified", v, v0)


@harness("T01", support=("T02", "T12"))
def horizontal_advection_closed(e):
    """Donor-cell upwind transport with closed edges."""
    advection(e, False)


@harness("T01", support=("T02", "T12"))
def horizontal_advection_periodic(e):
    """Donor-cell upwind transport with periodic west-east boundary."""
    advection(e, True)


def frame(e, per):
    f = e.fn(CORE + ":horizontal_advection")
    m, n, s, u, v = setup(e, per, nan=True)
    s0, u0, v0 = e.snapshot(s), e.snapshot(u), e.snapshot(v)
    r = f(s, u, v, per)
    e.shape_is("result has the shape of the field", r, (m, n))
    e.same("field unmodified, missing values included", s, s0)
    e.same("eastward fluxes unmodified", u, u0)
    e.same("northward fluxes unmodified", v, v0)


@harness("T01")
def advection_frame_closed(e):
    """Nothing is modified, also where values are missing."""
    frame(e, False)


@harness("T01")
def advection_frame_periodic(e):
    """Nothing is modified, also where values are missing; periodic."""
    frame(e, True)


@stub("horizontal_advection", CORE + ":horizontal_advection",
      ["horizontal_advection_closed", "horizontal_advection_periodic"])
def hadv_stub(e):
    def horizontal_advection(s, u, v, periodic_x=False):
        per = bool(periodic_x)
        m, n = e.shape(s)
        e.shape_is("call of horizontal_advection: shape of u", u, (m - 2, n + 1 if per else n - 1))
        e.shape_is("call of horizontal_advection: shape of v", v, (m - 1, n if per else n - 2))
        s, u, v = e.snapshot(s), e.snapshot(u), e.snapshot(v)
        return e.build((m, n), lambda i, j: hadv_at(e, s, u, v, i, j, m, n, per))
    return horizontal_advection


def conservation(e, per):
    """The specification telescopes: partial sums over columns (rows) are differences of face
    transports, so the total is the difference of the outermost faces, which is zero."""
    m, n, s, u, v = setup(e, per, same_edge=per)
    i = e.int("row", 0)
    e.assume(i < m)
    j = e.int("col", 0)
    e.assume(j < n)
    # induction over columns for P(k): sum_{j<k} (gx(i,j) - gx(i,j+1)) == gx(i,0) - gx(i,k)
    k = e.int("k", 0)
    e.assume(k < n)
    acc = e.real("acc")
    e.assume(acc == gx(e, s, u, i, 0, m, n, per) - gx(e, s, u, i, k, m, n, per))
    e.check("column sum: base", e.eq(0, gx(e, s, u, i, 0, m, n, per) - gx(e, s, u, i, 0, m, n, per)))
    e.check("column sum: step", e.eq(
        acc + gx(e, s, u, i, k, m, n, per) - gx(e, s, u, i, k + 1, m, n, per),
        gx(e, s, u, i, 0, m, n, per) - gx(e, s, u, i, k + 1, m, n, per)))
    e.check("column sum: the outermost faces cancel", e.eq(gx(e, s, u, i, 0, m, n, per), gx(e, s, u, i, n, m, n, per)))
    # the same over rows
    e.check("row sum: outermost faces carry nothing", e.and_(
        e.eq(gy(e, s, v, 0, j, m, n, per), 0), e.eq(gy(e, s, v, m, j, m, n, per), 0)))
    r = e.int("r", 0)
    e.assume(r < m)
    acc2 = e.real("acc2")
    e.assume(acc2 == gy(e, s, v, r, j, m, n, per) - gy(e, s, v, 0, j, m, n, per))
    e.check("row sum: step", e.eq(
        acc2 + gy(e, s, v, r + 1, j, m, n, per) - gy(e, s, v, r, j, m, n, per),
        gy(e, s, v, r + 1, j, m, n, per) - gy(e, s, v, 0, j, m, n, per)))


@harness("T02", con=False)
def conservation_closed(e):
    """Telescoping induction of the donor-cell specification, closed edges."""
    conservation(e, False)


@harness("T02", con=False)
def conservation_periodic(e):
    """Telescoping induction of the donor-cell specification, periodic boundary."""
    conservation(e, True)


def total(e, per):
    f = e.fn(CORE + ":horizontal_advection")
    m, n, s, u, v = setup(e, per, same_edge=per)
    r = f(s, u, v, per)
    e.check("tendencies sum to zero", e.eq(e.sum2(m, n, lambda i, j: e.at(r, i, j)), 0, scale=1e3))


@harness("T02", sym=False, bounded_reason="replay form of the telescoping lemma")
def total_closed(e):
    total(e, False)


@harness("T02", sym=False, bounded_reason="replay form of the telescoping lemma")
def total_periodic(e):
    total(e, True)


# ---------------------------------------------------------------- T03
def stagx_at(e, f, i, j, n, per):
    """West face j of (row i of the result, i.e. grid row i+1)."""
    if per:
        return (e.at(f, i + 1, e.ite(j == 0, lambda: n - 1, lambda: j - 1))
                + e.at(f, i + 1, e.ite(j == n, lambda: 0, lambda: j))) / 2
    return (e.at(f, i + 1, j) + e.at(f, i + 1, j + 1)) / 2


def stagy_at(e, f, i, j, per):
    c = j if per else j + 1
    return (e.at(f, i, c) + e.at(f, i + 1, c)) / 2


def stagger(e, which, per):
    m, n = e.dim("M", 3), e.dim("N", 3)
    f = e.array("f", (m, n))
    f0 = e.snapshot(f)
    g = e.fn(GRID + ":stagger_" + which)
    r = g(f, per) if per else g(f)
    if which == "x":
        sh = (m - 2, n + 1 if per else n - 1)
        spec = lambda i, j: stagx_at(e, f0, i, j, n, per)
    else:
        sh = (m - 1, n if per else n - 2)
        spec = lambda i, j: stagy_at(e, f0, i, j, per)
    e.shape_is("one value per face", r, sh)
    e.forall("face flux is the mean of the two adjacent cells", sh, lambda i, j: e.eq(e.at(r, i, j), spec(i, j)))
    e.same("input unmodified", f, f0)


for _w in "xy":
    for _p in (False, True):
        def _h(e, _w=_w, _p=_p):
            stagger(e, _w, _p)
        _h.__doc__ = f"stagger_{_w}, periodic={_p}"
        harness("T03", support=("T12",), name=f"stagger_{_w}_{'periodic' if _p else 'closed'}")(_h)


@stub("stagger_x", GRID + ":stagger_x", ["stagger_x_closed", "stagger_x_periodic"])
def sx_stub(e):
    def stagger_x(fx, periodic_x=False):
        per = bool(periodic_x)
        m, n = e.shape(fx)
        f = e.snapshot(fx)
        return e.build((m - 2, n + 1 if per else n - 1), lambda i, j: stagx_at(e, f, i, j, n, per))
    return stagger_x


@stub("stagger_y", GRID + ":stagger_y", ["stagger_y_closed", "stagger_y_periodic"])
def sy_stub(e):
    def stagger_y(fy, periodic_x=False):
        per = bool(periodic_x)
        m, n = e.shape(fy)
        f = e.snapshot(fy)
        return e.build((m - 1, n if per else n - 2), lambda i, j: stagy_at(e, f, i, j, per))
    return stagger_y
