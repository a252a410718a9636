"""T12: on a periodic domain a rotation of the inputs by one column rotates the results by one column.
Any rotation is an iterate of this one."""
from pyvc.contract import harness, stub
from contracts.t_core import CORE, D2, FLUXES, setup_fz
from contracts.t_grid import GRID
from contracts.t_step import Step, ACCS
from contracts.t_transport import setup


def rot(e, j, n):
    return e.ite(j + 1 >= n, lambda: j + 1 - n, lambda: j + 1)


def turned(e, a, m, n):
    """The field whose column j is column j+1 of the original."""
    a = e.snapshot(a)
    return e.build((m, n), lambda i, j: e.at(a, i, rot(e, j, n)))


def faces(e, u, m, n):
    """West faces 0..n (the last one is the first one again) after the rotation."""
    u = e.snapshot(u)
    return e.build((m, n + 1), lambda i, j: e.at(u, i, e.ite(j == n, lambda: 1, lambda: j + 1)))


def same_turned(e, label, r, orig, m, n):
    e.forall(label, (m, n), lambda i, j: e.eq(e.at(r, i, j), e.at(orig, i, rot(e, j, n)), scale=10))


@harness("T12", stubs=("stagger_x", "stagger_y"))
def rotate_stagger(e):
    """Rotated fluxes give rotated face fluxes; the seam is one face."""
    m, n = e.dim("M", 3), e.dim("N", 3)
    f = e.array("f", (m, n))
    g = turned(e, f, m, n)
    sx, sy = e.fn(GRID + ":stagger_x"), e.fn(GRID + ":stagger_y")
    a, b = sx(f, True), sx(g, True)
    e.shape_is("one eastward face flux per face", a, (m - 2, n + 1))
    e.forall("first and last face are the same", (m - 2,), lambda i: e.eq(e.at(a, i, 0), e.at(a, i, n)))
    e.forall("rotated eastward face fluxes", (m - 2, n), lambda i, j: e.eq(e.at(b, i, j), e.at(a, i, j + 1)))
    same_turned(e, "rotated northward face fluxes", sy(g, True), sy(f, True), m - 1, n)


@harness("T12", stubs=("horizontal_advection",))
def rotate_advection(e):
    """Rotated field and face fluxes give the rotated tendency."""
    m, n, s, u, v = setup(e, True, same_edge=True)
    f = e.fn(CORE + ":horizontal_advection")
    a = f(s, u, v, True)
    b = f(turned(e, s, m, n), faces(e, u, m - 2, n), turned(e, v, m - 1, n), True)
    same_turned(e, "rotated tendency", b, a, m, n)


@harness("T12", stubs=("divergence",))
def rotate_divergence(e):
    """Rotated fluxes give the rotated divergence."""
    m, n = e.dim("M", 2), e.dim("N", 2)
    fx, fy = e.array("fx", (m, n)), e.array("fy", (m, n))
    div = e.fn(CORE + ":divergence")
    a = div(fx, fy, True)
    b = div(turned(e, fx, m, n), turned(e, fy, m, n), True)
    same_turned(e, "rotated divergence", b, a, m, n)


@stub("rel_divergence", CORE + ":divergence", ["rotate_divergence"])
def rel_div(e):
    def divergence(fx, fy, periodic_x=False):
        need_periodic(e, periodic_x)
        m, n = e.shape(fx)
        return related(e, "divergence", [fx, fy], [cell(e, n), cell(e, n)], (m, n), lambda r: r, lambda r: turned(e, r, m, n))
    return divergence


@harness("T12", stubs=("get_grid_info", "rel_divergence"))
def rotate_fz(e):
    """Rotated inputs give the rotated vertical flux."""
    m, n, F, S0, S1, f, s0, s1 = setup_fz(e, True)
    dt, kvf = e.int("timestep", 1, 86400), e.real("kvf", 0, 10)
    fz = e.fn(CORE + ":calculate_fz")
    co = {"latitude": F["latitude"], "longitude": F["longitude"]}
    mk = lambda d: e.ds({k: (D2, turned(e, v, m, n)) for k, v in d.items()}, coords={k: e.snapshot(v) for k, v in co.items()})
    a = fz(F, S0, S1, dt, kvf, True)
    if e.is_sym():
        e.memory["turned"] = True
    b = fz(mk(f), mk(s0), mk(s1), dt, kvf, True)
    same_turned(e, "rotated vertical flux", b, e.snapshot(a), m, n)


# ---------------------------------------------------------------- relational contracts of the callees
# The whole step is verified against the rotation contracts proved above: in the first run a callee
# returns arbitrary results; in the run on rotated inputs it returns the rotated results of the call
# whose arguments these are the rotation of (an obligation).
def related(e, name, args, relations, shape, first, second):
    mem = e.memory.setdefault(name, [])
    if not e.memory.get("turned"):
        k = len(mem)
        r = first(e.array(f"{name}{k}", shape))
        mem.append(([e.snapshot(a) for a in args], r))
        return e.snapshot(r)
    now = [e.snapshot(a) for a in args]

    def rel(old, q):
        return [(e.shape(now[p]), lambda i, j, p=p: e.eq(e.at(now[p], i, j), relations[p](old[p], i, j))) for p in range(len(now))][q]
    pick = None
    for old, r in mem:
        if all(e.trivially(*rel(old, q)) for q in range(len(now))):
            pick = (old, r)
            break
    if pick is None:
        k = e.memory.setdefault(name + "#", 0)
        pick = mem[min(k, len(mem) - 1)]
    e.memory[name + "#"] = e.memory.get(name + "#", 0) + 1
    for q in range(len(now)):
        R, f = rel(pick[0], q)
        e.forall(f"argument {q} of {name} is the rotated one", R, f)
    return second(pick[1])


def cell(e, n):
    return lambda a, i, j: e.at(a, i, rot(e, j, n))


def face(e, n):
    return lambda a, i, j: e.at(a, i, e.ite(j == n, lambda: 1, lambda: j + 1))


def ring(e, n):
    """Face array whose last column is its first one."""
    def f(a):
        return e.build((e.shape(a)[0], n + 1), lambda i, j: e.at(a, i, e.ite(j == n, lambda: 0, lambda: j)))
    return f


def need_periodic(e, p):
    if not bool(p):
        e.check("periodic boundary passed on", e.truth(False))


@stub("rel_stagger_x", GRID + ":stagger_x", ["rotate_stagger"])
def rel_sx(e):
    def stagger_x(fx, periodic_x=False):
        need_periodic(e, periodic_x)
        m, n = e.shape(fx)
        return related(e, "stagger_x", [fx], [cell(e, n)], (m - 2, n + 1), ring(e, n), lambda r: faces(e, r, m - 2, n))
    return stagger_x


@stub("rel_stagger_y", GRID + ":stagger_y", ["rotate_stagger"])
def rel_sy(e):
    def stagger_y(fy, periodic_x=False):
        need_periodic(e, periodic_x)
        m, n = e.shape(fy)
        return related(e, "stagger_y", [fy], [cell(e, n)], (m - 1, n), lambda r: r, lambda r: turned(e, r, m - 1, n))
    return stagger_y


@stub("rel_advection", CORE + ":horizontal_advection", ["rotate_advection"])
def rel_ha(e):
    def horizontal_advection(s, u, v, periodic_x=False):
        need_periodic(e, periodic_x)
        m, n = e.shape(s)
        u_ = e.snapshot(u)
        e.forall("first and last face are the same", (m - 2,), lambda i: e.eq(e.at(u_, i, 0), e.at(u_, i, n)))
        return related(e, "horizontal_advection", [s, u, v], [cell(e, n), face(e, n), cell(e, n)], (m, n),
                       lambda r: r, lambda r: turned(e, r, m, n))
    return horizontal_advection


REL = ("get_grid_info", "rel_stagger_x", "rel_stagger_y", "rel_advection", "vertical_advection", "vertical_dispersion")


def rotate_step(e, d):
    s = Step(e, d, True)
    z = Step.__new__(Step)
    z.__dict__.update(s.__dict__)
    z.A = {k: turned(e, v, s.m, s.n) for k, v in s.A.items()}
    s.run()
    if e.is_sym():
        e.memory["turned"] = True
    z.run()
    for k in ("s_track_upper_restart", "s_track_lower_restart") + ACCS[d]:
        same_turned(e, f"rotated {k}", z.out[k], e.snapshot(s.out[k]), s.m, s.n)


@harness("T12", stubs=REL)
def rotate_forward(e):
    """Rotated inputs give the rotated outcome of a forward step."""
    rotate_step(e, "forward")


@harness("T12", stubs=REL)
def rotate_backward(e):
    """Rotated inputs give the rotated outcome of a backward step."""
    rotate_step(e, "backward")
