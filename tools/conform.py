#!/usr/bin/env python3-vt
"""Conformance of the library models with the libraries (the models are an assumption of the checks; run after changes to
pyvc/).  Two parts:

  calls      each snippet of SNIPPETS is executed on the models (python3-vt) and on the real numpy and xarray (/opt/venv),
             with the same concrete arrays; results must agree in shape, in missing values and in every number.
  contracts  every proved contract is executed with concrete inputs on the models, without stubs and loop contracts; every
             obligation must evaluate to true (on the real libraries the same obligations are evaluated by check.py).
             Contracts whose preparation of concrete inputs uses calls that are not modelled are reported as skipped.

  python3-vt tools/conform.py [-n SEEDS] [calls] [HARNESS ...]
"""
import sys, os, json, subprocess, math
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")


SNIPPETS = """
np.pad(A, pad_width=((0, 0), (1, 1)), mode="wrap")
np.pad(A, 1, mode="constant", constant_values=0)
np.pad(A, ((1, 1), (0, 0)), mode="constant", constant_values=0)
np.pad(A, ((1, 1), (0, 0)), mode="edge")
np.where(A > 0, A, 2 * A)
np.gradient(A, axis=-1)
np.gradient(A, axis=0)
np.diff(A, axis=1)
np.diff(V)
np.roll(A, 2, axis=1)
np.roll(A, -1, axis=0)
np.minimum(A, 1.0)
np.maximum(0, A)
np.fmin(N, 1.0)
np.minimum(N, 1.0)
np.sign(A)
np.abs(A)
A / B
Z / Z
np.sqrt(B)
np.clip(A, -1, 1)
A[1:-1, :-1]
A[::-1, 1]
A[:, None, 2]
A[A > 0].sum()
A[[2, 0]]
A[:, [3, 0, 1]]
A[np.array([0, 1, 2]), np.array([2, 1, 0])]
A.T
A.flatten()
A.ravel()
A.reshape(-1, 1)
np.moveaxis(C, 1, 0)
np.flip(A, axis=0)
np.insert(C, 0, A, axis=0)
np.insert(C, 0, 0.0, axis=1)
np.insert(V, 0, -1)
np.take(C, 1, axis=0)
np.argsort(C, axis=0)
np.sort(V)
np.take_along_axis(C, np.argsort(C, axis=0), axis=0)
np.take_along_axis(C, np.argsort(C, axis=2), axis=2)
np.sum(C > 1, axis=0)
np.sum(A)
np.sum(A, axis=1)
np.mean(A)
np.cumsum(V)
A.min()
A.max(axis=1)
C.argmin(axis=0)
V.argmax()
(V >= 2).argmax()
np.any(A > 3)
np.all(A > 3)
np.median(V)
np.concatenate([A, 2 * A], axis=1)
np.hstack([V, V])
np.vstack([V, 2 * V])
np.stack([V, 2 * V], axis=1)
np.block([V[0], V, V[-1]])
np.repeat(V, 2)
np.hstack([A[:, -1:], A, A[:, :1]])
np.block([[A, 2 * A], [3 * A, A]])
np.block([A, A])
np.column_stack([V, V])
np.vstack([A, A])
A.reshape(1, 3, 4)
V.reshape(-1, 1)
V.reshape(1, -1)
V.reshape(-1, 1).ravel()
np.cumsum(C, axis=0)
np.fmax(N, 1.0)
np.fmin(1.0, N)
np.nansum(N)
np.sort(C, axis=0)
A.astype(int)
np.ones_like(A, dtype=bool)
np.zeros((2, 3))
np.full((2, 2), 7.0)
np.arange(2, 7)
np.meshgrid(np.arange(3), np.arange(2), indexing="ij")[0]
np.broadcast_to(V, (2, 5))
np.isnan(N)
np.nansum(N)
np.searchsorted(np.sort(V), 2.0)
np.interp(1.5, np.arange(5), V)
(V + 180) % 360 - 180
-7.5 // 2
X.values
X + X[0]
X.isel(lat=0) + X.isel(lon=1)
X.sel(lat=20)
X.sel(lat=slice(30, 20))
X.sel(lon=slice(1, 3))
X.sel(lon=[3, 1])
X.sel(lon=2.2, method="nearest")
X.sel(lon=X.lon > 1)
X.isel(lon=slice(None, None, 2))
X.transpose("lon", "lat")
X.sortby("lat")
X.sortby("lat").lat
X.sortby("lon", ascending=False)
X.roll(lon=-1, roll_coords=True)
X.roll(lon=-1, roll_coords=True).lon
X.roll(lon=1, roll_coords=False).lon
X.diff("lat")
X.diff("lat").lat
X.sum("lat")
X.sum()
X.mean("lon")
X.where(X > 0)
X.where(X > 0, 5)
X.where(X > 0).sum("lat")
X.where(X > 0).fillna(0)
X.isnull()
X.max()
X.clip(0, 1)
(X < 0).sum() / (X < 0).count() * 100
xr.where(X > 0, 1, 0)
xr.where(X.values > 0, 1, X.values)
X.interp(lon=[0.5, 2.5])
X.expand_dims("time")
X.squeeze()
X.isel(lat=[0]).squeeze()
X.broadcast_like(Y)
Y.broadcast_like(X)
X.assign_coords(lon=[5, 6, 7, 8])
X.assign_coords(lon=[5, 6, 7, 8]).lon
X.rename(lon="x").x
X.drop_vars("lon")
X.astype("float32")
X.copy(deep=True)
X.get_axis_num("lon")
np.maximum(X, 0)
np.abs(X)
X * np.cos(np.deg2rad(X.lat)) * 0
X * B
B * X
xr.concat([X, 2 * X], dim="lat")
xr.concat([X, 2 * X], dim="lat").lat
(X + X.isel(lon=slice(1, None)))
(X + X.isel(lon=slice(1, None))).lon
D["a"] + D.b
(D * 2).a
(D + D).b
(D - D / 2).b
D.sel(lon=slice(1, 2)).a
D.sortby("lat").b
D.isel(lat=1).a
D[["a"]].a
D.sum().b
D.diff("lon").a
D.interp(lon=[0.5]).a
D.drop_vars("b").a
D.where(D.a > 0).b
D.roll(lon=1, roll_coords=True).a
D.expand_dims("time").a
D.astype("float32").a
(D["a"] * D.lat).transpose("lat", "lon")
"""

ARRAYS = """
A = np.array([[1.5, -2.0, 0.0, 4.0], [-1.0, 0.5, 3.0, -0.25], [2.0, 2.0, -5.0, 7.0]])
B = np.array([[4.0, 0.25, 1.0, 9.0], [1.0, 16.0, 2.25, 0.25], [1.0, 1.0, 4.0, 4.0]])
Z = np.array([0.0, 0.0])
V = np.array([3.0, 1.0, 4.0, 1.5, 9.0])
N = np.array([1.0, np.nan, -3.0])
C = np.array([[[3.0, 1.0, 2.0, 8.0], [5.0, 4.0, 9.0, 2.0], [1.0, 0.0, 7.0, 3.5]], [[2.0, 6.0, 1.0, 0.5], [4.0, 7.0, 3.0, 1.0], [8.0, 2.5, 6.0, 4.5]]])
X = xr.DataArray(A, coords={"lat": [30.0, 20.0, 10.0], "lon": [0.0, 1.0, 2.0, 3.0]}, dims=["lat", "lon"], name="x")
Y = xr.DataArray(C, coords={"level": [1, 2], "lat": [30.0, 20.0, 10.0], "lon": [0.0, 1.0, 2.0, 3.0]}, dims=["level", "lat", "lon"])
D = xr.Dataset({"a": X, "b": X.isel(lat=0, drop=True) * 2})
"""

REAL = """
import json, sys, warnings
warnings.simplefilter("ignore")
import numpy as np, xarray as xr
arrays, snippets = json.load(sys.stdin)
env = dict(np=np, xr=xr)
np.seterr(all="ignore")
exec(arrays, env)
out = []
for s in snippets:
    try:
        a = np.asarray(eval(s, env)).astype(float)
        out.append([list(a.shape), [repr(float(x)) for x in a.ravel()]])
    except Exception as ex:
        out.append(repr(ex)[:200])
print(json.dumps(out))
"""


def number(x):
    """Value of a number without free variables (None where it has any)."""
    from pyvc import terms as T, values as V
    x = V.num(x)
    if x.nan is T.TRUE or x.bad is T.TRUE:
        return float("nan")
    k = x.p.const()
    return None if k is None or x.nan is not T.FALSE or x.bad is not T.FALSE else float(k)


def calls():
    import itertools
    from pyvc import env as E, values as V, prover as P, terms as T
    snippets = [s for s in SNIPPETS.strip().splitlines()]
    r = subprocess.run([PY, "-c", REAL], input=json.dumps([ARRAYS, snippets]), capture_output=True, text=True)
    real = json.loads(r.stdout)
    V.Ctx(P.Prover(nra_ms=1000))
    res = dict(agree=0, unmodelled=[], differ=[])
    for s, want in zip(snippets, real):
        c = V.Ctx(P.Prover(nra_ms=1000))
        got = {}

        def body():
            E.clear_memos()
            m = E.default_models()
            env = dict(np=m["numpy"], xr=m["xarray"])
            exec(ARRAYS, env)
            a = E.asnd(eval(s, env))
            shape = [int(d.const()) for d in a._shape]
            rd = a.reader()
            got["a"] = [shape, [number(rd(tuple(T.const(i) for i in t))) for t in itertools.product(*[range(n) for n in shape])]]
        try:
            V.explore(c, body)
        except Exception as ex:
            res["unmodelled"].append((s, f"{type(ex).__name__}: {str(ex)[:80]}"))
            continue
        if isinstance(want, str):
            res["differ"].append((s, want))
            continue
        g = got["a"]
        if g[0] == want[0] and any(x is None for x in g[1]):
            res["unmodelled"].append((s, "the result is not a number without free names"))
            continue
        if g[0] != want[0] or any(x is None or not close(x, float(y)) for x, y in zip(g[1], want[1])):
            res["differ"].append((s, f"{g} but {want}"[:300]))
            continue
        res["agree"] += 1
    print(f"calls: {res['agree']} of {len(snippets)} agree")
    for s, why in res["unmodelled"]:
        print("  not modelled:", s, "-", why)
    for s, why in res["differ"]:
        print("  DIFFERS:", s, "-", why)
    return bool(res["differ"])


def model_run(h, seed):
    from pyvc import contract, symrun, source, terms as T, values as V, prover as P, env as E
    pr = P.Prover(nra_ms=1000)
    T.POS.clear()
    T.NONNEG.clear()
    symrun.default_facts(pr)
    c = V.Ctx(pr)
    models = h.models() if callable(h.models) else None
    out = dict(count=0, failed=[], open=0, skip=None)
    state = {}

    def body():
        env = E.SymEnv(h, [], models=models, source=source.Random(seed, maxdim=h.maxdim))
        state["env"] = env
        env.begin()
        try:
            h.fn(env)
        except source.Skip:
            out["skip"] = "skip"
    try:
        paths = V.explore(c, body)
    except V.Infeasible:
        out["skip"] = "skip"
        return out
    except T.Unsupported as ex:
        out["skip"] = "unsupported: " + str(ex)[:150]
        return out
    out["paths"] = paths
    out["count"] = len(c.obligations)
    for o in c.obligations:
        g = T.and_(o.goal)
        if g is T.FALSE:
            out["failed"].append(o.label)
        elif g is not T.TRUE:
            out["open"] += 1
    return out


def close(a, b):
    if a is None:
        return True
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) == math.isnan(b)
    return abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))


def main():
    from pyvc import contract
    args = sys.argv[1:]
    n = 5
    if args[:1] == ["-n"]:
        n, args = int(args[1]), args[2:]
    contract.load_all()
    bad = calls() if not args or "calls" in args else False
    names = [a for a in args if a != "calls"] if args else [h.name for h in contract.HARNESSES.values() if h.sym and h.con]
    total = dict(held=0, skipped=0)
    for name in names:
        h = contract.HARNESSES[name]
        notes, held, obligations = [], 0, 0
        for s in range(n):
            try:
                m = model_run(h, s)
            except Exception as ex:
                m = dict(skip=f"{type(ex).__name__}: {str(ex)[:100]}")
            if m["skip"]:
                total["skipped"] += 1
                if m["skip"] != "skip":
                    notes.append(f"skipped: {m['skip']}")
            elif m["failed"]:
                bad = True
                notes.append(f"seed {s} FAILS: {m['failed'][:2]}")
            else:
                held += 1
                total["held"] += 1
                obligations += m["count"] - m["open"]
        print(f"{name}: {held} of {n} hold, {obligations} obligations evaluated", "; ".join(dict.fromkeys(notes))[:200], flush=True)
    print(f"contracts: {total}")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
