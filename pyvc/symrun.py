"""Runs one contract symbolically and discharges its obligations."""
import time, traceback
from fractions import Fraction
import z3
from . import terms as T, values as V, prover as P, env as E
from .terms import TRUE, FALSE, Unsupported


def run(h, stubs, source=None, nra_ms=20000, deadline=None):
    """Result dictionary of one harness."""
    t0 = time.time()
    pr = P.Prover(nra_ms=nra_ms)
    T.POS.clear()
    T.NONNEG.clear()
    default_facts(pr)
    c = V.Ctx(pr)
    c.max_paths = h.paths
    models = h.models() if callable(h.models) else None
    transforms = h.loops() if callable(h.loops) else None
    env = E.SymEnv(h, stubs, models=models, source=source, transforms=transforms)
    out = dict(harness=h.name, status="proved", obligations=[], paths=0, functions=[], stubbed=[], error=None, bounded=False)
    vac = []
    raised = []

    def body():
        env.begin()
        try:
            h.fn(env)
        except (Unsupported, V.PathEnd, V.Infeasible):
            raise
        except RecursionError as ex:
            import os; os.environ.get("VC_TB") and traceback.print_exc(limit=-40)
            raise Unsupported("recursion")
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            where = f"{tb[-1].filename}:{tb[-1].lineno}"
            raised.append((list(c.pc), repr(ex)[:300], where))
            if isinstance(ex, (TypeError, AttributeError, NameError, AssertionError)) and "/repo/" not in tb[-1].filename:
                raise Unsupported(f"{ex!r} at {where}")
            c.oblige(f"no exception ({type(ex).__name__} at {where}: {str(ex)[:120]})", FALSE, exc=True)
            return
        finally:
            vac.append(list(c.pc))

    try:
        out["paths"] = V.explore(c, body)
    except Unsupported as ex:
        out["status"], out["error"] = "unsupported", str(ex)[:400]
        tb = traceback.extract_tb(ex.__traceback__)
        src = [f for f in tb if "/wam2layers/" in f.filename]
        if src:
            out["error"] += f" (at {src[-1].filename.split('/wam2layers/')[-1]}:{src[-1].lineno})"
        out["functions"], out["stubbed"] = sorted(env.functions), sorted(env.stubbed)
        out["time"] = time.time() - t0
        return out
    out["functions"], out["stubbed"] = sorted(env.functions), sorted(env.stubbed)
    out["hashes"] = dict(env.loader.hashes)
    seen = {}
    for ob in c.obligations:
        key = (ob.label, ob.goal.id, frozenset(b.id for b in ob.hyps))
        if key in seen:
            continue
        seen[key] = ob
    for ob in seen.values():
        t1 = time.time()
        if deadline and t1 > deadline:
            out["obligations"].append(dict(label=ob.label, status="unknown", stage="time limit", time=0))
            out["status"] = "failed"
            continue
        r2 = None
        try:
            if ob.meta.get("known"):
                # a recorded finding: the main obligation gets little time once the recorded form is proved
                o2 = ob.meta["alt"]
                r2 = pr.prove(o2.hyps, o2.goal, quants=o2.quants)
                if r2.status == "proved":
                    pr.nra_ms = min(4000, nra_ms)
            r = pr.prove(ob.hyps, ob.goal, quants=ob.quants)
            pr.nra_ms = nra_ms
        except Unsupported as ex:
            r = P.Result("unknown", "translate", reason=str(ex))
        rec = dict(label=ob.label, status=r.status, stage=r.stage, time=round(time.time() - t1, 3))
        if ob.meta.get("exc"):
            rec["exc"] = True
        if r.status == "sat":
            rec["table"] = table_of(*r.model)
            rec["goal"] = repr(ob.goal)[:1500]
        elif r.status != "proved":
            rec["reason"] = r.reason
            rec["goal"] = repr(ob.goal)[:1500]
        if r.status != "proved" and ob.meta.get("known"):
            if r2 is not None and r2.status == "proved":
                rec.update(status="known", known=ob.meta["known"], alt_stage=r2.stage)
                out["obligations"].append(rec)
                continue
        out["obligations"].append(rec)
        if r.status != "proved":
            out["status"] = "failed"
    if not out["obligations"]:
        out["status"], out["error"] = "unsupported", "no obligation generated"
    # vacuity: the hypotheses of at least one completed path must not be contradictory
    if out["status"] == "proved":
        ok = False
        for pc in vac[:6]:
            r = pr.prove(pc, FALSE, nra=True)
            if r.status != "proved":
                ok = True
                break
        if not ok:
            out["status"], out["error"] = "unsupported", "contradictory precondition (vacuous)"
    out["solver_time"] = round(pr.solver_time, 3)
    out["queries"] = pr.queries
    out["backends"] = dict(pr.backend)
    out["time"] = round(time.time() - t0, 3)
    return out


def default_facts(pr):
    pr.varfacts["PI"] = T.and_(T.gt(T.var("PI"), T.const(Fraction(314159, 100000))), T.gt(T.const(Fraction(31416, 10000)), T.var("PI")))
    pr.facts["cos"] = [lambda a: T.and_(T.ge(T.app("cos", a), T.const(-1)), T.ge(T.ONE, T.app("cos", a)))]
    pr.facts["sin"] = [lambda a: T.and_(T.ge(T.app("sin", a), T.const(-1)), T.ge(T.ONE, T.app("sin", a)))]
    pr.facts["exp"] = [lambda a: T.gt0(T.app("exp", a))]


def _val(m, v):
    x = m.eval(v, model_completion=True)
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
    if z3.is_algebraic_value(x):
        return float(x.approx(20).as_fraction())
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return None


def table_of(m, tr):
    """Concrete inputs described by a countermodel."""
    tab = {}
    for aid, v in list(tr.ma.items()):
        if isinstance(aid, tuple):
            continue
        if v.decl().kind() == z3.Z3_OP_UNINTERPRETED and v.num_args() == 0:
            n = v.decl().name()
            if n.startswith(("!", "t!", "fl!", "inv!", "sum!", "mono!")):
                continue
            tab.setdefault(n, _val(m, v))
    for name, lst in tr.apps.items():
        ent = []
        for args, v in lst:
            try:
                idx = [_val(m, tr.num(a)) for a in args]
            except Exception:
                continue
            if all(isinstance(i, int) for i in idx):
                ent.append([idx, _val(m, v)])
        tab[name] = {"at": ent}
    for bid, v in tr.mb.items():
        if z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            tab[v.decl().name()] = _val(m, v)
        elif z3.is_app(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED and v.num_args():
            idx = [_val(m, a) for a in v.children()]
            nm = v.decl().name()
            if nm.endswith("?nan"):
                if _val(m, v):
                    tab.setdefault(nm[:-4], {"at": []}).setdefault("nan", []).append(idx)
            elif all(isinstance(i, int) for i in idx):
                tab.setdefault(nm, {"at": []})["at"].append([idx, _val(m, v)])
    return {k: v for k, v in tab.items() if v is not None and ("!" not in k or "=" in k)}
