"""Discharging obligations: normal forms, linear abstraction (z3), case splitting, NRA (z3, cvc5)."""
from __future__ import annotations
import itertools, time
from fractions import Fraction
import z3
from . import terms as T
from .terms import Poly, Atom, Bool, TRUE, FALSE, Unsupported

z3.set_param("smt.random_seed", 1)


class Z3T:
    """Translate terms to z3.  abstract=True: nonlinear monomials become fresh variables."""

    def __init__(self, abstract, ack=False):
        self.abstract, self.ack = abstract, ack
        self.side = []          # side constraints
        self.ma, self.mm, self.mb = {}, {}, {}
        self.mp = {}
        self.funcs = {}
        self.apps = {}          # name -> list[(args, z3var)]
        self.atomvars = {}      # z3 const name -> atom
        self.k = itertools.count()

    def fresh(self, sort, hint="t"):
        n = f"{hint}!{next(self.k)}"
        return z3.Int(n) if sort == "I" else z3.Real(n)

    def atom(self, a):
        r = self.ma.get(a.id)
        if r is None:
            r = self._atom(a)
            self.ma[a.id] = r
        return r

    def _atom(self, a):
        if a.kind == "var":
            return z3.Int(a.name) if a.sort == "I" else z3.Real(a.name)
        if a.kind == "app":
            if self.ack:
                v = self.fresh(a.sort, a.name)
                lst = self.apps.setdefault(a.name, [])
                for args2, v2 in lst:
                    conds = []
                    distinct = False
                    for x, y in zip(a.args, args2):
                        c = T.eq(x, y)
                        if c is FALSE:
                            distinct = True
                            break
                        if c is not TRUE:
                            conds.append(c)
                    if not distinct:
                        lhs = z3.And([self.bool(c) for c in conds]) if conds else z3.BoolVal(True)
                        self.side.append(z3.Implies(lhs, v == v2))
                lst.append((a.args, v))
                return v
            sig = (a.name, tuple(x.isint for x in a.args), a.sort)
            f = self.funcs.get(sig)
            if f is None:
                doms = [z3.IntSort() if i else z3.RealSort() for i in sig[1]]
                f = z3.Function(a.name + "".join("i" if i else "r" for i in sig[1]), *doms,
                                z3.IntSort() if a.sort == "I" else z3.RealSort())
                self.funcs[sig] = f
            return f(*[self.num(x) for x in a.args])
        if a.kind == "ite":
            c, x, y = a.args
            if a.sort == "I":
                return z3.If(self.bool(c), self.num(x), self.num(y))
            return z3.If(self.bool(c), self.real(x), self.real(y))
        if a.kind == "floor":
            v = self.fresh("I", "fl")
            x = self.real(a.args[0])
            self.side.append(z3.And(z3.ToReal(v) <= x, x < z3.ToReal(v) + 1))
            return v
        if a.kind == "inv":
            v = self.fresh("R", "inv")
            if not self.abstract:
                d = self.real(a.args[0])
                self.side.append(z3.Or(d == 0, v * d == 1))
            return v
        if a.kind == "sum":
            return self.fresh("R", "sum")
        if a.kind == "let":
            return self.fresh("R", "let")
        raise Unsupported(a.kind)

    def invatom(self, a):
        key = ("inv", a.id)
        r = self.ma.get(key)
        if r is None:
            r = self.fresh("R", "inv")
            self.ma[key] = r
            d = self.atomr(a)
            if not self.abstract:
                self.side.append(z3.Or(d == 0, r * d == 1))
        return r

    def atomr(self, a):
        v = self.atom(a)
        return z3.ToReal(v) if v.is_int() else v

    def num(self, p):
        if p.isint:
            return self._sum(p, True)
        return self.real(p)

    def real(self, p):
        return self._sum(p, False)

    def _sum(self, p, asint):
        key = (p.id, asint)
        r = self.mp.get(key)
        if r is not None:
            return r
        ts = []
        for m, c in p.d.items():
            t = self.mono(m, asint)
            if asint:
                cv = z3.IntVal(int(c))
            else:
                cv = z3.RealVal(str(c))
            if t is None:
                ts.append(cv)
            elif c == 1:
                ts.append(t)
            else:
                ts.append(cv * t)
        if not ts:
            r = z3.IntVal(0) if asint else z3.RealVal(0)
        elif len(ts) == 1:
            r = ts[0]
        else:
            r = z3.Sum(ts)
        self.mp[key] = r
        return r

    def mono(self, m, asint):
        if not m:
            return None
        if len(m) == 1 and m[0][1] == 1:
            v = self.atom(m[0][0])
            if not asint and v.is_int():
                v = z3.ToReal(v)
            return v
        if self.abstract:
            key = tuple((a.id, e) for a, e in m)
            r = self.mm.get(key)
            if r is None:
                allint = all(a.sort == "I" and e > 0 for a, e in m)
                r = self.fresh("I" if allint else "R", "mono")
                self.mm[key] = r
            if not asint and r.is_int():
                return z3.ToReal(r)
            return r
        t = None
        for a, e in m:
            if asint:
                v = self.atom(a)
            else:
                v = self.atomr(a) if e > 0 else self.invatom(a)
            for _ in range(abs(e)):
                t = v if t is None else t * v
        return t

    def bool(self, b):
        r = self.mb.get(b.id)
        if r is None:
            r = self._bool(b)
            self.mb[b.id] = r
        return r

    def _bool(self, b):
        k = b.kind
        if k == "true":
            return z3.BoolVal(True)
        if k == "false":
            return z3.BoolVal(False)
        if k in ("ge", "gt", "eq"):
            p = b.args[0]
            v = self.num(p)
            z = z3.IntVal(0) if v.is_int() else z3.RealVal(0)
            return v >= z if k == "ge" else (v > z if k == "gt" else v == z)
        if k == "not":
            return z3.Not(self.bool(b.args[0]))
        if k == "and":
            return z3.And([self.bool(x) for x in b.args])
        if k == "or":
            return z3.Or([self.bool(x) for x in b.args])
        if k == "bvar":
            return z3.Bool(b.args[0])
        if k == "bapp":
            key = (b.args[0], tuple(x.isint for x in b.args[1:]))
            f = self.funcs.get(key)
            if f is None:
                doms = [z3.IntSort() if i else z3.RealSort() for i in key[1]]
                f = z3.Function(b.args[0], *doms, z3.BoolSort())
                self.funcs[key] = f
            return f(*[self.num(x) for x in b.args[1:]])
        raise Unsupported(k)


class Result:
    def __init__(self, status, stage, model=None, reason=""):
        self.status, self.stage, self.model, self.reason = status, stage, model, reason

    def __repr__(self):
        return f"{self.status}@{self.stage}"


class Prover:
    def __init__(self, timeout_ms=8000, nra_ms=20000):
        self.timeout_ms, self.nra_ms = timeout_ms, nra_ms
        self.facts = {}      # app name -> [fn(args)->Bool]
        self.varfacts = {}   # var name -> Bool
        self.hyps = []       # global hypotheses
        self.solver_time = 0.0
        self.queries = 0
        self.ent_memo, self.q_memo = {}, {}
        self.backend = {}
        self.quants = ()
        self._qcache = {}
        self.cur_quants = ()

    # ---- facts on ground applications
    def instantiate(self, terms, rounds=2):
        out, seen = [], set()
        work = list(terms)
        for _ in range(rounds):
            new = []
            for a in T.atoms_of(*work):
                if a.id in seen:
                    continue
                seen.add(a.id)
                if any(v.name.startswith("#") for v in a.fv):
                    continue
                if a.kind == "app":
                    for f in self.facts.get(a.name, ()):
                        b = f(a.args)
                        if b is not None and b is not TRUE:
                            new.append(b)
                elif a.kind == "var":
                    b = self.varfacts.get(a.name)
                    if b is not None:
                        new.append(b)
            for b in T.bools_of(*work):
                if b.kind == "bapp" and ("b", b.id) not in seen:
                    seen.add(("b", b.id))
                    for f in self.facts.get(b.args[0], ()):
                        r = f(b.args[1:])
                        if r is not None and r is not TRUE:
                            new.append(r)
            if not new:
                break
            out += new
            work = new
        return out

    def _check(self, tr, bs, timeout, nra=False, want_model=False):
        s = z3.SolverFor("QF_UFNIRA") if False else z3.Solver()
        s.set("timeout", timeout)
        zs = [tr.bool(b) for b in bs]
        done = 0
        s.add(*zs)
        s.add(*tr.side)
        t0 = time.time()
        r = s.check()
        self.solver_time += time.time() - t0
        self.queries += 1
        return r, s

    def lin(self, bs, timeout=None):
        """Linear-abstraction satisfiability of a conjunction: 'unsat' or 'maybe'."""
        key = frozenset(b.id for b in bs)
        hit = self._qcache.get(key)
        if hit is not None:
            return hit
        if any(b is FALSE for b in bs):
            return "unsat"
        tr = Z3T(abstract=True)
        r, _ = self._check(tr, bs, timeout or self.timeout_ms)
        res = "unsat" if r == z3.unsat else "maybe"
        self._qcache[key] = res
        return res

    def entails_quick(self, hyps, goal, quants=()):
        """Cheap check used for branch decisions and shapes."""
        if goal is TRUE:
            return True
        if goal is FALSE:
            return False
        hs = self.hyps + list(hyps)
        hs = self.relevant(hs, goal)
        key = (frozenset(h.id for h in hs), goal.id, len(self.facts), len(self.varfacts), len(T.POS), len(T.NONNEG))
        known = self.ent_memo.get(key)
        if known is None:
            h0 = hs + self.instantiate(hs + [goal])
            known = self.ent_memo[key] = self.lin(h0 + [T.not_(goal)], 3000) == "unsat"
        if known or not quants:
            return known
        hs = hs + self.inst_quants(quants, hs + [goal])
        hs = hs + self.instantiate(hs + [goal])
        return self.lin(hs + [T.not_(goal)], 3000) == "unsat"

    # ---- quantified facts (forall integers), instantiated at the index terms that occur
    def inst_quants(self, quants, terms, cap=60):
        quants = list(quants)
        if not quants:
            return []
        out, seen = [], set()
        work = list(terms)
        for _ in range(2):
            c1, c2, c3 = {}, {}, {}
            for a in T.atoms_of(*(work + out)):
                if any(v.name.startswith("#") for v in a.fv):
                    continue
                if a.kind == "var" and a.sort == "I":
                    c1[T.atom_poly(a).id] = T.atom_poly(a)
                elif a.kind == "app":
                    ii = [x for x in a.args if x.isint]
                    for x in ii:
                        if len(x.d) <= 4:
                            c1[x.id] = x
                    if len(ii) >= 2:
                        for x, y in zip(ii, ii[1:]):
                            c2[(x.id, y.id)] = (x, y)
                        for t in zip(ii, ii[1:], ii[2:]):
                            c3[tuple(x.id for x in t)] = t
            for b in T.bools_of(*(work + out)):
                if b.kind == "bapp" and not any(v.name.startswith("#") for v in b.fv):
                    ii = [x for x in b.args[1:] if x.isint]
                    for x in ii:
                        c1[x.id] = x
                    if len(ii) >= 2:
                        for x, y in zip(ii, ii[1:]):
                            c2[(x.id, y.id)] = (x, y)
                        for t in zip(ii, ii[1:], ii[2:]):
                            c3[tuple(x.id for x in t)] = t
            own = set()             # those of the goal first
            for a in T.atoms_of(terms[-1]):
                own |= {T.atom_poly(a).id} if a.kind == "var" else {x.id for x in a.args if isinstance(x, Poly)} if a.kind == "app" else set()
            ones = sorted(c1.values(), key=lambda x: (x.id not in own, len(x.d), x.id))[:cap]
            vs = [x for x in ones if len(x.d) == 1 and x.const() is None]
            pairs = list(c2.values())[:cap * 3]
            if len(vs) <= 10:
                pairs += [(x, y) for x in vs for y in vs if (x.id, y.id) not in c2]
            byname = {}
            for tt in (terms[-1:], terms):      # two arguments of a function of the goal, those in the goal first
                for a in T.atoms_of(*tt):
                    if a.kind == "app" and len(a.args) == 1 and a.args[0].isint and not any(v.name.startswith("#") for v in a.fv):
                        if tt is not terms or a.name in byname:
                            byname.setdefault(a.name, {})[a.args[0].id] = a.args[0]
            for xs in byname.values():
                xs = list(xs.values())[:8]
                pairs += [(x, y) for x in xs for y in xs if x is not y]
            n0 = len(out)
            firsts = {}
            if any(len(q) > 2 for q in quants):
                for a in T.atoms_of(*(work + out)):
                    if a.kind == "app" and a.args and a.args[0].isint and not any(v.name.startswith("#") for v in a.fv):
                        firsts.setdefault((a.name, a.args[1:]), {})[a.args[0].id] = a.args[0]
            for qi, q in enumerate(quants):
                ar, fn = q[:2]
                if len(q) > 2:
                    xs = [list(firsts.get(f, {}).values())[:16] for f in q[2]]
                    insts = [(x,) for x in xs[0]] if ar == 1 else [(x, y) for x in xs[0] for y in xs[-1] if x is not y]
                else:
                    insts = [(x,) for x in ones] if ar == 1 else pairs if ar == 2 else list(c3.values())[:cap * 3] if ar == 3 else []
                for t in insts:
                    key = (qi, tuple(x.id for x in t))
                    if key in seen:
                        continue
                    seen.add(key)
                    mk = (fn, key[1])
                    b = self.q_memo.get(mk)
                    if b is None:
                        b = self.q_memo[mk] = fn(*t)
                    if b is not TRUE:
                        out.append(b)
            if len(out) == n0:
                break
        return out

    def relevant(self, hs, goal):
        return [h for h in hs if h is not TRUE]

    def cone(self, hs, goal):
        """The hypotheses connected to the goal through shared terms (any subset of the hypotheses is sound)."""
        own = [(h, {a.id for a in T.atoms_of(h)} | {b.id for b in T.bools_of(h) if b.kind in ("bapp", "bvar")}) for h in hs]
        have = {a.id for a in T.atoms_of(goal)} | {b.id for b in T.bools_of(goal) if b.kind in ("bapp", "bvar")}
        out = []
        while True:
            new = [(h, ids) for h, ids in own if ids & have]
            if not new:
                return out
            own = [(h, ids) for h, ids in own if not ids & have]
            for h, ids in new:
                out.append(h)
                have |= ids

    def cheap(self, hyps, goal, quants=()):
        """Linear reasoning and equal arguments only."""
        hs = self.hyps + list(hyps)
        hs = hs + self.inst_quants(quants, hs + [goal])
        hs = hs + self.instantiate(hs + [goal])
        for g in goal.args if goal.kind == "and" else [goal]:
            if self.lin(hs + [T.not_(g)], 1500) != "unsat":
                g = self._merge_args(hs, g)
                if g is not TRUE and self.lin(hs + [T.not_(g)], 1500) != "unsat":
                    return False
        return True

    # ---- main entry
    def prove(self, hyps, goal, nra=True, quants=()):
        """Returns Result: proved / sat / unknown."""
        hyps = list(hyps)
        simple = [q for q in quants if len(q) > 2 and q[0] == 1]
        if simple and goal is not TRUE and len(simple) < len(quants):      # ranges of positions alone
            hs = self.hyps + hyps
            hs = hs + self.inst_quants(simple, hs + [goal])
            hs = hs + self.instantiate(hs + [goal])
            if self.lin(hs + [T.not_(goal)], 1500) == "unsat":
                self.backend["z3-linear"] = self.backend.get("z3-linear", 0) + 1
                return Result("proved", "z3-linear")
        if quants and goal is not TRUE:
            hyps = hyps + self.inst_quants(quants, self.hyps + hyps + [goal])
        goals = list(goal.args) if goal.kind == "and" else [goal]
        last = Result("proved", "normal-form")
        prev = []
        # order: simple (nan flags) first; each may assume the previous ones
        goals.sort(key=lambda g: (g.kind == "eq", g.id))
        for g in goals:
            old, self.quants = self.quants, quants
            try:
                r = self._prove1(list(hyps) + prev, g, nra)
            finally:
                self.quants = old
            if r.status != "proved":
                return r
            if r.stage != "normal-form":
                last = r
            prev.append(g)
        self.backend[last.stage] = self.backend.get(last.stage, 0) + 1
        return last

    def _prove1(self, hyps, goal, nra):
        if goal is TRUE:
            return Result("proved", "normal-form")
        hs = self.hyps + list(hyps)
        if goal.kind == "eq" and self._poly_zero(goal.args[0]):
            return Result("proved", "normal-form")
        inst = self.instantiate(hs + [goal])
        allh = [h for h in hs + inst if h is not TRUE]
        if any(a.kind == "sum" for a in T.atoms_of(goal)):
            g2 = self._known_conditions(allh, goal)
            if g2 is not goal:
                if g2 is TRUE:
                    return Result("proved", "normal-form")
                goal = g2
                flat = [u for h in allh for u in (h.args if h.kind == "and" else (h,))]
                allh = [self._known_conditions(allh, h) if h.kind == "eq" and any(a.kind == "sum" for a in T.atoms_of(h)) else h for h in flat]
                allh = [h for h in allh if h is not TRUE]
        if goal.kind == "eq" and any(a.kind == "sum" for a in T.atoms_of(goal.args[0])):
            r = self._sum_rule(hyps, goal.args[0])
            if r is not None and r.status == "proved":
                return r
        ms = 1500 if goal.kind == "eq" else None
        defs = T.let_defs(goal, *allh)
        if self.lin(allh + [T.not_(goal)], ms) == "unsat":
            return Result("proved", "z3-linear")
        if defs:
            if self.lin(allh + defs + [T.not_(goal)], ms) == "unsat":
                return Result("proved", "z3-linear")
        if goal.kind == "eq":
            g2 = self._merge_args(allh, goal)
            if g2 is TRUE or g2.kind == "eq" and self._poly_zero(g2.args[0]):
                return Result("proved", "z3-linear")
            if g2.kind == "eq":
                goal = g2
            if self._split_eq(allh, goal.args[0], 0, time.time() + (15 if defs else 60)):
                return Result("proved", "case-split+normal-form")
            if defs:
                g2 = T.expand(goal)
                if g2 is TRUE:
                    return Result("proved", "normal-form")
                if g2.kind == "eq" and (self._poly_zero(g2.args[0]) or self._split_eq([T.expand(h) for h in allh], g2.args[0], 0, time.time() + 60)):
                    return Result("proved", "case-split+normal-form")
        if goal.kind == "or" and self._under_premises(hyps, allh, goal, nra):
            return Result("proved", "case-split+normal-form")
        if not nra:
            return Result("unknown", "linear")
        # full nonlinear; first with the hypotheses that share something with the goal
        near = self.cone(allh + defs, goal)
        if len(near) < len(allh) + len(defs):
            tr = Z3T(abstract=False, ack=True)
            try:
                r, s = self._check(tr, near + [T.not_(goal)], self.nra_ms // 4)
                if r == z3.unsat:
                    return Result("proved", "z3-nra")
                if nra == "near":
                    return Result("unknown", "z3-nra")
            except Unsupported:
                pass
        if defs:
            tr = Z3T(abstract=False, ack=True)
            try:
                r, s = self._check(tr, allh + [T.not_(goal)], self.nra_ms // 2)
                if r == z3.unsat:
                    return Result("proved", "z3-nra")
            except Unsupported:
                pass
        tr = Z3T(abstract=False, ack=True)
        try:
            r, s = self._check(tr, allh + defs + [T.not_(goal)], self.nra_ms)
        except Unsupported as e:
            return Result("unknown", "translate", reason=str(e))
        if r == z3.unsat:
            return Result("proved", "z3-nra")
        if r == z3.sat:
            return Result("sat", "z3-nra", model=(self._nice(s, tr), tr))
        # cvc5 fallback
        st = self._cvc5(s)
        if st == "unsat":
            return Result("proved", "cvc5")
        return Result("unknown", "z3-nra", reason=s.reason_unknown())

    def _under_premises(self, hyps, allh, goal, nra):
        """An implication with an equality as its conclusion: the conclusion, with the conditions that the
        premises settle replaced by their value everywhere in it, proved under the premises."""
        for k, concl in enumerate(goal.args):
            parts = list(concl.args) if concl.kind == "and" else [concl]
            if not any(g.kind == "eq" for g in parts):
                continue
            pre = [T.not_(g) for i, g in enumerate(goal.args) if i != k]
            val = {}
            for h in allh + pre:
                for u in [h] + (list(h.args) if h.kind == "and" else []):
                    if u.kind not in ("true", "false"):
                        val[u.id] = T.TRUE
                        val[T.not_(u).id] = T.FALSE
            rw = T.Rewriter(boolean=lambda b: val.get(b.id))
            new = [rw.bool(g) for g in parts]
            if all(a is b for a, b in zip(parts, new)):
                continue
            done = []
            for g in sorted(new, key=lambda g: (g.kind == "eq", g.id)):
                if self._prove1(list(hyps) + pre + done, g, nra).status != "proved":
                    break
                done.append(g)
            else:
                return True
        return False

    def _known_conditions(self, hyps, goal):
        """Conditions known to hold or to fail, replaced by their value, also inside sums."""
        val = {}
        for h in hyps:
            for u in (h.args if h.kind == "and" else (h,)):
                if u.kind not in ("or", "and", "true", "false"):
                    val[u.id] = TRUE
                    n = T.not_(u)
                    if n.kind not in ("or", "and", "true", "false"):
                        val[n.id] = FALSE
        inside = [a.args[0] for a in T.atoms_of(goal) if a.kind == "sum"]
        if not any(b.id in val for b in T.bools_of(*inside)):
            return goal

        def at(a):
            if a.kind != "sum":
                return None
            body = T.Rewriter(boolean=lambda b: val.get(b.id)).poly(a.args[0])
            if body is a.args[0]:
                return None
            rng = a.args[1:]
            return T.sum_over([(rng[2 * k], rng[2 * k + 1]) for k in range(len(a.name))],
                              lambda idx: T.subst_poly(body, dict(zip(a.name, idx))))
        return T.Rewriter(atom=at).bool(goal)

    def _nice(self, s, tr):
        """A countermodel with small extents and moderate values, if there is one."""
        m = s.model()
        s.set("timeout", 4000)
        for big, small in ((20, 5), (1000, 6), (10**6, 8)):
            s.push()
            for aid, v in tr.ma.items():
                if isinstance(aid, tuple) or v.num_args() or v.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                    continue
                if v.is_int():
                    s.add(v <= small, v >= -small)
                else:
                    s.add(v <= big, v >= -big)
            r = s.check()
            if r == z3.sat:
                m = s.model()
                s.pop()
                return m
            s.pop()
        return m

    def _cvc5(self, s):
        import subprocess
        smt = "(set-logic ALL)\n" + s.to_smt2()
        t0 = time.time()
        try:
            p = subprocess.run(["cvc5", "--tlimit=10000", "--nl-cov", "-"], input=smt, capture_output=True, text=True, timeout=12)
            return p.stdout.strip().split("\n")[0] if p.stdout.strip() else None
        except Exception:
            return None
        finally:
            self.solver_time += time.time() - t0

    # ---- equalities
    def _poly_zero(self, p):
        """Is p == 0 after clearing denominators (each non-zero by the definedness conditions)?"""
        for _ in range(6):
            if not p.d:
                return True
            mins = {}
            for m in p.d:
                for a, e in m:
                    if e < 0:
                        mins[a] = min(mins.get(a, 0), e)
                    elif a.kind == "inv":
                        mins[("inv", a)] = max(mins.get(("inv", a), 0), e)
            if not mins:
                return not p.d
            try:
                d = {}
                acc = T.ZERO
                dens = [(k[1], e) for k, e in mins.items() if isinstance(k, tuple)]
                negs = [(k, -e) for k, e in mins.items() if not isinstance(k, tuple)]
                for m, c in p.d.items():
                    md = dict(m)
                    t = T.const(c)
                    for a, e in negs:
                        md[a] = md.get(a, 0) + e
                        if md[a] == 0:
                            md.pop(a)
                    for a, e in dens:
                        have = md.pop(a, 0)
                        for _ in range(e - have):
                            t = t.mul(a.args[0])
                    base = Poly.of({tuple(sorted(md.items(), key=lambda x: x[0].id)): Fraction(1)}) if md else T.ONE
                    acc = acc.add(t.mul(base))
                p = acc
            except Unsupported:
                return False
        return not p.d

    def _split_eq(self, hyps, p, depth, deadline):
        """p == 0 under hyps by case analysis over the conditions of its conditionals; infeasible
        cases are pruned with an incremental linear solver, leaves are normal-form identities."""
        tr = Z3T(abstract=True)
        sol = z3.Solver()
        sol.set("timeout", 3000)
        sol.add(*[tr.bool(h) for h in hyps])
        done = [0]

        def flush():
            while done[0] < len(tr.side):
                sol.add(tr.side[done[0]])
                done[0] += 1

        def feasible(b):
            z = tr.bool(b)
            sol.push()
            # side constraints define fresh names: harmless to lose on pop, re-added when needed
            for x in tr.side:
                sol.add(x)
            sol.add(z)
            t0 = time.time()
            r = sol.check()
            self.solver_time += time.time() - t0
            self.queries += 1
            sol.pop()
            return r != z3.unsat

        def inner(c):
            return sum(1 for a in T.atoms_of(c) if a.kind == "ite")

        def rec(p, assumed, depth):
            if self._poly_zero(p):
                return True
            if depth > 60 or time.time() > deadline:
                return False
            cands = {}
            for a in T.atoms_of(p):
                if a.kind == "ite" and not any(v.name.startswith("#") for v in a.fv):
                    for leaf in self._leaves(a.args[0]):
                        cands[leaf] = cands.get(leaf, 0) + 1
            cl = sorted(cands, key=lambda c: (inner(c), not self._intlin(c), len(c.fv), -cands[c], c.id))
            if not cl:
                return self.lin(hyps + assumed + [T.not_(T.eq0(p))], 3000) == "unsat" or self._nra_leaf(hyps + assumed, p)
            c = cl[0]
            n = T.not_(c)
            pos, neg = feasible(c), feasible(n)
            for val, h, ok in ((True, c, pos), (False, n, neg)):
                if not ok:
                    continue
                q = self._assume(p, c, val)
                if pos and neg:
                    sol.push()
                    sol.add(tr.bool(h))
                    for x in tr.side:
                        sol.add(x)
                    r = rec(q, assumed + [h], depth + 1)
                    sol.pop()
                else:
                    r = rec(q, assumed, depth + 1)
                if not r:
                    return False
            return True
        return rec(p, [], 0)

    def _merge_args(self, hyps, goal):
        """Function arguments in the goal that are equal under the hypotheses are written the same way."""
        left = 60
        for _ in range(3):
            byname, mp = {}, {}
            for a in T.atoms_of(goal):
                if a.kind == "app" and a.args and all(x.isint for x in a.args) and not any(v.name.startswith("#") for v in a.fv):
                    byname.setdefault((a.name, len(a.args)), []).append(a)
            for atoms in byname.values():
                if not 1 < len(atoms) <= 12:
                    continue
                atoms.sort(key=lambda a: (sum(len(x.d) + len(T.atoms_of(T.ge0(x)) if x.const() is None else ()) for x in a.args), a.id))
                reps = []
                for a in atoms:
                    for b in reps:
                        diff = [(x, y) for x, y in zip(a.args, b.args) if x is not y]
                        if any(x.sub(y).const() not in (None, 0) for x, y in diff) or left <= 0:
                            continue
                        left -= 1
                        if all(self.lin(hyps + [T.not_(T.eq(x, y))], 1500) == "unsat" for x, y in diff):
                            mp[a] = T.atom_poly(b)
                            break
                    else:
                        reps.append(a)
            if not mp:
                return goal
            goal = T.Rewriter(atom=lambda a: mp.get(a)).bool(goal)
            if goal is TRUE:
                break
        return goal

    def _intlin(self, c):
        return c.kind in ("ge", "gt", "eq") and c.args[0].isint and all(len(m) <= 1 for m in c.args[0].d)

    def _nra_leaf(self, hyps, p):
        if len(p.d) > 40:
            return False
        tr = Z3T(abstract=False, ack=True)
        try:
            r, _ = self._check(tr, hyps + [T.not_(T.eq0(p))], 3000)
        except Unsupported:
            return False
        return r == z3.unsat

    def _leaves(self, b):
        if b.kind in ("and", "or", "not"):
            for x in b.args:
                yield from self._leaves(x)
        else:
            yield b

    def _assume(self, p, c, val):
        neg = T.not_(c)

        def fb(b):
            if b is c:
                return T.bconst(val)
            if b is neg:
                return T.bconst(not val)
            # x >= 0 / x > 0 under known sign
            if val and c.kind == "gt" and b.kind == "ge" and b.args[0] is c.args[0]:
                return TRUE
            if val and c.kind in ("gt",) and b.kind == "eq" and (b.args[0] is c.args[0] or b.args[0] is c.args[0].neg()):
                return FALSE
            return None
        return T.Rewriter(boolean=fb).poly(p)

    # ---- sums
    def _sum_rule(self, hyps, p):
        """Goal p == 0 with sums: merge all sums over ranges of the same arity into one body and
        show that it vanishes for every index (extensionality of finite sums)."""
        groups = {}
        rest = T.ZERO
        for m, c in p.d.items():
            sums = [(a, e) for a, e in m if a.kind == "sum"]
            if len(sums) == 0:
                rest = rest.add(Poly.of({m: c}))
                continue
            lone = [a for a, e in sums if e == 1]
            if len(lone) != 1:
                return None
            a = lone[0]
            others = tuple((x, e) for x, e in m if x is not a)
            groups.setdefault(len(a.name), []).append((Poly.of({others: c}) if others else T.const(c), a))
        if rest.d:
            return None
        stage = "sum-extensionality"
        for n, lst in groups.items():
            idx = [T.var(f"sk!{next(_sk)}", "I") for _ in range(n)]
            body = T.ZERO
            for coef, a in lst:
                b = T.subst_poly(a.args[0], dict(zip(a.name, idx)))
                rng = a.args[1:]
                g = []
                for k in range(n):
                    g.append(T.ge(idx[k], rng[2 * k]))
                    g.append(T.gt(rng[2 * k + 1], idx[k]))
                body = body.add(coef.mul(T.ite(T.and_(*g), b, T.ZERO)))
            goal = T.eq0(body)
            r = self._prove1(list(hyps), goal, not self.quants)
            if r.status != "proved" and self.quants:
                r = self._prove1(list(hyps) + self.inst_quants(self.quants, self.hyps + list(hyps) + [goal]), goal, True)
            if r.status != "proved":
                return r
        return Result("proved", stage)


_sk = itertools.count()
