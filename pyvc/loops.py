"""Loop contracts: every `while` loop of the named functions is executed for one arbitrary iteration.

    while TEST: BODY   becomes   for _ in L: <havoc names>; if not (TEST): L.exit(); break; BODY
    for X in SEQ: BODY else: E   becomes   for x in L: <havoc names>; X = x; BODY else: <havoc names>; E

where a `for` loop over anything but a sequence of symbolic length runs as it is.

TEST and BODY are the statements of the source.  What a loop-carried local looks like after k
iterations is inferred from the first iteration and then proved inductive: times and numbers
advance by a constant amount per iteration, everything else is unchanged after the first
iteration (a constant) or must not be read before it is assigned.
Objects that iterations modify are declared by the harness (`havoc`)."""
from __future__ import annotations
import ast, sys
from . import terms as T, values as V
from .terms import Unsupported
from .values import Num, SBool, Time, Delta, num


class Poison:
    """A local whose value at the loop head is not known."""
    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _no(self, *a, **k):
        raise Unsupported(f"loop-carried variable {object.__getattribute__(self, '_n')} read before assignment")
    __getattr__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __lt__ = __le__ = __gt__ = __ge__ = _no
    __bool__ = __call__ = __iter__ = __getitem__ = __setitem__ = __len__ = __contains__ = _no
    __eq__ = __ne__ = __and__ = __or__ = __iadd__ = __isub__ = _no
    __hash__ = None


class _Names(ast.NodeVisitor):
    def __init__(self):
        self.names = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def _scope(self, n):
        return None
    visit_FunctionDef = visit_Lambda = visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ClassDef = _scope


class _Tr(ast.NodeTransformer):
    def __init__(self):
        self.k = 0

    def visit_While(self, n):
        self.generic_visit(n)
        v = _Names()
        for s in n.body:
            v.visit(s)
        v.visit(n.test)
        names = sorted(v.names)
        lid = f"loop{self.k}@{n.lineno}"
        L = f"__vc_l{self.k}"
        self.k += 1
        parse = lambda s: ast.parse(s).body
        pre = parse(f"{L} = __vc_loop({lid!r}, {names!r})")
        head = []
        for x in names:
            head += parse(f"if {L}.has({x!r}): {x} = {L}.get({x!r})")
        test = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=parse(f"{L}.exit()") + list(n.orelse) + [ast.Break()], orelse=[])
        loop = ast.For(target=ast.Name(id="__vc_i", ctx=ast.Store()), iter=ast.Name(id=L, ctx=ast.Load()),
                       body=head + [test] + n.body, orelse=[])
        return pre + [loop]


    def visit_For(self, n):
        self.generic_visit(n)
        v = _Names()
        for s in n.body + [n.target]:
            v.visit(s)
        names = sorted(v.names)
        lid = f"loop{self.k}@{n.lineno}"
        L, x = f"__vc_l{self.k}", f"__vc_x{self.k}"
        self.k += 1
        parse = lambda s: ast.parse(s).body
        pre = ast.Assign(targets=[ast.Name(id=L, ctx=ast.Store())], value=ast.Call(
            func=ast.Name(id="__vc_for", ctx=ast.Load()),
            args=[ast.Constant(lid), ast.Constant(names), n.iter], keywords=[]))
        pre.value.args[1] = ast.List(elts=[ast.Constant(y) for y in names], ctx=ast.Load())
        head = lambda: [z for y in names for z in parse(f"if {L}.has({y!r}): {y} = {L}.get({y!r})")]
        take = ast.Assign(targets=[n.target], value=ast.Name(id=x, ctx=ast.Load()))
        loop = ast.For(target=ast.Name(id=x, ctx=ast.Store()), iter=ast.Name(id=L, ctx=ast.Load()),
                       body=head() + [take] + n.body, orelse=head() + list(n.orelse))
        return [pre, loop]


class Plain:
    """A `for` loop that runs as it is."""
    def __init__(self, seq):
        self.seq = seq

    def __iter__(self):
        return iter(self.seq)

    def has(self, n):
        return False


def transform(functions=None):
    """Loader transform turning the while loops of a module into contract loops."""
    def tr(tree):
        t = _Tr()
        for node in ast.walk(tree):
            if isinstance(node, ast.FunctionDef) and (functions is None or node.name in functions):
                node.body = [y for x in node.body for y in _as_list(t.visit(x))]
        return tree
    return tr


def _as_list(x):
    return x if isinstance(x, list) else [x]


IMMUT = (str, bool, int, float, type(None), tuple, frozenset, Num, SBool, Time, Delta)


class Loop:
    """driver: object with start(k), settle(k), havoc(k) and exit(k) callbacks (any may be missing)."""

    def __init__(self, env, lid, names, seq=None):
        self.env, self.lid, self.names, self.seq = env, lid, names, seq
        self.mode = None
        self.vals = {}
        self.k = None

    def __iter__(self):
        return self

    def _locals(self):
        f = sys._getframe(2)
        return {n: f.f_locals[n] for n in self.names if n in f.f_locals}

    def _mutables(self):
        """State an iteration could carry besides locals: containers, module variables, the configuration."""
        f = sys._getframe(2)
        plain = (int, float, str, bool, type(None), tuple)
        out = {}
        for scope, d in (("local", f.f_locals), ("global", f.f_globals)):
            for k, v in d.items():
                if k.startswith("__") or type(v) is Poison:
                    continue
                if isinstance(v, (list, dict, set, bytearray)) or scope == "global" and isinstance(v, plain):
                    out[scope, k] = repr(v)
                elif getattr(v, "_is_config", False):
                    out[scope, k] = sorted((a, id(b)) for a, b in vars(v).items())
        return out

    def _cb(self, name, *a):
        f = getattr(self.env.loop_driver, name, None)
        if f is not None:
            f(*a)

    def __next__(self):
        env = self.env
        if env.loop_driver is None:
            raise Unsupported(f"{self.lid}: loop without a contract")
        now = self._locals()
        if self.mode is None:
            self.entry = now
            self.outer = {k: v for k, v in self._mutables().items() if k[1] not in self.names}
            probe = env.persist.get(self.lid)
            mode = env.choice(self.lid + " iteration", ("first", "arbitrary") if self.seq is None else ("first", "arbitrary", "none", "after"))
            if mode == "none":
                env.assume(num(self.seq.n) <= 0)
                self.mode = mode
                self._cb("exit", num(0))
                raise StopIteration
            if mode == "first":
                self.mode, self.k, self.vals = "first", 0, {}
                if self.seq is not None:
                    env.assume(num(self.seq.n) >= 1)
                self._cb("start", num(0))
                return self if self.seq is None else self.seq.at(num(0))
            if probe is None:
                raise Unsupported(f"{self.lid}: the first iteration never completes")
            k = env.int(self.lid + " k", 1)
            self.mode, self.k = mode, k
            if self.seq is not None:
                env.assume(num(self.seq.n) > k if mode == "arbitrary" else env.eq(num(self.seq.n), k))
            self.vals = {}
            for n in self.names:
                kind, c = probe.get(n, ("unbound", None))
                if n not in self.entry and kind != "const":
                    self.vals[n] = Poison(n)
                elif kind == "advance":
                    self.vals[n] = self._adv(self.entry[n], c, k)
                elif kind == "same":
                    self.vals[n] = self.entry[n]
                elif kind == "const":
                    self.vals[n] = c
                else:
                    self.vals[n] = Poison(n)
            self._cb("havoc", k)
            if mode == "after":
                self._cb("exit", k)
                raise StopIteration
            self._cb("start", k)
            return self if self.seq is None else self.seq.at(k)
        after = self._mutables()
        for k, v in self.outer.items():
            if after.get(k) != v:
                raise Unsupported(f"{self.lid}: {k[1]} changes from iteration to iteration")
        if self.mode == "first":
            self._cb("settle", num(0))
            self._learn(now)
            raise V.PathEnd()
        self._cb("settle", self.k)
        probe = env.persist[self.lid]
        for n in self.names:
            kind, c = probe.get(n, ("unbound", None))
            if kind == "advance" and n in self.entry:
                if not self._same(now[n], self._adv(self.entry[n], c, self.k + 1)):
                    raise Unsupported(f"{self.lid}: {n} does not advance uniformly")
            elif kind == "same" and n in self.entry:
                if not self._same(now[n], self.entry[n]):
                    raise Unsupported(f"{self.lid}: {n} is not invariant")
            elif kind == "const" and not self._same(now.get(n), c):
                raise Unsupported(f"{self.lid}: {n} is not constant after the first iteration")
        raise V.PathEnd()

    def has(self, n):
        return n in self.vals

    def get(self, n):
        return self.vals[n]

    def exit(self):
        self._cb("exit", num(0) if self.mode == "first" else self.k)

    @staticmethod
    def _adv(x, c, k):
        return Time(x.s + c * k, x.cal) if isinstance(x, Time) else x + c * k

    @staticmethod
    def _same(a, b):
        if isinstance(a, Time) and isinstance(b, Time):
            return T.eq(a.s.p, b.s.p) is T.TRUE
        if isinstance(a, Num) or isinstance(b, Num):
            if not (V.is_num(a) and V.is_num(b)):
                return False
            return T.eq(num(a).p, num(b).p) is T.TRUE
        if isinstance(a, (str, bool, int, float, type(None), tuple)):
            return type(a) is type(b) and a == b
        return a is b

    def _learn(self, now):
        """Classification of the loop-carried locals from the first iteration."""
        out = {}
        for n in self.names:
            if n not in now:
                continue
            a, b = self.entry.get(n), now[n]
            if n in self.entry and self._same(a, b):
                out[n] = ("same", None)
            elif isinstance(a, Time) and isinstance(b, Time):
                out[n] = ("advance", b.s - a.s)
            elif n in self.entry and V.is_num(a) and V.is_num(b) and not isinstance(a, (bool, SBool)) and not isinstance(b, (bool, SBool)):
                out[n] = ("advance", num(b) - num(a))
            elif n in self.entry and isinstance(b, (str, bool, int, float, type(None))):
                out[n] = ("const", b)
            else:
                out[n] = ("unbound", None)
        old = self.env.persist.get(self.lid)
        if old is not None:
            for n in set(out) | set(old):
                x, y = out.get(n, ("unbound", None)), old.get(n, ("unbound", None))
                if x[0] != y[0] or (x[1] is not None and not self._same(x[1], y[1])):
                    # differs between paths: usable only if never read
                    out[n] = ("unbound", None)
        self.env.persist[self.lid] = out
