"""Registry of contracts.  Imported by the prover (python3-vt) and by the concrete worker (/opt/venv)."""
import importlib, os, pkgutil

HARNESSES = {}      # name -> Harness
STUBS = {}          # name -> Stub


class Harness:
    def __init__(self, name, props, fn, stubs=(), sym=True, con=True, cases=40, maxdim=5, doc="", bounded_reason=None,
                 models=None, loops=None, known=None, lemma=False, timeout=240, support=(), paths=400):
        self.name, self.props, self.fn = name, tuple(props), fn
        self.stubs, self.sym, self.con, self.cases, self.maxdim = tuple(stubs), sym, con, cases, maxdim
        self.doc = (doc or fn.__doc__ or "").strip()
        self.bounded_reason = bounded_reason
        self.models, self.loops = models, loops
        self.known = known
        self.lemma = lemma
        self.timeout, self.paths = timeout, paths
        self.support = tuple(support)    # properties whose proof uses this contract without being equivalent to it


def harness(*props, name=None, **kw):
    def deco(fn):
        n = name or fn.__name__
        assert n not in HARNESSES, n
        HARNESSES[n] = Harness(n, props, fn, **kw)
        return fn
    return deco


class Stub:
    """Callers see the contract of `target`; it is used only in runs in which the harnesses in
    `established` have all been proved, otherwise the callee's body is executed instead."""
    def __init__(self, name, target, make, established):
        self.name, self.target, self.make, self.established = name, target, make, tuple(established)


def stub(name, target, established):
    def deco(make):
        STUBS[name] = Stub(name, target, make, established)
        return make
    return deco


def load_all():
    import contracts
    for m in sorted(pkgutil.iter_modules(contracts.__path__), key=lambda m: m.name):
        importlib.import_module("contracts." + m.name)


def supporting(pid):
    return [h for h in HARNESSES.values() if pid in h.support]


def for_property(pid):
    return [h for h in HARNESSES.values() if pid in h.props]
