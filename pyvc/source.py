"""Where concrete inputs come from: seeded adversarial generation or a solver's countermodel."""
import random


class Skip(Exception):
    """The generated input does not satisfy the precondition."""


class Random:
    def __init__(self, seed, maxdim=5):
        self.rng = random.Random(seed)
        self.maxdim = maxdim
        self.log = {}
        self.style = self.rng.choice(["mixed", "mixed", "dense", "sparse", "ties", "big"])

    def _rec(self, name, v):
        self.log[name] = v
        return v

    def dim(self, name, lo, hi):
        lo = 1 if lo is None else lo
        return self._rec(name, self.rng.randint(lo, max(lo, min(self.maxdim if hi is None else hi, lo + 3))))

    def int(self, name, lo, hi, prefer=None):
        if prefer is not None:
            ok = [x for x in prefer if (lo is None or x >= lo) and (hi is None or x <= hi)]
            return self._rec(name, self.rng.choice(ok))
        a = -5 if lo is None else int(lo)
        b = a + 10 if hi is None else int(hi)
        return self._rec(name, self.rng.randint(a, b))

    def bool(self, name):
        return self._rec(name, self.rng.random() < 0.5)

    def text(self, name, draw):
        return self._rec(name, draw(self.rng))

    def choice(self, name, n):
        return self._rec(name, self.rng.randrange(n))

    def _num(self, lo, hi, pos, scale):
        r = self.rng
        if lo is not None and hi is not None:
            lo, hi = float(lo), float(hi)
            k = r.random()
            if k < 0.12 and not (pos and lo <= 0):
                return lo
            if k < 0.24:
                return hi
            if hi - lo >= 2 and k < 0.5:
                v = float(r.randint(int(-(-lo // 1)), int(hi // 1)))
            else:
                v = lo + (hi - lo) * r.randint(1, 63) / 64
            return v if not pos or v > 0 else hi
        st = self.style
        k = r.random()
        if st == "ties":
            v = float(r.choice([0, 1, 1, 2, -1, -2]))
        elif st == "sparse" and k < 0.6:
            v = 0.0
        elif k < 0.12 and st != "dense":
            v = 0.0
        elif st == "big" and k < 0.4:
            v = r.choice([-1, 1]) * r.randint(1, 999) * 4.0
        elif k < 0.3 and st != "dense":
            v = float(r.choice([1, 2, -1, -2, 3]))
        else:
            v = r.randint(-640, 640) / 64
        if pos:
            v = abs(v) or r.randint(1, 320) / 64
        v = v * scale
        if lo is not None:
            v = float(lo) + abs(v)
        if hi is not None:
            v = float(hi) - abs(v)
        return v

    def real(self, name, lo, hi, pos, scale=1):
        return self._rec(name, self._num(lo, hi, pos, scale))

    def array(self, name, shape, lo, hi, pos, kind, nan, scale=1):
        def go(sh):
            if not sh:
                if kind == "b":
                    return self.rng.random() < 0.5
                if kind == "i":
                    a = 0 if lo is None else int(lo)
                    return self.rng.randint(a, a + 6 if hi is None else int(hi))
                if nan and self.rng.random() < 0.15:
                    return float("nan")
                return self._num(lo, hi, pos, scale)
            return [go(sh[1:]) for _ in range(sh[0])]
        import numpy as np
        a = np.array(go(tuple(shape)), dtype={"f": float, "i": int, "b": bool}[kind]).reshape(tuple(shape))
        self.log[name] = a.tolist()
        return a

    def time(self, name):
        return self._rec(name, self.rng.randint(0, 400) * 900 + self.rng.choice([0, 0, 0, 1, 60]))


class Table(Random):
    """Values of a countermodel (missing ones are generated)."""
    def __init__(self, table, seed=0):
        super().__init__(seed)
        self.table = table

    def dim(self, name, lo, hi):
        v = self.table.get(name)
        return self._rec(name, int(v)) if v is not None else super().dim(name, lo, hi)

    def int(self, name, lo, hi, prefer=None):
        v = self.table.get(name)
        return self._rec(name, int(v)) if v is not None else super().int(name, lo, hi, prefer)

    def bool(self, name):
        v = self.table.get(name)
        return self._rec(name, bool(v)) if v is not None else super().bool(name)

    def text(self, name, draw):
        for k, v in self.table.items():
            if v and k.startswith(f"text {name}="):
                return self._rec(name, "".join(chr(int(c)) for c in k[len(f"text {name}="):].split(".") if c))
        v = self.table.get(name)
        return self._rec(name, v) if isinstance(v, str) else super().text(name, draw)

    def choice(self, name, n):
        for k in range(n - 1):
            v = self.table.get(f"{name}={k}")
            if v:
                return self._rec(name, k)
        if any(self.table.get(f"{name}={k}") is not None for k in range(n - 1)):
            return self._rec(name, n - 1)
        v = self.table.get(name)
        return self._rec(name, int(v)) if v is not None else super().choice(name, n)

    def real(self, name, lo, hi, pos, scale=1):
        v = self.table.get(name)
        return self._rec(name, float(v)) if v is not None else super().real(name, lo, hi, pos, scale)

    def array(self, name, shape, lo, hi, pos, kind, nan, scale=1):
        import numpy as np
        t = self.table.get(name)
        a = super().array(name, shape, lo, hi, pos, kind, nan, scale)
        if t is None:
            return a
        if isinstance(t, list):
            b = np.array(t, dtype=a.dtype)
            if b.shape == a.shape:
                self.log[name] = t
                return b
            return a
        default = t.get("else")
        if default is not None:
            ok = (not pos or default > 0) and (lo is None or default >= float(lo)) and (hi is None or default <= float(hi))
            if ok:
                a = np.full(a.shape, default, dtype=a.dtype)
        for idx, v in t.get("at", []):
            if all(0 <= i < n for i, n in zip(idx, a.shape)):
                a[tuple(idx)] = v
        for idx in t.get("nan", []):
            if all(0 <= i < n for i, n in zip(idx, a.shape)):
                a[tuple(idx)] = float("nan")
        self.log[name] = a.tolist()
        return a

    def time(self, name):
        v = self.table.get(name)
        return self._rec(name, float(v)) if v is not None else super().time(name)
