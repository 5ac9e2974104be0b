"""The reference model of the controller: plain float64 numpy, written from the
documentation of adaptive computation time, sharing nothing with the code under test."""
import numpy as np

from .trees import left


class Borderline(Exception):
    pass


class Model:
    def __init__(self, batch, eps, dc, defaults, guard=0.0):
        self.batch = tuple(batch)
        self.eps = float(eps)
        self.dc = float(dc)
        self.guard = guard
        self.p = np.zeros(self.batch)
        self.r = np.zeros(self.batch)
        self.it = np.zeros(self.batch)
        self.defaults = {n: {k: np.array(v, dtype=np.float64) for k, v in t.items()} for n, t in defaults.items()}
        self.acc = {n: {k: v.copy() for k, v in t.items()} for n, t in self.defaults.items()}
        self.weights = None

    def copy(self):
        m = Model(self.batch, self.eps, self.dc, self.defaults, self.guard)
        m.p, m.r, m.it = self.p.copy(), self.r.copy(), self.it.copy()
        m.acc = {n: {k: v.copy() for k, v in t.items()} for n, t in self.acc.items()}
        return m

    @property
    def threshold(self):
        return 1.0 - self.eps

    def _halts(self, p):
        return (p > self.threshold) | (p >= 1.0)

    @property
    def halted(self):
        return self._halts(self.p)

    def step(self, hp, updates):
        hp = np.clip(np.asarray(hp, dtype=np.float64).reshape(self.batch), 0.0, 1.0) * self.dc
        halted = self.halted
        if self.guard and np.any(~halted & (np.abs(self.p + hp - self.threshold) < self.guard)):
            raise Borderline()
        crossing = ~halted & self._halts(self.p + hp)
        weight = np.where(halted, 0.0, np.where(crossing, 1.0 - self.p, hp))
        for name, tree in self.acc.items():
            for path, value in tree.items():
                upd = np.asarray(updates[name][path], dtype=np.float64)
                w = left(weight, value.ndim)
                frozen = np.broadcast_to(left(halted, value.ndim), value.shape)
                with np.errstate(all="ignore"):
                    new = value + w * upd
                tree[path] = np.where(frozen, value, new)
        self.r = np.where(crossing, 1.0 - self.p, self.r)
        self.it = np.where(halted, self.it, self.it + 1)
        self.p = np.where(crossing, 1.0, self.p + weight)
        self.weights = weight
        return crossing

    def reset(self):
        halted = self.halted
        for name, tree in self.acc.items():
            for path, value in tree.items():
                sel = np.broadcast_to(left(halted, value.ndim), value.shape)
                tree[path] = np.where(sel, self.defaults[name][path], value)
        self.p = np.where(halted, 0.0, self.p)
        self.r = np.where(halted, 0.0, self.r)
        self.it = np.where(halted, 0.0, self.it)
