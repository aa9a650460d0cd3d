"""Monitored execution of a solver through its public interface."""
import numpy as np
from vlib.core import Budget


class Log:
    """wraps a right hand side; records the calls"""

    def __init__(self, f, budget=200000, keep=False, keep_y=False):
        self.f = f
        self.n = 0
        self.budget = budget
        self.keep, self.keep_y = keep, keep_y
        self.t, self.y, self.out = [], [], []
        self.phase = "init"
        self.by_phase = {}

    def __call__(self, t, y, *args):
        self.n += 1
        self.by_phase[self.phase] = self.by_phase.get(self.phase, 0) + 1
        if self.n > self.budget:
            raise Budget(f"{self.n} evaluations")
        if self.keep:
            self.t.append(float(t))
        if self.keep_y:
            self.y.append(np.array(y))
        out = self.f(t, y, *args)
        if self.keep_y:
            self.out.append(np.array(out))
        return out


class Trace:
    """t[k], y[k] after k steps; status, message, dense outputs, counters"""


def run(cls, f, t0, y0, t1, dense=False, max_steps=100000, log=None,
        on_step=None, **kw):
    """step the solver by hand; returns a Trace"""
    tr = Trace()
    log = log or Log(f)
    tr.log = log
    log.phase = "init"
    s = cls(log, t0, y0, t1, **kw)
    tr.solver = s
    tr.t, tr.y, tr.dense, tr.nfev, tr.h = [s.t], [np.array(s.y)], [], [], []
    tr.y_at_dense = []
    tr.nfev_init = log.n
    tr.message = None
    k = 0
    while s.status == "running":
        log.phase = "step"
        tr.message = s.step()
        if s.status == "failed":
            break
        tr.h.append(s.t - tr.t[-1])
        tr.nfev.append(log.n)
        if dense:
            log.phase = "dense"
            tr.dense.append(s.dense_output())
        tr.t.append(s.t)
        tr.y.append(np.array(s.y))
        if on_step is not None:
            on_step(s, tr)
        k += 1
        if k > max_steps:
            raise Budget(f"{k} steps")
    tr.status = s.status
    tr.n_steps = k
    tr.t = np.array(tr.t)
    tr.y = np.array(tr.y).T
    tr.h = np.array(tr.h)
    log.phase = "done"
    return tr


def tolnorm(err, y, rtol, atol):
    """weighted error, max over components"""
    return np.abs(err)/(atol + rtol*np.abs(y))
