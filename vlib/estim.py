"""Observe error estimators and step size controllers from outside.

The right hand side is zero, except for chosen values in chosen stages of
chosen attempts. The size of the error estimate, relative to the tolerance,
follows from whether an attempt is accepted: the estimate is linear in the
stage values, so the value at which a step is just accepted gives a weight.
"""
import numpy as np
from vlib import tableau as TB
from vlib.core import Budget

BIG = 1e12
_CACHE = {}


def nodes(meth):
    """(times of the evaluations in a step, number of them)"""
    if meth.name not in _CACHE:
        T = TB.probe_esdirk(meth) if meth.kind == "esdirk" else TB.probe(meth)
        _CACHE[meth.name] = T
    T = _CACHE[meth.name]
    return T.c[:T.n_step+1], T


class Inject:
    """right hand side with chosen stage values; follows the attempts

    plan(attempt, stage, h) returns the value (array of n) of this stage;
    attempts are numbered over the whole integration, from 0. stage 0 of the
    first step is (attempt -1, stage 0).
    """

    def __init__(self, meth, n, plan, dtype=float, budget=100000):
        self.c, T = nodes(meth)
        self.nys = meth.kind == "nys"
        self.n, self.plan, self.dtype = n, plan, dtype
        self.k = 0
        self.attempt = -1
        self.h = []                 # attempted step sizes
        self.ncalls = []            # calls in each attempt
        self.t_n = None
        self.live = False
        self.calls = 0
        self.budget = budget

    def start(self, t):
        """a step starts at t"""
        self.t_n = t
        self.live = True
        self.k = 0

    def __call__(self, t, y):
        self.calls += 1
        if self.calls > self.budget:
            raise Budget(f"{self.calls} evaluations")
        if not self.live:
            return self.out(y, self.plan(-1, 0, None))
        self.k += 1
        new = self.k == 1 or self.k >= len(self.c)
        if not new:
            h = self.h[-1]
            new = abs(t - (self.t_n + self.c[self.k]*h)) > 1e-7*abs(h)
        if new:
            self.k = 1
            self.attempt += 1
            self.h.append((t - self.t_n)/self.c[1])
            self.ncalls.append(0)
        self.ncalls[-1] += 1
        return self.out(y, self.plan(self.attempt, self.k, self.h[-1]))

    def out(self, y, e):
        if e is None:
            e = np.zeros(self.n, self.dtype)
        e = np.asarray(e, self.dtype)
        return np.concatenate([y[self.n:], e]) if self.nys else e


def options(meth, **kw):
    o = dict(meth.opts)
    if meth.kind in ("rk", "nys"):
        o["nfev_stiff_detect"] = 0
    o.update(kw)
    return o


def solver(meth, inj, n, h, t0=0., atol=1., part="v", y0=None, **kw):
    """part: for Nystrom methods, the part of the error that counts"""
    N = 2*n if inj.nys else n
    if inj.nys:
        a = np.full(N, 1e100)
        a[n:] if part == "v" else a[:n]
        if part == "v":
            a[n:] = atol
        else:
            a[:n] = atol
        atol = a
    if meth.kind == "esdirk":
        kw["jac"] = np.zeros((N, N))
    y0 = np.zeros(N, inj.dtype) if y0 is None else y0
    o = options(meth, rtol=1e-15, atol=atol, first_step=abs(h))
    o.update(kw)
    inj.live = False
    return meth.cls(inj, t0, y0, t0 + np.sign(h)*1e9, **o)


def first_attempt(meth, vals, h, part="v", **kw):
    """'ok', 'early' or 'late' rejection of the first attempt"""
    def plan(a, k, hh):
        if a == -1:
            return [vals[0]]
        return [vals[k]] if a == 0 and k < len(vals) else None
    inj = Inject(meth, 1, plan)
    s = solver(meth, inj, 1, h, part=part, **kw)
    inj.start(s.t)
    s.step()
    if len(inj.h) == 1:
        return "ok"
    return "early" if inj.ncalls[0] < EARLY.get(meth.cls.__name__, 0) else \
        "late"


# fewer calls than this in a rejected attempt: rejected before the last stage
EARLY = {"BS5": 6, "CFMR7osc": 8}


def bisect(ok, lo, hi, n=60):
    """largest x with ok(x), log scale first"""
    if not ok(lo):
        return None
    x = lo
    while ok(x):
        lo = x
        x *= 16.
        if x > hi:
            return np.inf
    hi = x
    for _ in range(n):
        mid = .5*(lo + hi)
        if mid in (lo, hi):
            break
        if ok(mid):
            lo = mid
        else:
            hi = mid
        if hi - lo < 2e-15*hi:
            break
    return lo


def weight(meth, stage, h, part="v", kind="any"):
    """size of the weight of a stage in the error estimate (times |h|^p)"""
    c, T = nodes(meth)

    def ok(x):
        v = np.zeros(len(c))
        v[stage] = x
        r = first_attempt(meth, v, h, part)
        return r == "ok" if kind == "any" else r != kind
    x = bisect(ok, 1e-6, 1e9)
    return 0. if x == np.inf else (np.inf if x is None else 1/x)


def estimator(meth, h, part="v"):
    """all weights of the (last) error estimate, with relative signs"""
    c, T = nodes(meth)
    n = len(c)
    pre = meth.cls.__name__ in EARLY
    w = np.zeros(n)
    # reference stage: with a weight, and not in an early estimate
    e = [weight(meth, k, h, part) for k in range(n)]
    ref = None
    for k in np.argsort(e)[::-1]:
        if not pre or (e[k] > 0 and weight(
                meth, k, h, part, "early") == 0.):
            ref = int(k)
            break
    if ref is None:
        # the early estimate is the only one that is seen
        return early_estimator(meth, h), e
    er = e[ref]
    for k in range(n):
        if k == ref:
            w[k] = er
            continue
        if e[k] == 0.:
            continue
        x = .5/e[k]

        def ok(d):
            v = np.zeros(n)
            v[k], v[ref] = x, d
            return first_attempt(meth, v, h, part) == "ok"
        d = bisect(ok, 1e-9/er, 1e9/er)
        w[k] = (1 - er*d)/x
    return w, e


def early_estimator(meth, h):
    """weights of the early estimate, with relative signs"""
    c, T = nodes(meth)
    n = len(c)
    e = [1/bisect(lambda x: first_attempt(
        meth, np.eye(n)[k]*x, h) != "early", 1e-6, 1e9) for k in range(n)]
    w = np.zeros(n)
    ref = int(np.argmax(e))
    for k in range(n):
        if k == ref:
            w[k] = e[ref]
        elif e[k]:
            x = .5/e[k]

            def ok(d):
                v = np.zeros(n)
                v[k], v[ref] = x, d
                return first_attempt(meth, v, h) != "early"
            w[k] = (1 - e[ref]*bisect(ok, 1e-9/e[ref], 1e9/e[ref]))/x
    return w


class Follow:
    """wraps a right hand side; splits its calls in attempts per step

    after start(t) the calls are grouped: self.att is a list of dicts with h,
    k (list of outputs; k[0] is the last one known at the start) and t.
    """

    def __init__(self, meth, f, budget=200000):
        self.c, self.T = nodes(meth)
        self.f = f
        self.att = []
        self.live = False
        self.last = None
        self.calls, self.budget = 0, budget

    def start(self, t, t_end=None):
        self.t_n, self.t_end = t, t_end
        self.live = True
        self.k = 0
        self.att = []
        self.k0 = self.last

    def __call__(self, t, y):
        self.calls += 1
        if self.calls > self.budget:
            raise Budget(f"{self.calls} evaluations")
        out = self.f(t, y)
        self.last = np.array(out)
        if not self.live:
            return out
        self.k += 1
        new = self.k == 1 or self.k >= len(self.c)
        if not new:
            h = self.att[-1]["h"]
            new = abs(t - (self.t_n + self.c[self.k]*h)) > 1e-6*abs(h)
        if new:
            self.k = 1
            self.att.append(dict(h=(t - self.t_n)/self.c[1], k=[self.k0]))
        self.att[-1]["k"].append(self.last)
        return out
