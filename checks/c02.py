"""C02: max_step and first_step are respected."""
import numpy as np
from vlib.core import Result
from vlib.drive import run as drive, Log
from vlib.methods import METHODS, ALL
from vlib import problems as P
from checks.c01 import interval, rhs

ID = "C02"
QUICK = 8            # repetitions of the set of cases in the quick tier
RULE = ("a case is a batch of integrations of one method with a random "
        "max_step (from far below to above the natural step) and/or "
        "first_step; every accepted step and every evaluation time is "
        "monitored; non-trivial if max_step or first_step was active in at "
        "least one integration; distinct by its parameters")


def gen(tier, rng):
    for name in ALL:
        for k in range(2 if tier == "quick" else 12):
            yield dict(m=name, seed=int(rng.integers(2**31)), n=24)


def run(case):
    res = Result()
    m = METHODS[case["m"]]
    rng = np.random.default_rng(case["seed"])
    for i in range(case["n"]):
        t0, t1 = interval(rng)
        if abs(t1 - t0) < .1:
            t1 = t0 + np.sign(t1 - t0)*2.
        # (linear for the implicit methods: no convergence failures)
        f, y0 = rhs(m, rng, np.sign(t1 - t0), linear=m.kind == "esdirk")
        L = abs(t1 - t0)
        d = np.sign(t1 - t0)
        mode = i % 4
        # loose tolerance: max_step decides.  tight: the error does
        loose = mode in (0, 1)
        kw = dict(rtol=.1, atol=1e3) if loose else dict(
            rtol=float(10**rng.uniform(-6, -3)), atol=1e-5)
        kw.update(m.opts)
        hmax = fs = None
        if mode != 1:
            hmax = float(L/rng.choice([1., 1.7, 2., 3., 7.3, 10., 12.09,
                                       rng.uniform(1, 25)]))
            if rng.integers(2):
                hmax = float(np.round(hmax, 3)) or L
            kw["max_step"] = hmax
        if mode in (1, 2):
            fs = float(L/rng.choice([4.5, 6.3, 10., 100., 1e3,
                                     rng.uniform(4, 40)]))
            kw["first_step"] = fs
        tag = f"t0={t0!r} t1={t1!r} {kw}"
        log = Log(f, keep=True)
        tr = drive(m.cls, log, t0, y0, t1, max_steps=20000, log=log, **kw)
        res.count("integrations")
        res.count("steps", tr.n_steps)
        res.check(tr.status == "finished", "status", tag)
        h = np.abs(np.diff(tr.t))
        ulp = np.spacing(np.maximum(np.abs(tr.t[1:]), np.abs(tr.t[:-1])))
        if hmax is not None:
            over = h - hmax - 4*ulp
            res.check(np.all(over <= 0), "max_step",
                      lambda: f"step {h.max()!r} > {hmax!r} {tag}")
            res.peak("h/max_step", (h/hmax).max())
            if (h > .9*hmax).any():
                res.count("max_step_active")
                res.nontrivial = True
            if mode == 0 and m.kind in ("rk", "nys", "esdirk") and \
                    L/hmax > 6:
                # max_step, and nothing else, limits the steps.
                # (start up: growth by at least 2 from the initial step)
                n_min = L/hmax
                big = np.sum(h > .45*hmax)
                res.check(len(h) <= n_min + 25, "max_step-too-small",
                          lambda: f"{len(h)} steps for {n_min} {tag}")
                res.check(big > 0, "max_step-unused",
                          lambda: f"largest {h.max()} of {hmax} {tag}")
        if fs is not None:
            first = min(fs, hmax or np.inf)
            u = 4*ulp[0]
            res.check(h[0] <= first*1.01 + u, "first_step-exceeded",
                      lambda: f"{h[0]} > {first} {tag}")
            # no evaluation past the first step during the first step
            te = np.abs(np.array(log.t[:tr.nfev[0]]) - t0)
            lim = 1.041*first*1.01 + u
            res.check(te.max() <= lim, "first_step-evaluation",
                      lambda: f"{te.max()} > {first} {tag}")
            if loose:
                res.check(abs(h[0] - first) <= .011*first + u,
                          "first_step-unused",
                          lambda: f"{h[0]} instead of {first} {tag}")
                res.count("first_step_active")
                res.nontrivial = True
    res.sample = dict(method=case["m"], t0=t0, t1=t1, kw=kw,
                      steps=tr.n_steps)
    return res
