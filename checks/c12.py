"""C12: the right hand side is only evaluated inside the interval."""
import numpy as np
from vlib.core import Result
from vlib.drive import run as drive, Log
from vlib.methods import METHODS, ALL
from vlib import problems as P
from checks.c01 import interval, rhs

ID = "C12"
QUICK = 6            # repetitions of the set of cases in the quick tier
RULE = ("a case is a batch of integrations of one method in which the time "
        "of every right hand side (and Jacobian) evaluation is recorded, "
        "during construction, steps and dense output; non-trivial if "
        "10 or more evaluations at interior times were seen; distinct by its "
        "parameters")
ASSUMPTIONS = ["KC4I may evaluate 4% of a step ahead: one of its published "
               "nodes is 26/25"]


def gen(tier, rng):
    for name in ALL:
        for k in range(2 if tier == "quick" else 12):
            yield dict(m=name, seed=int(rng.integers(2**31)), n=16)


def infinite(res, m, rng):
    """the interval may be infinite (and ended by an event)"""
    d = int(rng.choice([-1, 1]))
    t0 = [0., 0., float(rng.normal())][rng.integers(3)]
    f, y0 = rhs(m, rng, d)
    log = Log(f, keep=True)
    kw = dict(rtol=1e-4, atol=1e-5, **m.opts)
    if rng.integers(3) == 0:
        kw["first_step"] = .1
    s = m.cls(log, t0, y0, d*np.inf, **kw)
    for _ in range(5):
        s.step()
        s.dense_output()
    te = np.array(log.t)
    tag = f"{m.name} infinite interval {t0=} {d=} {kw}"
    res.check(s.status == "running", "status", tag)
    res.check(np.all(np.isfinite(te)), "non-finite-time", tag)
    res.check(np.all((te - t0)*d >= 0), "before-start", tag)
    res.count("rhs_evaluations", len(te))


def run(case):
    res = Result()
    m = METHODS[case["m"]]
    rng = np.random.default_rng(case["seed"])
    ahead = .0401 if m.name.startswith("KC4I:") or m.name == "KC4I" else 0.
    for i in range(case["n"]):
        t0, t1 = interval(rng)
        d = np.sign(t1 - t0)
        f, y0 = rhs(m, rng, d)
        kw = dict(rtol=float(10**rng.uniform(-6, -2)), atol=1e-5, **m.opts)
        L = abs(t1 - t0)
        if rng.integers(2):
            kw["max_step"] = L/float(rng.uniform(1, 10))
        if rng.integers(3) == 0:
            kw["first_step"] = L/float(rng.uniform(1, 10))
        if m.kind in ("rk", "nys") and m.name != "CKdisc" and \
                not m.nys_strict and rng.integers(2):
            kw["nfev_stiff_detect"] = int(rng.integers(1, 100))
        tj = []
        if m.kind == "esdirk" and rng.integers(2):
            n = len(y0)

            def jac(t, y):
                tj.append(t)
                E = 1e-6*np.eye(n)
                return np.array([(f(t, y + e) - f(t, y - e))/2e-6
                                 for e in E]).T
            kw["jac"] = jac
        log = Log(f, keep=True)
        marks = []

        def on_step(s, tr):
            marks.append((s.t_old, s.t, log.n))
        tr = drive(m.cls, log, t0, y0, t1, dense=True, log=log,
                   on_step=on_step, max_steps=20000, **kw)
        tag = f"t0={t0!r} t1={t1!r} {kw}"
        te = np.array(log.t)
        u = 4*np.spacing(max(abs(t0), abs(t1)))
        # never before the start of the interval or past its end
        hl = abs(tr.h[-1]) if tr.n_steps else 0.
        pos = (te - t0)*d
        # (an attempt that is rejected may be longer than the last step, but
        # then it ended before t_bound)
        res.check(np.all(pos >= -u), "before-start",
                  lambda: f"{te[pos.argmin()]!r} {tag}")
        res.check(np.all((te - t1)*d <= u + ahead*L), "past-end",
                  lambda: f"{te[pos.argmax()]!r} {tag}")
        if ahead:
            a = 0
            for told, t, n in marks:
                res.check(np.all((te[a:n] - t1)*d <= u + .0401*(
                    max(abs(te[a:n] - told).max()/1.04, 0))), "past-end-KC4I",
                    tag)
                a = n
        # during a step: never before the start of the step, and never
        # further than max_step
        a = tr.nfev_init
        hm = kw.get("max_step", np.inf)
        for told, t, n in marks:
            p = (te[a:n] - told)*d
            if len(p):
                res.check(p.min() >= -u, "before-step",
                          lambda: f"{told!r} {p.min()} {tag}")
                res.check(p.max() <= hm*(1 + ahead) + u, "beyond-max_step",
                          lambda: f"{told!r} {p.max()} {hm} {tag}")
            a = n
        if tj:
            tj = np.array(tj)
            res.check(np.all((tj - t0)*d >= -u) and
                      np.all((tj - t1)*d <= u), "jac-time", tag)
            res.count("jac_evaluations", len(tj))
        res.check(np.all(np.isfinite(te)), "non-finite-time", tag)
        res.count("rhs_evaluations", len(te))
        res.count("interior", np.sum((pos > 0) & ((te - t1)*d < 0)))
        res.peak("overshoot", ((te - t1)*d).max()/L)
    for i in range(3):
        infinite(res, m, rng)
    res.nontrivial = res.stats.get("interior", 0) >= 10
    res.sample = dict(method=case["m"], t0=t0, t1=t1, evals=len(te),
                      first=te[:6])
    return res
