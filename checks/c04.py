"""C04: every method has its documented order."""
import numpy as np
from vlib.core import Result
from vlib import tableau as TB
from vlib.regime import regime, fallback_tableau
from vlib.orders import recover, cases, series_residuals, generic
from vlib.methods import METHODS, RK, NYS, ESD

ID = "C04"
QUICK = 3            # repetitions of the set of cases in the quick tier
RULE = ("a case recovers all coefficients of one step of a method by feeding "
        "it unit vector derivatives, and checks the Taylor coefficients of "
        "the step for random nonlinear fields; or compares every step of a "
        "real integration with a step using the recovered coefficients. Non-trivial if the step had "
        "at least one evaluation and order conditions were evaluated; "
        "distinct by method, step size, start time and field")
ASSUMPTIONS = ["a step is linear in the derivative values (Runge-Kutta "
               "type), confirmed by the numerical cases",
               "generic exponential fields make every elementary "
               "differential contribute"]
TOL = 2e-11


def gen(tier, rng):
    reps = 6 if tier == "quick" else 40
    for c in cases(rng, RK + NYS + ESD, reps):
        yield c
    for c in cases(rng, ["SSV2stab"], 4*reps):
        yield c
    # the lower order fallback of CKdisc
    for k in range(reps):
        yield dict(m="CKdisc", fallback=k % 2, h=float(rng.uniform(.1, 2)) *
                   (1 if k % 4 < 2 else -1),
                   t0=float(np.round(rng.uniform(-3, 3), 2)),
                   seed=int(rng.integers(2**31)))
    for n in RK + NYS + ESD + ["SSV2stab"]:
        for k in range(2 if tier == "quick" else 8):
            for _ in range(4 if tier == "quick" else 25):
                yield dict(m=n, regime=True, seed=int(rng.integers(2**31)))
            yield dict(m=n, numeric=True, d=int(rng.choice([-1, 1])), seed=int(rng.integers(2**31)))


def run(case):
    res = Result()
    if case.get("regime"):
        return regime(case, res)
    if case.get("numeric"):
        return numeric(case, res)
    rng = np.random.default_rng(case["seed"])
    if "fallback" in case:
        m = METHODS["CKdisc"]
        T = fallback_tableau(case["h"], case["t0"], case["fallback"])
        order = 3 if case["fallback"] else 2
        res.check(abs(T.h/case["h"] - (.6 if case["fallback"] else .2))
                  < 1e-12, "fallback-size", f"{T.h} {case}")
    else:
        m, T = recover(case)
        order = m.order
        res.check(abs(T.h - case["h"]) <= 1e-13*abs(case["h"]) +
                  1e-15*abs(case["t0"])*4, "first-step", f"{T.h} {case}")
    res.check(T.status == "running", "status", f"{T.status} {case}")
    deg = order + 1
    s, _ = series_residuals(m, T, rng, deg)
    worst = s[:, :order+1].max()
    res.peak("residual", worst)
    res.check(worst < TOL, "order",
              lambda: f"{case['m']}: Taylor coefficients up to h^{order} "
              f"differ: {s.tolist()}")
    # times at which the stages are evaluated: consistent with the stage value
    A = T.Ap if T.nys else T.A
    if not m.nys_strict:
        S = A.sum(1)
        if m.kind == "esdirk":
            S = S + T.d*(np.arange(T.m) > 0)
        r = np.abs(S - T.c_all).max()
        res.peak("nodes", r)
        res.check(r < 1e-11, "nodes",
                  lambda: f"{case['m']}: stage times {T.c_all} row sums {S}")
    if T.nys:
        r = np.abs(T.A.sum(1) - T.c_all**2/2).max()
        res.check(r < 1e-11, "nodes2", lambda: f"{case['m']} {r}")
        res.check(T.leak == 0, "leak", f"{T.leak}")
    if m.kind == "esdirk":
        r = np.abs(T.A_last_seen[:-1] - T.b[:-1]).max()
        res.check(r < 1e-11, "stiffly-accurate", lambda: f"{case['m']} {r}")
    res.count("steps_probed")
    res.count("stages", T.m)
    res.count("conditions", order*3)
    res.nontrivial = T.m > 1
    res.sample = dict(method=case["m"], h=case["h"], t0=case["t0"],
                      stages=T.m, residual=worst)
    return res


def numeric(case, res):
    """every step of real integrations equals a step with the recovered
    coefficients (of which the order conditions are verified)"""
    m = METHODS[case["m"]]
    rng = np.random.default_rng(case["seed"])
    f, jac, y0 = generic(m, rng, case["d"])
    d = case["d"]
    t0 = float(rng.uniform(-2, 2))
    tol = float(10**rng.uniform(-7, -3))
    if m.order < 4:
        tol = max(tol, 1e-5)
    kw = dict(m.opts)
    if m.kind == "esdirk":
        kw["jac"] = jac
    if m.kind == "ssv":
        rho = 320.
        kw["rho_jac"] = lambda t, y: rho
    if m.kind in ("rk", "nys") and m.name != "CKdisc":
        kw["nfev_stiff_detect"] = 0
    if rng.integers(2):
        kw["first_step"] = 1.
    s = m.cls(f, t0, y0, t0 + d*5., rtol=tol, atol=tol, **kw)
    T = None
    if m.kind == "esdirk":
        T = TB.probe_esdirk(m)
    elif m.kind != "ssv":
        T = TB.probe(m)
    prev = None
    for _ in range(4000):
        t, y = s.t, np.array(s.y)
        yp = getattr(s, "yp", None)
        s.step()
        if s.status == "failed":
            res.bad("failed", f"{case} t={s.t}")
            break
        h = s.t - t
        if m.kind == "ssv":
            T = TB.probe_ssv(m, rho, h=h, t0=0.)
        z = TB.apply(T, f, t, y, h, jac)
        sc = tol + tol*np.maximum(np.abs(z), np.abs(y))
        e = np.abs(z - s.y).max()
        res.count("lockstep")
        if m.kind == "esdirk":
            # the iterations are not solved to roundoff
            r = (np.abs(z - s.y)/sc).max()
            res.peak("lockstep_esdirk", r)
            res.check(r < 10., "lockstep",
                      lambda: f"{case['m']} t={t} h={h} {z} {s.y}")
        else:
            r = e/max(1., np.abs(z).max())
            res.peak("lockstep", r)
            res.check(r < 1e-11, "lockstep",
                      lambda: f"{case['m']} t={t} h={h} {z} {s.y}")
        if s.status != "running":
            break
    res.nontrivial = True
    return res
