"""C06: the dense output has its documented order of accuracy."""
import numpy as np
from vlib.core import Result
from vlib import tableau as TB
from vlib.regime import regime
from vlib.orders import recover, cases, series_residuals, generic
from vlib.methods import METHODS, RK, NYS, ESD

ID = "C06"
QUICK = 4            # repetitions of the set of cases in the quick tier
RULE = ("a case recovers the interpolation weights of a method by feeding it "
        "unit vector derivatives and checks the Taylor coefficients of the "
        "interpolant for random nonlinear fields at random points of the "
        "step; or compares the dense output of each step of a real "
        "integration (also evaluated later, as array, and through an "
        "OdeSolution) to the recovered one. Non-trivial if interpolation was "
        "evaluated inside of steps; distinct by parameters")
ASSUMPTIONS = ["interpolants are linear in the derivative values"]
TOL = 5e-11
# orders of the interpolants: (value) or (position, velocity)
DENSE = {"Ts5": 4, "BS5": 5, "BS5:free": 4, "BS5:best": 5, "CK5": 4,
         "CKdisc": 4, "Pr7": 6, "Pr8": 7, "Pr9": 8, "CFMR7osc": 5, "Me4": 3,
         "Fi4N": (5, 4), "Fi5N": (5, 4), "Fi5N:1": (6, 5), "Fi5N:2": (5, 5),
         "Fi5N:3": (5, 4), "Mu5Nmb": (5, 4), "Mu5Nmb:free": (5, 4),
         "Mu5Nmb:noscale": (5, 4), "MR6NN": (6, 5), "HS2I": 2, "HS2Ia": 2,
         "KC3I": 3, "KC3I:C1": 3, "KC4I": 4, "KC4I:C1": 4, "KC4Ia": 4,
         "KC4Ia:C1": 4, "Kv3I": 3, "Kv3I:C1": 3, "SSV2stab": 2}


def gen(tier, rng):
    reps = 6 if tier == "quick" else 40
    for c in cases(rng, RK + NYS + ESD, reps):
        c["th"] = [float(x) for x in rng.uniform(0, 1, 6)] + [1.]
        yield c
    for c in cases(rng, ["SSV2stab"], 2*reps):
        c["th"] = [float(x) for x in rng.uniform(0, 1, 6)] + [1.]
        yield c
    for n in RK + NYS + ESD:
        if n == "Fi5N:1":        # this option adjusts the solution afterwards
            continue
        for k in range(3 if tier == "quick" else 25):
            yield dict(m=n, regime=True, seed=int(rng.integers(2**31)))
        for k in range(2 if tier == "quick" else 8):
            yield dict(m=n, numeric=True, d=int(rng.choice([-1, 1])),
                       seed=int(rng.integers(2**31)))


def run(case):
    res = Result()
    rng = np.random.default_rng(case["seed"])
    if case.get("regime"):
        return regime(case, res, True) or res
    if case.get("numeric"):
        return numeric(case, res, rng)
    m, T = recover(case)
    q = DENSE[case["m"]]
    px, pv = q if isinstance(q, tuple) else (q, 0)
    s, dn = series_residuals(m, T, rng, max(px, pv) + 1, case["th"])
    worst = max(dn[0, :px+1].max(), dn[1, :pv+1].max())
    res.peak("residual", worst)
    res.check(worst < TOL, "dense-order",
              lambda: f"{case['m']}: order {q}: residuals {dn.tolist()}")
    res.count("points", 3*len(case["th"]))
    res.nontrivial = True
    res.sample = dict(method=case["m"], theta=case["th"], residual=worst)
    return res


def numeric(case, res, rng):
    m = METHODS[case["m"]]
    f, jac, y0 = generic(m, rng, case["d"])
    d = case["d"]
    t0 = float(rng.uniform(-2, 2))
    tol = float(10**rng.uniform(-7, -3))
    if m.order < 4:
        tol = max(tol, 1e-5)
    kw = dict(m.opts)
    if m.kind == "esdirk":
        kw["jac"] = jac
    if m.kind in ("rk", "nys") and m.name != "CKdisc":
        kw["nfev_stiff_detect"] = 0
    if rng.integers(2):
        kw["first_step"] = 1.
    s = m.cls(f, t0, y0, t0 + d*4., rtol=tol, atol=tol, **kw)
    T = TB.probe_esdirk(m) if m.kind == "esdirk" else TB.probe(m)
    th = np.concatenate([rng.uniform(0, 1, 4), [1.]])
    later = []
    for _ in range(4000):
        t, y = s.t, np.array(s.y)
        s.step()
        if s.status == "failed":
            res.bad("failed", f"{case} t={s.t}")
            break
        h = s.t - t
        z = np.array(TB.apply(T, f, t, y, h, jac, th)).T
        do = s.dense_output()
        later.append((t + th*h, z, do, h))
        if s.status != "running":
            break
    # all are evaluated after the integration: they need to stay valid
    for ts, z, do, h in later:
        w = do(ts)
        one = np.array([do(x) for x in ts]).T
        sc = tol + tol*np.abs(z)
        if m.kind == "esdirk":
            r = (np.abs(w - z)/sc).max()
            res.peak("esdirk", r)
            res.check(r < 30., "lockstep", lambda: f"{case} {ts} {w} {z}")
        else:
            r = np.abs(w - z).max()/max(1., np.abs(z).max())
            res.peak("explicit", r)
            res.check(r < 1e-11, "lockstep", lambda: f"{case} {ts} {w} {z}")
        res.check(np.abs(one - w).max() <= 1e-12*max(1, np.abs(w).max()),
                  "scalar", f"{case}")
        res.count("interpolants")
    res.nontrivial = True
    return res
