"""C21: forward sensitivity analysis is correct."""
import numpy as np
from scipy.integrate import solve_ivp
import extensisq as ex
from vlib.core import Result
from vlib.methods import METHODS
from vlib.sens import Problem, spy

ID = "C21"
QUICK = 5            # repetitions of the set of cases in the quick tier
RULE = ("a case runs sens_forward for a random parametrized problem (state "
        "size, number of parameters, zero and negative parameters, method, "
        "direction, tolerance forms, t_eval, dense_output, use_approx_jac) "
        "and compares solution and sensitivities at the end point, at all "
        "returned times and in between to a reference from independently "
        "integrated variational equations; some cases also repeat the "
        "analysis for rescaled or permuted parameters. Non-trivial if 5 or "
        "more steps were taken; distinct by parameters")
ASSUMPTIONS = ["smooth right hand sides with analytic derivatives",
               "Nystrom methods don't apply (not a second order system)"]
NAMES = ["Ts5", "BS5", "CK5", "CKdisc", "Pr7", "Pr8", "Pr9", "CFMR7osc", "Me4",
         "SWAG", "SSV2stab", "HS2I", "HS2Ia", "KC3I", "KC4I", "KC4Ia", "Kv3I",
         "RK45", "BDF", "Radau", "LSODA", "DOP853", "default"]
LOW = {"HS2I", "HS2Ia", "SSV2stab", "KC3I", "Kv3I"}


def gen(tier, rng):
    for n in NAMES:
        for k in range(4 if tier == "quick" else 30):
            tol = float(10**rng.uniform(-7.5, -5))
            if n in LOW:
                tol = float(10**rng.uniform(-5, -4))
            yield dict(m=n, n=int(rng.integers(1, 4) if rng.integers(6) else
                                  rng.integers(4, 9)),
                       np=int(rng.integers(1, 4) if rng.integers(6) else
                              rng.integers(4, 8)), tol=tol,
                       late=bool(rng.integers(8) == 0),
                       d=int(rng.choice([-1, 1])),
                       atol=str(rng.choice(["float", "list", "array"])),
                       te=bool(rng.integers(3) == 0),
                       dense=bool(rng.integers(2)),
                       approx=bool(rng.integers(3) == 0),
                       stiff=bool(rng.integers(3) == 0),
                       zero=bool(rng.integers(4) == 0),
                       again=str(rng.choice(["", "scale", "permute"])),
                       seed=int(rng.integers(2**31)))


def run(case):
    res = Result()
    rng = np.random.default_rng(case["seed"])
    name = case["m"]
    n, m, d = case["n"], case["np"], case["d"]
    implicit = name in ("BDF", "Radau", "LSODA") or (
        name in METHODS and METHODS[name].kind == "esdirk")
    P = Problem(rng, n, m, d, case["stiff"] and implicit)
    p = rng.normal(size=m)*10**rng.uniform(-1, .5, size=m)
    p = np.clip(p, -2., 2.)
    if case["zero"]:
        p[rng.integers(m)] = 0.
    y0 = rng.normal(size=n)
    dy0dp = rng.normal(size=(n, m))*rng.integers(0, 2, size=(n, m))
    t0 = float(np.round(rng.uniform(-2, 2), 2))
    if case.get("late"):
        P.t00 = float(rng.choice([-1, 1]))*2.**int(rng.integers(5, 11))
        t0 += P.t00
    t1 = t0 + d*float(rng.uniform(1., 4.))
    meth = getattr(ex, name, name)
    seen = []
    if name in METHODS:
        meth, seen = spy(meth)
    tol = case["tol"]
    a = np.full(n, tol)*10**rng.uniform(-1, 1, size=n)
    atol = tol if case["atol"] == "float" else (
        list(a) if case["atol"] == "list" else a)
    te = None
    if case["te"]:
        te = np.sort(rng.uniform(0, 1, size=6))
        te[-1] = 1.
        te = t0 + (t1 - t0)*te
        te[-1] = t1
    kw = {} if name == "default" else dict(method=meth)
    approx = case["approx"] and implicit
    yr, Sr, _, _ = P.reference(t0, t1, y0, dy0dp, p)

    def analyse(P, p, dy0dp, jac, dfdp, fun):
        return ex.sens_forward(
            fun, (t0, t1), y0, jac, dfdp, dy0dp, p, atol=atol, rtol=tol,
            dense_output=case["dense"], t_eval=te, use_approx_jac=approx,
            **kw)
    try:
        out = analyse(P, p, dy0dp, P.jac, P.dfdp, P.fun)
    except RuntimeError:
        # complex dominant eigenvalues are not for this method
        if name == "SSV2stab":
            res.count("SSV2stab_not_converged")
            return res
        raise
    S, y, sol = out.sensf, out.yf, out.sol
    amp = 1 + P.size
    N = len(sol.t) if te is None else 50
    lim = (15 if name in METHODS else 100)*tol*amp*max(N, 10)**.5
    sc = np.maximum(1., 1/np.maximum(np.abs(p), 1e-300))
    sc[p == 0.] = 1.
    lim_s = lim*sc
    if case["atol"] != "float":
        lim, lim_s = lim*10, lim_s*10

    def cmp(what, y, S, yr, Sr):
        ey = np.max(np.abs(y - yr))/lim
        es = np.max(np.abs(S - Sr)/lim_s)
        res.peak("err/limit", max(ey, es))
        res.check(ey < 1 and es < 1, what,
                  lambda: f"{name}: {what}: y {y} {yr}, S {S} {Sr} {case}")
    res.check(S.shape == (n, m) and y.shape == (n,), "shapes",
              f"{S.shape} {y.shape} {case}")
    cmp("end point", y, S, yr, Sr)
    res.check(sol.t[-1] == t1 and sol.success, "end time",
              f"{name} {sol.t[-1]} {t1}")
    if te is not None:
        res.check(np.array_equal(sol.t, te), "t_eval", f"{sol.t} {te}")
    res.check((sol.sol is not None) == case["dense"], "dense_output",
              f"{name} {sol.sol}")

    def split(z):
        return z[:n], z[n:].reshape(m, n).T
    for k in range(len(sol.t)):
        if k % 3 == 0 or te is not None:
            cmp("at returned times", *split(sol.y[:, k]), *P.at(sol.t[k])[:2])
    if sol.sol is not None:
        lim, lim_s = lim*30, lim_s*30
        for t in t0 + (t1 - t0)*rng.uniform(size=8):
            cmp("dense output", *split(sol.sol(t)), *P.at(t)[:2])
        lim, lim_s = lim/30, lim_s/30
    res.check(P.args_ok and np.array_equal(P.p_seen, p), "arguments",
              "the functions are to be called with (t, y, *p)")
    lo, hi = min(t0, t1), max(t0, t1)
    eps = 1e-6*(1 + abs(t0))
    if name in METHODS and name != "KC4I":
        res.check(P.tmin >= lo - eps and P.tmax <= hi + eps, "times",
                  f"{name}: functions are evaluated from {P.tmin} to "
                  f"{P.tmax}, span {t0, t1}")
    for r in seen[:1]:
        # documented tolerances
        f = np.where(p == 0., 1., np.abs(p))
        want = np.broadcast_to(atol, (n,))
        want = np.concatenate([want] + [want/x for x in f])
        got = np.broadcast_to(r.get("atol", 1e-6), want.shape)
        res.check(r.get("rtol", 1e-3) == tol and np.allclose(
            got, want, rtol=1e-9, atol=0.), "tolerances",
            lambda: f"{name}: rtol {r.get('rtol')}, atol {got}, expected "
            f"{tol}, {want}, p {p}")
    res.check(P.calls["dfdp"] > 3 and P.calls["jac"] > 3, "calls",
              f"{P.calls}")
    # other parameters, the same problem
    if case["again"] and name in METHODS:
        if case["again"] == "scale":
            c = 2.**rng.integers(-3, 4, size=m)
            q, idx = p*c, np.arange(m)
        else:
            c, idx = np.ones(m), rng.permutation(m)
            q = p[idx]
        inv = np.argsort(idx)

        def back(q):
            return np.array(q)[inv]/c
        try:
            o2 = analyse(
                P, q, (dy0dp/c)[:, idx],
                lambda t, y, *q: P.jac(t, y, *back(q)),
                lambda t, y, *q: (P.dfdp(t, y, *back(q))/c)[:, idx],
                lambda t, y, *q: P.fun(t, y, *back(q)))
        except RuntimeError:
            if name == "SSV2stab":
                res.count("SSV2stab_not_converged")
                return res
            raise
        S2 = o2.sensf[:, inv]*c
        if not np.any(p == 0.) or case["again"] == "permute":
            same = len(o2.sol.t) == len(sol.t) and \
                (te is not None or np.allclose(
                    o2.sol.t, sol.t, rtol=1e-3, atol=1e-3*abs(t1-t0)))
            # equal steps are expected if the first step is
            if METHODS[name].kind != "esdirk" and same:
                res.count("same_steps")
            ds = np.max(np.abs(S2 - S)/lim_s)
            res.check(ds < 1, case["again"],
                      f"{name}: {S2} {S} {case}")
            res.count("again")
    res.count("steps", len(sol.t))
    res.nontrivial = N >= 5
    res.sample = dict(method=name, n=n, np=m, steps=len(sol.t),
                      S=np.round(S, 6).tolist())
    return res
