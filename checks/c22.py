"""C22: adjoint sensitivity analysis is correct."""
import numpy as np
from scipy.integrate import solve_ivp
import extensisq as ex
from vlib.core import Result
from vlib.methods import METHODS
from vlib.sens import Problem, spy

ID = "C22"
QUICK = 4            # repetitions of the set of cases in the quick tier
RULE = ("a case runs sens_adjoint_end and sens_adjoint_int for a random "
        "parametrized problem and scalar function (state size, number of "
        "parameters, method, direction, tolerance forms, with and without a "
        "given forward solution) and compares sensitivities, values and the "
        "adjoint solution to a reference from independently integrated "
        "variational equations and to forward sensitivities; the tolerances "
        "the solvers get are compared to the given ones. Non-trivial if 5 or "
        "more backward steps were taken or the interval was short (few "
        "steps); distinct by parameters")
ASSUMPTIONS = ["smooth right hand sides with analytic derivatives",
               "Nystrom methods don't apply (not a second order system)"]
NAMES = ["Ts5", "BS5", "CK5", "CKdisc", "Pr7", "Pr8", "Pr9", "CFMR7osc", "Me4",
         "SWAG", "SSV2stab", "HS2I", "HS2Ia", "KC3I", "KC4I", "KC4Ia", "Kv3I",
         "RK45", "BDF", "Radau", "LSODA", "DOP853", "default"]
LOW = {"HS2I", "HS2Ia", "SSV2stab", "KC3I", "Kv3I"}


def gen(tier, rng):
    for n in NAMES:
        for k in range(4 if tier == "quick" else 30):
            tol = float(10**rng.uniform(-7.5, -5))
            if n in LOW:
                tol = float(10**rng.uniform(-5, -4))
            yield dict(m=n, n=int(rng.integers(1, 4) if rng.integers(6) else
                                  rng.integers(4, 9)),
                       np=int(rng.integers(1, 4) if rng.integers(6) else
                              rng.integers(4, 8)), tol=tol,
                       late=bool(rng.integers(8) == 0),
                       d=int(rng.choice([-1, 1])), k=k,
                       form=str(rng.choice(["float", "list", "array"])),
                       short=bool(rng.integers(5) == 0),
                       given=bool(rng.integers(3) == 0),
                       stiff=bool(rng.integers(3) == 0),
                       seed=int(rng.integers(2**31)))


def run(case):
    res = Result()
    rng = np.random.default_rng(case["seed"])
    name = case["m"]
    n, m, d = case["n"], case["np"], case["d"]
    implicit = name in ("BDF", "Radau", "LSODA") or (
        name in METHODS and METHODS[name].kind == "esdirk")
    P = Problem(rng, n, m, d, case["stiff"] and implicit)
    p = np.clip(rng.normal(size=m), -2., 2.)
    if case["seed"] % 4 == 0:
        p[rng.integers(m)] = 0.
    y0 = rng.normal(size=n)
    dy0dp = rng.normal(size=(n, m))*rng.integers(0, 2, size=(n, m))
    t0 = float(np.round(rng.uniform(-2, 2), 2))
    if case.get("late"):
        P.t00 = float(rng.choice([-1, 1]))*2.**int(rng.integers(5, 11))
        t0 += P.t00
    t1 = t0 + d*float(rng.uniform(1., 4.))
    if case["short"]:
        # (a few steps only)
        t1 = t0 + d*10**rng.uniform(-4, -.5)
    meth = getattr(ex, name, name)
    seen = []
    if name in METHODS:
        meth, seen = spy(meth)
    tol = case["tol"]

    def form(k):
        a = tol*10**rng.uniform(-1, .5)
        if case["form"] == "float":
            return a
        a = a*10**rng.uniform(-.5, .5, size=k)
        return list(a) if case["form"] == "list" else a
    atol, adj, quad = form(n), form(n), form(m)
    kw = {} if name == "default" else dict(method=meth)
    yr, Sr, Gr, dGr = P.reference(t0, t1, y0, dy0dp, p)
    gr = P.g(t1, yr, *p)
    dgr = P.dgdy(t1, yr, *p) @ Sr + P.dgdp(t1, yr, *p)
    P.tmin, P.tmax = np.inf, -np.inf
    sol_y = None
    if case["given"]:
        # a given solution may continue after the end
        t2 = t1 + (t1 - t0)*float(rng.choice([0, 0, .1, .3]))
        sol_y = solve_ivp(
            lambda t, y: P.fun(t, y, *p), (t0, t2), y0,
            method=ex.BS5 if name == "default" else meth,
            rtol=tol, atol=atol, dense_output=True)
        if not sol_y.success and name == "SSV2stab":
            return res
        res.count("longer_solution", t2 != t1)
        seen.clear()
        P.tmin, P.tmax = np.inf, -np.inf
    amp = 3 + P.size*(1 + np.max(np.abs(P.Q))*n + (P.b @ p)**2)
    # (interpolated forward solution, of lower order)
    lim = 120*tol*amp
    args = dict(fun=P.fun, t_span=(t0, t1), y0=y0, jac=P.jac, dfdp=P.dfdp,
                dy0dp=dy0dp, p=p, g=P.g, dgdp=P.dgdp, dgdy=P.dgdy, rtol=tol,
                atol=atol, atol_adj=adj, atol_quad=quad, sol_y=sol_y, **kw)

    def analyse(f):
        try:
            return f(**args)
        except RuntimeError:
            if name == "SSV2stab":
                # complex dominant eigenvalues are not for this method
                return None
            raise
    nbw = 0
    for what, f, val, sens in (("end", ex.sens_adjoint_end, gr, dgr),
                               ("int", ex.sens_adjoint_int, Gr, dGr)):
        seen.clear()
        calls = dict(P.calls)
        out = analyse(f)
        if out is None:
            res.count("SSV2stab_not_converged")
            continue
        s, v = out.sens, out[1]
        es = np.max(np.abs(s - sens))/lim
        ev = np.max(np.abs(v - val))/lim
        res.peak("err/limit", max(es, ev))
        res.check(np.shape(s) == (m,), "shape", f"{s}")
        res.check(es < 1, what + " sensitivity",
                  lambda: f"{name}: {s}, expected {sens} +- {lim} {case}")
        res.check(ev < 1, what + " value",
                  lambda: f"{name}: {v}, expected {val} +- {lim} {case}")
        bw, fw = out.sol_bw, out.sol_y
        res.check(fw.t[0] == t0 and (
            fw.t[-1] == t1 or fw is sol_y) and fw.sol is not None,
                  "forward solution", f"{name} {fw.t[[0, -1]]}")
        res.check(bw.t[0] == t1 and bw.t[-1] == t0 and bw.success,
                  "backward solution", f"{name} {bw.t[[0, -1]]}")
        nbw += len(bw.t)
        if sol_y is not None:
            res.check(fw is sol_y, "given solution", "not returned")
            res.check(P.calls["fun"] - calls["fun"] <= 1, "given solution",
                      f"{name}: forward integration is repeated")
        # the adjoint solution: d g(t1)/d y(t0) for the end version
        y_t0 = bw.y[:n, -1]
        if what == "end":
            # from sensitivities to y0: independent reference
            S0 = transition(P, t0, t1, y0, p)
            ref = P.dgdy(t1, yr, *p) @ S0
            e = np.max(np.abs(y_t0 - ref))/lim
            res.peak("adjoint/limit", e)
            res.check(e < 1, "adjoint",
                      lambda: f"{name}: {y_t0}, expected {ref} {case}")
        # tolerances
        if seen:
            r = seen[-1]
            want = np.concatenate([np.broadcast_to(adj, (n,)),
                                   np.broadcast_to(quad, (m,))])
            got = np.broadcast_to(r.get("atol", 1e-6), (r["n"],))
            res.check(r.get("rtol", 1e-3) == tol and np.allclose(
                got[:n+m], want, rtol=1e-9, atol=0.), "backward tolerances",
                lambda: f"{name}: rtol {r.get('rtol')} atol {got}, expected "
                f"{tol} {want}")
            if len(got) > n + m:
                res.check(got[-1] <= np.max(quad)*(1 + 1e-9),
                          "backward tolerances",
                          f"{name}: atol of G {got[-1]}, given {quad}")
            res.check((r["t0"], r["t_bound"]) == (t1, t0), "backward span",
                      f"{name}: {r}")
            if sol_y is None:
                r = seen[0]
                res.check(r.get("rtol", 1e-3) == tol and np.allclose(
                    np.broadcast_to(r.get("atol", 1e-6), (n,)),
                    np.broadcast_to(atol, (n,)), rtol=1e-9, atol=0.),
                    "forward tolerances",
                    lambda: f"{name}: {r}, expected {tol} {atol}")
        # agreement with the forward method
    res.check(P.args_ok, "arguments",
              "the functions are to be called with (t, y, *p)")
    lo, hi = min(t0, t1), max(t0, t1)
    eps = 1e-6*(1 + abs(t0))
    if name in METHODS and name != "KC4I":
        res.check(P.tmin >= lo - eps and P.tmax <= hi + eps, "times",
                  f"{name}: functions are evaluated from {P.tmin} to "
                  f"{P.tmax}, span {t0, t1}")
    res.count("backward_steps", nbw)
    res.nontrivial = nbw >= 10 or case["short"]
    res.sample = dict(method=name, n=n, np=m, steps=nbw)
    return res


def transition(P, t0, t1, y0, p):
    """d y(t1)/d y0"""
    n = P.n

    def F(t, z):
        y, S = z[:n], z[n:].reshape(n, n)
        return np.concatenate([P.fun(t, y, *p), (P.jac(t, y, *p) @ S).ravel()])
    s = solve_ivp(F, (t0, t1), np.concatenate([y0, np.eye(n).ravel()]),
                  method="DOP853", rtol=1e-11, atol=1e-12)
    return s.y[n:, -1].reshape(n, n)
