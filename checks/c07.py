"""C07: dense output is a pure observer and stays valid."""
import numpy as np
from scipy.integrate import solve_ivp
from vlib.core import Result
from vlib.drive import run as drive, Log
from vlib.methods import METHODS, ALL
from vlib import problems as P
from checks.c05 import problem, Other

ID = "C07"
QUICK = 5            # repetitions of the set of cases in the quick tier
RULE = ("a case integrates one problem without dense output, with dense "
        "output in every step (twice), and in randomly chosen steps; the "
        "trajectories are compared, and values of all interpolants recorded "
        "at creation are compared to those after the integration and after "
        "hostile use (changed arguments and results, other solvers running); "
        "non-trivial with 3 or more steps; distinct by parameters")
ASSUMPTIONS = ["Fi5N with interpolant=1 is documented to adjust the solution "
               "and exempt from the trajectory comparison"]


def gen(tier, rng):
    for n in ALL:
        for k in range(5 if tier == "quick" else 30):
            yield dict(m=n, seed=int(rng.integers(2**31)),
                       cplx=bool(k % 3 == 2), kink=bool(k % 2),
                       regime=["S", "th", "late", "many"][
                           int(rng.integers(4))] if rng.integers(2) else None)


def run(case):
    res = Result()
    m = METHODS[case["m"]]
    rng = np.random.default_rng(case["seed"])
    p = problem(m, rng, case["cplx"] and m.complex_ok)
    reg = case.get("regime")
    p = Other(p, m, reg, rng)
    y0, f = p.y0, p.f
    if case["cplx"] and m.kind == "nys":
        y0 = y0.astype(complex)
    if case["kink"] and m.kind not in ("ssv", "esdirk"):
        # (a problem that remains bounded)
        p = P.make(P.rand_second(rng, strict=True, kinds=["osc"]))
        p = Other(p, m, reg, rng)
        y0, f = p.y0, p.f
        # a jump in the forcing leads to rejected steps
        tk = p.t0 + (p.t1 - p.t0)*rng.uniform(.2, .8)
        d = np.sign(p.t1 - p.t0)
        n = len(y0)//2 if m.kind == "nys" else 0

        def f(t, y, g=p.f):
            out = np.array(g(t, y))
            if (t - tk)*d > 0:
                out[n:] = out[n:] + .5*p.S/p.th
            return out
    tol = float(10**rng.uniform(-7, -2))
    if m.order < 4:
        tol = max(tol, 1e-5)
    kw = dict(rtol=tol, atol=tol*p.S, **m.opts)
    if m.kind == "esdirk" and p.jac is not None:
        kw["jac"] = p.jac
    tag = f"{case} tol={tol}"
    calls = [0]

    def f(t, y, g=f):
        calls[0] += 1
        return g(t, y)
    ref = drive(m.cls, f, p.t0, y0, p.t1, **kw)
    res.check(ref.status == "finished", "status", tag)
    rec = []
    th = np.concatenate([[0., 1.], rng.uniform(0, 1, 4)])
    every = [True]
    other = []

    def on_step(s, tr):
        # in between another solver of the same class is running
        if not other or other[0].status != "running":
            other[:] = [m.cls(f, p.t0, y0*1.01, p.t1, **kw)]
        if not every[0] and rng.integers(3):
            return
        a, b = s.t_old, s.t
        n0 = calls[0]
        do = s.dense_output()
        n1 = calls[0]
        ts = a + th*(b - a)
        v = do(ts)
        # evaluations for dense output only as documented
        res.check(n1 - n0 == (0 if s.t == s.t_old else m.free),
                  "dense-cost", lambda: f"{n1 - n0} evaluations for an "
                  f"interpolant, documented: {m.free} {tag}")
        res.check(calls[0] == n1, "evaluation-cost", lambda:
                  f"{calls[0] - n1} evaluations by using an interpolant {tag}")
        ts2 = ts.copy()
        do2 = s.dense_output()
        res.check(np.array_equal(do2(ts2), v) or
                  np.abs(do2(ts2) - v).max() <= 1e-13*np.abs(v).max()
                  or m.name == "Fi5N:1", "second-call", tag)
        rec.append((do, ts, v.copy()))
        # hostile use
        x = do(a + .3*(b - a))
        x += 1e3
        w = do(ts2)
        w *= -7.
        res.check(np.array_equal(ts, ts2), "argument-changed", tag)
        if other[0].status == "running":
            other[0].step()
            if other[0].t != p.t0:
                other[0].dense_output()(other[0].t)

    for every[0] in (True, False):
        tr = drive(m.cls, f, p.t0, y0, p.t1, on_step=on_step, **kw)
        if m.name == "Fi5N:1":
            continue
        same = tr.n_steps == ref.n_steps and \
            np.abs(tr.t - ref.t).max() <= 1e-10*abs(p.t1 - p.t0) and \
            np.abs(tr.y - ref.y).max() <= 1e-9*max(p.S, np.abs(ref.y).max())
        res.check(same, "trajectory",
                  lambda: f"{tr.n_steps} steps with dense output, "
                  f"{ref.n_steps} without {tag}")
    for do, ts, v in rec:
        now = do(ts)
        res.check(now.shape == v.shape and np.array_equal(now, v),
                  "persistence", lambda: f"values at {ts} changed by "
                  f"{np.abs(now - v).max()} {tag}")
        one = np.array([do(x) for x in ts]).T
        res.check(np.abs(one - v).max() <= 1e-12*max(p.S, np.abs(v).max()),
                  "scalar", tag)
        k = rng.permutation(len(ts))
        res.check(np.abs(do(ts[k]) - v[:, k]).max()
                  <= 1e-12*max(p.S, np.abs(v).max()), "order", tag)
        res.check(v.dtype == np.asarray(y0).dtype, "dtype",
                  f"{v.dtype} {tag}")
    res.count("interpolants", len(rec))
    res.nontrivial = ref.n_steps > 2
    # the solution object of solve_ivp, and t_eval
    if m.name != "Fi5N:1":
        o = solve_ivp(f, (p.t0, p.t1), y0, method=m.cls, dense_output=True,
                      **kw)
        te = np.sort(rng.uniform(min(p.t0, p.t1), max(p.t0, p.t1), 12))
        if p.t1 < p.t0:
            te = te[::-1]
        q = solve_ivp(f, (p.t0, p.t1), y0, method=m.cls, t_eval=te, **kw)
        sc = max(p.S, np.abs(ref.y).max())
        res.check(q.y.shape[1] == 12 and
                  np.abs(o.sol(te) - q.y).max() <= 1e-9*sc, "t_eval", tag)
        res.check(len(o.t) == len(ref.t) and
                  np.abs(o.y - ref.y).max() <= 1e-9*sc, "dense-trajectory",
                  tag)
    res.sample = dict(method=case["m"], interpolants=len(rec), tol=tol)
    return res
