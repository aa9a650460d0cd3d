"""C03: the global error is in proportion to the tolerance."""
import numpy as np
from vlib.core import Result
from vlib.drive import run as drive, Log
from vlib.methods import METHODS, ALL
from vlib import problems as P

ID = "C03"
QUICK = 2            # repetitions of the set of cases in the quick tier
RULE = ("a case integrates one problem with known solution at 3 tolerances; "
        "the error of every accepted state and of the dense output inside "
        "the steps is compared to (number of steps) x (tolerance) x (error "
        "amplification of the exact flow); non-trivial if at least 3 steps; "
        "distinct by parameters")
ASSUMPTIONS = ["smooth problems of moderate stiffness and condition",
               "bound constants are 4 or more times the largest ratio "
               "observed on the unmodified code"]
# bound on error/(tol*(steps + 4)*amplification), per kind
BOUND = {"rk": 30., "nys": 4., "esdirk": 15., "swag": 12., "ssv": 8.}
BOUND_DENSE = {"rk": 80., "nys": 12., "esdirk": 150., "swag": 30., "ssv": 20.}


def gen(tier, rng):
    for n in ALL:
        m = METHODS[n]
        for k in range(6 if tier == "quick" else 40):
            if m.kind == "nys":
                s = P.rand_second(rng, strict=True if m.nys_strict else None,
                                  kinds=["osc", "gauss2", "kepler"]
                                  if m.nys_strict or rng.integers(2) else
                                  ["osc", "vdp", "gauss2"])
            elif m.kind == "ssv":
                if rng.integers(2):
                    s = P.rand_first(rng, kinds=["logistic"])
                else:
                    lam = (10**rng.uniform(0, 3, 3)).tolist()
                    d = int(rng.choice([-1, 1]))
                    s = dict(kind="linear", A=(-d*np.diag(lam)).tolist(),
                             b=lam, w=1., y0=[1., 0., 2.], t0=.5,
                             t1=.5 + d*3.)
            else:
                s = P.rand_for(rng, m, cplx=bool(m.complex_ok and k % 4 == 3))
                if s["kind"] in ("tan2", "pole2"):
                    s = P.rand_first(rng, kinds=["linear", "euler3"])
            yield dict(m=n, p=s, seed=int(rng.integers(2**31)),
                       jac=bool(rng.integers(2)),
                       fs=float(rng.choice([0, 0, .3])))


def amplification(p, ts):
    """growth of perturbations by the flow, from times ts to the end"""
    amp = 1.
    n = len(p.y0)
    ys = p.exact(ts[:-1])
    for i, t in enumerate(ts[:-1]):
        y = ys[:, i]
        base = p.flow(t, y, ts[-1])
        for j in range(n):
            e = np.zeros(n)
            e[j] = 1e-5*max(1, np.abs(y).max())
            d = (p.flow(t, y + e, ts[-1]) - base)/e[j]
            amp = max(amp, np.abs(d).sum())
    return amp


def run(case):
    res = Result()
    m = METHODS[case["m"]]
    p = P.make(case["p"])
    rng = np.random.default_rng(case["seed"])
    L = abs(p.t1 - p.t0)
    ts = np.linspace(p.t0, p.t1, 7)
    amp = amplification(p, ts)
    if amp > 100:
        return res
    lo = {2: -5.5, 3: -7., 4: -9.}.get(m.order, -11.)
    for k in range(3):
        tol = float(10**rng.uniform(lo, -3))
        rt, at = tol, tol*float(10**rng.uniform(-1, 1))
        kw = dict(rtol=rt, atol=at, **m.opts)
        if m.kind == "esdirk" and case["jac"] and p.jac is not None:
            kw["jac"] = p.jac
        if case["fs"]:
            kw["first_step"] = case["fs"]*L
        tr = drive(m.cls, p.f, p.t0, p.y0, p.t1, dense=True,
                   max_steps=20000, **kw)
        tag = f"{case['m']} {case['p']['kind']} rtol={rt:.2e} atol={at:.2e}"
        if not res.check(tr.status == "finished", "status", lambda:
                         f"{tr.message} {tag}"):
            continue
        res.count("integrations")
        if tr.n_steps > 2:
            res.nontrivial = True
        ex = p.exact(tr.t)
        # weights by the largest value so far, over all components: errors of
        # one component flow to another
        w = at + rt*np.abs(ex).max()
        r = (np.abs(tr.y - ex).max(0)/w/amp/(np.arange(len(tr.t)) + 4)).max()
        res.peak("ratio/" + case["m"], r)
        b = BOUND[m.kind]
        res.check(r < b, "accuracy",
                  lambda: f"error/bound {r/b:.3g}, {tr.n_steps} steps {tag}")
        # inside the steps
        th = rng.uniform(0, 1, 3)
        k = rng.permutation(tr.n_steps)[:12]
        worst = 0
        for i in k:
            t = tr.t[i] + th*(tr.t[i+1] - tr.t[i])
            e = np.abs(tr.dense[i](t) - p.exact(t)).max()
            worst = max(worst, e/w/amp/(i + 5))
        res.peak("dense/" + case["m"], worst)
        res.count("dense_points", 3*len(k))
        b = BOUND_DENSE[m.kind]
        res.check(worst < b, "dense-accuracy",
                  lambda: f"error/bound {worst/b:.3g} {tag}")
        # not wastefully accurate: the number of steps is limited
        res.peak("steps/" + case["m"], tr.n_steps)
    res.sample = dict(method=case["m"], problem=case["p"]["kind"], tol=tol,
                      steps=tr.n_steps)
    return res
