"""C32: accepted implicit steps solve their stage equations."""
import warnings
import numpy as np
from scipy.sparse import csc_array
from vlib.core import Result, Budget
from vlib.methods import METHODS, ESD
from checks.c17 import DAE, form
from checks.c18 import Stiff

ID = "C32"
QUICK = 2            # repetitions of the set of cases in the quick tier
RULE = ("a case integrates a stiff nonlinear problem (without mass matrix, "
        "with a mass matrix, or a DAE) with an exact, inexact, outdated or "
        "numerical Jacobian; every accepted step is repeated from the same "
        "state and slope with accurately solved stage equations and the "
        "solutions are compared in units of the tolerance. Non-trivial if 20 "
        "or more steps were compared; distinct by parameters")
ASSUMPTIONS = ["limits are at least 4 times the largest seen on the "
               "unmodified code",
               "steps in which the accurate solution of the stage equations "
               "is not found from the accepted one are not judged"]


def gen(tier, rng):
    for name in [n for n in ESD if ":" not in n]:
        for k in range(40 if tier == "quick" else 3000):
            lo = {2: -5., 3: -6.}.get(METHODS[name].order, -7.5)
            yield dict(kind=["ode", "mass", "dae", "ode", "sharp"][k % 5],
                       m=name,
                       n=int(rng.integers(1, 5)), nu=int(rng.integers(1, 4)),
                       nv=int(rng.integers(1, 3)),
                       form=str(rng.choice(["1d", "2d", "sparse"])),
                       tol=float(10**rng.uniform(lo, -2)),
                       d=int(rng.choice([-1, 1])), cplx=False, lin=False,
                       stiff=float(rng.uniform(0, 3)),
                       jac=str(rng.choice(["fun", "fun", "sparse", "none",
                                           "perturbed", "frozen", "each"])),
                       atolvec=bool(rng.integers(3) == 0),
                       first=float(rng.uniform(-3, 0)),
                       seed=int(rng.integers(2**31)))


class Sharp:
    """strong nonlinearity with fast transients"""

    def __init__(self, case, rng):
        self.d, self.n = case["d"], 2
        self.t0 = float(np.round(rng.uniform(-2, 2), 2))
        self.mu = 10**rng.uniform(0, 2)
        self.t1 = self.t0 + self.d*min(10., 2.5*self.mu)
        self.y0 = np.array([rng.uniform(.5, 2.5), rng.normal()])

    def fun(self, t, y):
        return self.d*np.array([y[1], self.mu*(1 - y[0]**2)*y[1] - y[0]])

    def jac(self, t, y):
        return self.d*np.array([[0, 1.], [-2*self.mu*y[0]*y[1] - 1,
                                          self.mu*(1 - y[0]**2)]])


def predictor(cls, opts):
    """the first iterate of the first stage is y + c h y'"""
    calls = []

    def f(t, y):
        calls.append((t, y.copy()))
        return np.ones(1)
    s = cls(f, 0., [0.], 1., first_step=.1, jac=lambda t, y: np.zeros((1, 1)),
            rtol=1e-3, atol=1e-3, **opts)
    del calls[:]
    s.step()
    return calls[0][1][0]/(s.t)


def run(case):
    res = Result()
    rng = np.random.default_rng(case["seed"])
    m = METHODS[case["m"]]
    kind = case["kind"]
    M = None
    if kind in ("mass", "dae"):
        P = DAE(case, rng, kind == "dae")
        y0 = P.join(*P.y0(rng))
        Md = P.M
        M = form(P.M, case["form"], rng)
    else:
        P = Stiff(dict(case, kind="nonlinear"), rng) if kind == "ode" else \
            Sharp(case, rng)
        y0 = P.y0
        Md = np.eye(len(y0))
    n = len(y0)
    rt = case["tol"]
    at = rt*(10**rng.uniform(-1, 1, n) if case["atolvec"] else 1.)
    kw = dict(m.opts, rtol=rt, atol=at)
    kw["first_step"] = min(10**case["first"], .5*abs(P.t1 - P.t0))
    if M is not None:
        kw["M"] = M
    E = 1 + .2*rng.uniform(-1, 1, size=(n, n))
    J0 = P.jac(P.t0, y0)
    jm = case["jac"]
    if kind == "dae" and jm in ("perturbed", "frozen"):
        jm = "fun"
    kw.update({"fun": dict(jac=P.jac), "none": {},
               "sparse": dict(jac=lambda t, y: csc_array(P.jac(t, y))),
               "perturbed": dict(jac=lambda t, y: P.jac(t, y)*E),
               "frozen": dict(jac=lambda t, y: J0),
               "each": dict(jac=P.jac, jac_each_step=True)}[jm])
    log, total = [], [0]

    def fun(t, y):
        total[0] += 1
        if total[0] > 60000:
            raise Budget("fun")
        log.append((float(t), y.copy()))
        return P.fun(t, y)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = m.cls(fun, P.t0, y0, P.t1, **kw)
    pc = predictor(m.cls, m.opts)
    A, C = np.array(m.cls.A, float), np.array(m.cls.C, float)
    g, S = A[-1, -1], len(C)
    # nodes, equal ones of successive stages once
    N = [c for i, c in enumerate(C) if i == 0 or c != C[i-1]]
    steps = lost = 0
    errs = []
    tag = f"{case}"
    while s.status == "running" and steps < 1500:
        t, y = s.t, s.y.copy()
        del log[:]
        msg = s.step()
        if s.status == "failed":
            res.count("failed_" + jm)
            # the rate of convergence with outdated matrices may be misjudged
            res.check(kind == "dae" or jm in ("perturbed", "frozen", "none"),
                      "failed", lambda: f"{msg} {tag}")
            break
        steps += 1
        h = s.t - t
        eps = 1e-9*abs(h) + 1e-15*abs(t)
        # the first call of the accepted attempt
        i, k = len(log), len(N) - 1
        first = None
        while i > 0:
            x = log[i-1][0]
            if abs(x - t - N[k]*h) < eps:
                i -= 1
                if k == 1:
                    first = log[i][1]
            elif k > 1 and abs(x - t - N[k-1]*h) < eps:
                k -= 1
            else:
                break
        if not res.check(k == 1 and first is not None, "stages", lambda:
                         f"step of {h} from {t}: evaluations at "
                         f"{[x for x, _ in log]} {tag}"):
            break
        # (also the first of several attempts of this size)
        K = np.zeros((S, n))
        K[0] = (first - y)/(pc*h)
        w = at + rt*np.maximum(np.abs(y), np.abs(s.y))
        good = True
        for i in range(1, S):
            psi = y + h*(A[i, :i] @ K[:i])
            ti = t + C[i]*h
            z = h*K[i-1]
            for it in range(30):
                yi = psi + g*z
                r = h*P.fun(ti, yi) - Md @ z
                dz = np.linalg.solve(Md - h*g*P.jac(ti, yi), r)
                z = z + dz
                e = np.sqrt(np.mean((dz/w)**2))
                if not np.isfinite(e) or e < 1e-9:
                    break
            if not e < 1e-6:
                good = False
                break
            K[i] = z/h
        if not good:
            lost += 1
            continue
        ynew = y + h*(A[-1] @ K)
        e = np.sqrt(np.mean(((s.y - ynew)/w)**2))
        key = f"{case['m']}/{'inexact' if jm in ('perturbed', 'frozen') else 'exact'}"
        errs.append(e)
        res.count("compared")
    # Convergence is judged from the rate of a few iterations. This may go
    # wrong now and then.
    if len(errs) >= 20:
        q = np.sort(errs)
        q90, q3 = q[int(.9*len(q))], q[-3 - len(q)//50]
        res.peak(key + "/q90", q90)
        res.peak(key + "/q3", q3)
        res.check(q90 < LIMIT[0], "stage equations", lambda:
                  f"{case['m']} jac={jm}: 10% of {len(errs)} steps differ "
                  f"{q90:.3g} times the tolerance or more from the solutions "
                  f"of their stage equations {tag}")
        res.check(q3 < LIMIT[1], "outliers", lambda:
                  f"{case['m']} jac={jm}: {len(q)//50 + 3} of {len(errs)} "
                  f"steps differ {q3:.3g} times the tolerance or more from "
                  f"the solutions of their stage equations {tag}")
    res.count("steps", steps)
    res.count("unsolved", lost)
    res.nontrivial = steps - lost >= 20
    res.sample = dict(method=case["m"], kind=kind, jac=jm, steps=steps)
    return res


LIMIT = (4., 8.)
