"""C18: the Jacobian affects the cost of implicit methods, not the solution."""
import numpy as np
from scipy.integrate import solve_ivp
from scipy.sparse import csc_array, csr_array, coo_array, csc_matrix
from vlib.core import Result, Budget
from vlib.methods import METHODS, ESD

ID = "C18"
QUICK = 4            # repetitions of the set of cases in the quick tier
RULE = ("a case integrates one stiff problem with several forms of its "
        "Jacobian: function (dense, list, sparse), numerical (plain, "
        "vectorized, with sparsity pattern), inexact functions (perturbed, "
        "frozen at the start, only the diagonal) and with an evaluation each "
        "step; every solution is compared to an independent reference in "
        "every step, and the work to that with the exact Jacobian. Linear "
        "cases also give the constant Jacobian as an array, and compare the "
        "solutions in every step. Non-trivial if 8 or more steps were "
        "compared; distinct by parameters")
ASSUMPTIONS = ["bound constants are at least 4 times the largest seen on the "
               "unmodified code",
               "failures with an inexact Jacobian are not violations if "
               "reported as failures"]
BOUND = 16.


def gen(tier, rng):
    for n in ESD:
        for k in range(8 if tier == "quick" else 300):
            lo = {2: -5., 3: -6.}.get(METHODS[n].order, -7.5)
            yield dict(kind=["nonlinear", "linear"][k % 2], m=n,
                       n=int(rng.integers(1, 9)),
                       tol=float(10**rng.uniform(lo, -3)),
                       d=int(rng.choice([-1, 1])),
                       cplx=bool(rng.integers(3) == 0),
                       stiff=float(rng.uniform(0, 3)),
                       seed=int(rng.integers(2**31)))


class Stiff:
    """chain of components with stiff relaxation"""

    def __init__(self, case, rng):
        n = self.n = case["n"]
        self.d = case["d"]
        self.c = (1 + .4j) if case["cplx"] else 1.
        self.lin = case["kind"] == "linear"
        self.lam = 10**rng.uniform(0, max(.1, case["stiff"]), size=n)
        self.C = np.zeros((n, n))
        for i in range(n - 1):
            self.C[i, i+1], self.C[i+1, i] = rng.normal(size=2)
        if rng.integers(2):
            # another structure
            i = rng.permutation(n)
            self.C = self.C[i][:, i]
        elif n > 2 and rng.integers(2):
            self.C = np.where(rng.random((n, n)) < 2/n,
                              rng.normal(size=(n, n))/1.5, 0.)
            np.fill_diagonal(self.C, 0.)
        # the stiffness may vary
        self.vary = float(rng.choice([0., .5, .9]))*(not self.lin)
        self.wv = float(rng.uniform(1, 4))
        self.w, self.p = rng.uniform(.5, 2), rng.uniform(0, 6)
        self.t0 = float(np.round(rng.uniform(-2, 2), 2))
        self.t1 = self.t0 + 3*self.d
        self.y0 = rng.normal(size=n)*self.c

    def phi(self, t):
        return self.c*np.cos(self.w*t + self.p + np.arange(self.n))

    def rate(self, t):
        return self.lam*(1 + self.vary*np.sin(self.wv*t))

    def fun(self, t, y):
        e = y - self.phi(t)
        if self.lin:
            return self.d*(-self.lam*e + self.C @ y)
        x = (self.C @ y).real if self.c != 1. else self.C @ y
        return self.d*(-self.rate(t)*(e + .1*e**3)*1. + np.sin(x))

    def jac(self, t, y):
        e = y - self.phi(t)
        if self.lin:
            return self.d*(-np.diag(self.lam) + self.C)
        g = np.cos((self.C @ y).real)[:, None]*self.C if self.c == 1. else 0.
        return self.d*(-np.diag(self.rate(t)*(1 + .3*e**2)) + g)


def run(case):
    """(an error estimate may be small by accident, see DESIGN.md)"""
    for k in range(3):
        res = attempt(case, k)
        if not res.viol or not all(x == "accuracy" for x, _ in res.viol):
            break
    if k:
        res.count("accidents")
    return res


def attempt(case, k):
    res = Result()
    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "nonlinear":
        case = dict(case, cplx=False)
    P = Stiff(case, rng)
    # same problem, other initial conditions
    P.y0 = P.y0*(1 - .3*k) + .2*k
    m = METHODS[case["m"]]
    kw0 = dict(m.opts, rtol=case["tol"],
               atol=case["tol"]*float(10**rng.uniform(-1, .5)))
    if rng.integers(2):
        kw0["first_step"] = float(10**rng.uniform(-3, -1))
    ref = solve_ivp(P.fun, (P.t0, P.t1), P.y0, method="DOP853", rtol=1e-11,
                    atol=1e-12, dense_output=True).sol
    J0 = P.jac(P.t0, P.y0)
    E = 1 + .2*rng.uniform(-1, 1, size=J0.shape)
    sp = [csc_array, csr_array, coo_array, csc_matrix][rng.integers(4)]
    pat = (np.abs(P.C) > 0) | np.eye(P.n, dtype=bool)
    points = []

    def called(t, y, J):
        points.append((t, y.copy()))
        return J
    forms = dict(
        exact=dict(jac=lambda t, y: called(t, y, P.jac(t, y))),
        list=dict(jac=lambda t, y: P.jac(t, y).tolist()),
        sparse=dict(jac=lambda t, y: sp(P.jac(t, y))),
        each=dict(jac=lambda t, y: called(t, y, P.jac(t, y)),
                  jac_each_step=True),
        eachsparse=dict(jac=lambda t, y: called(t, y, sp(P.jac(t, y))),
                        jac_each_step=True),
        numeric=dict(),
        numericeach=dict(jac_each_step=True),
        vectorized=dict(vectorized=True),
        pattern=dict(jac_sparsity=pat.astype(float)),
        patternsparse=dict(jac_sparsity=sp(pat.astype(float))),
        perturbed=dict(jac=lambda t, y: P.jac(t, y)*E),
        frozen=dict(jac=lambda t, y: J0),
        diagonal=dict(jac=lambda t, y: np.diag(np.diagonal(P.jac(t, y)))))
    if P.lin:
        forms["array"] = dict(jac=J0)
        forms["sparsearray"] = dict(jac=sp(J0))
        forms["listarray"] = dict(jac=J0.tolist())
    names = ["exact", "each"] + [
        str(x) for x in rng.permutation(list(forms)[1:])[:4]]
    if "each" in names[2:]:
        names.remove("each")
    if P.lin:
        names += ["array", "sparsearray"]
    base = None
    rows = {}
    for name in names:
        kw = dict(kw0, **forms[name])
        count = [0]

        def fun(t, y):
            count[0] += 1
            if count[0] > 100000:
                raise Budget("fun")
            if y.ndim == 2:
                return np.stack([P.fun(t, c) for c in y.T], axis=1)
            return P.fun(t, y)
        s = m.cls(fun, P.t0, P.y0, P.t1, **kw)
        tag = f"{case['m']} jac:{name} {case['kind']} n={P.n} " \
            f"tol={case['tol']:.2e} stiff={P.lam.max():.3g}"
        worst, steps = 0, 0
        out = []
        first = len(points)
        while s.status == "running":
            t0, y0 = s.t, np.array(s.y)
            msg = s.step()
            if s.status == "failed":
                break
            steps += 1
            for t, y in points[first:]:
                res.count("evaluated_at_start")
                res.check(t == t0 and np.array_equal(y, y0), "place",
                          lambda: f"{tag}: the Jacobian is evaluated at {t}, "
                          f"{y} in the step from {t0}, {y0}")
            if name in ("each", "eachsparse"):
                # current at the start of each step
                res.count("each_step")
                res.check(any(t == t0 and np.array_equal(y, y0)
                              for t, y in points[first if steps > 1 else 0:]),
                          "each step", lambda: f"{tag}: the Jacobian was not "
                          f"evaluated at the start of the step at t={t0}")
            first = len(points)
            if name == "numericeach":
                res.check(s.njev >= steps, "each step", lambda: f"{tag}: "
                          f"{s.njev} Jacobians in {steps} steps")
            if steps > 3000:
                res.bad("steps", tag)
                return res
            ex = ref(s.t)
            w = np.max(kw0["atol"]) + case["tol"]*np.abs(ex).max()
            worst = max(worst, np.abs(s.y - ex).max()/w/(steps + 4))
            out.append((s.t, s.y))
        inexact = name in ("perturbed", "frozen", "diagonal")
        if s.status == "failed":
            res.count("failed_inexact" if inexact else "failed")
            res.check(inexact, "failed", lambda: f"{tag} {msg}")
            continue
        rows[name] = out
        res.count("steps", steps)
        res.count("form_" + name)
        res.peak("error/" + case["m"] + ("" if not inexact else "/inexact"),
                 worst)
        res.check(worst < BOUND, "accuracy", lambda: f"{tag}: error/bound "
                  f"{worst/BOUND:.3g} in {steps} steps")
        if name == "exact":
            base = steps
            res.nontrivial = steps >= 8
        elif not inexact and base:
            r = (steps + 10)/(base + 10)
            res.peak("steps_ratio", r)
            res.peak("steps_ratio_inv", 1/r)
            res.check(.7 < r < 1.4, "steps", lambda: f"{tag}: {steps} steps "
                      f"in place of {base}")
        if name.endswith("array"):
            # one linear solve per stage, factorization only if h changes
            res.check(s.njev == 0, "njev", lambda: f"{tag} {s.njev}")
    if P.lin and "array" in rows and "sparsearray" in rows:
        a, b = rows["array"], rows["sparsearray"]
        if res.check(len(a) == len(b), "array steps", lambda:
                     f"{case['m']} {len(a)} and {len(b)} steps"):
            for (ta, ya), (tb, yb) in zip(a, b):
                w = np.max(kw0["atol"]) + case["tol"]*np.abs(ya).max()
                slope = np.abs(P.fun(ta, ya)).max() + 1
                if not res.check(
                        abs(ta - tb) < 1e-4*3 and np.abs(ya - yb).max()
                        < .1*w + 5*abs(ta - tb)*slope, "array", lambda:
                        f"{case['m']} dense: {ta} {ya}, sparse: {tb} {yb}"):
                    break
    res.sample = dict(method=case["m"], forms=names, steps=base)
    return res
