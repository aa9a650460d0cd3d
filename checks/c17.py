"""C17: implicit methods solve problems with a (singular) mass matrix."""
import warnings
import numpy as np
from scipy.integrate import solve_ivp
from scipy.sparse import csc_array, csr_array, coo_array
from vlib.core import Result, Budget
from vlib.methods import METHODS, ESD

ID = "C17"
QUICK = 3            # repetitions of the set of cases in the quick tier
RULE = ("a case integrates M y' = f(t, y) made from an ODE with algebraic "
        "constraints by random linear transformations (1D, 2D, sparse, "
        "singular and nonsingular M; all forms of the Jacobian; consistent "
        "and inconsistent initial conditions; both directions; real and "
        "complex) and compares differential and algebraic components in all "
        "steps and inside the steps to the reduced ODE, integrated "
        "independently; other cases compare notations of the same problem, or "
        "present problems of higher index. Non-trivial if 5 or more steps "
        "were compared or an error was observed; distinct by parameters")
ASSUMPTIONS = ["smooth problems of index 1 with well conditioned constraints",
               "bound constants are at least 4 times the largest seen on the "
               "unmodified code",
               "complex problems start from consistent initial conditions"]
FORMS = ["1d", "2d", "2ddiag", "sparse", "sparsediag", "list"]
BOUND = 15.
_PC = {}


def gen(tier, rng):
    for n in ESD:
        for k in range(48 if tier == "quick" else 600):
            lo = {2: -5., 3: -6.}.get(METHODS[n].order, -7.5)
            kind = ["dae", "dae", "dae", "ode", "same", "dae", "index2",
                    "branch" if k % 16 == 7 else "ode"][k % 8]
            yield dict(kind=kind, m=n, nu=int(rng.integers(1, 4)),
                       nv=int(rng.integers(1, 3)),
                       form=str(rng.choice(FORMS)),
                       jac=str(rng.choice(["fun", "sparse", "none", "pattern",
                                           "vec"])),
                       tol=float(10**rng.uniform(lo, -3)),
                       d=int(rng.choice([-1, 1])),
                       cons=bool(rng.integers(3)),
                       cplx=bool(rng.integers(4) == 0),
                       first=bool(rng.integers(3) == 0),
                       lin=bool(rng.integers(3) == 0),
                       atolvec=bool(rng.integers(3) == 0),
                       each=bool(rng.integers(4) == 0),
                       seed=int(rng.integers(2**31)))


class DAE:
    def __init__(self, case, rng, singular=True):
        nu, nv = case["nu"], case["nv"] if singular else 0
        self.nu, self.nv, n = nu, nv, nu + nv
        self.n = n
        self.d = case["d"]
        # (sin would be unbounded)
        self.lin = case["lin"] or case["cplx"]
        self.c = (1 + .5j) if case["cplx"] else 1.
        self.U, self.V = .5*rng.normal(size=(nu, nu)), \
            .5*rng.normal(size=(nu, nv))
        self.W = .5*rng.normal(size=(nv, nu))
        self.D = np.diag(rng.uniform(.5, 2, nv)*rng.choice([-1, 1], nv)) \
            @ np.linalg.qr(rng.normal(size=(nv, nv)))[0] if nv else \
            np.zeros((0, 0))
        self.w, self.p = rng.uniform(.5, 2), rng.uniform(0, 6)
        self.lam = 10**rng.uniform(-1, 1.5, size=nu)
        self.t0 = float(np.round(rng.uniform(-2, 2), 2))
        self.t1 = self.t0 + 3*self.d
        diag = case["form"] in ("1d", "2ddiag", "sparsediag")
        if diag:
            # permuted, scaled
            self.S = np.diag(rng.uniform(.3, 3, nu)*rng.choice([-1, 1], nu))
            perm = rng.permutation(n)
            self.P = np.eye(n)[perm]
            self.Q = self.P
        else:
            self.S = np.diag(rng.uniform(.3, 3, nu))

            def mat():
                a, b = (np.linalg.qr(rng.normal(size=(n, n)))[0]
                        for _ in range(2))
                return a @ np.diag(rng.uniform(.5, 2, n)) @ b
            self.P, self.Q = mat(), mat()
            if rng.integers(3) == 0:
                # off diagonal elements of one sign, or in one place
                off = rng.choice([-1, 1])*rng.uniform(.05, .3, size=(n, n))
                off *= [np.ones((n, n)), np.triu(np.ones((n, n))),
                        np.tril(np.ones((n, n))),
                        np.roll(np.eye(n), rng.integers(1, 9), 0)][
                            rng.integers(4)]
                self.P = np.diag(rng.uniform(1, 2, n)) + off \
                    - np.diag(np.diagonal(off))
                self.Q = np.eye(n)
        self.Qi = np.linalg.inv(self.Q)
        # the size of the equations is arbitrary
        self.size = float(10**rng.uniform(-2, 3.3)) if rng.integers(3) == 0 \
            else 1.
        if case["cplx"]:
            self.size = min(self.size, 1.)
        self.P = self.P*self.size
        B = np.zeros((n, n))
        B[:nu, :nu] = self.S
        self.M = self.P @ B @ self.Qi
        if diag:
            self.M = np.diag(np.diagonal(self.M))

    def F(self, t, u, v):
        x = self.U @ u + self.V @ v
        if not self.lin:
            x = np.sin(x)
        return self.d*(x - self.lam*(u - self.c*np.cos(self.w*t + self.p)))

    def Fj(self, t, u, v):
        x = np.cos(self.U @ u + self.V @ v)[:, None] if not self.lin else 1.
        return self.d*(self.U*x - np.diag(self.lam)), self.d*self.V*x

    def wv(self, t, u):
        x = u if self.lin else np.sin(u)
        return self.W @ x + self.c*np.sin(self.w*t + np.arange(self.nv))

    def G(self, t, u, v):
        e = v - self.wv(t, u)
        if not self.lin:
            e = e + .2*e**2*np.sin(v)
        return self.D @ e

    def Gj(self, t, u, v):
        e = v - self.wv(t, u)
        wu = self.W * (1. if self.lin else np.cos(u))
        if self.lin:
            return -self.D @ wu, self.D
        dv = 1 + .4*e*np.sin(v)
        return -self.D @ (dv[:, None]*wu), \
            self.D @ np.diag(dv + .2*e**2*np.cos(v))

    def split(self, y):
        z = self.Qi @ y
        return z[:self.nu], z[self.nu:]

    def join(self, u, v):
        return self.Q @ np.concatenate([u, v])

    def fun(self, t, y):
        u, v = self.split(y)
        return self.P @ np.concatenate([self.S @ self.F(t, u, v),
                                        self.G(t, u, v)])

    def jac(self, t, y):
        u, v = self.split(y)
        Fu, Fv = self.Fj(t, u, v)
        Gu, Gv = self.Gj(t, u, v)
        return self.P @ np.block([[self.S @ Fu, self.S @ Fv], [Gu, Gv]]) \
            @ self.Qi

    def y0(self, rng):
        u = rng.normal(size=self.nu)
        if self.c != 1.:
            u = u + 1j*rng.normal(size=self.nu)
        return u, self.wv(self.t0, u)

    def exact(self, u0):
        """dense solution of the reduced ODE"""
        s = solve_ivp(lambda t, u: self.F(t, u, self.wv(t, u)),
                      (self.t0, self.t1), u0, method="DOP853", rtol=1e-12,
                      atol=1e-12, dense_output=True)
        assert s.success
        return lambda t: self.join(s.sol(t), self.wv(t, s.sol(t)))


def form(M, f, rng):
    if f == "1d":
        return np.diagonal(M).copy()
    if f == "list":
        return M.tolist()
    if f.startswith("sparse"):
        k = [csc_array, csr_array, coo_array]
        return k[rng.integers(3)](M)
    return M.copy()


def options(case, P, rng):
    kw = dict(METHODS[case["m"]].opts, rtol=case["tol"],
              atol=case["tol"]*float(10**rng.uniform(-1, 1)))
    if case["atolvec"]:
        kw["atol"] = kw["atol"]*10**rng.uniform(-.5, .5, P.n)
    j = case["jac"]
    if j == "fun":
        kw["jac"] = P.jac
    elif j == "sparse":
        kw["jac"] = lambda t, y: csc_array(P.jac(t, y))
    elif j == "pattern":
        kw["jac_sparsity"] = np.ones((P.n, P.n))
    if case["first"]:
        kw["first_step"] = float(10**rng.uniform(-3, -1))
    if case["each"] :
        kw["jac_each_step"] = True
    return kw


def run(case):
    res = Result()
    rng = np.random.default_rng(case["seed"])
    with warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter("always")
        {"dae": solve, "ode": solve, "same": same,
         "index2": index2, "branch": branch}[case["kind"]](case, rng, res, wl)
    return res


def counted(f, n=100000):
    k = [0]

    def g(t, y):
        k[0] += 1
        if k[0] > n:
            raise Budget("fun")
        return f(t, y)
    return g


def solve(case, rng, res, wl):
    """one integration (see DESIGN.md for the retries after a failure and for
    an error estimate that is small by accident)"""
    seed = int(rng.integers(2**31))
    for k in range(3):
        new = dict(case, tol=case["tol"]*.5**k)
        del wl[:]
        sub = Result()
        msg = attempt(new, np.random.default_rng(seed), sub, wl, k)
        if msg is not None:
            sub.count("retries")
            continue
        if not all("accuracy" in key for key, _ in sub.viol):
            break
        if not sub.viol:
            sub.count("accidents", k > 0)
            break
    else:
        if msg is not None:
            sub.bad("failed", msg)
    vars(res).update(vars(sub))


def attempt(case, rng, res, wl, k=0):
    P = DAE(case, rng, case["kind"] == "dae")
    m = METHODS[case["m"]]
    u0, v0 = P.y0(rng)
    if k:
        # same problem, other initial conditions
        u0 = u0*(1 - .3*k) + .2*k
        v0 = P.wv(P.t0, u0)
    y0 = P.join(u0, v0)
    kw = options(case, P, rng)
    kw["M"] = form(P.M, case["form"], rng)
    calls = []

    def f(t, y, g=counted(P.fun)):
        if len(calls) < 1:
            calls.append((float(t), y.copy()))
        return g(t, y)
    if case["jac"] == "vec":
        kw["vectorized"] = True

        def f(t, y, g=counted(P.fun)):
            if y.ndim == 1:
                return g(t, y)
            return np.stack([g(t, c) for c in y.T], axis=1)
    cons = case["cons"] or case["cplx"] or case["kind"] == "ode"
    start = y0
    if not cons:
        shift = .2 if rng.integers(2) else 10**rng.uniform(-5, -1)
        start = P.join(u0, v0 + shift*rng.uniform(.3, 1, size=P.nv))
    tag = f"{case['m']} {case['kind']} M:{case['form']} jac:{case['jac']} " \
        f"tol={case['tol']:.2e}"
    keep = start.copy()
    s = m.cls(f, P.t0, start, P.t1, **kw)
    changed = [w for w in wl if "Initial conditions" in str(w.message)]
    at = np.max(kw["atol"])
    # initial conditions
    scale = np.abs(y0).max() + 1
    if cons:
        res.check(np.array_equal(s.y, keep) or P.size > 1 and np.abs(
            s.y - keep).max() < 1e-12*scale, "consistent y0 changed", lambda:
                  f"{tag}: {s.y - keep}")
        res.check(not changed, "warned", lambda: tag)
    else:
        e = np.abs(s.y - y0).max()
        res.check(e < 1e-5*min(1., shift)*scale, "inconsistent y0", lambda:
                  f"{tag}: error {e} of the corrected initial state")
        size = (np.abs(start - y0)/(at + kw["rtol"]*np.abs(y0))).max()
        res.check(bool(changed) or size < 2, "no warning", lambda:
                  f"{tag} {size}")
        res.count("corrected_starts")
    start_slope(case, P, m, s, u0, calls, res, tag, cons, kw)
    if s.status == "failed":
        return f"{tag} first step failed"
    exact = P.exact(u0)
    amp = 1.
    cond = np.linalg.norm(P.Q, 2)*np.linalg.norm(P.Qi, 2)
    steps = 0
    worst = wd = 0
    while s.status == "running":
        msg = s.step()
        if s.status == "failed":
            return f"{tag} t={s.t}: {msg}"
        steps += 1
        if steps > 4000:
            res.bad("steps", tag)
            return
        ex = exact(s.t)
        w = at + case["tol"]*np.abs(ex).max()
        e = np.abs(s.y - ex).max()/w/(steps + 4)/amp
        worst = max(worst, e)
        o = s.dense_output()
        tt = s.t_old + rng.uniform()*(s.t - s.t_old)
        wd = max(wd, np.abs(o(tt) - exact(tt)).max()/w/(steps + 4)/amp)
    res.check(s.t == P.t1, "end", tag)
    res.count("steps", steps)
    res.peak("error/" + case["m"], worst)
    res.peak("dense/" + case["m"], wd)
    res.check(worst < BOUND, "accuracy", lambda: f"{tag} error/bound "
              f"{worst/BOUND:.3g} in {steps} steps, condition {cond:.2g}")
    res.check(wd < 5*BOUND, "dense accuracy", lambda: f"{tag} error/bound "
              f"{wd/BOUND/5:.3g} in {steps} steps")
    if steps >= 5:
        res.nontrivial = True
    res.sample = dict(method=case["m"], M=case["form"], nu=P.nu, nv=P.nv,
                      steps=steps)


def start_slope(case, P, m, s, u0, calls, res, tag, cons, kw):
    """the first step starts with the slope of the solution"""
    if case["jac"] == "vec" or not (cons or case["jac"] in ("fun", "sparse")):
        return
    from checks.c32 import predictor
    if m.name not in _PC:
        _PC[m.name] = predictor(m.cls, m.opts)
    y, t0 = s.y.copy(), s.t
    del calls[:]
    s.step()
    if not calls:
        return
    t, yc = calls[0]
    h = (t - t0)/m.cls.C[1]
    slope = (yc - y)/(_PC[m.name]*h)
    e = 1e-5
    du = P.F(t0, u0, P.wv(t0, u0))
    want = (P.join(u0 + e*du, P.wv(t0 + e, u0 + e*du))
            - P.join(u0 - e*du, P.wv(t0 - e, u0 - e*du)))/2/e
    # the tolerance is that of the constraint and numerical derivatives
    lim = 3e-4*np.abs(want).max() + 1e-14*np.abs(y).max()/abs(h) + 1e-8
    err = np.abs(slope - want).max()
    res.peak("log10 slope error/limit", np.log10(err/lim + 1e-10))
    res.check(err < lim, "slope", lambda:
              f"{tag} consistent: {cons} slope {slope} expected {want}")
    res.count("start_slopes")


def same(case, rng, res, wl):
    """two notations of one linear problem give the same steps"""
    case = dict(case, lin=True)
    P = DAE(case, rng, bool(rng.integers(2)))
    u0, v0 = P.y0(rng)
    y0 = P.join(u0, v0)
    case["jac"] = "none"
    kw = options(case, P, rng)
    kw["first_step"] = .2
    J = P.jac(0, y0)
    diag = case["form"] in ("1d", "2ddiag", "sparsediag")
    forms = [f for f in FORMS if diag or f in ("2d", "sparse", "list")]
    fa, fb = rng.choice(forms, 2)
    A = dict(kw, M=form(P.M, fa, rng), jac=J)
    B = dict(kw, M=form(P.M, fb, rng), jac=J)
    fun2 = P.fun
    k = int(rng.integers(3))
    if k == 0:
        B["jac"] = csc_array(J)
    elif k == 1:
        # multiply the equations by a matrix
        if diag:
            q = 2 if P.nv or rng.integers(2) else 5.5
            L = np.diag(10**(q*rng.choice([-1, 1], P.n))
                        if q > 2 else 10**rng.uniform(-q, q, P.n))
        else:
            L = np.linalg.qr(rng.normal(size=(P.n, P.n)))[0] \
                * 10**rng.uniform(-2 if P.nv else -12, 6)
        B["jac"] = L @ J
        B["M"] = form(L @ P.M, fb, rng)

        def fun2(t, y):
            return L @ P.fun(t, y)
    elif P.nv == 0:
        # solve for the derivatives
        Mi = np.linalg.inv(P.M)
        B["jac"] = Mi @ J
        B["M"] = [None, np.eye(P.n), np.ones(P.n)][rng.integers(3)]

        def fun2(t, y):
            return Mi @ P.fun(t, y)
    sols = []
    for f, q in ((P.fun, A), (fun2, B)):
        s = METHODS[case["m"]].cls(counted(f), P.t0, y0, P.t1, **q)
        rows = []
        while s.status == "running":
            msg = s.step()
            rows.append((s.t, s.y))
            if s.status == "failed":
                res.bad("failed", f"{case['m']} {fa} {fb} {k}: {msg}")
                return
        sols.append(rows)
    a, b = sols
    tag = f"{case['m']} {fa} and {fb} ({k}), singular: {P.nv > 0}"
    if not res.check(len(a) == len(b), "steps", lambda:
                     f"{tag}: {len(a)} and {len(b)} steps"):
        return
    for i, ((ta, ya), (tb, yb)) in enumerate(zip(a, b)):
        if not res.check(abs(ta - tb) < 1e-4*3, "times", lambda:
                         f"{tag}: step {i} ends at {ta} and {tb}"):
            return
        w = np.max(kw["atol"]) + case["tol"]*np.abs(ya).max()
        # (the times may differ a little)
        slope = np.abs(ya - a[i-1][1]).max()/abs(ta - a[i-1][0]) if i else 10.
        if not res.check(np.abs(ya - yb).max() < .1*w
                         + abs(ta - tb)*5*(slope + 1), "states", lambda:
                         f"{tag}: step {i} at {ta}, {tb}: {ya} and {yb}"):
            return
    res.count("steps", len(a))
    res.nontrivial = len(a) >= 5


def index2(case, rng, res, wl):
    """constraints that don't determine the algebraic variables"""
    case = dict(case, cplx=False)
    case["nv"] = min(case["nv"], case["nu"])
    P = DAE(case, rng)
    nu, nv = P.nu, P.nv
    k = int(rng.integers(nv))       # this constraint doesn't contain v

    class Q(DAE):
        def G(self, t, u, v):
            g = np.linalg.solve(self.D, DAE.G(self, t, u, v))
            g[k] = u[0] - u0[0] + np.sin(t - self.t0)
            return self.D @ g

        def Gj(self, t, u, v):
            a, b = (np.linalg.solve(self.D, x)
                    for x in DAE.Gj(self, t, u, v))
            a[k], b[k] = 0., 0.
            a[k, 0] = 1.
            return self.D @ a, self.D @ b
    P.__class__ = Q
    u0, v0 = P.y0(rng)
    kw = options(case, P, rng)
    kw["M"] = form(P.M, case["form"], rng)
    if case["jac"] in ("none", "pattern", "vec"):
        kw.pop("jac_sparsity", None)
        kw["jac"] = P.jac
    tag = f"{case['m']} M:{case['form']} jac:{case['jac']}"
    if case["form"] not in ("1d", "2ddiag", "sparsediag"):
        # rounding: the index cannot be seen from a full matrix
        P.P = P.Q = P.Qi = np.eye(P.n)
        B = np.zeros((P.n, P.n))
        B[:nu, :nu] = P.S
        P.D = np.eye(nv)
        kw["M"] = form(B, case["form"], rng)
    else:
        P.D = np.diag(np.diagonal(P.D)) + np.eye(nv)*3
    try:
        METHODS[case["m"]].cls(counted(P.fun), P.t0, P.join(u0, v0), P.t1,
                               **kw)
    except ValueError as e:
        res.check("index" in str(e), "message", lambda: f"{tag} {e}")
        res.count("rejected_high_index")
        res.nontrivial = True
    else:
        res.bad("index2", f"{tag}: a problem of index 2 is accepted")


def branch(case, rng, res, wl):
    """constraints with two solutions: the nearest one is meant"""
    nu, nv = case["nu"], case["nv"]
    n = nu + nv
    d = case["d"]
    sign = rng.choice([-1., 1.], nv)
    Q = np.linalg.qr(rng.normal(size=(n, n)))[0] \
        if case["form"] in ("2d", "sparse", "list") else np.eye(n)
    W = rng.normal(size=(nv, nu))

    def vs(u, t):
        return sign*np.sqrt(1 + .3*np.sin(W @ u + t))

    def f(t, y):
        z = Q.T @ y
        u, v = z[:nu], z[nu:]
        return np.concatenate([d*(v.sum() - u),
                               v**2 - 1 - .3*np.sin(W @ u + t)])

    def jac(t, y):
        z = Q.T @ y
        u, v = z[:nu], z[nu:]
        J = np.zeros((n, n))
        J[:nu, :nu] = -d*np.eye(nu)
        J[:nu, nu:] = d
        J[nu:, :nu] = -.3*np.cos(W @ u + t)[:, None]*W
        J[nu:, nu:] = np.diag(2*v)
        return J @ Q.T
    M = np.zeros((n, n))
    M[:nu, :nu] = np.eye(nu)
    M = form(M @ Q.T if Q[0, 0] != 1 else M, case["form"], rng)
    if case["form"] == "1d":
        M = np.r_[np.ones(nu), np.zeros(nv)]
    u0, t0 = rng.normal(size=nu), float(rng.uniform(-2, 2))
    v0 = vs(u0, t0)
    start = Q @ np.concatenate([u0, v0*(1 + rng.uniform(-.3, .3, nv))])
    kw = dict(METHODS[case["m"]].opts, rtol=1e-4, atol=1e-5, M=M)
    if case["jac"] in ("fun", "sparse"):
        kw["jac"] = jac
    s = METHODS[case["m"]].cls(counted(f), t0, start, t0 + 2*d, **kw)
    tag = f"{case['m']} M:{case['form']} jac:{case['jac']}"
    z = Q.T @ s.y
    e = np.abs(z - np.concatenate([u0, v0])).max()
    res.check(e < 1e-5, "nearest consistent state", lambda: f"{tag}: the state "
              f"{Q.T @ start} was changed to {z}; {u0} {v0} is consistent")
    steps = 0
    while s.status == "running" and steps < 2000:
        msg = s.step()
        steps += 1
        if s.status == "failed":
            res.bad("failed", f"{tag} {msg}")
            return
        z = Q.T @ s.y
        e = np.abs(z[nu:] - vs(z[:nu], s.t)).max()
        res.check(e < 1e-2, "constraint", lambda: f"{tag}: step {steps} "
                  f"t={s.t}: violated by {e}")
    res.count("branches")
    res.nontrivial = steps >= 5
