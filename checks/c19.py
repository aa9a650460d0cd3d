"""C19: SSV2stab takes as many stages as stability demands."""
import numpy as np
from vlib.core import Result, Budget
from vlib.methods import METHODS
import extensisq.sommeijer as som

ID = "C19"
QUICK = 2            # repetitions of the set of cases in the quick tier
RULE = ("a case integrates a dissipative problem with known spectral radius "
        "(1 .. 1e7 times the time scale of the solution; constant, varying in "
        "time or with the state) with rho_jac given or estimated, and groups "
        "the evaluations in attempts: the number of stages of each attempt "
        "must cover h*rho and not more than needed, all evaluations must be "
        "close to the solution, no mode may grow, stage times must lie in the "
        "step; on problems with smooth solution the number of steps must not "
        "depend on the spectral radius and the work must grow as its root. "
        "Non-trivial if 10 or more steps were judged; distinct by parameters")
ASSUMPTIONS = ["real negative spectra",
               "for estimated spectral radii: the initial slope is not "
               "orthogonal to the dominant eigenvector, and the spectral "
               "radius does not grow more than 20% in 25 steps"]


def gen(tier, rng):
    kinds = ["linear", "given", "varying", "smooth", "domain", "degenerate",
             "jump", "rest"]
    for k in range(640 if tier == "quick" else 48000):
        yield dict(kind=kinds[k % 8], n=int(rng.integers(1, 7)),
                   d=int(rng.choice([-1, 1])), lam=float(rng.uniform(0, 6)),
                   tol=float(10**rng.uniform(-6, -2)),
                   given=bool(rng.integers(2)), const=bool(rng.integers(2)),
                   first=bool(rng.integers(3) == 0),
                   maxs=bool(rng.integers(4) == 0),
                   seed=int(rng.integers(2**31)))


class Mon:
    """records the calls; splits them in attempts"""

    def __init__(self, f, d):
        self.f, self.d, self.n = f, d, 0
        self.calls = []

    def __call__(self, t, y):
        self.n += 1
        if self.n > 300000:
            raise Budget("fun")
        self.calls.append((float(t), y.copy()))
        return self.f(t, y)

    def split(self, t):
        """(estimation states, attempts) in a step from t"""
        est = [y for s, y in self.calls if s == t]
        groups = []
        last = None
        for s, y in self.calls:
            if s == t:
                last = None
                continue
            if last is None or (s - last)*self.d <= 0:
                groups.append([])
            groups[-1].append((s, y))
            last = s
        self.calls = []
        return est, groups


def beta(m):
    """real stability boundary of m stages"""
    from numpy.polynomial import chebyshev as C
    w0 = 1 + 2/(13*m*m)
    c = np.zeros(m + 1)
    c[m] = 1
    d1, d2 = C.chebder(c), C.chebder(c, 2)
    return (w0 + 1)*C.chebval(w0, d2)/C.chebval(w0, d1)


def run(case):
    res = Result()
    rng = np.random.default_rng(case["seed"])
    globals()[case["kind"]](case, rng, res)
    return res


def options(case, rng, T):
    kw = dict(rtol=case["tol"], atol=case["tol"])
    if case["first"]:
        kw["first_step"] = T*float(10**rng.uniform(-4, -1))
    if case["maxs"]:
        kw["max_step"] = T*float(10**rng.uniform(-2, -.5))
    return kw


def integrate(case, f, y0, t1, kw, res, tag, rho=None, wide=1.02, near=None,
              after=None, maxn=3000):
    """monitored integration, rho(t, y) the true spectral radius"""
    d = case["d"]
    mon = Mon(f, d)
    s = METHODS["SSV2stab"].cls(mon, 0., y0, t1, **kw)
    mmax = max(2, round(np.sqrt(s.rtol/(10*np.finfo(float).eps))))
    steps = 0
    evals = 0
    since = 99
    sprad = None
    mon.calls = []
    while s.status == "running":
        t, y = s.t, s.y.copy()
        msg = s.step()
        est, groups = mon.split(t)
        if s.status == "failed":
            res.bad("failed", f"{tag} t={t}: {msg}")
            return None
        steps += 1
        if steps > maxn:
            res.bad("steps", f"{tag}: more than {maxn} steps")
            return None
        if steps == 1 and not case["first"]:
            # evaluation for the starting step size
            groups = groups[1:] if len(groups) > 1 and len(
                groups[0]) == 1 else groups
        h = s.t - t
        if "rho_jac" not in kw and est:
            sprad = power(res, tag, f, t, y, est, kw.get("max_step"))
        if "rho_jac" not in kw:
            # first step, 25 steps after the last, or after a rejection
            since = 1 if est else since + 1
            if kw.get("const_jac"):
                res.check(bool(est) == (steps == 1), "const_jac", lambda:
                          f"{tag}: {len(est)} evaluations for an estimate in "
                          f"step {steps}")
            else:
                res.check(since <= 25, "estimate 25", lambda:
                          f"{tag}: no estimate in {since} steps")
            if len(groups) > 1 and not kw.get("const_jac"):
                res.count("reestimated")
                res.check(est, "estimate rejected", lambda: f"{tag} t={t}: no "
                          f"estimate in a step with {len(groups)} attempts")
        for g in groups:
            evals += len(g)
            times = np.array([a for a, _ in g])
            hg = times[-1] - t          # size of the attempt
            m = len(g)
            res.count("attempts")
            res.peak("stages", m)
            # (the end point times are rounded)
            res.check(np.all((times[:-1] - times[-1])*d <= 1e-9*abs(hg)) and
                      np.all((times - t)*d > 0), "stage times", lambda:
                      f"{tag} step of {hg} at {t}: {times}")
            res.check(2 <= m <= max(mmax, 2), "number of stages", lambda:
                      f"{tag}: {m} stages, at most {mmax}")
            # (it may be estimated after the first attempt was rejected)
            if sprad is not None and not (est and g is groups[0] and
                                          len(groups) > 1):
                # stages that are needed for the estimated spectral radius
                z = 1.54*abs(hg)*sprad
                lo = 1 + int(np.sqrt(z*(1 - 1e-4) + 1))
                up = 1 + int(np.sqrt(z*(1 + 1e-4) + 1))
                res.check(min(lo, mmax) <= m <= up, "stages for estimate",
                          lambda: f"{tag} t={t}: {m} stages, expected {lo} "
                          f"for estimated {sprad}")
                res.count("stages_for_estimate")
            if rho is not None:
                z = rho(t, y)*abs(hg)
                res.check(beta(m)*1.001 > z, "unstable", lambda:
                          f"{tag} t={t} {m} stages are stable up to "
                          f"{beta(m):.4g}, h*rho = {z:.4g}")
                up = 2 + np.sqrt(1.54*wide*z + 1)
                res.check(m <= up + 1e-6, "wasteful", lambda:
                          f"{tag} t={t} {m} stages for h*rho = {z:.4g}")
        if near is not None:
            for e in est:
                res.check(np.linalg.norm(e - y) <= 1e-6*np.linalg.norm(y)
                          + 1e-12 + .01*np.min(s.atol), "estimation", lambda:
                          f"{tag}: estimation at {e}, state {y}")
            res.count("estimations", len(est))
        res.check(abs((groups[-1][-1][0] - s.t)/h) < 1e-9, "end", lambda:
                  f"{tag}: last evaluation at {groups[-1][-1][0]}, not {s.t}")
        if after is not None:
            after(s, t, y, len(groups[-1]))
    res.count("steps", steps)
    res.nontrivial = steps >= 10
    return steps, evals, s


def power(res, tag, f, t, y, est, max_step):
    """follow the power iterations; 1.2 times the last ratio"""
    f0 = f(t, y)
    sig = []
    for e in est:
        de, df = np.linalg.norm(e - y), np.linalg.norm(f(t, e) - f0)
        # (rounding of the small perturbations)
        noise = 1e-15*(np.linalg.norm(y)/de + np.linalg.norm(f0)/df) \
            if de and df else 1.
        if noise > 1e-6 or not np.isfinite(df):
            return None
        sig.append(df/de)
    small = 1/max_step if max_step else 0.
    tol = [abs(b - a)/max(b, small) for a, b in zip(sig, sig[1:])]
    res.check(len(sig) > 1 and all(x > .00999 for x in tol[:-1]) and
              tol[-1] < .01001, "power iterations", lambda:
              f"{tag} t={t}: ratios {sig} in the power iterations")
    res.count("power_iterations")
    return 1.2*sig[-1]


def system(case, rng, top):
    n = case["n"]
    lam = top*np.append(1., 10**rng.uniform(-6, 0, n - 1))
    Q = np.linalg.qr(rng.normal(size=(n, n)))[0]
    return lam, Q


def linear(case, rng, res):
    """homogeneous: modes don't grow"""
    d = case["d"]
    lam, Q = system(case, rng, 10**case["lam"])
    A = Q @ np.diag(lam) @ Q.T
    T = 3./np.sort(lam)[len(lam)//2]
    kw = options(case, rng, T)
    top = lam.max()
    if case["given"]:
        kw["rho_jac"] = lambda t, y: float(top)
    if case["const"]:
        kw["const_jac"] = True
    tag = f"rho={top:.3g} given={case['given']} tol={case['tol']:.2g}"
    y0 = Q @ (rng.choice([-1, 1], len(lam))*rng.uniform(.5, 1, len(lam)))

    def after(s, t, y, m):
        a, b = np.abs(Q.T @ y), np.abs(Q.T @ s.y)
        eps = 1e-12*(m*m + 10)*np.abs(y).max()
        res.check(np.all(b <= a + eps), "growth", lambda:
                  f"{tag}: step from {t} to {s.t}: modes {a} -> {b}")
        # error of each mode (second order, weak damping)
        z = lam*abs(s.t - t)
        slow = z < .05
        e = np.abs(b - a*np.exp(-z))[slow]
        res.check(np.all(e <= a[slow]*z[slow]**3 + eps), "slow modes", lambda:
                  f"{tag} {e}")
    wide = 1.02 if case["given"] else 1.5
    # the estimate is 1.2 times the result of the power method
    integrate(case, lambda t, y: -d*(A @ y), y0, d*T, kw, res, tag,
              rho=lambda t, y: top*(1. if case["given"] else .95), wide=wide,
              near=True, after=after, maxn=20000)


def given(case, rng, res):
    """rho_jac: when and with what it is called, how it is used"""
    d = case["d"]
    lam, Q = system(case, rng, 10**case["lam"])
    A = Q @ np.diag(lam) @ Q.T
    f1, f2 = rng.uniform(1, 3), rng.uniform(.5, 3)
    calls = []

    def rho_jac(t, y):
        calls.append((t, y.copy()))
        return float(lam.max()*(f1 if case["const"]
                                else f1 + np.sin(f2*t)**2))
    T = 4.
    kw = options(case, rng, T)
    kw.update(rho_jac=rho_jac, const_jac=case["const"])
    w, ph = rng.uniform(.5, 2), np.arange(len(lam))
    tag = f"rho={lam.max():.3g} rho_jac const={case['const']}"

    def f(t, y):
        return -d*(A @ (y - np.cos(w*t + ph))) - w*np.sin(w*t + ph)
    seen = [0]
    total = [0]

    def after(s, t, y, m):
        new = calls[seen[0]:]
        seen[0] = len(calls)
        if total[0] == 0:
            new = new[-1:]         # after validation
        total[0] += 1
        if case["const"] and total[0] > 1:
            res.check(not new, "const_jac", lambda:
                      f"{tag}: rho_jac called in step {total[0]}")
        else:
            res.check(len(new) == 1 and new[0][0] == t and np.array_equal(
                new[0][1], y), "rho_jac call", lambda:
                f"{tag}: step from {t}, {y}: called with {new}")

    def rho(t, y):
        return lam.max()*(f1 if case["const"] else f1 + np.sin(f2*t)**2)
    integrate(case, f, np.cos(ph) + 0., d*T, kw, res, tag, rho=rho,
              wide=1.001, near=None, after=after)


def varying(case, rng, res):
    """spectral radius that varies in time or with the state"""
    d, n = case["d"], case["n"]
    top = 10**min(case["lam"], 4.)
    w, ph = rng.uniform(.5, 1.5), np.arange(n)
    g = rng.uniform(.2, 1, n)
    g[0] = 1.
    state = bool(rng.integers(2))
    grow = rng.uniform(-1, 1)

    def f(t, y):
        x = y - np.cos(w*t + ph)
        if state:
            L = top*g*(1 + .12*y[0]**2)
        else:
            L = top*g*np.exp(grow*abs(t))
        return -d*L*x - w*np.sin(w*t + ph)
    T = 4.
    kw = options(case, rng, T)
    # the estimate is updated after 25 steps
    if not state:
        kw["max_step"] = min(kw.get("max_step", 9.), .0055/abs(grow))
        if "first_step" in kw:
            kw["first_step"] = min(kw["first_step"], kw["max_step"])
    y0 = np.cos(ph) + .1*rng.uniform(.5, 1, n)

    def exact(t):
        return np.cos(w*t + ph)
    worst = [0, 0]

    def after(s, t, y, m):
        worst[1] += 1
        e = np.abs(s.y - exact(s.t))
        if abs(s.t)*top > 30:
            worst[0] = max(worst[0], e.max()/case["tol"]/(worst[1] + 4))
    tag = f"rho={top:.3g} {'state' if state else 'time'} tol={case['tol']:.2g}"
    out = integrate(case, f, y0, d*T, kw, res, tag, after=after, near=True,
                    rho=None if state else lambda t, y:
                    .9*top*np.exp(grow*abs(t)), wide=1.8)
    if out:
        res.peak("varying error", worst[0])
        res.check(worst[0] < 20, "accuracy", lambda: f"{tag} {worst[0]}")


def jump(case, rng, res):
    """spectral radius that jumps at some time"""
    d, n = case["d"], case["n"]
    top = 10**min(case["lam"], 4.5)
    low = 10**rng.uniform(0, 1)
    w, ph = rng.uniform(.5, 1.5), np.arange(n)
    g = rng.uniform(.2, 1, n)
    g[0] = 1.
    tj = d*rng.uniform(.3, 2)

    def f(t, y):
        x = y - np.cos(w*t + ph)
        L = g*(low + top*((t - tj)*d > 0))
        return -d*L*x - w*np.sin(w*t + ph)*rest
    T = 4.
    rest = rng.choice([0., 1., 1.])
    kw = options(case, rng, T)
    y0 = np.cos(ph) + .1*rng.uniform(.5, 1, n)
    worst = [0, 0]

    def after(s, t, y, m):
        worst[1] += 1
        if rest and (s.t - tj)*d*top > 30 or (s.t - tj)*d < 0 and \
                abs(s.t)*low*.2 > 30:
            e = np.abs(s.y - np.cos(w*s.t + ph))
            worst[0] = max(worst[0], e.max()/case["tol"]/(worst[1] + 4))
    tag = f"jump from {low:.3g} to {top:.3g} at {tj} tol={case['tol']:.2g}"
    if integrate(case, f, y0, d*T, kw, res, tag, after=after, near=True,
                 maxn=20000):
        res.peak("jump error", worst[0])
        res.check(worst[0] < 20, "accuracy", lambda: f"{tag} {worst[0]}")


def smooth(case, rng, res):
    """work for increasing stiffness"""
    d, n = case["d"], case["n"]
    w, ph = rng.uniform(.5, 1.5), np.arange(n)
    g = np.append(1., rng.uniform(.1, 1, n - 1))
    Q = np.linalg.qr(rng.normal(size=(n, n)))[0]
    T = 4.
    kw = options(case, rng, T)
    kw.pop("max_step", None)
    out = []
    for e in (0., rng.uniform(2, 3.5), rng.uniform(3.5, 5.5)):
        top = 10**e
        A = top*(Q @ np.diag(g) @ Q.T)
        if case["given"]:
            kw["rho_jac"] = lambda t, y: float(top)
        worst = [0, 0]
        c = 0 if not case["given"] else .01

        def f(t, y):
            return -d*(A @ (y - np.cos(w*t + ph))) - w*np.sin(w*t + ph)

        def after(s, t, y, m):
            worst[1] += 1
            q = np.abs(s.y - np.cos(w*s.t + ph)).max()
            worst[0] = max(worst[0], q/case["tol"]/(worst[1] + 4))
        tag = f"rho={top:.3g} given={case['given']} tol={case['tol']:.2g}"
        # (some transient, the power method needs a slope to start from)
        r = integrate(case, f, np.cos(ph) + case["tol"]*(
            1 + rng.uniform(size=n)), d*T, kw, res, tag, after=after)
        if r is None:
            return
        res.peak("smooth error", worst[0])
        res.check(worst[0] < 20, "accuracy", lambda: f"{tag} {worst[0]}")
        out.append((top, r[0], r[1]))
    for top, k, ev in out[1:]:
        r = (k + 10)/(out[0][1] + 10)
        res.peak("steps", r)
        res.check(r < 20, "steps", lambda: f"steps depend on rho: {out}")
        est = k*(2 + np.sqrt(1.54*1.3*top*T/k + 1))
        res.peak("work", ev/est)
        res.check(ev < 1.6*est, "work", lambda: f"evaluations {out}")


def domain(case, rng, res):
    """the right hand side only exists close to the solution"""
    d, n = case["d"], case["n"]
    top = 10**min(case["lam"], 3.)
    g = np.append(1., rng.uniform(.2, 1, n - 1))
    # at an equilibrium at first: f(t0, y0) = 0
    rest = bool(rng.integers(2))

    def f(t, y):
        if not np.all(y > 0):
            res.bad("domain", f"evaluation at {y}")
            y = np.abs(y) + 1e-3
        return d*(-top*g*np.log(y)) + .3*np.sin(t)
    y0 = np.ones(n) if rest else np.exp(
        .2*rng.uniform(.4, 1, n)*rng.choice([-1, 1], n))
    T = 4.
    kw = options(case, rng, T)
    kw.pop("first_step", None)
    tag = f"log rho={top:.3g} rest={rest}"
    integrate(dict(case, first=False), f, y0, d*T, kw, res, tag, near=True)


def rest(case, rng, res):
    """start from (almost) zero"""
    d, n = case["d"], case["n"]
    top = 10**min(case["lam"], 4.)
    lam = top*np.append(1., 10**rng.uniform(-2, -.5, n - 1))
    Q = np.linalg.qr(rng.normal(size=(n, n)))[0]
    A = Q @ np.diag(lam) @ Q.T
    b = Q @ (rng.choice([-1, 1], n)*rng.uniform(.3, 2, n))
    b = b*10**rng.uniform(-1, 1)
    c, w = .3*rng.integers(2), rng.uniform(.5, 2)

    def f(t, y):
        return -d*(A @ (y - b*(1 + c*np.sin(w*t)))) + .01*np.cos(y)
    T = 2.
    y0 = np.zeros(n)
    if rng.integers(2):
        y0 = rng.normal(size=n)*10**rng.uniform(-30, -9)
    kw = options(case, rng, T)
    if rng.integers(2):
        kw["atol"] = kw["atol"]*1e-3
    s = integrate(case, f, y0, d*T, kw, res, f"at rest rho={top:.3g} {kw}",
                  lambda t, y: top, 1.35)
    if s:
        y = s[2].y
        lim = np.abs(b).max()*(1 + c)*1.1 + .01/lam.min()
        res.check(np.abs(y).max() < 2*lim*np.sqrt(n), "growth", lambda: f"{y}")


def degenerate(case, rng, res):
    """some components don't depend on the state"""
    d, n = case["d"], case["n"]
    top = 10**min(case["lam"], 2.)
    g = np.append(1., rng.uniform(.2, 1, n - 1))
    perm = rng.permutation(2*n)
    inv = np.argsort(perm)
    rate = rng.uniform(.5, 2, n)

    def f(t, z):
        z = z[inv]
        y, q = z[:n], z[n:]
        if not np.all(y > 0):
            res.bad("domain", f"evaluation at {y}")
            y = np.abs(y) + 1e-3
        return np.concatenate([-d*top*g*np.log(y), rate])[perm]
    T = 4.
    y0 = np.concatenate([np.ones(n), rng.uniform(1, 2, n)])
    kw = options(case, rng, T)
    kw.pop("first_step", None)
    s = integrate(dict(case, first=False), f, y0[perm], d*T, kw, res,
                  f"degenerate rho={top:.3g}", near=True)
    if s:
        y = s[2].y[inv]
        res.check(np.allclose(y[:n], 1, rtol=1e-3, atol=20*case["tol"]) and
                  np.allclose(y[n:], y0[n:] + d*T*rate, rtol=1e-9),
                  "degenerate", lambda: f"{y}")
        res.nontrivial = True
