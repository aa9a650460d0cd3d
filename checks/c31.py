"""C31: SSV2stab takes the steps of RKC."""
import numpy as np
from vlib.core import Result, Budget
from vlib.methods import METHODS

ID = "C31"
QUICK = 6            # repetitions of the set of cases in the quick tier
RULE = ("a case follows all attempts of an integration with SSV2stab of a "
        "dissipative problem (smooth, switching, disturbed) and recomputes "
        "from the recorded derivatives all stages, the solution, the error "
        "estimate and acceptance, the number of stages (for a given spectral "
        "radius), the size of the next attempt, and the interpolant. "
        "Non-trivial if 10 or more steps were compared; distinct by "
        "parameters")
ASSUMPTIONS = ["the published algorithm (Sommeijer, Shampine and Verwer, "
               "1997) with the documented changes",
               "decisions with a relative margin below 1e-5 are not judged"]

REGIMES = ["S", "th", "late", "many", "long", "far", "rtol", "atol0", "tiny",
           "zero", "integer", None]


def gen(tier, rng):
    for k in range(200 if tier == "quick" else 20000):
        yield dict(kind=["smooth", "switch", "kicked", "nonlinear"][k % 4],
                   n=int(rng.integers(1, 6)), d=int(rng.choice([-1, 1])),
                   lam=float(rng.uniform(0, 4.5)),
                   tol=float(10**rng.uniform(-6, -2)),
                   rho=str(rng.choice(["const", "fun", "wide", "none"])),
                   first=bool(rng.integers(2)),
                   maxs=bool(rng.integers(3) == 0),
                   atolvec=bool(rng.integers(2)),
                   regime=REGIMES[int(rng.integers(len(REGIMES)))]
                   if k % 8 > 3 else None,
                   seed=int(rng.integers(2**31)))


def rms(x):
    return float(np.sqrt(np.mean(np.abs(x)**2)))


def coefficients(m):
    """of RKC2 with m stages"""
    w0 = 1 + 2/(13*m**2)
    T = np.zeros((3, m + 1))
    T[:, :2] = [[1, w0], [0, 1], [0, 0]]
    for j in range(2, m + 1):
        T[0, j] = 2*w0*T[0, j-1] - T[0, j-2]
        T[1, j] = 2*T[0, j-1] + 2*w0*T[1, j-1] - T[1, j-2]
        T[2, j] = 4*T[1, j-1] + 2*w0*T[2, j-1] - T[2, j-2]
    w1 = T[1, m]/T[2, m]
    b = np.zeros(m + 1)
    b[2:] = T[2, 2:]/T[1, 2:]**2
    # (the choice of b[0] and b[1] of the program: w1*b1 = mu1)
    b[0] = b[1] = 1/(2*w0)**2
    return w0, w1, b, T[0]


def stages(t, y, f, h, calls):
    """(new y, largest relative deviation of the stages)"""
    m = len(calls)
    w0, w1, b, T = coefficients(m)
    c = np.zeros(m + 1)
    Y = [y, y + b[1]*w1*h*f]
    c[1] = b[1]*w1
    dev = [0., 0.]
    sc = np.abs(y).max()
    for j in range(2, m + 1):
        mu, nu = 2*b[j]*w0/b[j-1], -b[j]/b[j-2]
        mt, a = 2*b[j]*w1/b[j-1], 1 - b[j-1]*T[j-1]
        s, p, k = calls[j-2]
        sc = max(sc, np.abs(Y[j-1]).max(), abs(h)*np.abs(k).max()/m**2)
        dev[0] = max(dev[0], abs(s - t - c[j-1]*h)/abs(h))
        dev[1] = max(dev[1], np.abs(p - Y[j-1]).max()/sc)
        Y.append((1 - mu - nu)*y + mu*Y[j-1] + nu*Y[j-2]
                 + mt*h*(k - a*f))
        c[j] = mu*c[j-1] + nu*c[j-2] + mt*(1 - a)
    s, p, k = calls[-1]
    dev[0] = max(dev[0], abs(s - t - h)/abs(h))
    dev[1] = max(dev[1], np.abs(p - Y[m]).max()/sc)
    return Y[m], dev


def run(case):
    res = Result()
    rng = np.random.default_rng(case["seed"])
    reg = case.get("regime")
    S = th = 1.
    sh = 0.
    case = dict(case)
    if reg == "many":
        case["n"] = int(rng.integers(13, 45))
    elif reg == "rtol":
        case["tol"] = float(10**rng.uniform(-2, -.3))
    elif reg == "tiny":
        case["tol"] = float(10**rng.uniform(-12.5, -8))
    elif reg == "S":
        S = 2.**int(rng.integers(-60, 60))
    elif reg == "th":
        th = 2.**int(rng.integers(-60, 60))
    elif reg == "late":
        sh = float(rng.choice([-1, 1]))*2.**int(rng.integers(3, 9))
        th = 2.**int(rng.integers(-20, 20))
    n, d, kind, tol = case["n"], case["d"], case["kind"], case["tol"]
    lam = 10**case["lam"]*np.append(1., 10**rng.uniform(-4, 0, n - 1))
    Q = np.linalg.qr(rng.normal(size=(n, n)))[0]
    A = Q @ np.diag(lam) @ Q.T
    w, p = rng.uniform(.5, 3), rng.uniform(0, 6, n)
    t0 = float(np.round(rng.uniform(-2, 2), 2))
    if reg == "integer":
        t0 = float(rng.integers(-3, 4))
    T = float(rng.uniform(1, 5))
    t1 = t0 + d*T
    ts = t0 + d*np.sort(rng.uniform(0, T, 5))
    amp = lam.max()*rng.normal(size=6)
    log, kick = [], [0]

    def f(t, y):
        if kind == "nonlinear":
            e = y - np.cos(w*t + p)
            return -d*(A @ (e + .02*np.tanh(e)))
        out = -d*(A @ (y - np.cos(w*t + p)))
        if kind == "switch":
            out = out + amp[np.searchsorted(d*ts, d*t)]*.2
        return out

    def fun(t, y):
        if len(log) > 60000:
            raise Budget("fun")
        out = f(t, y)
        if kick[0] > 0:
            kick[0] -= 1
            out = out + rng.normal(size=n)*10**rng.uniform(-4, 0)*(S/th)
        log.append((float(t), y.copy(), np.array(out)))
        return out
    An = A
    top = lam.max()*(1.02 if kind == "nonlinear" else 1.)
    f1, f2 = rng.uniform(1., 4.), rng.uniform(.5, 3)

    def rho(t, y):
        if case["rho"] == "fun":
            return float(top*(f1 + np.sin(f2*t)**2))
        return float(top*(f1 if case["rho"] == "wide" else 1.))
    atol = tol*(10**rng.uniform(-1, 1, n) if case["atolvec"] else
                10**rng.uniform(-1, 1))
    if reg == "atol0":
        atol = 0.*atol
    kw = dict(rtol=tol, atol=atol)
    given = case["rho"] != "none"
    if given:
        kw["rho_jac"] = rho
        kw["const_jac"] = case["rho"] != "fun" and bool(rng.integers(2))
    if case["first"]:
        kw["first_step"] = T*float(10**rng.uniform(-4, -1))
    hmax = T
    if case["maxs"]:
        hmax = kw["max_step"] = T*float(10**rng.uniform(-2, -.3))
    hn = kw.get("first_step")
    y0 = rng.normal(size=n)
    if reg == "zero":
        y0 = y0*(rng.random(n) < (.3 if rng.integers(2) else 0))
    if reg == "long":
        t1 = d*np.inf
    elif reg == "far":
        t1 = t0 + d*1e9
    if reg in ("long", "far") and not case["maxs"]:
        hmax = abs(t1 - t0)
    # other units and times
    if S != 1 or th != 1 or sh:
        f_, rho_ = f, rho

        def f(t, y):
            return f_(t/th - sh, y/S)*(S/th)

        def rho(t, y):
            return rho_(t/th - sh, y/S)/th
        An = A/th
        y0, t0, t1 = y0*S, (t0 + sh)*th, (t1 + sh)*th
        hmax = min(hmax*th, abs(t1 - t0))
        kw["atol"] = atol = atol*S
        for key in ("first_step", "max_step"):
            if key in kw:
                kw[key] *= th
        if given:
            kw["rho_jac"] = rho
        if hn is not None:
            hn *= th
    s = METHODS["SSV2stab"].cls(fun, t0, y0, t1, **kw)
    fn = log[-1][2]
    mmax = max(2, round(np.sqrt(s.rtol/(10*1.11e-16))))
    hold = eold = None
    steps = 0
    un = uold = 0.
    tag = f"{case}"
    while s.status == "running":
        t, y = s.t, s.y.copy()
        del log[:]
        if kind == "kicked" and rng.random() < .1:
            kick[0] = int(rng.integers(1, 5))
        msg = s.step()
        kick[0] = 0
        if s.status == "failed":
            res.check(kind == "kicked", "failed", lambda: f"{msg} {tag}")
            break
        steps += 1
        if steps > (600 if reg in ("long", "far") else 6000):
            break
        calls = [x for x in log if x[0] != t]
        est = [x for x in log if x[0] == t]
        res.check(not (given and est), "evaluations", lambda:
                  f"{len(est)} evaluations for the spectral radius {tag}")
        if hn is None:
            # selection of the first step
            q = calls.pop(0)
            a = abs(q[0] - t)
            if given:
                want = min(hmax, 1/rho(t, y))
                res.check(abs(a/want - 1) < 1e-6, "sample", lambda:
                          f"first step sampled at {a}, expected {want} {tag}")
            e = q[1] - (y + d*a*fn)
            res.check(np.abs(e).max() < 1e-8*a*np.abs(fn).max()
                      + 1e-12*np.abs(y).max(), "sample", lambda:
                      f"first step sampled {e} off {tag}")
            z = a*rms((q[2] - fn)/(atol + s.rtol*np.abs(y)))
            noise = 1e-15*a*rms((np.abs(fn) + np.abs(An) @ np.abs(
                y))/(atol + s.rtol*np.abs(y)))
            un = noise/max(z, 1e-300)
            if un > .1:
                return res
            if hmax < np.inf and min(a, .1*a/np.sqrt(z)) < 2e-15*hmax:
                # a lower limit of the step size
                return res
            hn = .1*a/np.sqrt(z) if .1*a < hmax*np.sqrt(z) else hmax
        D = abs(t1 - t)
        groups, last = [], None
        for x in calls:
            if last is None or (x[0] - last)*d <= 0:
                groups.append([])
            groups[-1].append(x)
            last = x[0]
        for i, g in enumerate(groups):
            res.count("attempts")
            m = len(g)
            h = g[-1][0] - t
            hn = min(hn, hmax)
            if 1.1*hn*(1 + un) >= D and 1.1*hn*(1 - un) <= D:
                return res
            if 1.1*hn >= D:
                hn = D if D <= hmax else .5*D
                un = 0.
            if given:
                z = 1.54*hn*rho(t, y) + 1
                mw = 1 + int(np.sqrt(z))
                if int(np.sqrt(z*(1 + 1e-9 + un))) != int(
                        np.sqrt(z*(1 - 1e-9 - un))):
                    mw = m if abs(m - mw) < 2 else mw
                if mw > mmax:
                    mw = mmax
                    hn = min(hn, (mmax**2 - 1)/(1.54*rho(t, y)))
                if not res.check(m == mw, "number of stages", lambda:
                                 f"{m} stages, expected {mw}, h={hn} rho="
                                 f"{rho(t, y)} {tag}"):
                    return res
            elif m >= mmax:
                return res
            xr = 8*2.2e-16*(abs(t) + abs(h))/abs(h)
            if xr > 1e-7:
                return res
            if not res.check(abs(abs(h) - hn) < hn*(1e-8 + un + xr),
                             "step size", lambda: f"attempt {i} of {abs(h)} "
                             f"at {t}, expected {hn} {tag}"):
                return res
            # the exact one
            if un < xr:
                h = hn*d
            Y, dev = stages(t, y, fn, h, g)
            # (rounding errors grow with the square of the number of stages)
            res.peak("stage", dev[1]/m**2)
            if not res.check(dev[0] < 1e-7 and dev[1] < (1e-10 + 20*xr)*m*m,
                             "stages", lambda: f"{m} stages from t={t}, "
                             f"h={h} deviate {dev} {tag}"):
                return res
            k = g[-1][2]
            Y = g[-1][1]
            wt = atol + s.rtol*np.maximum(np.abs(y), np.abs(Y))
            e = .8*(y - Y) + .4*h*(fn + k)
            err = rms(e/wt)
            noise = 4e-15*rms((np.abs(y) + abs(h)*(np.abs(fn) + np.abs(k)))
                              / wt) + xr*rms(h*(np.abs(fn) + np.abs(k))/wt)
            un = noise/max(err, 1e-300) + xr
            accepted = i == len(groups) - 1
            if abs(err - 1) > 1e-5 + un:
                if not res.check((err < 1) == accepted, "acceptance", lambda:
                                 f"attempt of {h} with error {err} is "
                                 f"{'accepted' if accepted else 'rejected'} "
                                 f"{tag}"):
                    return res
            if un > 1e-3:
                # rounding error
                res.count("rounding")
                un = 9.
            if accepted:
                if hold is None:
                    fac = min(10., .8/max(err, 1e-300)**(1/3))
                else:
                    a, b = .8*abs(h)*eold**(1/3), hold*err**(2/3)
                    fac = a/b if a < 10*b else 10.
                hn = min(max(fac, .1)*abs(h), hmax)
                hold, eold = abs(h), err
                un, uold = un + uold, un
            else:
                res.count("rejections")
                hn = .8*abs(h)/err**(1/3)
                if un >= 1:
                    return res
        if un >= 1:
            # predictions depend on rounding
            break
        res.check(np.array_equal(s.y, Y), "solution", lambda: f"{s.y} is not "
                  f"the last stage {Y} {tag}")
        if rng.integers(5) == 0:
            hh = s.t - t
            q = s.dense_output()
            x = np.array([0, .3, .6, 1.])
            v = q(t + x*hh).T
            M = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [1]*4, [0, 1, 2, 3.]])
            c = np.linalg.solve(M, np.array([y, hh*fn, s.y, hh*k]))
            ref = x[:, None]**np.arange(4) @ c
            sc = np.abs(y).max() + abs(hh)*(np.abs(fn) + np.abs(k)).max()
            res.check(np.abs(v - ref).max() < (1e-11 + 100*xr)*sc, "dense",
                      lambda: f"{v}, expected {ref} {tag}")
            res.count("interpolants")
        fn = k
    res.count("steps", steps)
    res.nontrivial = steps >= 10
    res.sample = dict(kind=kind, steps=steps, rho=case["rho"])
    return res
