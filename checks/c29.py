"""C29: the automatically selected first step."""
import numpy as np
from vlib.core import Result, Budget
from vlib import estim as E
from vlib.methods import METHODS, ALL

ID = "C29"
QUICK = 5            # repetitions of the set of cases in the quick tier
RULE = ("a case constructs a solver without first_step, records all "
        "evaluations made by it, and compares the first attempted step to the "
        "one that follows from these evaluations: bounds for the second "
        "derivative and the Lipschitz constant, weighted tolerance, "
        "max_step and the interval. Non-trivial if the step is not just the "
        "interval or max_step; distinct by parameters")
ASSUMPTIONS = ["published algorithm of Watts (1983)",
               "SSV2stab (own algorithm, with rho_jac): only if the first "
               "attempt is accepted",
               "DAEs: only the limits and the failed first steps are judged"]


def gen(tier, rng):
    quick = tier == "quick"
    for name in ALL:
        for k in range(60 if quick else 6000):
            yield dict(m=name, n=int(rng.integers(1, 6)),
                       d=int(rng.choice([-1, 1])), kind=str(rng.choice(
                           ["smooth", "auto", "stiff", "zero", "flat",
                            "const", "quad"])),
                       cplx=bool(rng.integers(4) == 0),
                       mass=bool(rng.integers(2)),
                       seed=int(rng.integers(2**31)))


def rms(x):
    return float(np.sqrt(np.mean(np.abs(np.asarray(x))**2)))


def problem(case, m, rng):
    n, kind = case["n"], case["kind"]
    c = (1 + .4j) if case["cplx"] and m.complex_ok else 1.
    size = 10**rng.uniform(-2, 2, n)
    W = rng.normal(size=(n, n))
    b, w = rng.normal(size=n), rng.uniform(.2, 5)
    lam = 10**rng.uniform(0, 4)
    speed = 10**rng.uniform(-2, 2)

    def g(t, y):
        if kind == "smooth":
            return speed*(size*np.sin(W @ (y/size)) + b*np.cos(w*t))
        if kind == "auto":
            return speed*size*np.cos(W @ (y/size))
        if kind == "stiff":
            return -lam*(y - size*np.sin(w*t + b)) + W @ y
        if kind == "zero":
            return speed*(y*np.sin(b) + b*t*y)
        if kind == "flat":
            return 0*y
        if kind == "const":
            return b + 0*y
        return speed*(b*t + w) + 0*y
    if case["cplx"] and m.complex_ok and kind in ("smooth", "auto"):
        def f(t, y):
            return c*g(t, y.real) + 1j*y
    elif case["cplx"] and m.complex_ok:
        def f(t, y):
            return c*g(t, y)
    else:
        f = g
    y0 = size*rng.normal(size=n)
    if kind == "zero":
        y0 = np.zeros(n)
    elif rng.integers(3) == 0:
        y0[rng.integers(n)] = 0.
    if case["cplx"] and m.complex_ok:
        y0 = y0 + 1j*size*rng.normal(size=n)*(kind != "zero")
    return f, y0


def run(case):
    res = Result()
    m = METHODS[case["m"]]
    rng = np.random.default_rng(case["seed"])
    n, d = case["n"], case["d"]
    f, y0 = problem(case, m, rng)
    if m.kind == "nys":
        # positions and velocities
        f1 = f

        def f(t, y):
            return np.concatenate([y[n:], f1(t, y[:n])])
        y0 = np.concatenate([y0, f1(.3, y0)*0 + rng.normal(size=n)])
    N = len(y0)
    t0 = float(rng.choice([0., np.round(rng.uniform(-3, 3), 2), 1e4]))
    L = float(10**rng.uniform(-2, 2))
    t1 = t0 + d*L
    rtol = float(10**rng.uniform(-9, -1.5))
    atol = 10**rng.uniform(-10, -2, N)
    k = rng.integers(3)
    if k == 0:
        atol = float(atol[0])
    elif k == 1:
        rtol = 0. if k == 1 and rng.integers(2) else rtol
    kw = dict(m.opts, rtol=rtol, atol=atol)
    maxs = np.inf
    if rng.integers(3) == 0:
        maxs = kw["max_step"] = float(L*10**rng.uniform(-4, .5))
    M = None
    if m.kind == "esdirk":
        kw["jac"] = np.zeros((N, N)) if case["kind"] in ("flat", "const") \
            else lambda t, y: np.zeros((N, N), y.dtype)
        if case["mass"]:
            M = np.eye(N) + .3*rng.normal(size=(N, N))/N
            kw["M"] = M
    rho = None
    if m.kind == "ssv":
        rho = float(10**rng.uniform(-2, 3))
        kw["rho_jac"] = lambda t, y: rho
    log = []

    def fun(t, y):
        if len(log) > 20000:
            raise Budget("fun")
        out = np.array(f(t, y))
        log.append((float(t), np.array(y), out.copy()))
        return out
    if m.kind == "esdirk" or m.name == "SSV2stab":
        kw.pop("nfev_stiff_detect", None)
    s = m.cls(fun, t0, y0, t1, **kw)
    calls = list(log)
    tag = f"{case['m']} {case['kind']} t0={t0} t1={t1} rtol={rtol}"
    inside(res, tag, calls, t0, t1, y0, s)
    del log[:]
    h0, c1 = first(m, s, log, t0)
    if h0 is None:
        return res
    h0 *= d
    lim = min(maxs, L)
    res.check(0 < h0 <= lim*(1 + 1e-9 + 1e-15*abs(t0)/lim/c1), "limits",
              f"{tag} first step {h0}, limit {lim}")
    res.count("first_steps")
    if m.name == "SSV2stab":
        if len(log) and max(abs(x[0] - t0) for x in log) > abs(h0)*1.0001:
            res.count("rejected")
            return res
        return ssv(res, tag, case, rng, calls + log, t0, y0, h0, rtol, atol,
                   lim, L, rho)
    if M is None or case["kind"] not in ("flat", "const"):
        perturbations(res, tag, calls, t0, y0, d, m, M)
    e, u = expect(calls, t0, y0, rtol, atol, m, M, lim, N)
    if u > .05:
        res.count("rounding")
        return res
    raw = e
    if m.kind == "esdirk":
        # the end of the interval is close enough
        if abs(L/e - 1) < .009 and L <= maxs:
            e = L
        elif abs(L/e - 1) < .011:
            return res
    elif m.kind != "swag" and e < L < 2*e:
        # split in two
        e = .5*L
    xr = 2.2e-16*10*(abs(t0) + h0)/h0/c1
    # (very small steps are replaced by the smallest possible)
    if xr > 1e-3:
        res.count("tiny")
        return res
    res.check(abs(h0 - e) < e*(1e-6 + 2*u + 5*xr), "first step", lambda:
              f"{tag} atol={atol} max_step={maxs} {calls} first step is {h0}, "
              f"expected {e}")
    res.peak("log10 first step/limit", np.log10(h0/lim))
    res.count("compared")
    res.nontrivial = raw < .99*lim
    return res


def inside(res, tag, calls, t0, t1, y0, s):
    """evaluations for the first step are close to the initial point"""
    for t, y, f in calls:
        res.check(min(t0, t1) <= t <= max(t0, t1), "time of evaluation",
                  f"{tag}: {t}")
        # perturbations (SSV2stab: of the size of an Euler step)
        if type(s).__name__ != "SSV2stab":
            e = rms(y - y0)
            res.check(e < 1e-4*rms(y0) + 1e-4*(not np.any(y0)), "perturbation",
                      f"{tag}: evaluated at y0 + {y - y0}")
    res.count("evaluations", len(calls))


def perturbations(res, tag, calls, t0, y0, d, m, M):
    """the perturbed states are those of the published algorithm"""
    N = len(y0)
    f0 = fA = tA = None
    out = []
    for t, y, f in calls:
        if M is not None:
            f = np.linalg.solve(M, f)
        if np.array_equal(y, y0):
            if t == t0:
                f0 = f
            else:
                fA, tA = f, t
        elif m.kind != "nys" or not np.array_equal(y[:N//2], y0[:N//2]):
            out.append((t, y, f))
    if f0 is None or fA is None:
        return
    size = (2.**-53)**.375*(rms(y0) or 1.)
    eps = 1e-8 + 4e-16*np.abs(y0).max()/size
    res.check(len(out) == min(N + 1, 3), "number of perturbations",
              f"{tag}: {len(out)} for {N} components")
    if m.kind == "esdirk" and M is not None:
        eps += 1e-6
    sign, last = f0, f0
    real = not np.iscomplexobj(f0)
    for k, (t, y, f) in enumerate(out):
        p = y - y0
        res.check(abs(rms(p)/size - 1) < eps*N**.5, "size of perturbation",
                  lambda: f"{tag}: {k} {rms(p)} expected {size}")
        res.check(t == (tA if k == 1 else t0), "time of perturbation",
                  lambda: f"{tag}: {k} {t} expected {tA if k == 1 else t0}")
        if k == 0:
            v = f0 if np.any(f0) else np.ones(N)
        elif not real or M is not None:
            continue
        else:
            v = np.abs(last if k == 1 else y0)
            v = np.where(v, v, rms(last) if k == 1 else rms(y0) or 1.)
            if k == 1 and not np.any(last):
                v = np.ones(N)
            elif k == 1 and rms(last) < 1e-9*rms(f0):
                continue
            # (the sign is arbitrary if there is no slope)
            v = v*np.where(sign, np.sign(sign), d*np.sign(p))
        v = d*size*v/rms(v)
        res.check(rms(p - v) < eps*N**.5*size, "direction of perturbation",
                  lambda: f"{tag}: {k} {p} expected {v} {calls}")
        res.count("perturbations")
        last = f - (fA if k == 1 else f0)
        sign = np.where(sign, sign, f)


def first(m, s, log, t0):
    """size of the first attempt"""
    s.step()
    if not log:
        return None, 1
    t = [x[0] for x in log]
    if m.kind == "swag":
        return t[0] - t0, 1
    if m.name == "SSV2stab":
        # at least the accepted step
        return s.t - t0, 1
    c = E.nodes(m)[0]
    return (t[0] - t0)/c[1], c[1]


def expect(calls, t0, y0, rtol, atol, m, M, lim, N):
    """first step and its relative accuracy"""
    def ev(f):
        return f if M is None else np.linalg.solve(M, f)
    f0 = fA = None
    tA = None
    out = []
    for t, y, f in calls:
        f = ev(f)
        if t == t0 and np.array_equal(y, y0):
            f0 = f
        elif np.array_equal(y, y0):
            fA, tA = f, t
        elif m.kind != "nys" or not np.array_equal(y[:N//2], y0[:N//2]):
            # (else it is a test of the structure)
            out.append((t, y, f))
    if f0 is None or fA is None:
        return 0., 1.
    eps = 2.2e-16
    da = abs(tA - t0)
    # rounding of the time, the derivatives, the perturbations
    u = 10*eps*abs(tA)/da
    dfdx = rms(fA - f0)/da
    fb = max(rms(fA), rms(f0))
    noise = eps*20*fb*(1 if M is None else 10)
    u += noise/max(rms(fA - f0), 1e-300) if dfdx else 0.
    lip = 0.
    ul = 0.
    for t, y, f in out:
        D = f - (f0 if t == t0 else fA)
        dy = rms(y - y0)
        fb = max(fb, rms(f))
        l = rms(D)/dy
        if l >= lip:
            lip = l
            ul = noise/max(rms(D), 1e-300) + 10*eps*rms(y0)/dy
    if not lip:
        ul = 0.
    if dfdx and lip*fb > 100*dfdx:
        u = max(ul, u*dfdx/(lip*fb))
    u = max(u, ul)
    r = min(max(rtol, 10*np.finfo(float).epsneg), .1)
    w = np.maximum(np.broadcast_to(atol, N), np.finfo(float).tiny**.5) \
        + r*np.abs(y0)
    q = np.log10(w)
    order = 1 if m.kind == "swag" else m.q
    tol = 10**(.5*(q.mean() + q.min())/(order + 1))
    d2 = dfdx + lip*fb
    h = lim
    if d2 == 0. and fb == 0.:
        h = lim*min(tol, 1.)
    elif d2 == 0.:
        h = min(lim, tol/fb)
    else:
        h = min(lim, tol/np.sqrt(.5*d2))
    if lip:
        h = min(h, 1/lip)
    return h, u


def ssv(res, tag, case, rng, calls, t0, y0, h0, rtol, atol, lim, L, rho):
    """an Euler step of the size 1/rho (or max_step) gives the difference"""
    f0 = calls[0][2]
    t, y, f = calls[1]
    h = min(1/rho, lim)
    d = case["d"]
    if abs(t0) + h > 1e6*h:
        res.count("rounding")
        return res
    res.check(abs(t - t0 - d*h) < 1e-8*h and np.abs(
        y - y0 - d*h*f0).max() <= 1e-8*(np.abs(y0).max()
                                       + h*np.abs(f0).max()),
              "euler", lambda: f"{tag} rho={rho} Euler step to {t}, {y}")
    r = min(max(rtol, 10*np.finfo(float).epsneg), .1)
    est = h*rms((f - f0)/(atol + r*np.abs(y0)))
    e = lim
    if .1*h < lim*np.sqrt(est):
        e = .1*h/np.sqrt(est)
    if 1.1*e >= L:
        e = L if L <= lim else .5*L
    m = 1 + int(np.sqrt(1.54*e*rho + 1))
    mmax = max(2, round(np.sqrt(r/2.2e-15)))
    if m > mmax*.98:
        res.count("limited")
        return res
    u = 2e-14*np.abs(f0).max()/max(np.abs(f - f0).max(), 1e-300)
    res.check(abs(h0 - e) < e*(1e-7 + u + 4e-15*(abs(t0) + e)/e)
              or abs(1.1*e/L - 1) < 1e-6, "first step", lambda:
              f"{tag} rho={rho} first step {h0}, expected {e}")
    res.count("compared")
    res.nontrivial = e < .99*lim
    return res
