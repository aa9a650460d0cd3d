"""C08: local error estimation and the acceptance of steps."""
import json
import os
from types import SimpleNamespace
import numpy as np
from scipy.sparse import csc_array
from vlib.core import Result
from vlib import estim as E, tableau as TB
from vlib.methods import METHODS, RK, NYS, ESD
from vlib import problems as P

ID = "C08"
QUICK = 7            # repetitions of the set of cases in the quick tier
RULE = ("a case recovers all weights of the error estimate of a method (from "
        "the stage values at which an attempt is just accepted) and checks "
        "the order of the estimate; or follows every attempt of an "
        "integration and compares acceptance to the norm of the recovered "
        "estimate, weighted with the tolerance. Non-trivial if weights were "
        "found / if both accepted and rejected attempts were seen; distinct "
        "by parameters")
ASSUMPTIONS = [
    "the estimate is linear in the derivatives evaluated in a step",
    "weights of the estimate of the unmodified code (published embedded "
    "methods) are recorded in vlib/estimators.json",
    "CKdisc, SWAG and SSV2stab have their own error control: only the "
    "tolerance weighting of SSV2stab is checked here"]
GOLD = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "vlib", "estimators.json")
NAMES = [n for n in RK + NYS + ESD if n != "CKdisc"]
UNIQ = [n for n in NAMES if ":" not in n or n == "Mu5Nmb:noscale"]


def gen(tier, rng):
    quick = tier == "quick"
    for n in UNIQ:
        parts = ["x", "v"] if METHODS[n].kind == "nys" else ["v"]
        for part in parts:
            for k in range(1 if quick else 20):
                yield dict(kind="weights", m=n, part=part,
                           h=float(np.round(rng.uniform(.3, 2), 3)
                                   * rng.choice([-1, 1])),
                           seed=int(rng.integers(2**31)))
    for n in NAMES + ["SSV2stab"]:
        for k in range(3 if quick else 250):
            yield dict(kind="accept", m=n, seed=int(rng.integers(2**31)),
                       d=1 if k % 2 else -1)


def cost(c):
    return 2 if METHODS[c["m"]].kind == "esdirk" else 1


def run(case):
    res = Result()
    if case["kind"] == "weights":
        return weights(case, res)
    m = METHODS[case["m"]]
    if m.kind == "ssv":
        return ssv(case, res)
    return (esdirk if m.kind == "esdirk" else accept)(case, res)


def gold(name, part):
    with open(GOLD) as f:
        g = json.load(f)
    return np.array(g[f"{name}/{part}"])


def get_gold(name, part):
    if name not in UNIQ:
        name = name.split(":")[0]
    return gold(name, part)


def series(m, T, w, part, rng, deg):
    if m.kind == "nys":
        F = TB.Field(rng, 4, 2, vel=[2, 3] if m.nys_strict else None)
        x, v, ks = TB.nys_series(T, F, rng.normal(size=2)*.3,
                                 rng.normal(size=2)*.3, deg)
        return rel(w, ks)
    F = TB.Field(rng, 3, 3)
    fs = TB.esdirk_series if m.kind == "esdirk" else TB.rk_series
    base, ks = fs(T, F, rng.normal(size=3)*.3, deg)
    return rel(w, ks)


def rel(w, ks):
    """coefficients of the estimate, relative to the size of its terms"""
    return np.abs(sum(a*k for a, k in zip(w, ks)))/(
        1e-300 + sum(np.abs(a*k) for a, k in zip(w, ks)))


def weights(case, res):
    name, part, h = case["m"], case["part"], case["h"]
    m = METHODS[name]
    rng = np.random.default_rng(case["seed"])
    c, T = E.nodes(m)
    w, e = E.estimator(m, h, part)
    # (degrees in h are lower: a factor h or h**2 is left out)
    p = 2 if part == "x" else 1
    # (one component of the 2 of a Nystrom system: RMS norm)
    w = w/abs(h)**p*(2**.5 if m.kind == "nys" else 1.)
    ws = [("", w)]
    if name == "BS5":
        ws.append(("early", E.early_estimator(m, h)/abs(h)))
    for tag, w in ws:
        r = 0.
        for _ in range(3):
            s = series(m, T, w, part, rng, m.q + 1).max(0)
            r = max(r, s[:m.q+1-p].max())
            res.check(s[m.q+1-p] > 1e-6, "no-estimate",
                      f"{name} {part} {tag}: estimate vanishes: {s}")
        res.peak("order residual", r)
        res.check(r < 1e-10, "order",
                  f"{name} {part} {tag}: the estimate is not of order "
                  f"{m.q + 1}: {s}")
        if not tag:
            g = gold(name, part)
            r = min(np.abs(w - g).max(), np.abs(w + g).max())/np.abs(g).max()
            res.peak("weights", r)
            res.check(r < 1e-8, "weights",
                      f"{name} {part}: weights of the estimate {w}, not {g}")
    res.count("weights", len(w))
    res.nontrivial = np.count_nonzero(w) > 1
    res.sample = dict(method=name, part=part, h=h, weights=list(w))
    return res


def tolerance(rng, n):
    """rtol, atol as given; effective ones"""
    k = rng.integers(4)
    rtol = float(10**rng.uniform(-7, -2))
    atol = 10**rng.uniform(-7, -2, size=n)
    if rng.integers(6) == 0:
        rtol = float(10**(rng.uniform(-2, 0) if rng.integers(2) else
                          rng.uniform(-9, -7)))
    if k == 0:
        atol = float(atol[0])
    elif k == 1:
        rtol = 0. if rng.integers(2) else 1e-15
    elif k == 2:
        atol = np.zeros(n) if rng.integers(2) else 0.
    r = min(max(rtol, 10*np.finfo(float).epsneg), .1)
    return rtol, atol, r, np.maximum(atol, np.finfo(float).tiny**.5)


class Units:
    """the problem in other units, at other times (powers of 2)"""

    def __init__(self, rng, d, nys=False):
        def pick(p, lo, hi):
            return 2.**int(rng.integers(lo, hi)) if rng.random() < p else 1.
        self.th = pick(.3, -40, 40)
        self.S = pick(.3, -45, 45)
        self.t0 = self.th*(int(rng.choice([-1, 1]))*pick(1, 5, 15)
                           if rng.random() < .25 else 0.)
        self.nys = nys

    def units(self, N):
        u = np.full(N, self.S)
        if self.nys:
            u[N//2:] /= self.th
        return u

    def wrap(self, f):
        def g(t, y):
            u = self.units(len(y))
            o = f((t - self.t0)/self.th, y/u)*(u/self.th)
            if self.nys:
                n = len(y)//2
                return np.concatenate([y[n:], o[n:]])
            return o
        return g

    def tol(self, atol, at, N):
        """given, effective atol"""
        u = self.units(N)
        tiny = np.finfo(float).tiny**.5
        if np.ndim(atol) or self.nys:
            return atol*u, np.maximum(np.where(at > tiny, at*u, 0.), tiny)
        return atol*self.S, np.maximum(
            np.where(at > tiny, at*self.S, 0.), tiny)


def wnorm(e, sc):
    return float(np.sqrt(np.mean(np.abs(e/sc)**2)))


def limits(case, G, d):
    """first step, limit of the step size and end of the integration"""
    rng = np.random.default_rng([case["seed"], 8])
    first = G.th*float(rng.uniform(.01, 1.))
    more, t1 = {}, G.t0 + d*3.*G.th
    if rng.random() < .3:
        more["max_step"] = G.th*float(rng.uniform(.03, .3))
        first = min(first, more["max_step"])
    if rng.random() < .2:
        t1 = d*np.inf
    return first, more, t1


def accept(case, res):
    """follow all attempts of an explicit method"""
    name, d = case["m"], case["d"]
    m = METHODS[name]
    rng = np.random.default_rng(case["seed"])
    nys = m.kind == "nys"
    n = int(rng.integers(1, 5) if rng.integers(5) else
            rng.integers(13, 40))
    N = 2*n if nys else n
    U = rng.normal(size=(n, N))
    if m.nys_strict:
        U[:, n:] = 0.
    w = rng.uniform(.5, 2)
    big = rng.uniform(1., 30.)
    tk = d*rng.uniform(.2, 2., size=3)
    cplx = m.complex_ok and rng.integers(3) == 0
    rot = np.exp(1j*rng.uniform(-.5, .5, size=n)) if cplx else 1.

    def f(t, y):
        a = np.sin(U @ y.real + np.cos(w*t))*rot
        a = a*(1 + big*np.tanh(40*np.sin(t - tk[0])))
        a = a + big*(abs(t) > abs(tk[1]))
        return np.concatenate([y[n:], a]) if nys else a
    y0 = rng.normal(size=N) + (1j*rng.normal(size=N) if cplx else 0.)
    rtol, atol, rt, at = tolerance(rng, N)
    if n > 5:
        U = U/2
        if m.order < 5:
            rtol = rt = max(rt, 1e-7)
    G = Units(rng, d, nys)
    f, y0 = G.wrap(f), y0*G.units(N)
    at0 = at
    atol, at = G.tol(atol, at, N)
    # relative rounding in the estimates
    slack = 1e-6 + 1e-13/np.min(at0 + rt) + 1e-10*(G.t0 != 0.)
    if nys:
        res.count("nystrom")
    fol = E.Follow(m, f)
    first, more, t1 = limits(case, G, d)
    s = m.cls(fol, G.t0, y0, t1, rtol=rtol, atol=atol,
              **E.options(m, first_step=first, **more))
    T = fol.T
    # state at t=0 has derivative:
    fol.last = np.array(f(G.t0, y0))
    W = {p: get_gold(name, p) for p in (["x", "v"] if nys else ["v"])}
    pre = E.EARLY.get(m.cls.__name__)
    if pre and name.startswith("BS5"):
        wpre = gold("BS5", "early")
    elif pre:
        wpre = W["v"]
    acc = rej = 0

    def err(k, h, w):
        j = min(len(k), len(w))
        return h*sum(w[i]*k[i] for i in range(j))
    for _ in range(400):
        t, y = s.t, np.array(s.y)
        fol.start(t)
        s.step()
        if s.status == "failed":
            # this may happen with zero atol
            break
        if abs(s.t - t) < G.th*(1e-8 + (1e-4 if G.t0 else 0.)):
            # attempts of such steps can't be told apart
            break
        for j, a in enumerate(fol.att):
            h, k = a["h"], a["k"]
            last = j == len(fol.att) - 1
            if last and abs(s.t - t - h) > 1e-6*abs(h):
                res.bad("attempts", f"{name}: step {s.t - t} last attempt "
                        f"of {h}")
                return res
            if nys:
                k = [x[n:] for x in k]
                full = len(k) > T.n_step - (0 if np.any(
                    W["v"][-1:]) or np.any(W["x"][-1:]) else 1)
                if not full:
                    continue
                e = np.concatenate([h*err(k, h, W["x"]), err(k, h, W["v"])])
                yn = y + np.concatenate([
                    h*y[n:] + h*h*sum(b*q for b, q in zip(T.b, k)),
                    h*sum(b*q for b, q in zip(T.bp, k))])
            else:
                early = pre and len(k) - 1 < pre
                e = err(k, h, wpre if early else W["v"])
                yn = y + h*sum(b*q for b, q in zip(T.b, k))
            sc = at + rt*np.maximum(np.abs(y), np.abs(yn))
            if nys or not pre:
                lo = hi = wnorm(e, sc)
            else:
                # other weights may be used in early estimates
                top = np.abs(y) + 3*abs(h)*np.max(np.abs(k), axis=0)
                lo = wnorm(e, at + rt*top)
                hi = wnorm(e, at + rt*np.abs(y))
                if not early:
                    lo = hi = wnorm(e, sc)
                    if last and np.any(wpre):
                        # the early estimate has accepted it
                        p = wnorm(err(k[:pre], h, wpre[:pre]), at + rt*top)
                        res.check(p < 1 + slack, "early-missed",
                                  f"{name} h={h} early estimate {p}")
            if last:
                acc += 1
                res.check(lo < 1 + slack, "accepted-too-large",
                          f"{name} t={t} h={h}: accepted, estimate is "
                          f"{lo} times the tolerance; {case}")
            else:
                rej += 1
                res.check(hi > 1 - slack, "rejected-too-small",
                          f"{name} t={t} h={h}: rejected, estimate is "
                          f"{hi} times the tolerance; {case}")
        if s.status != "running" or abs(s.t - G.t0) > 3.*G.th:
            break
    res.count("accepted", acc)
    res.count("units", G.th != 1. or G.S != 1. or G.t0 != 0.)
    res.count("rejected", rej)
    res.nontrivial = acc > 5 and rej > 0
    res.sig = f"{case}"
    res.sample = dict(method=name, rtol=rtol, atol=np.asarray(atol).tolist(),
                      accepted=acc, rejected=rej)
    return res


def esdirk(case, res):
    """acceptance of steps for linear problems, with constant Jacobian"""
    name, d = case["m"], case["d"]
    m = METHODS[name]
    rng = np.random.default_rng(case["seed"])
    n = int(rng.integers(1, 4) if rng.integers(4) else rng.integers(4, 25))
    J = P_stable(rng, n)*d
    M = None
    if rng.integers(2):
        M = np.eye(n) + .3*rng.normal(size=(n, n))
        if np.linalg.cond(M) > 20:
            M = None
    w = rng.uniform(.5, 2)
    tk = d*rng.uniform(.2, 2.)
    big = rng.uniform(1, 20)
    y0 = rng.normal(size=n)

    G = Units(rng, d)
    J, y0 = J/G.th, y0*G.S

    def g(t):
        t = (t - G.t0)/G.th
        return (np.cos(w*t + np.arange(n))
                + big*np.tanh(40*np.sin(t - tk)))*(G.S/G.th)

    calls = []

    def f(t, y):
        calls.append(t)
        return J @ y + g(t)
    rtol, atol, rt, at = tolerance(rng, n)
    if rt < 1e-6:
        # (zero atol is for nonzero components only)
        at = np.maximum(at, 1e-7)
        atol = at
    atol, at = G.tol(atol, at, n)
    kw = dict(m.opts)
    form = int(rng.integers(3))
    if M is not None:
        kw["M"] = M
    Mi = np.eye(n) if M is None else M
    first, more, t1 = limits(case, G, d)
    kw.update(more)
    s = m.cls(f, G.t0, y0, t1, rtol=rtol, atol=atol,
              jac=[J, csc_array(J), J.tolist()][form],
              first_step=first, **kw)
    c, T = E.nodes(m)
    W = gold(name.split(":")[0], "v")
    yp = np.linalg.solve(Mi, J @ y0 + g(G.t0))
    filt = m.cls.__name__ in ("TRX2", "TRBDF2")
    acc = rej = 0
    for _ in range(3000):
        t, y = s.t, np.array(s.y)
        del calls[:]
        s.step()
        if abs(s.t - t) < 1e-4*G.th and G.t0:
            # attempts can't be recognized
            yp = np.linalg.solve(Mi, J @ s.y + g(s.t))
            if s.status != "running":
                break
            continue
        if s.status == "failed" or not np.all(np.abs(s.y) < 1e100):
            break
        ts = calls[::T.m - 1]
        for j, t1 in enumerate(ts):
            h = (t1 - t)/c[1]
            if j == len(ts) - 1:
                h = s.t - t
            LU = np.linalg.inv(Mi - h*T.d*J)
            ks = [yp]
            for i in range(1, T.m):
                psi = y + h*sum(T.A[i, q]*ks[q] for q in range(i))
                ks.append(LU @ (J @ psi + g(t + c[i]*h)))
            yn = psi + h*T.d*ks[-1]
            e = h*sum(a*k for a, k in zip(W, ks))
            if filt:
                e = LU @ (Mi @ e)
            r = wnorm(e, at + rt*np.maximum(np.abs(y), np.abs(yn)))
            if j == len(ts) - 1:
                acc += 1
                res.check(r < 1 + 1e-4, "accepted-too-large",
                          f"{name} t={t} h={h}: accepted, estimate is {r} "
                          f"times the tolerance; {case}")
                yp = np.linalg.solve(Mi, J @ s.y + g(s.t))
            else:
                rej += 1
                res.check(r > 1 - 1e-4, "rejected-too-small",
                          f"{name} t={t} h={h}: rejected, estimate is {r} "
                          f"times the tolerance; {case}")
        if s.status != "running" or abs(s.t - G.t0) > 3.*G.th:
            break
    res.count("accepted", acc)
    res.count("sparse", form == 1)
    res.count("units", G.th != 1. or G.S != 1. or G.t0 != 0.)
    res.count("rejected", rej)
    res.nontrivial = acc > 5 and rej > 0
    res.sample = dict(method=name, mass=M is not None, accepted=acc,
                      rejected=rej)
    return res


def P_stable(rng, n):
    Q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    return Q @ np.diag(-10**rng.uniform(-1, 2.5, size=n)) @ Q.T


def ssv(case, res):
    """SSV2stab: estimate 0.8 (y_n - y) + 0.4 h (f_n + f), documented weight
    with the mean of |y| at both ends"""
    rng = np.random.default_rng(case["seed"])
    m = METHODS["SSV2stab"]
    d = case["d"]
    n = int(rng.integers(1, 4))
    rtol, atol, rt, at = tolerance(rng, n)
    at = np.maximum(at, 1e-8)
    tk = d*rng.uniform(.2, 2.)
    big = rng.uniform(1, 20)
    lam = 10**rng.uniform(-1, 1.5, size=n)
    rec = []

    def f(t, y):
        out = -d*lam*(y - np.cos(t + np.arange(n))) \
            + big*np.tanh(40*np.sin(t - tk))
        rec.append((t, np.array(y), out.copy()))
        return out
    y0 = rng.normal(size=n)
    first, more, t1 = limits(case, SimpleNamespace(th=1., t0=0.), d)
    s = m.cls(f, 0., y0, t1, rtol=rtol, atol=at,
              first_step=min(first, .5), **more,
              rho_jac=lambda t, y: float(lam.max()))
    fn = f(0., y0)
    acc = rej = 0
    for _ in range(3000):
        t, y = s.t, np.array(s.y)
        del rec[:]
        s.step()
        if s.status == "failed" or not np.all(np.abs(s.y) < 1e100):
            break
        # the last evaluation of an attempt is at its end: the time returns
        # to the first stage after that
        att, cur = [], []
        for r in rec:
            if cur and abs(r[0] - t) <= abs(cur[-1][0] - t)*(1 - 1e-9):
                att.append(cur)
                cur = []
            cur.append(r)
        att.append(cur)
        for j, a in enumerate(att):
            te, ye, fe = a[-1]
            h = te - t
            e = .8*(y - ye) + .4*h*(fn + fe)
            r = wnorm(e, at + rt*.5*(np.abs(y) + np.abs(ye)))
            r2 = wnorm(e, at + rt*np.maximum(np.abs(y), np.abs(ye)))
            if j == len(att) - 1:
                acc += 1
                res.check(min(r, r2) < 1 + 1e-6, "accepted-too-large",
                          f"SSV2stab t={t} h={h}: {r}; {case}")
                fn = fe
            else:
                rej += 1
                res.check(max(r, r2) > 1 - 1e-6, "rejected-too-small",
                          f"SSV2stab t={t} h={h}: {r}; {case}")
        if s.status != "running" or abs(s.t) > 3.:
            break
    res.count("accepted", acc)
    res.count("rejected", rej)
    res.nontrivial = acc > 5 and rej > 0
    return res
