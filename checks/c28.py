"""C28: user defined methods do what their tableau says."""
import warnings
import numpy as np
from scipy.sparse import csc_array, issparse
from extensisq.common import RungeKutta, RungeKuttaNystrom, ESDIRK
from vlib.core import Result, Budget

ID = "C28"
QUICK = 8            # repetitions of the set of cases in the quick tier
RULE = ("a case defines a method by a random tableau (explicit, Nystrom "
        "general or strict, ESDIRK; with or without evaluation at the end "
        "point in the error estimate, with or without interpolant or "
        "stability information) and integrates a random problem; in every "
        "step the stages, the solution, the acceptance, the interpolant, the "
        "number of evaluations and the step size are compared to a reference "
        "implementation of the tableau. Non-trivial if 8 or more steps were "
        "compared; distinct by parameters")
ASSUMPTIONS = ["random tableaus satisfy the lowest order conditions only",
               "acceptance is not judged if the estimated error is within "
               "1e-6 of the tolerance",
               "ESDIRK: linear problems with constant Jacobian are compared "
               "exactly, others within the Newton tolerance"]

PTS = np.array([.2, .6])


def gen(tier, rng):
    for k in range(120 if tier == "quick" else 1200):
        yield dict(kind=["rk", "nys", "strict", "esdirk"][k % 4],
                   s=int(rng.integers(1, 6)) + (k % 4 == 3),
                   n=int(rng.integers(1, 4)), d=int(rng.choice([-1, 1])),
                   fsal=bool(rng.integers(2)), P=bool(rng.integers(2)),
                   stab=bool(rng.integers(2)), cplx=bool(rng.integers(3) == 0),
                   tol=float(10**(rng.uniform(-5, -2) if rng.integers(5) else
                                  rng.uniform(-2, 0))),
                   sc=[None, "standard", "G", "S"][rng.integers(4)],
                   first=bool(rng.integers(2)), lin=bool(rng.integers(2)),
                   seed=int(rng.integers(2**31)))


def tableau(case, rng):
    s = case["s"]
    c = np.r_[0., np.round(np.sort(rng.uniform(.1, 1., size=s - 1)), 2)]
    if s > 2 and rng.integers(3) == 0:
        c[1] = c[2]
    if s > 1 and rng.integers(2):
        c[-1] = 1.

    def rows(tot, diag=None):
        A = np.zeros((s, s))
        for i in range(1, s):
            A[i, :i] = rng.normal(size=i)*.4
            if diag is not None:
                A[i, i] = diag
            A[i, 0] += tot[i] - A[i].sum()
        return A

    def weights(k, total):
        b = rng.normal(size=k)*.4
        b[0] += total - b.sum()
        return b
    # (the orders only matter for the step size)
    p, q = [(2, 1), (1, 2), (2, 3), (4, 3), (2, 2)][rng.integers(5)]
    d = dict(n_stages=s, order=p, order_secondary=q, C=c)
    fs = case["fsal"]

    def err(scale):
        e = weights(s + 1, 0.)*scale
        if not fs:
            e[0] += e[-1]
            e[-1] = 0.
        if s == 1 and not fs:
            e[:] = [scale, 0.]
        return e
    if case["kind"] == "rk":
        d.update(A=rows(c), B=weights(s, 1.), E=err(.3))
        if case["P"]:
            d["P"] = interp(rng, np.r_[d["B"], 0.], s + 1)
        if case["stab"]:
            d.update(stbrad=2., tanang=2.)
    elif case["kind"] in ("nys", "strict"):
        d.update(A=rows(c**2/2), B=weights(s, .5), Bp=weights(s, 1.),
                 E=err(.3), Ep=err(.3))
        if case["kind"] == "nys":
            d["Ap"] = rows(c)
        if case["P"]:
            d["P"] = interp(rng, np.r_[d["B"], 0.], s + 1)
            d["Pp"] = interp(rng, np.r_[d["Bp"], 0.], s + 1)
        if case["stab"]:
            d.update(stbre=2., stbim=2., tanang=2.)
    else:
        g = float(np.round(rng.uniform(.15, .5), 2))
        c[-1] = 1.
        A = rows(c, g)
        Az = np.zeros((s, s))
        Az[1:, 0] = rng.uniform(0, 1, size=s - 1)
        for i in range(2, s):
            Az[i, i-1] = 1 - Az[i, 0]
        e = weights(s, 0.)*.2
        d.update(A=A, B=A[-1].copy(), E=e, d=g, Az=Az,
                 kappa=float(rng.choice([.5, .1, .01])))
        if case["P"]:
            d["P"] = interp(rng, d["B"], s)
    return d


def interp(rng, b, s):
    k = int(rng.integers(2, 5))
    P = rng.normal(size=(s, k))*.3
    P[:, -1] += b - P.sum(axis=1)
    return P


class Log:
    def __init__(self, f):
        self.f, self.on = f, False
        self.t, self.y, self.k = [], [], []
        self.n = 0

    def __call__(self, t, y):
        self.n += 1
        if self.n > 60000:
            raise Budget("60000 evaluations")
        o = np.asarray(self.f(t, y))
        if self.on:
            self.t.append(t), self.y.append(np.array(y))
            self.k.append(np.array(o))
        return o

    def start(self):
        self.on = True
        self.t, self.y, self.k = [], [], []


def run(case):
    res = Result()
    rng = np.random.default_rng(case["seed"])
    T = tableau(case, rng)
    kind, n, d, s_ = case["kind"], case["n"], case["d"], case["s"]
    base = dict(rk=RungeKutta, nys=RungeKuttaNystrom,
                strict=RungeKuttaNystrom, esdirk=ESDIRK)[kind]
    cls = type("User", (base,), dict(T))
    nys = kind in ("nys", "strict")
    t0 = float(np.round(rng.uniform(-2, 2), 2))
    c = (1 + .3j) if case["cplx"] else 1.
    w = rng.uniform(.5, 3)
    z = 1j if case["cplx"] else 0.
    kw = dict(rtol=case["tol"], atol=case["tol"]*10**rng.uniform(-1, 1, n*(
        2 if nys else 1)))
    if case["sc"]:
        kw["sc_params"] = case["sc"]
    h0 = float(10**rng.uniform(-3, 0))
    if case["first"]:
        kw["first_step"] = h0
    if nys:
        U = rng.normal(size=(n, 2*n))
        if kind == "strict":
            U[:, n:] = 0.

        def f(t, y):
            return np.concatenate([y[n:], c*np.sin(U @ y + np.cos(w*t))])
        y0 = rng.normal(size=2*n) + z*rng.normal(size=2*n)*.2
        if case["cplx"]:
            def f(t, y):
                return np.concatenate([y[n:], c*np.sin(
                    U @ y.real + np.cos(w*t))])
        N = 2*n
    elif kind == "rk":
        U = rng.normal(size=(n, n))

        def f(t, y):
            return c*np.sin(U @ np.real(y) + np.cos(w*t))
        y0 = rng.normal(size=n) + z*rng.normal(size=n)*.2
        N = n
    else:
        U = rng.normal(size=(n, n))
        J = d*(U - np.diag(10**rng.uniform(.5, 1.5, size=n)))
        if case["lin"]:
            def f(t, y):
                return J @ y + c*np.cos(w*t)
            kw["jac"] = csc_array(J) if case["seed"] % 3 == 0 else J
        else:
            def f(t, y):
                return J @ y + c*np.cos(w*t) + d*np.sin(np.real(y))

            def jac(t, y):
                return J + d*np.diag(np.cos(np.real(y)))
            kw["jac"] = (lambda t, y: csc_array(jac(t, y))) \
                if case["seed"] % 3 == 0 else jac
        y0 = rng.normal(size=n) + z*rng.normal(size=n)*.2
        N = n
    if kind != "esdirk" and case["stab"]:
        kw["nfev_stiff_detect"] = 0
    F = Log(f)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        S = cls(F, t0, y0.astype(complex) if case["cplx"] else y0,
                t0 + d*8., **kw)
        if kind != "esdirk":
            cls(f, t0, y0, t0 + d*8., nfev_stiff_detect=300)
    if kind != "esdirk":
        has = any("stiffness" in str(x.message) for x in ws)
        res.check(has != case["stab"], "stiffness option",
                  f"warning={has}, stability information={case['stab']}")
    steps = 0
    kept = []
    for _ in range(80):
        if S.status != "running":
            break
        t, y = S.t, np.array(S.y)
        F.start()
        S.step()
        F.on = False
        if S.status == "failed":
            # (a bad random method may be unstable)
            break
        if kind == "esdirk":
            step_esdirk(case, T, S, t, y, f, kw, F, res)
        else:
            step_explicit(case, T, S, t, y, f, kw, F, res)
        dense(case, T, S, t, y, f, res)
        kept.append((S.dense_output(), S.t_old + (S.t - S.t_old)*PTS))
        kept[-1] += (kept[-1][0](kept[-1][1]),)
        steps += 1
        if kind == "esdirk" and case["lin"] and \
                not close(S._k0, f(S.t, S.y), 1e-11):
            # the slopes of this random method are an unstable recursion
            res.count("unstable_slopes")
            break
        if res.viol:
            break
    for o, x, v in kept:
        if not res.check(np.array_equal(o(x), v, equal_nan=True),
                         "persistence", lambda: f"an interpolant changed "
                         f"from {v} to {o(x)} after later steps {case}"):
            break
    res.count("steps", steps)
    res.nontrivial = steps >= 8
    res.sample = dict(kind=kind, stages=s_, steps=steps, fsal=case["fsal"])
    return res


def close(a, b, tol=1e-10):
    return np.all(np.abs(a - b) <= tol*(1 + np.max(np.abs(b))))


def step_explicit(case, T, S, t, y, f, kw, F, res):
    nys = case["kind"] != "rk"
    s = T["n_stages"]
    h = S.t - t
    N = len(y)
    n = N//2
    per = s - 1 + case["fsal"]
    calls = len(F.t)
    att = (calls - (0 if case["fsal"] else 1))
    if per:
        res.check(att % per == 0 and att > 0, "evaluations",
                  f"{calls} evaluations in a step of {s} stages, "
                  f"fsal={case['fsal']}")
        att //= per
    else:
        att = 1
    # reference of an attempt of size h

    def attempt(h):
        K = np.zeros((s + 1, n if nys else N), y.dtype)
        tt, yy = [], []
        for i in range(s + 1):
            if i < s:
                ti = t + T["C"][i]*h
                if nys:
                    u = y[:n] + T["C"][i]*h*y[n:] + h*h*(
                        T["A"][i, :i] @ K[:i])
                    v = y[n:] + h*(T["Ap"][i, :i] @ K[:i]
                                   if "Ap" in T else 0.)
                    yi = np.concatenate([u, v])
                else:
                    yi = y + h*(T["A"][i, :i] @ K[:i])
            else:
                ti = t + h
                if nys:
                    yi = np.concatenate([
                        y[:n] + h*y[n:] + h*h*(T["B"] @ K[:s]),
                        y[n:] + h*(T["Bp"] @ K[:s])])
                else:
                    yi = y + h*(T["B"] @ K[:s])
            tt.append(ti), yy.append(yi)
            K[i] = f(ti, yi)[n:] if nys else f(ti, yi)
        if nys:
            e = np.concatenate([h*h*(T["E"] @ K), h*(T["Ep"] @ K)])
        else:
            e = h*(T["E"] @ K)
        sc = kw["atol"] + min(kw["rtol"], .1)*np.maximum(np.abs(y), np.abs(yi))
        return tt, yy, yi, np.mean(np.abs(e/sc)**2)**.5, K
    tt, yy, ynew, err, K = attempt(h)
    # rejected attempts
    expo = -1/(min(T["order"], T["order_secondary"]) + 1)
    if per and s > 1:
        hs = [(F.t[a*per] - t)/T["C"][1] for a in range(att)]
        control(case, S, res, t, hs[0], .9)
        for a in range(att - 1):
            ha = hs[a]
            ea = attempt(ha)[3]
            if abs(ha) > 1e-6:
                want = max(.2, .9*ea**expo)
                res.check(abs(hs[a+1]/ha/want - 1) < 1e-6, "retry", lambda:
                          f"after error {ea} a factor {hs[a+1]/ha}, expected "
                          f"{want} {case}")
            res.check(ea > 1 - 1e-6, "rejected",
                      f"attempt of {ha} with error {ea} was rejected")
            res.check(abs(h) < abs(ha)*(1 + 1e-9), "rejected",
                      f"{ha} was followed by {h}")
            res.count("rejections")
    res.check(err < 1 + 1e-6, "accepted", lambda: f"step of {h} with error "
              f"{err} was accepted {case}")
    res.check(close(S.y, ynew), "solution",
              lambda: f"{S.y} expected {ynew}, h={h} {case}")
    lt, ly = F.t[(att - 1)*per:], F.y[(att - 1)*per:]
    want_t, want_y = (tt[1:], yy[1:])
    ok = len(lt) == len(want_t) and all(
        abs(a - b) < 1e-9*(1 + abs(t)) for a, b in zip(lt, want_t)) and all(
        close(a, b) for a, b in zip(ly, want_y))
    res.check(ok, "stages", lambda: f"stages at {lt}: {ly}, expected "
              f"{want_t}: {want_y} {case}")
    S._K_ref = K
    S._ctl = (h, err**expo, att > 1, hasattr(S, "_ctl"))
    res.peak("err", err)


def control(case, S, res, t, h, safety):
    """size of a first attempt, standard controller"""
    if not hasattr(S, "_ctl"):
        return
    old, power, retried, later = S._ctl
    if retried or (later and case["sc"] != "standard") or \
            abs(S.t_bound - t) < 4*abs(h) or min(abs(h), abs(old)) < 1e-6:
        return
    if .3 < safety*power < 3.9:
        res.count("controls")
        r = h/old
        res.check(abs(r/(safety*power) - 1) < 1e-5, "control", lambda:
                  f"factor {r} after a step of {old}, expected "
                  f"{safety*power} {case}")


def step_esdirk(case, T, S, t, y, f, kw, F, res):
    s = T["n_stages"]
    h = S.t - t
    n = len(y)
    A, c = T["A"], T["C"]
    # solve the stage equations
    K = np.zeros((s, n), y.dtype)
    K[0] = S._k0 if hasattr(S, "_k0") else f(t, y)
    for i in range(1, s):
        psi = y + h*(A[i, :i] @ K[:i])
        ti = t + c[i]*h
        k = f(ti, psi)
        for _ in range(60):
            yi = psi + h*T["d"]*k
            J = kw["jac"] if case["lin"] else kw["jac"](ti, yi)
            J = J.toarray() if issparse(J) else J
            r = f(ti, yi) - k
            dk = np.linalg.solve(np.eye(n) - h*T["d"]*J, r)
            k = k + dk
            if np.max(np.abs(dk)) < 1e-14*(1 + np.max(np.abs(k))):
                break
        K[i] = k
    ynew = y + h*(T["B"] @ K)
    sc = kw["atol"] + min(kw["rtol"], .1)*np.maximum(np.abs(y), np.abs(ynew))
    err = np.mean(np.abs(h*(T["E"] @ K)/sc)**2)**.5
    e = np.mean(np.abs((S.y - ynew)/sc)**2)**.5
    if case["lin"]:
        res.check(close(S.y, ynew, 1e-8), "solution",
                  lambda: f"{S.y} expected {ynew}, h={h} {case}")
        res.check(err < 1 + 1e-5, "accepted", lambda: f"step of {h} with "
                  f"error {err} was accepted {case}")
        S._k0 = K[-1]
        # (no rejections)
        att = len(F.t)//(s - 1)
        control(case, S, res, t, (F.t[0] - t)/c[1], .8)
        S._ctl = (h, err**(-1/(min(T["order"], T["order_secondary"]) + 1)),
                  att > 1, hasattr(S, "_ctl"))
    else:
        res.peak("newton", e/T["kappa"])
        # (errors of all stages add up, amplified by the coefficients)
        lim = T["kappa"]*(2 + 6*np.sum(np.abs(A))/T["d"])
        res.check(e < lim, "solution",
                  lambda: f"{S.y} expected {ynew} +- {lim} tolerances, got "
                  f"{e}, h={h} {case}")
        S._k0 = f(S.t, S.y)
        S._lim = lim*sc
    S._K_ref = K
    res.count("implicit_steps")


def dense(case, T, S, t, y, f, res):
    o = S.dense_output()
    h = S.t - t
    nys = case["kind"] in ("nys", "strict")
    n = len(y)//2
    tol = 1e-9
    x = np.array([0., .3, .7, 1.])
    v = o(t + x*h)
    K = S._K_ref
    if case["kind"] == "esdirk" and not case["lin"]:
        # (within the Newton tolerance: ends and slopes only)
        res.check(close(v[:, 0], y, tol) and close(v[:, -1], S.y, tol),
                  "dense ends", f"{v[:, [0, -1]]} {y} {S.y}")
        if case["P"]:
            return
        q = np.linalg.solve(x[:, None]**np.arange(4), v.T)
        s0, s1 = q[1]/h, (np.arange(4) @ q)/h
        lim = S._lim/(abs(h)*T["d"])
        slack = 1e-8*(1 + np.max(np.abs(s0)) + np.max(np.abs(y))/abs(h))
        f0 = getattr(S, "_slope", f(t, y))
        l0 = slack if hasattr(S, "_slope") else lim + slack
        res.check(np.all(np.abs(s0 - f0) <= l0) and
                  np.all(np.abs(s1 - S._k0) <= lim + slack), "dense slopes",
                  lambda: f"slopes {s0}, {s1}, expected {f0}, {S._k0}, "
                  f"h={h} {case}")
        S._slope = s1
        res.count("interpolants")
        return
    if case["kind"] == "esdirk":
        tol = 1e-6
    if case["P"]:
        k = np.arange(1, T["P"].shape[1] + 1)
        px = x[:, None]**k
        if nys:
            kp = np.arange(1, T["Pp"].shape[1] + 1)
            # x = y + h v x + h^2 x * sum
            W = (T["P"] @ px.T)*x
            ref = np.concatenate([
                y[:n, None] + h*y[n:, None]*x + h*h*(K.T @ W),
                y[n:, None] + h*(K.T @ (T["Pp"] @ (x[:, None]**kp).T))])
        else:
            ref = y[:, None] + h*(K.T @ (T["P"] @ px.T))
    elif nys:
        # quintic Hermite through x, v and a
        a0, a1 = K[0], K[-1]
        ref = np.zeros((2*n, 4), y.dtype)
        M = np.array([[1, 0, 0, 0, 0, 0], [0, 1, 0, 0, 0, 0],
                      [0, 0, 2, 0, 0, 0], [1]*6, range(6),
                      [i*(i-1) for i in range(6)]], float)
        q = np.linalg.solve(M, np.array([
            y[:n], h*y[n:], h*h*a0, S.y[:n], h*S.y[n:], h*h*a1]))
        ref[:n] = (x[:, None]**np.arange(6) @ q).T
        ref[n:] = ((np.arange(1, 6)*x[:, None]**np.arange(5)) @ q[1:]).T/h
        tol = 1e-9/min(abs(h), 1.)
    else:
        M = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [1]*4, range(4)], float)
        q = np.linalg.solve(M, np.array([y, h*K[0], S.y, h*K[-1]]))
        ref = (x[:, None]**np.arange(4) @ q).T
    res.check(close(v, ref, tol), "dense", lambda: f"{v}, expected {ref} "
              f"at {x}, h={h} {case}")
    one = o(t + .3*h)
    res.check(close(one, v[:, 1], 1e-12), "dense scalar", f"{one} {v[:, 1]}")
    res.count("interpolants")
