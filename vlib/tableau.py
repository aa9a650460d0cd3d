"""Recover the coefficients of a one step method by observing it.

The right hand side returns the unit vector e_k in its k-th call of a step.  A
Runge-Kutta (Nystrom) method forms its stages, its result and its interpolant
as linear combinations of these, so the coefficients can be read from the
arguments of fun and from the results.  Nothing in the code is inspected.
"""
import numpy as np
from vlib.core import Budget

HUGE = 1e250


class Tableau:
    """A[i], c[i]: stages; b: result; bt(theta): interpolant (function)

    Nystrom: A, b for the position, Ap, bp for the velocity.
    """


def probe(meth, h=1., t0=0., nmax=60, weights=None, second=False, **opts):
    """one step (or two) of size h from zero with unit vector stages"""
    nys = meth.kind == "nys"
    N = nmax
    st = dict(k=0, live=False)
    rec = []
    w = np.ones(N) if weights is None else np.asarray(weights, float)

    def fun(t, y):
        k = st["k"]
        if k >= N:
            raise Budget("more evaluations than expected in a step")
        e = np.zeros(N)
        e[k] = w[k]
        if st["live"]:
            rec.append((t, np.array(y)))
        # (construction may evaluate more than once, all of these are stage 0)
        if nys:
            return np.concatenate([y[N:], e])
        return e

    def f(t, y):
        if st["live"]:
            st["k"] += 1
        return fun(t, y)
    kw = dict(meth.opts, first_step=abs(h), rtol=1e-3, atol=HUGE)
    if meth.kind in ("rk", "nys") and meth.name != "CKdisc":
        kw["nfev_stiff_detect"] = 0
    kw.update(opts)
    y0 = np.zeros(2*N if nys else N)
    s = meth.cls(f, t0, y0, t0 + 1000*h, **kw)
    st["live"] = True
    s.step()
    T = Tableau()
    T.status = s.status
    T.h = s.t - t0
    T.n_step = len(rec)
    T.y = np.array(s.y)
    hh = T.h
    T.c = np.array([0.] + [(t - t0)/hh for t, _ in rec])
    Y = np.array([y for _, y in rec])
    d = s.dense_output()
    T.n_all = len(rec)
    Yall = np.array([y for _, y in rec])
    T.c_all = np.array([0.] + [(t - t0)/hh for t, _ in rec])
    m = T.n_all + 1
    T.m = m
    if nys:
        T.Ap = np.vstack([np.zeros(m), Yall[:, N:N+m]])/hh/w[:m]
        T.A = np.vstack([np.zeros(m), Yall[:, :m]])/hh**2/w[:m]
        T.b, T.bp = T.y[:m]/hh**2/w[:m], T.y[N:N+m]/hh/w[:m]
        T.leak = max(abs(Yall[:, m:N]).max(), abs(Yall[:, N+m:]).max())

        def bt(theta):
            v = np.array(d(t0 + theta*hh))
            return v[:m]/hh**2/w[:m], v[N:N+m]/hh/w[:m]
    else:
        T.A = np.vstack([np.zeros(m), Yall[:, :m]])/hh/w[:m]
        T.b = T.y[:m]/hh/w[:m]

        def bt(theta):
            return np.array(d(t0 + theta*hh))[:m]/hh/w[:m]
    T.bt = bt
    T.nys = nys
    return T


# truncated power series: arrays [component, degree]

def mul(a, b):
    """product of two scalar series"""
    return np.convolve(a, b)[:len(a)]


def exp_series(a):
    """exp of series a (rows: several series)"""
    out = np.zeros_like(a)
    out[:, 0] = np.exp(a[:, 0])
    n = a.shape[1]
    k = np.arange(n)
    for j in range(1, n):
        out[:, j] = np.sum(k[1:j+1]*a[:, 1:j+1]*out[:, j-1::-1][:, :j],
                           axis=1)/j
    return out


class Field:
    """f(t, y) = W exp(U y + u t): a smooth field with generic derivatives

    Time is measured from the start of the step, in units of the step.
    """

    def __init__(self, rng, n_in, n_out, terms=5, scale=.7, vel=None):
        self.U = rng.normal(size=(terms, n_in))*scale
        self.u = rng.normal(size=(terms, 1))*scale
        self.W = rng.normal(size=(n_out, terms))*scale
        if vel is not None:            # don't depend on these components
            self.U[:, vel] = 0.

    def __call__(self, c, Y):
        """Y: series [n_in, degree], at time c h"""
        X = self.U @ Y
        X[:, 1:2] += self.u*c
        return self.W @ exp_series(X)


def shift(k):
    """multiply a series by h"""
    out = np.zeros_like(k)
    out[:, 1:] = k[:, :-1]
    return out


def exact_series(F, y0, deg):
    """Taylor series of y' = F(y)"""
    Y = np.zeros((len(y0), deg + 1))
    Y[:, 0] = y0
    for j in range(deg):
        k = F(1., Y)
        Y[:, j+1] = k[:, j]/(j + 1)
    return Y


def rk_series(T, F, y0, deg):
    """series in h of the stages of a step with tableau T"""
    n = len(y0)
    base = np.zeros((n, deg + 1))
    base[:, 0] = y0
    ks = []
    for i in range(T.m):
        Y = base.copy()
        for j, k in enumerate(ks):
            if T.A[i, j]:
                Y += T.A[i, j]*shift(k)
        ks.append(F(T.c_all[i], Y))
    return base, ks


def rk_out(base, ks, b):
    return base + shift(sum(bj*k for bj, k in zip(b, ks)))


def exact_series2(F, x0, v0, deg):
    n = len(x0)
    X = np.zeros((n, deg + 1))
    V = np.zeros((n, deg + 1))
    X[:, 0], V[:, 0] = x0, v0
    for j in range(deg):
        a = F(1., np.vstack([X, V]))
        X[:, j+1] = V[:, j]/(j + 1)
        V[:, j+1] = a[:, j]/(j + 1)
    return X, V


def nys_series(T, F, x0, v0, deg):
    n = len(x0)
    x = np.zeros((n, deg + 1))
    v = np.zeros((n, deg + 1))
    x[:, 0], v[:, 0] = x0, v0
    ks = []
    for i in range(T.m):
        X = x + T.c_all[i]*shift(v)
        V = v.copy()
        for j, k in enumerate(ks):
            X += T.A[i, j]*shift(shift(k))
            V += T.Ap[i, j]*shift(k)
        ks.append(F(T.c_all[i], np.vstack([X, V])))
    return x, v, ks


def nys_out(x, v, ks, theta, b, bp):
    X = x + theta*shift(v) + shift(shift(sum(q*k for q, k in zip(b, ks))))
    V = v + shift(sum(q*k for q, k in zip(bp, ks)))
    return X, V


# ESDIRK

def _esdirk_run(meth, lam, h, t0, nmax):
    """one step in which stage s has k_s = a e_s + (1-a) predictor"""
    N = nmax
    st = dict(k=0, live=False)
    rec = []

    def f(t, y):
        if st["live"]:
            st["k"] += 1
            rec.append((t, np.array(y)))
        if st["k"] >= N:
            raise Budget("more evaluations than expected in a step")
        e = np.zeros(N)
        e[st["k"]] = 1.
        return e
    s = meth.cls(f, t0, np.zeros(N), t0 + 1000*h, first_step=abs(h),
                 rtol=1e-3, atol=HUGE, jac=lam*np.eye(N), **meth.opts)
    st["live"] = True
    s.step()
    hh = s.t - t0
    n = len(rec)
    m = n + 1
    d = s.dense_output()
    out = dict(h=hh, m=m, status=s.status,
               c=np.array([0.] + [(t - t0)/hh for t, _ in rec]),
               R=np.vstack([np.zeros(m), [y[:m]/hh for _, y in rec]]),
               b=np.array(s.y[:m])/hh, extra=len(rec) - n,
               bt=lambda th: np.array(d(t0 + th*hh))[:m]/hh)
    return out


def probe_esdirk(meth, h=.5, t0=0., nmax=20):
    """tableau of an ESDIRK method

    With a constant Jacobian lam*I the linear solves are direct, with a known
    effect; lam=0 shows A + d Az (Az: predictor), another lam separates them.
    """
    o = _esdirk_run(meth, 0., h, t0, nmax)
    m, b = o["m"], o["b"]
    T = Tableau()
    T.status, T.m, T.b, T.h = o["status"], m, b, o["h"]
    T.d = d = b[-1]
    T.c_all = T.c = o["c"]
    T.bt = o["bt"]
    T.n_step = T.n_all = m - 1
    T.nys = False
    lam = -1.7/(d*o["h"])
    a = 1/(1 - o["h"]*d*lam)
    p = _esdirk_run(meth, lam, h, t0, nmax)
    assert abs(p["h"] - o["h"]) < 1e-12 and p["m"] == m
    # k_j as combination of unit vectors in run p
    K = np.zeros((m, m))
    K[0, 0] = 1.
    Az = np.zeros((m, m))
    rows = list(o["R"][2:]) + [b]          # rows that use stages 1..
    prows = list(p["R"][2:]) + [p["b"]]
    for s in range(1, m):
        # row uses stages 0..s
        r, pr = rows[s-1], prows[s-1]
        # pr = sum_j r_j K_j
        K[s] = (pr - r[:s] @ K[:s])/r[s]
        # K[s] = a e_s + (1-a) Az_s K
        v = K[s].copy()
        v[s] -= a
        v /= (1 - a)
        # v = Az_s[:s] @ K[:s]
        Az[s, :s] = np.linalg.solve(K[:s, :s].T, v[:s])
    T.Az = Az
    T.A = o["R"] - d*Az
    T.A[-1] = 0.
    T.A[-1, :-1] = b[:-1]
    T.A_last_seen = o["R"][-1] - d*Az[-1]
    return T


def esdirk_series(T, F, y0, deg):
    n = len(y0)
    base = np.zeros((n, deg + 1))
    base[:, 0] = y0
    ks = [F(0., base)]
    for i in range(1, T.m):
        psi = base.copy()
        for j in range(i):
            psi += T.A[i, j]*shift(ks[j])
        k = np.zeros_like(base)
        for _ in range(deg + 1):
            k = F(T.c_all[i], psi + T.d*shift(k))
        ks.append(k)
    return base, ks


# stabilized method

def probe_ssv(meth, rho, h=.5, t0=0., nmax=80):
    """one step of the stabilized method with given spectral radius"""
    N = nmax
    st = dict(k=0, live=False)
    rec = []

    def f(t, y):
        if st["live"]:
            st["k"] += 1
            rec.append((t, np.array(y)))
        e = np.zeros(N)
        e[st["k"]] = 1.
        return e
    s = meth.cls(f, t0, np.zeros(N), t0 + 1000*h, first_step=abs(h),
                 rtol=1e-3, atol=1e200, rho_jac=lambda t, y: float(rho))
    st["live"] = True
    s.step()
    T = Tableau()
    T.status = s.status
    T.h = hh = s.t - t0
    m = len(rec) + 1
    T.m, T.n_all, T.n_step, T.nys = m, len(rec), len(rec), False
    T.c = T.c_all = np.array([0.] + [(t - t0)/hh for t, _ in rec])
    T.A = np.vstack([np.zeros(m), [y[:m]/hh for _, y in rec]])
    T.b = np.array(s.y[:m])/hh
    d = s.dense_output()
    T.bt = lambda th: np.array(d(t0 + th*hh))[:m]/hh
    return T


def stability(T, z):
    """stability function of a tableau for complex z (array)"""
    z = np.atleast_1d(np.asarray(z, complex))
    out = np.zeros(len(z), complex)
    A = T.A.copy()
    if hasattr(T, "d"):
        A[np.arange(1, T.m), np.arange(1, T.m)] = T.d
    one = np.ones(T.m)
    for i, x in enumerate(z):
        out[i] = 1 + x*T.b @ np.linalg.solve(np.eye(T.m) - x*A, one)
    return out


def apply(T, f, t, y, h, jac=None, thetas=None):
    """one step with a recovered tableau on a real problem

    returns the result, or a list of interpolated values
    """
    y = np.asarray(y)
    ks = _stages(T, f, t, y, h, jac)
    if T.nys:
        n = len(y)//2
        x, v = y[:n], y[n:]

        def out(th, b, bp):
            return np.concatenate([
                x + th*h*v + h*h*sum(b[j]*ks[j] for j in range(T.m)),
                v + h*sum(bp[j]*ks[j] for j in range(T.m))])
        if thetas is None:
            return out(1., T.b, T.bp)
        return [out(th, *T.bt(th)) for th in thetas]

    def out(b):
        return y + h*sum(b[j]*ks[j] for j in range(T.m))
    if thetas is None:
        return out(T.b)
    return [out(T.bt(th)) for th in thetas]


def _stages(T, f, t, y, h, jac=None):
    if T.nys:
        n = len(y)//2
        x, v = y[:n], y[n:]
        ks = []
        for i in range(T.m):
            X = x + T.c_all[i]*h*v + h*h*sum(
                (T.A[i, j]*ks[j] for j in range(i)), 0*x)
            V = v + h*sum((T.Ap[i, j]*ks[j] for j in range(i)), 0*x)
            if not np.isfinite(T.Ap[i]).all():
                V = v
            ks.append(f(t + T.c_all[i]*h, np.concatenate([X, V]))[n:])
        return ks
    ks = [f(t, y)]
    for i in range(1, T.m):
        Y = y + h*sum(T.A[i, j]*ks[j] for j in range(i))
        ti = t + T.c_all[i]*h
        if hasattr(T, "d"):
            psi = Y
            for _ in range(50):
                r = Y - psi - h*T.d*f(ti, Y)
                dY = np.linalg.solve(
                    np.eye(len(y)) - h*T.d*jac(ti, Y), -r)
                Y = Y + dY
                if np.abs(dY).max() <= 1e-15*np.abs(Y).max():
                    break
            ks.append((Y - psi)/(h*T.d))
        else:
            ks.append(f(ti, Y))
    return ks
