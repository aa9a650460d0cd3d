"""Shared by C04, C06: order of a recovered tableau and of its interpolant."""
import numpy as np
from vlib import tableau as TB
from vlib.methods import METHODS


def recover(case):
    m = METHODS[case["m"]]
    h, t0 = case["h"], case["t0"]
    if m.kind == "esdirk":
        return m, TB.probe_esdirk(m, h=h, t0=t0)
    if m.kind == "ssv":
        return m, TB.probe_ssv(m, case["rho"], h=h, t0=t0)
    return m, TB.probe(m, h=h, t0=t0, **case.get("kw", {}))


def cases(rng, names, reps, rho=True):
    for n in names:
        for k in range(reps):
            h = float(rng.uniform(.05, 2))*(1 if k % 2 == 0 else -1)
            c = dict(m=n, h=h, t0=float(np.round(rng.uniform(-3, 3), 2)),
                     seed=int(rng.integers(2**31)))
            if n == "SSV2stab":
                # relatively few stages, up to about 60
                c["rho"] = float(10**rng.uniform(-1, 3.2)/abs(h))
            yield c


def series_residuals(m, T, rng, deg, thetas=(), reps=3):
    """residuals of the Taylor coefficients of one step, and of the
    interpolant at thetas; relative to those of the exact solution.

    For Nystrom methods these are split in position and velocity.
    """
    step = np.zeros((2, deg + 1))
    dense = np.zeros((2, deg + 1))
    pw = np.arange(deg + 1)
    for _ in range(reps):
        if not T.nys:
            F = TB.Field(rng, 3, 3)
            y0 = rng.normal(size=3)*.3
            ex = TB.exact_series(F, y0, deg)
            fs = TB.esdirk_series if m.kind == "esdirk" else TB.rk_series
            base, ks = fs(T, F, y0, deg)
            sc = np.abs(ex).max(0)
            r = np.abs(TB.rk_out(base, ks, T.b) - ex).max(0)/sc
            step[0] = np.maximum(step[0], r)
            for th in thetas:
                r = np.abs(TB.rk_out(base, ks, T.bt(th))
                           - ex*float(th)**pw).max(0)/sc
                dense[0] = np.maximum(dense[0], r)
        else:
            F = TB.Field(rng, 4, 2, vel=[2, 3] if m.nys_strict else None)
            x0, v0 = rng.normal(size=2)*.3, rng.normal(size=2)*.3
            X, V = TB.exact_series2(F, x0, v0, deg)
            x, v, ks = TB.nys_series(T, F, x0, v0, deg)
            scx, scv = np.abs(X).max(0), np.abs(V).max(0)
            XX, VV = TB.nys_out(x, v, ks, 1., T.b, T.bp)
            step[0] = np.maximum(step[0], np.abs(XX - X).max(0)/scx)
            step[1] = np.maximum(step[1], np.abs(VV - V).max(0)/scv)
            for th in thetas:
                XX, VV = TB.nys_out(x, v, ks, th, *T.bt(th))
                p = float(th)**pw
                dense[0] = np.maximum(dense[0],
                                      np.abs(XX - X*p).max(0)/scx)
                dense[1] = np.maximum(dense[1],
                                      np.abs(VV - V*p).max(0)/scv)
    return step, dense


def generic(m, rng, d):
    """a generic nonlinear non-autonomous problem: f, jac, y0"""
    w = rng.uniform(.5, 2)
    jac = None
    if m.kind == "nys":
        n = 2
        U = rng.normal(size=(2, 4))
        if m.nys_strict:
            U[:, 2:] = 0.

        def f(t, y):
            return np.concatenate([y[n:], np.sin(U @ y + np.cos(w*t))])
        y0 = rng.normal(size=4)
    elif m.kind == "ssv":
        lam = np.array([1., 20., 300.])

        def f(t, y):
            return np.sign(d)*lam*(np.cos(w*t) - y + .1*y[::-1])
        y0 = rng.normal(size=3)
    else:
        U = rng.normal(size=(3, 3))

        def f(t, y):
            return np.sin(U @ y + np.cos(w*t))

        def jac(t, y):
            return np.cos(U @ y + np.cos(w*t))[:, None]*U
        y0 = rng.normal(size=3)
    return f, jac, y0
