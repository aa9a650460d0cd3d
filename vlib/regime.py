"""Integrations in unusual regimes, compared step by step with the tableau."""
import numpy as np
from vlib import tableau as TB
from vlib.methods import METHODS


def fallback_tableau(h, t0, i):
    """lower order solution of CKdisc"""
    w = np.ones(60)
    w[(4 if i else 2):] = 1e12
    # (weights for the stages that the fallback doesn't use)
    return TB.probe(METHODS["CKdisc"], h=h, t0=t0, weights=w, atol=1e6)


class Blocks:
    """k copies of a small system with different phases, in any units"""

    def __init__(self, m, rng, k, nb, d, lin, idle, S, th, T0, c):
        self.nys, self.k, self.nb = m.kind == "nys", k, nb
        self.S, self.th, self.T0, self.c = S, th, T0, c
        self.lin = lin
        self.w, self.ph = rng.uniform(.5, 2), rng.uniform(0, 6, size=k)
        n = 2*nb if self.nys else nb
        self.U = rng.normal(size=(nb, n))
        if m.nys_strict:
            self.U[:, nb:] = 0.
        self.lam = None
        if m.kind == "ssv":
            self.lam = np.sign(d)*10**rng.uniform(0, 2.5, size=nb)
        elif lin:
            self.U = self.U/2 - d*np.diag(10**rng.uniform(-1, 1, size=nb))
        # components that are zero and remain so
        self.mask = np.ones((k, nb))
        if idle:
            self.mask[rng.random((k, nb)) < .3] = 0.
            self.mask[0, 0] = 1.
        y0 = rng.normal(size=(k, n))
        y0[:, :nb] *= self.mask
        if self.nys:
            y0[:, nb:] *= self.mask
        if self.lam is not None:
            y0 *= .5
        self.y0 = self.pack(y0)
        self.units = self.pack(np.ones((k, n)), unit=True)

    def pack(self, y, unit=False):
        S = self.S*(1. if unit else self.c)
        if not self.nys:
            return y.ravel()*S
        v = y[:, self.nb:].ravel()*(S/self.th)
        return np.concatenate([y[:, :self.nb].ravel()*S, v])

    def unpack(self, y):
        S = self.S*self.c
        if not self.nys:
            return (y/S).reshape(self.k, self.nb)
        n = len(y)//2
        return np.hstack([(y[:n]/S).reshape(self.k, self.nb),
                          (y[n:]*(self.th/S)).reshape(self.k, self.nb)])

    def arg(self, tau, u):
        if not self.lin:
            u = u.real
        return u @ self.U.T + np.cos(self.w*tau + self.ph)[:, None]

    def f(self, t, y):
        tau = (t - self.T0)/self.th
        u = self.unpack(y)
        if self.lam is not None:
            a = self.lam*(np.cos(self.w*tau + self.ph)[:, None] - u
                          + .1*np.sin(u[:, ::-1]))
        elif self.lin:
            a = self.arg(tau, u)
        else:
            a = np.sin(self.arg(tau, u))
        a = a*self.mask
        if self.nys:
            n = len(y)//2
            return np.concatenate([y[n:], a.ravel()*(
                self.S*self.c/self.th**2)])
        return a.ravel()*(self.S*self.c/self.th)

    def jac(self, t, y):
        tau = (t - self.T0)/self.th
        N, b = len(y), self.nb
        J = np.zeros((N, N), y.dtype)
        g = np.ones((self.k, b)) if self.lin else np.cos(
            self.arg(tau, self.unpack(y)))
        for i in range(self.k):
            J[i*b:(i+1)*b, i*b:(i+1)*b] = (
                self.U*(g[i]*self.mask[i])[:, None])/self.th
        return J


def regime(case, res, dense=False):
    """lockstep in unusual units, with many components, extreme tolerances,
    complex numbers, idle components, late times, long integrations"""
    m = METHODS[case["m"]]
    rng = np.random.default_rng(case["seed"])
    d = int(rng.choice([-1, 1]))
    esd, ssv = m.kind == "esdirk", m.kind == "ssv"
    what = set(str(x) for x in rng.permutation(
        ["many", "one", "idle", "S", "th", "T0", "complex", "rtol", "atol",
         "long", "maxstep", "infinite"])[:rng.integers(1, 5)])
    k = int(rng.integers(5, 16)) if "many" in what else int(rng.integers(1, 3))
    nb = int(rng.integers(1, 4))
    if "one" in what and "many" not in what:
        k = nb = 1
    S = 10**rng.uniform(-12, 12) if "S" in what else 1.
    th = 10**rng.uniform(-9, 9) if "th" in what else 1.
    T0 = th*(10**rng.uniform(2, 6)*rng.choice([-1, 1]) if "T0" in what else
             rng.uniform(-2, 2))
    c = np.exp(1j*rng.uniform(0, 6)) if "complex" in what and m.complex_ok \
        else 1.
    lin = bool(esd and (rng.integers(3) or c != 1.))
    P = Blocks(m, rng, k, nb, d, lin, "idle" in what, S, th, T0, c)
    # relative rounding of time
    eps = 2.3e-16*(abs(T0)/th + 5)
    rtol = float(10**rng.uniform(-6, -2))
    if "rtol" in what:
        rtol = float(10**(rng.uniform(-13, -9) if rng.integers(2) else
                          rng.uniform(-2, -.5)))
    # (attainable)
    lo = 1e-12 if m.order < 6 else 0.
    if esd or ssv:
        lo = 1e-12 if lin else 1e-8
    rtol = max(rtol, lo, 1e3*eps)
    atol = rtol*P.units*(10**rng.uniform(-2, 1, size=len(P.y0)) if "atol" in
                         what else 10**rng.uniform(-1, 1))
    if not m.kind == "nys" and "atol" not in what:
        atol = float(atol[0])
    none = not ssv and (lin or not esd) and "atol" in what and rng.integers(3) == 0
    if none:
        # (this may fail if a component becomes zero)
        atol = atol*0.
    kw = dict(m.opts, rtol=rtol, atol=atol)
    if m.kind == "esdirk":
        kw["jac"] = P.jac(T0, P.y0) if lin else P.jac
    rho = None
    if ssv:
        rho = float(np.abs(P.lam).max()*1.15/th)
        kw["rho_jac"] = lambda t, y: rho
    if m.kind in ("rk", "nys") and m.name != "CKdisc":
        kw["nfev_stiff_detect"] = 0
    if rng.integers(2):
        kw["first_step"] = float(th*10**rng.uniform(-2, 0))
    if "maxstep" in what:
        kw["max_step"] = float(th*10**rng.uniform(-2, 0))
    t1 = T0 + d*th*(1000. if "long" in what else 5.)
    if "infinite" in what:
        t1 = d*np.inf
    s = m.cls(P.f, T0, P.y0, t1, **kw)
    Ts = []
    if esd:
        Ts = [TB.probe_esdirk(m)]
    elif not ssv:
        Ts = [TB.probe(m)]
    if m.name == "CKdisc":
        Ts += [fallback_tableau(1., 0., i) for i in (0, 1)]
    checked = 0
    later = []
    every = 1 if "long" not in what else 37
    tag = f"{case['m']} {sorted(what)} n={len(P.y0)} seed {case['seed']}"
    for i in range(1000 if "long" in what else 150):
        t, y = s.t, np.array(s.y)
        msg = s.step()
        if s.status == "failed":
            res.count("failed")
            res.check(none, "failed", f"{tag} t={s.t}: {msg}")
            break
        h = s.t - t
        # (nonlinear stages may have more solutions if h is large)
        if (i < 20 or i % every == 0 or s.status != "running") and not (
                esd and not lin and abs(h) > .5*th):
            if ssv:
                Ts = [TB.probe_ssv(m, rho, h=h, t0=0.)]
            checked += 1
            e = np.inf
            for Ti in Ts:
                zi = TB.apply(Ti, P.f, t, y, h, P.jac)
                ei = (np.abs(zi - s.y)/P.units).max()
                if ei < e:
                    T, z, e = Ti, zi, ei
            scale = 1 + (np.abs(z)/P.units).max()
            slope = 1. if not ssv else 300.
            if esd and not lin:
                sc = atol + rtol*np.maximum(np.abs(z), np.abs(y))
                r = (np.abs(z - s.y)/sc).max()/30.
            else:
                tol = scale*(1e-11 + 20*eps*slope)
                if e > tol:
                    # the effect of rounding
                    res.count("sensitive")
                    for _ in range(3):
                        v = 1 + 4e-16*rng.choice([-1, 1], size=len(y) + 2)
                        z2 = TB.apply(T, P.f, t*v[-1], y*v[:-2], h*v[-2],
                                      P.jac)
                        tol += 1000*(np.abs(z - z2)/P.units).max()
                r = e/tol
            res.peak("regime/" + m.kind + ("/lin" if lin else ""), r)
            if not res.check(r < 1., "regime", lambda: f"{tag} step {i} "
                             f"t={t} h={h}: error {r}; {z} {s.y}"):
                break
            if dense and T is Ts[0]:
                xs = np.r_[rng.uniform(0, 1, 3), 1.]
                z = TB.apply(T, P.f, t, y, h, P.jac, xs)
                v = 1 + 4e-16*rng.choice([-1, 1], size=len(y) + 2)
                z2 = TB.apply(T, P.f, t*v[-1], y*v[:-2], h*v[-2], P.jac, xs)
                later.append((t, h, xs, np.array(z).T, np.array(z2).T,
                              s.dense_output(), slope))
        if s.status != "running" or not np.all(
                np.abs(s.y)/P.units < 1e6) or abs(s.t - T0) > 1e4*th:
            break
    if not s.nfev:
        res.bad("evaluations", tag)
    # the interpolants remain valid
    u = P.units[:, None]
    for t, h, xs, z, z2, o, slope in later:
        w = o(t + xs*h)
        e = (np.abs(w - z)/u).max()
        if esd and not lin:
            sc = np.max(atol/P.units) + rtol*np.abs(z/u).max()
            r = e/sc/100.
        else:
            # (velocities: differences of positions)
            q = 20*eps*(slope + (th/abs(h) if m.kind == "nys" else 0.))
            r = e/(1e-11 + q)/(1 + (np.abs(z)/u).max() + (
                np.abs(h*P.f(t, z[:, 0]))/P.units).max())
            if r > 1:
                r = e/(e/r + 1000*(np.abs(z - z2)/u).max())
        res.count("interpolants")
        res.peak("regime/dense/" + m.kind + ("/lin" if lin else ""), r)
        if not res.check(r < 1., "regime", lambda: f"{tag} dense output in "
                         f"t={t} h={h}: error {r}; {z.T} {w.T}"):
            break
    for x in what:
        res.count("regime_" + x)
    res.count("lockstep", checked)
    res.nontrivial = checked > 1
    res.sig = (case["m"], case["seed"])
    return res
