"""Random jobs (method + options + problem) for comparative monitors.

A job is JSON-able. field(job) gives f, jac and y0; make(job) a solver.
"""
import numpy as np
from vlib.methods import METHODS


def job(rng, name, d=None, cplx=None, n=None, length=4., rough=None,
        extra=True, wide=False):
    m = METHODS[name]
    d = int(rng.choice([-1, 1])) if d is None else d
    if cplx is None:
        cplx = m.complex_ok and rng.integers(3) == 0
    rough = bool(rng.integers(2)) if rough is None else rough
    tol = float(10**rng.uniform(-7, -2.5))
    if m.order < 4:
        tol = max(tol, 1e-5)
    t0 = float(np.round(rng.uniform(-3, 3), 2))
    if wide and rng.integers(8) == 0:
        t0 += float(rng.choice([-1, 1]))*2**14        # late
    if n is None:
        # few or many components
        n = int(rng.integers(1, 4) if not wide or rng.integers(7) else
                rng.integers(13, 45))
    j = dict(m=name, d=d, cplx=bool(cplx), n=n, seed=int(rng.integers(2**31)), rough=rough,
             rtol=tol, atol=tol*float(10**rng.uniform(-2, 1)),
             t0=t0, t1=t0 + d*length, opts={})
    o = j["opts"]
    if rng.integers(4) == 0:
        o["first_step"] = float(10**rng.uniform(-3, -.5))
    if rng.integers(5) == 0:
        o["max_step"] = float(rng.uniform(.05, .5))
    if not extra:
        return j
    if m.kind in ("rk", "nys", "esdirk") and name != "CKdisc" and \
            rng.integers(3) == 0:
        o["sc_params"] = [str(rng.choice(["G", "S", "standard"])),
                          [.8, -.2, .1, .85]][rng.integers(2)]
    if m.kind in ("rk", "nys") and name != "CKdisc":
        o["nfev_stiff_detect"] = int(rng.choice([0, 0, 5000, 300]))
    if name == "SWAG" and rng.integers(2):
        o["k_max"] = int(rng.integers(1, 13))
    if m.kind == "esdirk":
        j["jac"] = str(rng.choice(["fun", "none", "sparse"]))
        if rng.integers(4) == 0:
            o["jac_each_step"] = True
    if m.kind == "ssv":
        j["rho"] = bool(rng.integers(2))
        if rng.integers(3) == 0:
            o["const_jac"] = True
    return j


def field(j):
    m = METHODS[j["m"]]
    rng = np.random.default_rng(j["seed"])
    n, d = j["n"], j["d"]
    w, p = rng.uniform(.5, 2), rng.uniform(0, 6)
    tk = j["t0"] + d*rng.uniform(.3, 3.)
    big = rng.uniform(2, 10) if j["rough"] else 0.
    c = (1 + .3j) if j["cplx"] else 1.
    jac = None
    if m.kind == "nys":
        U = rng.normal(size=(n, 2*n))/max(1, n/4)**.5
        if m.nys_strict:
            U[:, n:] = 0.

        def f(t, y):
            a = c*np.sin(U @ y.real + np.cos(w*t + p)) \
                * (1 + big*np.tanh(20*np.sin(t - tk)))
            return np.concatenate([y[n:], a])
        y0 = rng.normal(size=2*n) + (1j*rng.normal(size=2*n) if j["cplx"]
                                     else 0.)
    elif m.kind in ("ssv", "esdirk"):
        lam = 10**rng.uniform(0, 2.5, size=n)
        C = .2*rng.normal(size=(n, n))/max(1, n/4)**.5

        def f(t, y):
            return d*(-lam*(y - c*np.cos(w*t + p)) + C @ np.sin(y)) \
                * (1 + .2*np.sin(y)**2) + c*big*np.tanh(20*np.sin(t - tk))

        def jac(t, y):
            g = -lam*(y - c*np.cos(w*t + p)) + C @ np.sin(y)
            return d*((-np.diag(lam) + C*np.cos(y))
                      * (1 + .2*np.sin(y)**2)[:, None]
                      + np.diag(g*.4*np.sin(y)*np.cos(y)))
        y0 = rng.normal(size=n)*.5 + (.5j*rng.normal(size=n) if j["cplx"]
                                      else 0.)
    else:
        U = rng.normal(size=(n, n))/max(1, n/4)**.5

        def f(t, y):
            return c*np.sin(U @ y.real + np.cos(w*t + p)) \
                * (1 + big*np.tanh(20*np.sin(t - tk))) + .2j*c*y.imag*(
                    1 if j["cplx"] else 0) if j["cplx"] else np.sin(
                        U @ y + np.cos(w*t + p)) \
                * (1 + big*np.tanh(20*np.sin(t - tk)))
        y0 = rng.normal(size=n) + (1j*rng.normal(size=n) if j["cplx"]
                                   else 0.)
    return f, jac, y0


def kwargs(j, jac):
    m = METHODS[j["m"]]
    kw = dict(m.opts)
    kw.update(j["opts"])
    if isinstance(kw.get("sc_params"), list):
        kw["sc_params"] = tuple(kw["sc_params"])
    if m.kind == "esdirk" and j.get("jac", "fun") != "none":
        if j.get("jac") == "sparse":
            from scipy.sparse import csc_array
            kw["jac"] = lambda t, y: csc_array(jac(t, y))
        else:
            kw["jac"] = jac
    if m.kind == "ssv" and j.get("rho"):
        kw["rho_jac"] = lambda t, y: 500.
    return kw


def make(j, wrap=None, **over):
    f, jac, y0 = field(j)
    if wrap is not None:
        f = wrap(f)
    kw = kwargs(j, jac)
    kw.update(rtol=j["rtol"], atol=j["atol"])
    kw.update(over)
    return METHODS[j["m"]].cls(f, j["t0"], y0, j["t1"], **kw)


def dense_ok(j):
    """taking dense output doesn't change the solution"""
    return j["m"] != "Fi5N:1"


class Rec:
    """trajectory of one solver, to be compared with another"""

    def __init__(self, s, dense=0):
        self.s = s
        self.dense = dense        # dense output every so many steps
        self.rows = [self.row(None)]

    def row(self, msg):
        s = self.s
        return (s.t, np.array(s.y).tobytes(), s.nfev, s.njev, s.nlu, s.status,
                msg)

    def step(self):
        s = self.s
        if s.status != "running":
            return False
        if len(self.rows) > 5000:
            return False
        msg = s.step()
        self.rows.append(self.row(msg))
        if self.dense and s.status != "failed" and \
                len(self.rows) % self.dense == 0:
            o = s.dense_output()
            self.rows.append(np.array(o(
                s.t_old + (s.t - s.t_old)*np.array([.3, .8]))).tobytes())
        return s.status == "running"

    def finish(self):
        while self.step():
            pass
        return self.rows
