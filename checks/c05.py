"""C05: dense output joins the accepted states."""
import numpy as np
from scipy.integrate import solve_ivp
from vlib.core import Result
from vlib.drive import run as drive, Log
from vlib.methods import METHODS, ALL
from vlib import problems as P

ID = "C05"
QUICK = 6            # repetitions of the set of cases in the quick tier
RULE = ("a case is an integration (either direction, real or complex, smooth "
        "problems, random tolerances and rejections) whose dense output is "
        "compared to the accepted states at both ends of each step, and for "
        "methods that promise a C1 solution its derivative to the right hand "
        "side; non-trivial if it has 3 or more steps; distinct by parameters")
ASSUMPTIONS = ["interpolants are polynomials of degree < 14 in a step",
               "Fi5N with interpolant=1 adjusts the end position, its "
               "derivative is only compared loosely"]


def gen(tier, rng):
    for n in ALL:
        for k in range(6 if tier == "quick" else 40):
            yield dict(m=n, seed=int(rng.integers(2**31)),
                       cplx=bool(k % 3 == 2),
                       regime=["S", "th", "late", "many"][
                           int(rng.integers(4))] if k % 2 else None)


# barycentric differentiation weights on Chebyshev points in [0, 1]
_N = 16
_X = .5 - .5*np.cos(np.pi*np.arange(_N)/(_N - 1))


def _dmat():
    x = _X
    n = len(x)
    c = np.array([np.prod([x[i] - x[j] for j in range(n) if j != i])
                  for i in range(n)])
    D = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if i != j:
                D[i, j] = c[i]/c[j]/(x[i] - x[j])
        D[i, i] = -D[i].sum()
    return D


_D = _dmat()


def problem(m, rng, cplx):
    if m.kind == "ssv":
        return P.make(P.rand_first(rng, kinds=["logistic"], direction=1))
    if m.kind == "esdirk":
        return P.make(P.rand_first(rng, cplx=cplx))
    return P.make(P.rand_for(rng, m, cplx=cplx and m.kind != "nys"))


class Other:
    """the problem in other units, late, or many copies of it"""

    def __init__(self, p, m, reg, rng):
        S = th = 1.
        sh = 0.
        N = 1
        if reg == "S":
            S = 2.**int(rng.integers(-60, 60))
        elif reg == "th" and m.kind != "nys":
            th = 2.**int(rng.integers(-60, 60))
        elif reg == "late":
            sh = float(rng.choice([-1, 1]))*2.**int(rng.integers(3, 9))
        elif reg == "many":
            N = int(rng.integers(5, 25))
        self.S, self.th, self.N = S, th, N
        n = len(p.y0)
        if m.kind == "nys":
            def pack(y):
                return np.concatenate([np.tile(y[:n//2], N),
                                       np.tile(y[n//2:], N)])

            def unpack(y):
                return y.reshape(2, N, n//2).transpose(1, 0, 2).reshape(N, n)

            def repack(y):
                return y.reshape(N, 2, n//2).transpose(1, 0, 2).ravel()
        else:
            def pack(y):
                return np.tile(y, N)

            def unpack(y):
                return y.reshape(N, n)

            def repack(y):
                return y.ravel()
        self.y0 = pack(p.y0)*S
        self.t0, self.t1 = (p.t0 + sh)*th, (p.t1 + sh)*th

        def f(t, y):
            t, y = t/th - sh, np.asarray(y)/S
            if N == 1:
                return np.asarray(p.f(t, y))*(S/th)
            return repack(np.array([p.f(t, x) for x in unpack(y)]))
        self.f = f
        self.jac = None
        if p.jac is not None and N == 1:
            self.jac = lambda t, y: np.asarray(
                p.jac(t/th - sh, np.asarray(y)/S))/th


def run(case):
    res = Result()
    m = METHODS[case["m"]]
    rng = np.random.default_rng(case["seed"])
    p = problem(m, rng, case["cplx"] and m.complex_ok)
    base = p
    p = Other(p, m, case.get("regime"), rng)
    y0 = p.y0
    f = p.f
    if case["cplx"] and m.kind == "nys":
        # a complex solution of a real problem
        y0 = y0.astype(complex)

        def f(t, y, g=p.f):
            out = g(t, y)
            return np.asarray(out, complex)
    tol = float(10**rng.uniform(-8, -2))
    if m.order < 4:
        tol = max(tol, 1e-5)
    kw = dict(rtol=tol, atol=tol*p.S, **m.opts)
    if rng.integers(3) == 0 and isinstance(base, (P.Oscillator, P.Linear)):
        kw["first_step"] = abs(p.t1 - p.t0)
    if m.kind == "esdirk" and p.jac is not None:
        kw["jac"] = p.jac
    loose = m.kind in ("esdirk",)
    d = np.sign(p.t1 - p.t0)
    tag = f"{case} {kw.get('rtol')}"
    prev = [None]

    def on_step(s, tr):
        do = tr.dense[-1]
        tr_y = np.array(s.y)
        ya = tr.y[-2]
        a, b = tr.t[-2], tr.t[-1]
        sc = max(np.abs(tr_y).max(), np.abs(ya).max(), 1e-3*p.S)
        e0 = np.abs(do(a) - ya).max()/sc
        e1 = np.abs(do(b) - tr_y).max()/sc
        res.peak("end0", e0)
        res.peak("end1", e1)
        # (a polynomial for the position with the velocity as derivative)
        le = 1e-10 + 1e-14*p.th/abs(b - a)*(m.kind == "nys")
        res.check(e0 < le, "start", lambda: f"{e0} t={a} {tag}")
        res.check(e1 < le, "end", lambda: f"{e1} t={b} {tag}")
        res.count("steps")
        # derivative at both ends
        h = b - a
        Y = do(a + _X*h)
        scd = max(np.abs(Y).max(), 1e-3*p.S)
        dY = (_D @ Y.T).T
        fa, fb = np.asarray(f(a, ya)), np.asarray(f(b, tr_y))
        da = np.abs(dY[:, 0] - h*fa).max()/scd
        db = np.abs(dY[:, -1] - h*fb).max()/scd
        if abs(h) < 1e-3*max(p.th, abs(b)):
            return        # differences would be dominated by roundoff
        if m.smooth >= 1:
            bnd = 1e-8
            if m.name == "Fi5N:1" or m.kind == "esdirk":
                bnd = 100*tol
            res.peak("slope/" + ("loose" if bnd > 1e-8 else "tight"),
                     max(da, db)/bnd)
            res.check(da < bnd, "slope-start",
                      lambda: f"{da} bound {bnd} t={a} h={h} {tag}")
            res.check(db < bnd, "slope-end",
                      lambda: f"{db} bound {bnd} t={b} h={h} {tag}")
            res.count("slopes", 2)
        if m.kind == "nys":
            # velocity is the derivative of position
            n = len(ya)//2
            e = np.abs(dY[:n] - h*Y[n:]).max()/scd
            res.peak("vel", e)

    tr = drive(m.cls, f, p.t0, y0, p.t1, dense=True, on_step=on_step, **kw)
    res.check(tr.status == "finished", "status", tag)
    res.nontrivial = tr.n_steps > 2
    # OdeSolution through solve_ivp is continuous at all of its knots
    o = solve_ivp(f, (p.t0, p.t1), y0, method=m.cls, dense_output=True, **kw)
    if m.name != "Fi5N:1":
        e = np.abs(o.sol(o.t) - o.y).max()/max(p.S, np.abs(
            o.y).max())
        le = 1e-10 + 1e-14*p.th/np.abs(np.diff(o.t)).min()*(m.kind == "nys")
        res.check(e < le, "odesolution-knots", lambda: f"{e} {tag}")
        for s, k in ((0, o.t[:-1]), (1, o.t[1:])):
            eps = 1e-12*abs(p.t1 - p.t0)*(1 - 2*s)*d
            e = np.abs(o.sol(k + eps) - o.y[:, s:len(k)+s]).max() / \
                max(p.S, np.abs(o.y).max())
            res.check(e < 1e-8, "odesolution-jump", lambda: f"{e} {tag}")
    res.sample = dict(method=case["m"], steps=tr.n_steps, rtol=tol)
    return res
