"""Families of initial value problems with a known flow.

make(spec) builds a problem from a JSON-able spec (dict with 'kind' and
parameters).  A problem has
    f(t, y)       right hand side (float or complex)
    jac(t, y)     Jacobian, or None
    flow(t0, y0, t1) -> y1    exact solution operator (or a reference one)
    t0, t1, y0, exact(t)
    second: True if y = [x, v] and f = [v, a]
    strict: True if a doesn't depend on v
"""
import numpy as np
from scipy.linalg import expm
from scipy.integrate import solve_ivp


class Problem:
    second = False
    strict = False
    jac = None
    reference = False     # flow is itself numerical

    def exact(self, t):
        t = np.atleast_1d(t)
        return np.array([self.flow(self.t0, self.y0, s) for s in t]).T

    def f_list(self, t, y):
        return list(self.f(t, y))


def num_flow(f, t0, y0, t1, rtol=1e-13, atol=1e-14):
    if t1 == t0:
        return np.array(y0)
    s = solve_ivp(f, (t0, t1), y0, method="DOP853", rtol=rtol, atol=atol)
    assert s.success
    return s.y[:, -1]


class Oscillator(Problem):
    """x'' = -K x - D v + F cos(w t + p), exact through an augmented expm"""
    second = True

    def __init__(self, s):
        self.K = np.asarray(s["K"], float)
        n = len(self.K)
        self.D = np.asarray(s.get("D", np.zeros((n, n))), float)
        self.F = np.asarray(s.get("F", np.zeros(n)), float)
        self.w, self.p = s.get("w", 1.), s.get("p", 0.)
        self.strict = not self.D.any()
        Z, I = np.zeros((n, n)), np.eye(n)
        self.A = np.block([[Z, I], [-self.K, -self.D]])
        B = np.zeros((2*n, 2))
        B[n:, 0] = self.F
        W = np.array([[0., -self.w], [self.w, 0.]])
        # z = (cos, sin)
        self.G = np.block([[self.A, B], [np.zeros((2, 2*n)), W]])
        self.n = n
        self.t0, self.t1 = s["t0"], s["t1"]
        self.y0 = np.asarray(s["y0"], float)

    def f(self, t, y):
        n = self.n
        x, v = y[:n], y[n:]
        a = -self.K @ x - self.F*0 + self.F*np.cos(self.w*t + self.p)
        if not self.strict:
            a = a - self.D @ v
        return np.concatenate([v, a])

    def jac(self, t, y):
        return self.A

    def flow(self, t0, y0, t1):
        z = np.array([np.cos(self.w*t0 + self.p), np.sin(self.w*t0 + self.p)])
        return (expm(self.G*(t1 - t0)) @ np.concatenate([y0, z]))[:2*self.n]


class Kepler(Problem):
    second = strict = True
    reference = True

    def __init__(self, s):
        e = s["e"]
        th = s.get("th", 0.)
        R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
        x = R @ [1 - e, 0.]
        v = R @ [0., np.sqrt((1 + e)/(1 - e))]
        self.y0 = np.concatenate([x, v])
        self.t0, self.t1 = s["t0"], s["t1"]
        self.e, self.R = e, R

    def f(self, t, y):
        r3 = np.sqrt(y[0]**2 + y[1]**2)**3
        return np.array([y[2], y[3], -y[0]/r3, -y[1]/r3])

    def jac(self, t, y):
        x, z = y[0], y[1]
        r = np.sqrt(x*x + z*z)
        J = np.zeros((4, 4))
        J[0, 2] = J[1, 3] = 1.
        J[2, 0] = -1/r**3 + 3*x*x/r**5
        J[2, 1] = J[3, 0] = 3*x*z/r**5
        J[3, 1] = -1/r**3 + 3*z*z/r**5
        return J

    def exact(self, t):
        e = self.e
        out = []
        for s in np.atleast_1d(t):
            M = s - self.t0
            E = M
            for _ in range(50):
                dE = (E - e*np.sin(E) - M)/(1 - e*np.cos(E))
                E -= dE
                if abs(dE) < 1e-15*max(1, abs(E)):
                    break
            b = np.sqrt(1 - e*e)
            d = 1 - e*np.cos(E)
            x = self.R @ [np.cos(E) - e, b*np.sin(E)]
            v = self.R @ [-np.sin(E)/d, b*np.cos(E)/d]
            out.append(np.concatenate([x, v]))
        return np.array(out).T

    def flow(self, t0, y0, t1):
        return num_flow(self.f, t0, y0, t1)


class Pole2(Problem):
    """x'' = 2 x^3, x = 1/(c - t) if v = x^2"""
    second = strict = True
    reference = True

    def __init__(self, s):
        c = s["c"]
        self.c = c
        self.t0, self.t1 = s["t0"], s["t1"]
        x = 1/(c - self.t0)
        self.y0 = np.array([x, x*x])

    def f(self, t, y):
        return np.array([y[1], 2*y[0]**3])

    def jac(self, t, y):
        return np.array([[0., 1.], [6*y[0]**2, 0.]])

    def exact(self, t):
        x = 1/(self.c - np.atleast_1d(t))
        return np.array([x, x*x])

    def flow(self, t0, y0, t1):
        return num_flow(self.f, t0, y0, t1)


class Gauss2(Problem):
    """x'' = (4 t^2 - 2) x (strict) or -2 t v - 2 x; x = a exp(-t^2)"""
    second = True

    def __init__(self, s):
        self.strict = s["strict"]
        self.a = s.get("a", 1.)
        self.t0, self.t1 = s["t0"], s["t1"]
        self.y0 = self.exact(self.t0)[:, 0]
        self.reference = True

    def f(self, t, y):
        if self.strict:
            return np.array([y[1], (4*t*t - 2)*y[0]])
        return np.array([y[1], -2*t*y[1] - 2*y[0]])

    def jac(self, t, y):
        if self.strict:
            return np.array([[0, 1.], [4*t*t - 2, 0]])
        return np.array([[0, 1.], [-2, -2*t]])

    def exact(self, t):
        t = np.atleast_1d(t)
        x = self.a*np.exp(-t*t)
        return np.array([x, -2*t*x])

    def flow(self, t0, y0, t1):
        return num_flow(self.f, t0, y0, t1)


class Tan2(Problem):
    """x'' = 2 x v, x = tan(t + c) (velocity dependent, nonlinear)"""
    second = True
    reference = True

    def __init__(self, s):
        self.c = s["c"]
        self.t0, self.t1 = s["t0"], s["t1"]
        self.y0 = self.exact(self.t0)[:, 0]

    def f(self, t, y):
        return np.array([y[1], 2*y[0]*y[1]])

    def jac(self, t, y):
        return np.array([[0, 1.], [2*y[1], 2*y[0]]])

    def exact(self, t):
        x = np.tan(np.atleast_1d(t) + self.c)
        return np.array([x, 1 + x*x])

    def flow(self, t0, y0, t1):
        return num_flow(self.f, t0, y0, t1)


class Linear(Problem):
    """y' = A y + b cos(w t); A real or complex"""

    def __init__(self, s):
        A = np.asarray(s["A"], float)
        if "Ai" in s:
            A = A + 1j*np.asarray(s["Ai"], float)
        self.A = A
        n = len(A)
        self.n = n
        y0 = np.asarray(s["y0"], float)
        if "y0i" in s:
            y0 = y0 + 1j*np.asarray(s["y0i"], float)
        self.y0 = y0
        self.b = np.asarray(s.get("b", np.zeros(n)), float)
        self.w = s.get("w", 1.)
        self.t0, self.t1 = s["t0"], s["t1"]
        W = np.array([[0., -self.w], [self.w, 0.]])
        B = np.zeros((n, 2))
        B[:, 0] = self.b
        self.G = np.block([[A, B], [np.zeros((2, n)), W]])

    def f(self, t, y):
        return self.A @ y + self.b*np.cos(self.w*t)

    def jac(self, t, y):
        return self.A

    def flow(self, t0, y0, t1):
        z = np.array([np.cos(self.w*t0), np.sin(self.w*t0)])
        return (expm(self.G*(t1 - t0)) @ np.concatenate([y0, z]))[:self.n]


class Logistic(Problem):
    """y_i' = r_i y_i (1 - y_i), vector of independent logistic equations"""

    def __init__(self, s):
        self.r = np.asarray(s["r"], float)
        self.t0, self.t1 = s["t0"], s["t1"]
        self.y0 = np.asarray(s["y0"], float)

    def f(self, t, y):
        return self.r*y*(1 - y)

    def jac(self, t, y):
        return np.diag(self.r*(1 - 2*y))

    def flow(self, t0, y0, t1):
        E = np.exp(self.r*(t1 - t0))
        return y0*E/(1 - y0 + y0*E)


class Riccati(Problem):
    """y' = -2 a t y^2, z' = -z + y  (z by quadrature reference)"""

    def __init__(self, s):
        self.a = s["a"]
        self.t0, self.t1 = s["t0"], s["t1"]
        self.y0 = np.asarray(s["y0"], float)

    def f(self, t, y):
        return -2*self.a*t*y**2

    def jac(self, t, y):
        return np.diag(-4*self.a*t*y)

    def flow(self, t0, y0, t1):
        return y0/(1 + self.a*y0*(t1**2 - t0**2))


class Euler3(Problem):
    """rigid body, nonlinear and non separable; numerical reference"""
    reference = True

    def __init__(self, s):
        self.c = np.asarray(s["c"], float)
        self.t0, self.t1 = s["t0"], s["t1"]
        self.y0 = np.asarray(s["y0"], float)

    def f(self, t, y):
        c = self.c
        return np.array([c[0]*y[1]*y[2], c[1]*y[2]*y[0], c[2]*y[0]*y[1]])

    def jac(self, t, y):
        c = self.c
        return np.array([[0, c[0]*y[2], c[0]*y[1]],
                         [c[1]*y[2], 0, c[1]*y[0]],
                         [c[2]*y[1], c[2]*y[0], 0]])

    def flow(self, t0, y0, t1):
        return num_flow(self.f, t0, y0, t1)


class VdP(Problem):
    """van der Pol, x'' = mu (1 - x^2) v - x + F cos t; numerical reference"""
    second = True
    reference = True

    def __init__(self, s):
        self.mu, self.F = s["mu"], s.get("F", 0.)
        self.t0, self.t1 = s["t0"], s["t1"]
        self.y0 = np.asarray(s["y0"], float)

    def f(self, t, y):
        return np.array([y[1], self.mu*(1 - y[0]**2)*y[1] - y[0]
                         + self.F*np.cos(t)])

    def jac(self, t, y):
        return np.array([[0., 1.], [-2*self.mu*y[0]*y[1] - 1,
                                    self.mu*(1 - y[0]**2)]])

    def flow(self, t0, y0, t1):
        return num_flow(self.f, t0, y0, t1)


KINDS = dict(osc=Oscillator, kepler=Kepler, pole2=Pole2, gauss2=Gauss2,
             tan2=Tan2, linear=Linear, logistic=Logistic, riccati=Riccati,
             euler3=Euler3, vdp=VdP)


def make(spec):
    return KINDS[spec["kind"]](spec)


def rand_spd(rng, n, lo=0.5, hi=3.):
    Q = np.linalg.qr(rng.normal(size=(n, n)))[0]
    return Q @ np.diag(rng.uniform(lo, hi, n)) @ Q.T


def rand_second(rng, strict=None, t0=None, direction=None, length=None,
                kinds=None):
    """random problem with y = [x, v]"""
    strict = bool(rng.integers(2)) if strict is None else strict
    kinds = kinds or (["osc", "kepler", "pole2", "gauss2"] if strict else
                      ["osc", "tan2", "gauss2", "vdp"])
    kind = kinds[rng.integers(len(kinds))]
    d = int(rng.choice([-1, 1])) if direction is None else direction
    t0 = float(np.round(rng.uniform(-5, 5), 3)) if t0 is None else t0
    L = float(rng.uniform(1.5, 5)) if length is None else length
    s = dict(kind=kind)
    if kind == "osc":
        n = int(rng.integers(1, 4))
        s.update(K=rand_spd(rng, n).tolist(), F=rng.normal(size=n).tolist(),
                 w=float(rng.uniform(.5, 2)), p=float(rng.uniform(0, 6)),
                 y0=rng.normal(size=2*n).tolist())
        if not strict:
            s["D"] = rand_spd(rng, n, .05, .5).tolist()
            if rng.integers(3) == 0:
                s["D"] = rng.normal(size=(n, n), scale=.3).tolist()
    elif kind == "kepler":
        s.update(e=float(rng.uniform(0, .6)), th=float(rng.uniform(0, 6)))
    elif kind == "pole2":
        # x = 1/(c - t), keep away from the pole
        L = min(L, 3.)
        c = t0 + d*(L + float(rng.uniform(.5, 1.5)))
        s.update(c=c)
    elif kind == "gauss2":
        t0 = float(np.round(rng.uniform(-1.5, 0), 3))*d
        L = min(L, 2.)
        s.update(a=float(rng.uniform(.5, 2)), strict=strict)
    elif kind == "tan2":
        L = min(L, 2.)
        a = float(rng.uniform(-1.2, -.8))*d      # start angle
        s.update(c=a - t0)
    elif kind == "vdp":
        s.update(mu=float(rng.uniform(.2, 1.))*d, F=float(rng.uniform(0, 1)),
                 y0=rng.uniform(.5, 2, size=2).tolist())
    s.update(t0=t0, t1=t0 + d*L)
    return s


def rand_first(rng, t0=None, direction=None, length=None, kinds=None,
               cplx=False):
    kinds = kinds or (["linear"] if cplx else
                      ["linear", "logistic", "riccati", "euler3"])
    kind = kinds[rng.integers(len(kinds))]
    d = int(rng.choice([-1, 1])) if direction is None else direction
    t0 = float(np.round(rng.uniform(-5, 5), 3)) if t0 is None else t0
    L = float(rng.uniform(1.5, 5)) if length is None else length
    s = dict(kind=kind)
    if kind == "linear":
        n = int(rng.integers(1, 5))
        A = rng.normal(size=(n, n))
        A = (A - A.T)*.7 - d*rand_spd(rng, n, .0, .5) if n > 1 else \
            -d*np.abs(A)*.5
        s.update(A=A.tolist(), b=rng.normal(size=n).tolist(),
                 w=float(rng.uniform(.5, 2)), y0=rng.normal(size=n).tolist())
        if cplx:
            B = rng.normal(size=(n, n))
            s.update(Ai=(B + B.T).tolist(), y0i=rng.normal(size=n).tolist())
    elif kind == "logistic":
        n = int(rng.integers(1, 4))
        s.update(r=(d*rng.uniform(.5, 2, n)).tolist(),
                 y0=rng.uniform(.05, .5, n).tolist())
    elif kind == "riccati":
        # 1 + a y0 (t^2 - t0^2) > 0 along the path: start at t0 = 0 or move
        # outward
        t0 = float(np.round(rng.uniform(0, 1), 3))*d
        n = int(rng.integers(1, 4))
        s.update(a=float(rng.uniform(.3, 1.)),
                 y0=rng.uniform(.3, 2, n).tolist())
    elif kind == "euler3":
        s.update(c=[1., -1.25, .5], y0=rng.uniform(.3, 1, 3).tolist())
    s.update(t0=t0, t1=t0 + d*L)
    return s


def rand_for(rng, meth, cplx=False, **kw):
    """random problem that suits a method (entry of METHODS)"""
    if meth.kind == "nys":
        kw.pop("cplx", None)
        return rand_second(rng, strict=True if meth.nys_strict else None, **kw)
    if cplx or rng.integers(3):
        return rand_first(rng, cplx=cplx, **kw)
    return rand_second(rng, **kw)
