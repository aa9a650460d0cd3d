"""Parametrized problems for sensitivity analysis, with references."""
import numpy as np
from scipy.integrate import solve_ivp


class Problem:
    """dy/dt = d*(-D y + tanh(U y + V p + w t) + p[0] B y + C p)

    The parameter enters nonlinearly, by a coefficient and additively;
    derivatives are analytic.
    """

    def __init__(self, rng, n, npar, d=1, stiff=False):
        self.n, self.np, self.d = n, npar, d
        self.D = rng.uniform(.3, 1.5, size=n)
        if stiff:
            self.D[0] = 10**rng.uniform(1, 2)
        self.U = .7*rng.normal(size=(n, n))/n**.5
        self.V = rng.normal(size=(n, npar))/max(1, npar/3)**.5
        self.B = .3*rng.normal(size=(n, n))/n**.5
        self.C = rng.normal(size=(n, npar))/max(1, npar/3)**.5
        self.w = rng.uniform(.5, 2.)
        self.t00 = 0.
        # the scalar function
        self.a = rng.normal(size=n)
        self.b = rng.normal(size=npar)
        self.Q = rng.normal(size=(n, n))
        self.calls = dict(fun=0, jac=0, dfdp=0, g=0, dgdp=0, dgdy=0)
        self.tmin, self.tmax = np.inf, -np.inf
        self.args_ok = True
        self.p_seen = None

    def _see(self, what, t, y, p):
        self.calls[what] += 1
        self.tmin, self.tmax = min(self.tmin, t), max(self.tmax, t)
        p = np.array(p, dtype=float)
        if self.p_seen is None:
            self.p_seen = p
        self.args_ok &= (p.shape == (self.np,) and np.shape(y) == (self.n,)
                         and bool(np.all(p == self.p_seen)))
        return p

    def _th(self, t, y, p):
        return np.tanh(self.U @ y + self.V @ p
                       + self.w*(t - self.t00))

    def fun(self, t, y, *p):
        p = self._see("fun", t, y, p)
        return self.d*(-self.D*y + self._th(t, y, p) + p[0]*(self.B @ y)
                       + self.C @ p)

    def jac(self, t, y, *p):
        p = self._see("jac", t, y, p)
        s = 1 - self._th(t, y, p)**2
        return self.d*(-np.diag(self.D) + s[:, None]*self.U + p[0]*self.B)

    def dfdp(self, t, y, *p):
        p = self._see("dfdp", t, y, p)
        s = 1 - self._th(t, y, p)**2
        out = s[:, None]*self.V + self.C
        out[:, 0] += self.B @ y
        return self.d*out

    # g = a.sin(y + t) + y.Q.y + (b.p)^2 y[0]
    def g(self, t, y, *p):
        p = self._see("g", t, y, p)
        return np.array([self.a @ np.sin(y + t) + y @ self.Q @ y
                         + (self.b @ p)**2*y[0]])

    def dgdy(self, t, y, *p):
        p = self._see("dgdy", t, y, p)
        out = self.a*np.cos(y + t) + (self.Q + self.Q.T) @ y
        out[0] += (self.b @ p)**2
        return out

    def dgdp(self, t, y, *p):
        p = self._see("dgdp", t, y, p)
        return 2*(self.b @ p)*self.b*y[0]

    def reference(self, t0, t1, y0, dy0dp, p, t_eval=None):
        """y, S = dy/dp, G = int g, dG/dp; by the variational equations"""
        n, m = self.n, self.np
        calls, ts = dict(self.calls), (self.tmin, self.tmax)

        def F(t, z):
            y, S = z[:n], z[n:n+n*m].reshape(n, m)
            J, P = self.jac(t, y, *p), self.dfdp(t, y, *p)
            return np.concatenate([
                self.fun(t, y, *p), (J @ S + P).ravel(), self.g(t, y, *p),
                self.dgdy(t, y, *p) @ S + self.dgdp(t, y, *p)])
        z0 = np.concatenate([y0, np.asarray(dy0dp).ravel(), np.zeros(1 + m)])
        sol = solve_ivp(F, (t0, t1), z0, method="DOP853", rtol=1e-12,
                        atol=1e-13, dense_output=True)
        assert sol.success
        self.calls, (self.tmin, self.tmax) = calls, ts

        def split(z):
            return (z[:n], z[n:n+n*m].reshape(n, m), z[n+n*m], z[n+n*m+1:])
        self.size = float(np.max(np.abs(sol.y)))
        self.at = lambda t: split(sol.sol(t))
        return split(sol.y[:, -1])


def spy(cls):
    """(subclass that records the keyword arguments it gets, record)"""
    rec = []

    class Spy(cls):
        def __init__(self, fun, t0, y0, t_bound, **kw):
            rec.append(dict(kw, t0=t0, t_bound=t_bound, n=len(y0)))
            super().__init__(fun, t0, y0, t_bound, **kw)
    Spy.__name__ = cls.__name__
    return Spy, rec
