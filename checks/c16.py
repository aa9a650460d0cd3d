"""C16: implicit methods are stable on stiff problems."""
import numpy as np
from scipy.sparse import csc_array
from vlib.core import Result, Budget
from vlib.methods import METHODS, ESD

ID = "C16"
QUICK = 8            # repetitions of the set of cases in the quick tier
RULE = ("kind linear: steps of prescribed size for random dissipative normal "
        "systems (decay rates and frequencies 1e-3 .. 1e9 per step, purely "
        "oscillating modes included), real and complex, the modes must not "
        "grow and very stiff modes must vanish (not HS2Ia). Kind smooth: stiff "
        "problems with smooth solution (stiffness 1 .. 1e9), the solution must "
        "be accurate and the number of steps may not depend on the stiffness; "
        "kind transient: nonlinear stiff relaxation with a fast transient. "
        "Non-trivial if 5 or more steps were taken; distinct by parameters")
ASSUMPTIONS = ["normal (well conditioned) systems",
               "bounds for accuracy and step numbers are at least 3 times the "
               "largest seen on the unmodified code"]
LSTABLE = {"HS2I", "KC3I", "KC4I", "KC4Ia", "Kv3I"}


def gen(tier, rng):
    for n in ESD:
        for k in range(18 if tier == "quick" else 900):
            yield dict(kind=["linear", "smooth", "transient"][k % 3], m=n,
                       n=int(rng.integers(1, 5)), d=int(rng.choice([-1, 1])),
                       cplx=bool(rng.integers(2)),
                       seed=int(rng.integers(2**31)))


def run(case):
    res = Result()
    rng = np.random.default_rng(case["seed"])
    {"linear": linear, "smooth": smooth, "transient": transient}[
        case["kind"]](case, rng, res)
    return res


def linear(case, rng, res):
    m = METHODS[case["m"]]
    n, d = case["n"], case["d"]
    # coupled modes exchange rounding errors, up to eps z^2
    coupled = bool(rng.integers(2))
    top = 4. if coupled else 9.
    re = -10**rng.uniform(-3, top, size=n)*(rng.integers(4, size=n) > 0)
    im = 10**rng.uniform(-3, top, size=n)*rng.choice([-1, 0, 1], size=n)
    lam = re + 1j*im
    if case["cplx"]:
        Q = np.linalg.qr(rng.normal(size=(n, n))
                         + 1j*rng.normal(size=(n, n)))[0]
        Q = Q if coupled else np.eye(n, dtype=complex)
        A = Q @ np.diag(lam) @ Q.conj().T
        y0 = Q @ rng.normal(size=n) + 0j
    else:
        N = 2*n
        A = np.zeros((N, N))
        for i, x in enumerate(lam):
            A[2*i:2*i+2, 2*i:2*i+2] = [[x.real, x.imag], [-x.imag, x.real]]
        Q = np.linalg.qr(rng.normal(size=(N, N)))[0]
        Q = Q if coupled else np.eye(N)
        A = Q @ A @ Q.T
        y0 = rng.normal(size=N)
    A = A*d
    h = float(10**rng.uniform(-2, 1))
    A /= h
    form = int(rng.integers(3))
    kw = dict(m.opts, rtol=.1, atol=1e9, first_step=h, max_step=h,
              jac=A if form else (lambda t, y: A))
    if form == 2:
        kw["jac_each_step"] = False
    if case["seed"] % 3 == 0:
        B = csc_array(A)
        kw["jac"] = B if form else (lambda t, y: B)
    s = m.cls(lambda t, y: A @ y, 0., y0, d*h*20.5, **kw)
    norms = [np.linalg.norm(y0)]
    z = np.abs(lam)
    tag = f"{case['m']} z={lam} {'complex' if case['cplx'] else 'real'}"
    Qh = Q.conj().T
    k = 0
    mod = np.abs(Qh @ y0)
    if not case["cplx"]:
        mod = np.hypot(mod[::2], mod[1::2])
    first = mod.copy()
    # rounding, of each mode
    slack = 1e-12 + 1e-14*(z.max()**2/(1 + z) if coupled else z)
    while s.status == "running" and k < 20:
        msg = s.step()
        if s.status == "failed":
            res.bad("failed", f"{tag} {msg}")
            return
        if abs(s.t - s.t_old) < .9*h:
            break
        k += 1
        new = np.abs(Qh @ s.y)
        if not case["cplx"]:
            new = np.hypot(new[::2], new[1::2])
        res.check(np.all(new <= mod + slack*norms[-1]), "growth", lambda:
                  f"{tag}, step {k}: modes {mod} -> {new}")
        norms.append(np.linalg.norm(s.y))
        # infinitely stiff modes vanish
        if case["m"].split(":")[0] in LSTABLE and k == 1:
            q = z > 1e4
            r = new/np.maximum(mod, 1e-300)
            big = q & (mod > 1e-3*norms[0])
            if big.any():
                x = (r[big]*np.sqrt(z[big])).max()
                res.peak("stiff/" + case["m"], x)
                res.check(np.all(r[big]*z[big] < 1e3 + 1e-9*z[big]),
                          "not L-stable", lambda:
                          f"{tag} factors {r} for modes {z}")
        mod = new
    # accurate modes are not damped more than the method's order allows
    slow = (z < .02)
    if slow.any() and k:
        e = first[slow]*np.exp(lam.real[slow]*k)
        r = np.abs(mod[slow] - e).max()/norms[0]
        res.peak("slow/" + case["m"], r)
        res.check(r < 1e-4 + k*slack[slow].max(), "damping", lambda: f"{tag}: slow modes {mod}, "
                  f"expected {e}")
    res.count("steps", k)
    res.nontrivial = k >= 5
    res.sample = dict(method=case["m"], z=[str(complex(x)) for x in lam])


def integrate(case, P, kw, rng, res, tag, exact, maxn):
    """(steps, worst ratio)"""
    m = METHODS[case["m"]]
    count = [0]

    def fun(t, y):
        count[0] += 1
        if count[0] > 100000:
            raise Budget("fun")
        return P["fun"](t, y)
    s = m.cls(fun, P["t0"], P["y0"], P["t1"], **kw)
    worst = steps = 0
    while s.status == "running":
        msg = s.step()
        if s.status == "failed":
            res.bad("failed", f"{tag} {msg}")
            return None
        steps += 1
        if steps > maxn:
            res.bad("steps", f"{tag}: more than {maxn} steps")
            return None
        if exact is not None:
            ex = exact(s.t)
            w = np.max(kw["atol"]) + kw["rtol"]*np.abs(ex).max()
            worst = max(worst, np.abs(s.y - ex).max()/w/(steps + 4))
    return steps, worst


def smooth(case, rng, res):
    m = METHODS[case["m"]]
    n, d = case["n"], case["d"]
    c = (1 + .4j) if case["cplx"] else 1.
    w, p = rng.uniform(.5, 2), rng.uniform(0, 6)
    off = np.arange(n)
    base = rng.uniform(0, 1, size=n)
    nonlin = bool(rng.integers(2)) and not case["cplx"]
    C = .3*rng.normal(size=(n, n))
    lo = {2: -4.5, 3: -5.5}.get(m.order, -6.5)
    tol = float(10**rng.uniform(lo, -3))
    t0 = float(np.round(rng.uniform(-2, 2), 2))

    def phi(t):
        return c*np.cos(w*t + p + off)

    def dphi(t):
        return -w*c*np.sin(w*t + p + off)
    jf = int(rng.integers(3))
    out = []
    for e in (0., float(rng.uniform(1, 4)), float(rng.uniform(4, 9))):
        lam = 10**(base + e*rng.uniform(.5, 1, size=n))

        def fun(t, y):
            x = y - phi(t)
            return dphi(t) - d*lam*(x + (.2*x**3 if nonlin else 0.)) \
                + d*(C @ x)

        def jac(t, y):
            x = y - phi(t)
            return -d*np.diag(lam*(1 + (.6*x**2 if nonlin else 0.))) + d*C
        kw = dict(m.opts, rtol=tol, atol=tol)
        if jf:
            kw["jac"] = jac
        if jf == 2 and not nonlin:
            kw["jac"] = jac(0., phi(0.))
        if jf and case["seed"] % 3 == 0:
            # sparse
            j0 = kw["jac"]
            kw["jac"] = (lambda t, y, j0=j0: csc_array(j0(t, y))) \
                if callable(j0) else csc_array(j0)
        P = dict(fun=fun, y0=phi(t0), t0=t0, t1=t0 + 4*d)
        tag = f"{case['m']} stiffness {lam.max():.2g} tol={tol:.2g} " \
            f"{'non' if nonlin else ''}linear jac {jf}"
        r = integrate(case, P, kw, rng, res, tag, phi, 5000)
        if r is None:
            return
        steps, worst = r
        res.count("steps", steps)
        res.peak("error/" + case["m"], worst)
        res.check(worst < 12., "accuracy", lambda:
                  f"{tag} error/bound {worst/12:.3g}, {steps} steps")
        out.append(steps)
    for x in out[1:]:
        r = (x + 10)/(out[0] + 10)
        res.peak("steps/" + case["m"], r)
        res.check(r < 6, "steps", lambda: f"{tag}: {out} steps with "
                  "increasing stiffness")
    res.nontrivial = min(out) >= 5
    res.sample = dict(method=case["m"], steps=out)


def transient(case, rng, res):
    """stiff van der Pol: after the transient on the slow manifold"""
    m = METHODS[case["m"]]
    d = case["d"]
    eps = float(10**rng.uniform(-7, -2))
    lo = {2: -4., 3: -5.}.get(m.order, -6.)
    tol = float(10**rng.uniform(lo, -2.5))
    # y' = z, eps z' = (1 - y^2) z - y, from z0 off the manifold
    y0 = float(rng.uniform(1.8, 2.5))*int(rng.choice([-1, 1]))
    z0 = float(rng.uniform(-2, 2))

    def fun(t, u):
        y, z = u
        return d*np.array([z, ((1 - y*y)*z - y)/eps])

    def jac(t, u):
        y, z = u
        return d*np.array([[0., 1.], [(-2*y*z - 1)/eps, (1 - y*y)/eps]])
    kw = dict(m.opts, rtol=tol, atol=tol)
    if rng.integers(2):
        kw["jac"] = jac
        if rng.integers(3) == 0:
            kw["jac"] = lambda t, u: csc_array(jac(t, u))
    P = dict(fun=fun, y0=np.array([y0, z0]), t0=0., t1=d*.25)
    tag = f"{case['m']} vdp eps={eps:.2g} tol={tol:.2g} z0={z0:.3g}"
    r = integrate(case, P, kw, rng, res, tag, None, 3000)
    if r is None:
        return
    steps = r[0]
    res.count("steps", steps)
    res.peak("transient/" + case["m"], steps)
    s = m.cls(fun, 0., P["y0"], P["t1"], **kw)
    while s.status == "running":
        s.step()
    y, z = s.y
    # slow manifold z = -y/(y^2 - 1) + O(eps)
    z1 = -y/(y*y - 1)
    e = abs(z - z1)/(10*eps + 200*tol*(1 + abs(z1)))
    res.peak("manifold/" + case["m"], e)
    res.check(e < .5, "manifold", lambda: f"{tag}: {y, z}, manifold {z1}")
    res.nontrivial = steps >= 5
    res.sample = dict(method=case["m"], eps=eps, steps=steps)
