"""C10: results don't depend on the representation of the problem."""
import numpy as np
from vlib.core import Result
from vlib import work as W
from vlib.methods import METHODS, ALL

ID = "C10"
QUICK = 6            # repetitions of the set of cases in the quick tier
RULE = ("a case integrates a problem and an equivalent one (mirrored or "
        "shifted or scaled time, permuted, duplicated or scaled components, "
        "complex instead of real, a pair of reals instead of complex, "
        "vectorized, list instead of array, fewer features of input types) "
        "and compares step sequence, states and dense output after mapping; "
        "non-trivial if 8 or more steps were compared; distinct by "
        "parameters")
ASSUMPTIONS = ["the two may differ by rounding: relative 5e-3 in the steps "
               "(10% for SSV2stab) "
               "and 0.05 tolerance units in the states"]
KINDS = ["mirror", "permute", "duplicate", "scale", "shift", "timescale",
         "complex", "pair", "vectorized", "types", "phase", "rotate",
         "augment", "many"]


def gen(tier, rng):
    for name in ALL:
        for k, kind in enumerate(KINDS):
            for _ in range(1 if tier == "quick" else 60):
                m = METHODS[name]
                if kind in ("complex", "pair", "phase") and not m.complex_ok:
                    continue
                j = W.job(rng, name, cplx=False if kind == "complex" else
                          kind in ("pair", "phase") or None,
                          n=int(rng.integers(2, 4)) if kind in
                          ("permute", "rotate") else None)
                # few Newton iterations at the edge of convergence
                j["rtol"] = max(j["rtol"], 1e-6)
                j["atol"] = j["rtol"]
                j["opts"].pop("const_jac", None)
                if kind not in ("mirror", "permute", "complex", "vectorized",
                                "types") or "first_step" in j["opts"]:
                    # (the choice of the first step has no such symmetry, and
                    # the size of the second step is uncertain if the error
                    # in the first is mere rounding)
                    j["opts"]["first_step"] = float(rng.uniform(.5, 1.5))
                if "jac" in j and j["jac"] == "none":
                    j["jac"] = "fun"
                yield dict(kind=kind, job=j, seed=int(rng.integers(2**31)))


def build(j, T):
    """solver of the transformed problem"""
    f, jac, y0 = W.field(j)
    kw = W.kwargs(j, jac)
    kw.update(rtol=j["rtol"], atol=j["atol"])
    t0, t1 = j["t0"], j["t1"]
    f, jac, y0, t0, t1 = T(f, jac, y0, t0, t1, kw)
    if "jac" in kw:
        kw["jac"] = jac
    return METHODS[j["m"]].cls(f, t0, y0, t1, **kw)


def transform(kind, j, rng):
    """(T, back): T maps a problem; back maps (t, y) to the original"""
    m = METHODS[j["m"]]
    nys = m.kind == "nys"

    def ident(t, y):
        return t, y
    if kind == "mirror":
        def T(f, jac, y0, t0, t1, kw):
            if nys:
                n = len(y0)//2
                s = np.r_[np.ones(n), -np.ones(n)]

                def g(t, y):
                    o = f(-t, y*s)
                    return np.concatenate([y[n:], o[n:]])
                return g, None, y0*s, -t0, -t1
            if "rho_jac" in kw:
                r = kw["rho_jac"]
                kw["rho_jac"] = lambda t, y: r(-t, y)
            return (lambda t, y: -f(-t, y)), (
                jac and (lambda t, y: -jac(-t, y))), y0, -t0, -t1

        def back(t, y):
            if nys:
                n = len(y)//2
                y = np.concatenate([y[:n], -y[n:]])
            return -t, y
        return T, back
    if kind == "permute":
        n = j["n"]
        p = rng.permutation(n)
        P = np.r_[p, n + p] if nys else p
        Q = np.argsort(P)

        def T(f, jac, y0, t0, t1, kw):
            return (lambda t, y: f(t, y[Q])[P]), (
                jac and (lambda t, y: jac(t, y[Q])[P][:, P])), y0[P], t0, t1
        return T, lambda t, y: (t, y[Q])
    if kind in ("duplicate", "many"):
        n = j["n"]
        # (far more components)
        q = 2 if kind == "duplicate" else int(rng.integers(5, 40))

        def dup(y):
            if nys:
                return np.concatenate([np.tile(y[:n], q), np.tile(y[n:], q)])
            return np.tile(y, q)

        def red(y):
            if nys:
                return np.concatenate([y[:n], y[q*n:q*n+n]])
            return y[:n]

        def T(f, jac, y0, t0, t1, kw):
            def jj(t, y):
                return np.kron(np.eye(q), jac(t, red(y)))
            return (lambda t, y: dup(f(t, red(y)))), jac and jj, dup(y0), \
                t0, t1
        return T, lambda t, y: (t, red(y))
    if kind == "augment":
        # idle components at random positions
        n, q = j["n"], int(rng.integers(1, 5))
        p = np.sort(rng.permutation(n + q)[:n])
        if nys:
            p = np.r_[p, n + q + p]

        def ext(y):
            o = np.zeros((n + q)*(2 if nys else 1), np.result_type(y))
            o[p] = y
            return o

        def T(f, jac, y0, t0, t1, kw):
            r = (n/(n + q))**.5
            kw["atol"], kw["rtol"] = kw["atol"]*r, kw["rtol"]*r

            def jj(t, y):
                J = np.zeros((n + q, n + q), np.result_type(y))
                J[np.ix_(p, p)] = jac(t, y[p])
                return J
            return (lambda t, y: ext(f(t, y[p]))), jac and jj, ext(y0), t0, t1
        return T, lambda t, y: (t, y[p])
    if kind in ("rotate", "phase"):
        n = j["n"]
        if kind == "phase":
            Q = np.exp(1j*rng.uniform(0, 2*np.pi))*np.eye(n)
        else:
            Q = np.linalg.qr(rng.normal(size=(n, n)))[0]
        if nys:
            Q = np.kron(np.eye(2), Q)
        Qi = Q.conj().T

        def T(f, jac, y0, t0, t1, kw):
            if nys:
                return (lambda t, y: np.concatenate([
                    y[n:], (Q @ f(t, Qi @ y))[n:]])), None, Q @ y0, t0, t1
            return (lambda t, y: Q @ f(t, Qi @ y)), (
                jac and (lambda t, y: Q @ jac(t, Qi @ y) @ Qi)), \
                Q @ y0, t0, t1
        return T, lambda t, y: (t, Qi @ y)
    if kind == "scale":
        s = 2.**int(rng.integers(-12, 12) if rng.integers(2) else
                    rng.integers(-60, 60))*int(rng.choice([-1, 1]))

        def T(f, jac, y0, t0, t1, kw):
            kw["atol"] = kw["atol"]*abs(s)
            return (lambda t, y: s*f(t, y/s)), (
                jac and (lambda t, y: jac(t, y/s))), s*y0, t0, t1
        return T, lambda t, y: (t, y/s)
    if kind == "shift":
        s = float(rng.integers(-8, 8))
        if rng.integers(2):
            s = 2.**int(rng.integers(0, 17))*int(rng.choice([-1, 1]))

        def T(f, jac, y0, t0, t1, kw):
            if "rho_jac" in kw:
                r = kw["rho_jac"]
                kw["rho_jac"] = lambda t, y: r(t - s, y)
            return (lambda t, y: f(t - s, y)), (
                jac and (lambda t, y: jac(t - s, y))), y0, t0 + s, t1 + s
        return T, lambda t, y: (t - s, y)
    if kind == "timescale":
        s = 2.**int(rng.integers(-4, 5) if rng.integers(2) else
                    rng.integers(-45, 45))

        def T(f, jac, y0, t0, t1, kw):
            for k in ("first_step", "max_step"):
                if k in kw:
                    kw[k] = kw[k]*s
            if "rho_jac" in kw:
                r = kw["rho_jac"]
                kw["rho_jac"] = lambda t, y: r(t/s, y)/s
            if nys:
                n = len(y0)//2
                q = np.r_[np.ones(n), np.full(n, 1/s)]
                kw["atol"] = kw["atol"]*q

                def g(t, y):
                    o = f(t/s, y/q)
                    return np.concatenate([y[n:], o[n:]/s**2])
                return g, None, y0*q, t0*s, t1*s
            return (lambda t, y: f(t/s, y)/s), (
                jac and (lambda t, y: jac(t/s, y)/s)), y0, t0*s, t1*s

        def back(t, y):
            if nys:
                n = len(y)//2
                y = np.concatenate([y[:n], y[n:]*s])
            return t/s, y
        return T, back
    if kind == "complex":
        def T(f, jac, y0, t0, t1, kw):
            return (lambda t, y: f(t, y.real) + 0j), (
                jac and (lambda t, y: jac(t, y.real) + 0j)), y0 + 0j, t0, t1
        return T, lambda t, y: (t, y.real)
    if kind == "pair":
        n = j["n"]

        def to(y):
            if nys:
                return np.concatenate([y[:n].real, y[:n].imag,
                                       y[n:].real, y[n:].imag])
            return np.concatenate([y.real, y.imag])

        def fro(y):
            if nys:
                x, v = y[:2*n], y[2*n:]
                return np.concatenate([x[:n] + 1j*x[n:], v[:n] + 1j*v[n:]])
            return y[:n] + 1j*y[n:]

        def T(f, jac, y0, t0, t1, kw):
            kw["atol"] = kw["atol"]/2**.5

            def jj(t, y):
                J = jac(t, fro(y))
                return np.block([[J.real, -J.imag], [J.imag, J.real]])
            return (lambda t, y: to(f(t, fro(y)))), jac and jj, to(y0), t0, t1
        return T, lambda t, y: (t, fro(y))
    if kind == "vectorized":
        def T(f, jac, y0, t0, t1, kw):
            kw["vectorized"] = True

            def g(t, y):
                if np.ndim(y) == 1:
                    return f(t, y)
                return np.array([f(t, c) for c in y.T]).T
            return g, jac, y0, t0, t1
        return T, ident

    def T(f, jac, y0, t0, t1, kw):
        kw["atol"] = [kw["atol"]]*len(y0)
        if rng.integers(2):
            kw["atol"] = np.array(kw["atol"])
        return (lambda t, y: list(f(t, y))), (
            jac and (lambda t, y: jac(t, y).tolist())), list(y0), t0, \
            np.float64(t1)
    return T, ident


def identity(f, jac, y0, t0, t1, kw):
    return f, jac, y0, t0, t1


def run(case):
    # A decision at a threshold (a rejection, an iteration) may depend on
    # rounding. This is rare, the same problem with a slightly different
    # tolerance doesn't have it.
    for k in range(3):
        j = dict(case["job"])
        j["rtol"] *= 1 + k*1e-3
        res = compare(dict(case, job=j))
        if not res.viol:
            break
        res.count("retries")
    return res


def compare(case):
    res = Result()
    j, kind = case["job"], case["kind"]
    rng = np.random.default_rng(case["seed"])
    m = METHODS[j["m"]]
    T, back = transform(kind, j, rng)
    pre = identity
    if kind in ("pair", "rotate"):
        # tolerance per component must not depend on |y|
        j = dict(j, rtol=0.)
    if kind == "types" and "jac" in j and j["jac"] == "sparse":
        j = dict(j, jac="fun")
    if "max_step" in j["opts"] and kind == "shift":
        pass
    tol = j["atol"] + j["rtol"]
    a, b = build(j, pre), build(j, T)
    k = 0
    fun = W.field(j)[0]
    worst = 0.
    worst_h = 0.
    dense = W.dense_ok(j)
    while k < 60:
        ta, tb = a.t, b.t
        a.step()
        b.step()
        k += 1
        if not res.check(a.status == b.status, "status",
                         f"{j['m']} {kind}: status {a.status}, {b.status} "
                         f"at step {k} {case}"):
            break
        if a.status == "failed":
            break
        t, y = back(b.t, b.y)
        h = abs(a.t - ta)
        eh = abs(t - a.t)/h
        # (without the effect of the difference in t)
        y = y - fun(a.t, a.y)*(t - a.t)
        ey = np.max(np.abs(y - a.y)/(j["atol"] + j["rtol"]*np.abs(a.y)))
        worst, worst_h = max(worst, ey), max(worst_h, eh)
        # (the estimate of the spectral radius amplifies rounding)
        lim = .1 if m.kind == "ssv" else 5e-3
        if not res.check(eh < lim and ey < .05, kind,
                         f"{j['m']} {kind}: step {k} (h={h}) differs: "
                         f"relative {eh} of a step, {ey} tolerance units "
                         f"{case}"):
            break
        if dense and k % 3 == 0:
            th = np.array([.25, .5, .9])
            A = a.dense_output()(ta + th*(a.t - ta))
            B = b.dense_output()(tb + th*(b.t - tb))
            D = []
            for x, c, e in zip(th, B.T, A.T):
                s, c = back(tb + x*(b.t - tb), c)
                r = ta + x*(a.t - ta)
                D.append(c - fun(r, e)*(s - r))
            D = np.array(D).T
            ed = np.max(np.abs(A - D))/tol/max(1., np.abs(A).max())
            res.check(ed < .1, "dense", f"{j['m']} {kind}: dense output "
                      f"differs {ed} tolerance units {case}")
        if a.status != "running":
            break
    res.peak(f"y/{kind}", worst)
    res.peak(f"h/{kind}", worst_h)
    res.count("steps", k)
    res.count(kind)
    res.nontrivial = k >= 8
    res.sample = dict(kind=kind, method=j["m"], steps=k, worst=worst)
    return res
