"""C20: SWAG is a variable order, variable step Adams PECE method."""
import itertools
import numpy as np
from vlib.core import Result, Budget
from vlib.methods import METHODS

ID = "C20"
QUICK = 4            # repetitions of the set of cases in the quick tier
RULE = ("a case integrates a smooth problem with SWAG (all k_max, tolerances, "
        "first_step, max_step, both directions, real and complex, calm and "
        "rapidly changing) and recomputes every attempted step from the "
        "recorded derivatives in extended precision: predicted state, "
        "acceptance, corrected state, next order and next step size, as well "
        "as the interpolant of the step. Decisions with a margin below 0.5% are "
        "not judged. Non-trivial if 20 or more steps were judged; distinct by "
        "parameters")
ASSUMPTIONS = ["smooth bounded right hand sides",
               "tolerances above 1e-9, apart from a few cases"]
LD, CLD = np.longdouble, np.clongdouble
# published constants, |gamma*|
GSTR = (0.5, 0.0833, 0.0417, 0.0264, 0.0188, 0.0143, 0.0114, 0.00936, 0.00789,
        0.00679, 0.00592, 0.00524, 0.00468)


def gen(tier, rng):
    for k in range(125 if tier == "quick" else 3000):
        yield dict(kind=["calm", "jumpy", "linear", "kicked", "noisy"][k % 5],
                   n=int(rng.integers(1, 5)), d=int(rng.choice([-1, 1])),
                   k_max=int(rng.integers(1, 13)) if k % 2 else 12,
                   tol=float(10**rng.uniform(-9, -2)),
                   cplx=bool(rng.integers(3) == 0),
                   first=bool(rng.integers(2)), maxs=bool(rng.integers(4) == 0),
                   vec=bool(rng.integers(3) == 0),
                   regime=[None, "S", "th", "late", "many", "long", "rtol",
                           "far", "atol0", "zero", "tiny", "integer"][
                               int(rng.integers(12))] if k % 2 == 0
                   else None,
                   seed=int(rng.integers(2**31)))


def newton(x, f):
    """divided differences; x[0] is the last point"""
    c = [np.array(v) for v in f]
    k = len(x)
    for j in range(1, k):
        for i in range(k - 1, j - 1, -1):
            c[i] = (c[i] - c[i-1])/(x[i] - x[i-j])
    return c


class Poly:
    """interpolates f at the points x (scaled), value and integral"""

    def __init__(self, x, f):
        self.c = newton(x, f)
        self.x = x
        # monomial coefficients of the basis
        self.b = []
        b = np.array([1.], LD)
        for xi in x:
            self.b.append(b)
            b = np.convolve(b, np.array([-xi, 1.], LD))

    def value(self, s):
        out = 0
        for c, b in zip(self.c, self.b):
            p = LD(0)
            for q in b[::-1]:
                p = p*s + q
            out = out + c*p
        return out

    def integral(self, s):
        out = 0
        for c, b in zip(self.c, self.b):
            p = LD(0)
            for i in range(len(b) - 1, -1, -1):
                p = (p + b[i]/LD(i + 1))*s
            out = out + c*p
        return out


    def lebesgue(self, s):
        """amplification of rounding errors of the derivatives"""
        out = 0.
        for i, a in enumerate(self.x):
            q = 1.
            for j, b in enumerate(self.x):
                if j != i:
                    q *= float((s - b)/(a - b))
            out += abs(q)
        return out


def rms(x):
    x = np.abs(np.asarray(x)).astype(float)
    return float(np.sqrt(np.mean(x*x)))


class Unsure(Exception):
    pass


class Oracle:
    """comparisons; those that are too close are tried both ways"""

    def __init__(self, choice):
        self.choice, self.i = choice, 0

    def lt(self, a, b, noise=0.):
        """a < b"""
        if abs(a - b) <= .005*max(a, b) + noise:
            if self.i >= len(self.choice):
                raise Unsure
            self.i += 1
            return self.choice[self.i - 1]
        return a < b


def options(decide):
    """all outcomes of a decision that are consistent with the data"""
    out = []
    todo = [()]
    while todo:
        c = todo.pop()
        try:
            out.append(decide(Oracle(c)))
        except Unsure:
            todo += [c + (True,), c + (False,)]
    return out


def problem(case, rng):
    n, d, kind = case["n"], case["d"], case["kind"]
    W = rng.normal(size=(n, n))
    b, w, p = rng.normal(size=n), rng.uniform(.5, 3), rng.uniform(0, 6, n)
    if kind == "linear" or case["cplx"]:
        A = W - W.T - .3*np.eye(n)
        if case["cplx"]:
            A = A + 1j*np.diag(rng.normal(size=n))

        def f(t, y):
            return A @ y*d + b*np.cos(w*t + p)
    elif kind == "jumpy":
        c = rng.uniform(-3, 3, 3)

        def f(t, y):
            return np.sin(W @ y + w*t) + 4*b*np.exp(
                -((t - c[:, None])**2*40)).sum(axis=0)
    elif kind == "noisy":
        # low orders
        amp = case["tol"]*10**rng.uniform(0, 3)

        def f(t, y):
            return np.sin(W @ y + p) + b*np.cos(w*t) + amp*np.sin(1e5*t*t)
    else:
        def f(t, y):
            return np.sin(W @ y + p) + b*np.cos(w*t)
    y0 = rng.normal(size=n)
    if case["cplx"]:
        y0 = y0 + 1j*rng.normal(size=n)
    return f, y0


def run(case):
    res = Result()
    rng = np.random.default_rng(case["seed"])
    d = case["d"]
    reg = case.get("regime")
    S = th = 1.
    sh = 0.
    if reg == "many":
        case = dict(case, n=int(rng.integers(13, 45)))
    elif reg == "rtol":
        case = dict(case, tol=float(10**rng.uniform(-2, -.5)))
    elif reg == "S":
        S = 2.**int(rng.integers(-60, 60))
    elif reg == "th":
        th = 2.**int(rng.integers(-60, 60))
    elif reg == "late":
        sh = float(rng.choice([-1, 1]))*2.**int(rng.integers(5, 15))
        th = 2.**int(rng.integers(-20, 20))
    f, y0 = problem(case, rng)
    t0 = float(np.round(rng.uniform(-2, 2), 2))
    T = float(rng.uniform(3, 12))
    if reg == "zero":
        y0 = y0*(rng.random(len(y0)) < (.3 if rng.integers(2) else 0))
        case = dict(case, first=bool(rng.integers(5)))
    elif reg == "integer":
        t0 = float(rng.integers(-3, 4))
    t1 = t0 + d*T
    if reg == "long":
        t1 = d*np.inf
    elif reg == "far":
        t1 = t0 + d*1e9
    k_max = case["k_max"]
    kw = dict(rtol=case["tol"], atol=case["tol"]*float(
        10**rng.uniform(-1, 1)))
    if case["vec"]:
        kw["atol"] = kw["atol"]*10**rng.uniform(-.5, .5, len(y0))
    if k_max != 12 or rng.integers(2):
        kw["k_max"] = k_max
    if k_max < 4:
        kw["rtol"] = max(kw["rtol"], 1e-5)
        kw["atol"] = np.maximum(kw["atol"], 1e-5)
    if case["first"]:
        kw["first_step"] = float(10**rng.uniform(-4, -.5))
    if reg == "atol0":
        kw["atol"] = np.maximum(kw["atol"]*0., 0.)
    elif reg == "tiny":
        kw["rtol"], kw["atol"] = float(10**rng.uniform(-13, -9)), 1e-13
    max_step = np.inf
    if case["maxs"]:
        max_step = kw["max_step"] = float(10**rng.uniform(-1.7, 0))
    # other units and times
    if S != 1 or th != 1 or sh:
        g = f

        def f(t, y):
            return g(t/th - sh, y/S)*(S/th)
        y0, t0, t1 = y0*S, (t0 + sh)*th, (t1 + sh)*th
        kw["atol"] = kw["atol"]*S
        for key in ("first_step", "max_step"):
            if key in kw:
                kw[key] *= th
        max_step *= th
    log = []
    # kicks: relative disturbances of the derivative force rejections
    kick = [0]

    def fun(t, y):
        if len(log) > 30000:
            raise Budget("fun")
        out = f(t, y)
        if case["kind"] == "kicked" and kick[0] > 0:
            kick[0] -= 1
            out = out + rng.normal(size=len(out))*10**rng.uniform(
                -4, 1)*(S/th)
        log.append((float(t), np.array(y), np.array(out)))
        return out
    s = METHODS["SWAG"].cls(fun, t0, y0, t1, **kw)
    tag = f"k_max={k_max} tol={case['tol']:.2g} {case['kind']} " \
        f"{reg}"
    res.count(f"regime_{reg}")
    atol, rtol = np.asarray(s.atol), s.rtol
    X = [LD(t0)]
    F = [log[0][2].astype(CLD if case["cplx"] else LD)]
    del log[:]
    if not case["first"]:
        hexp = [None]
    else:
        hexp = [d*kw["first_step"]]
    state = dict(late=sh != 0, ns={0}, lim=None, kold=0, hold=None, phase1=True)
    opts = [(1, hexp[0], True, None)]       # k, h, phase1, unused
    steps = judged = 0
    dtype = CLD if case["cplx"] else LD
    while s.status == "running":
        t, y = s.t, s.y.copy()
        if case["kind"] == "kicked" and rng.random() < .1:
            kick[0] = int(rng.integers(1, 7))
        msg = s.step()
        kick[0] = 0
        if s.status == "failed":
            if case["kind"] in ("kicked", "jumpy"):
                res.count("failed")
                break
            res.bad("failed", f"{tag} t={t}: {msg}")
            break
        steps += 1
        calls, log[:] = list(log), []
        if not calls:
            # remainder of the size of rounding
            res.check(abs(s.t - t) < 1e-12*(abs(t0) + abs(t)), "no evaluation",
                      lambda: f"{tag} step {t} .. {s.t} without evaluation")
            break
        ok = step(res, tag, s, t, y, calls, X, F, state, opts, d, t1, max_step,
                  atol, rtol, k_max, dtype)
        if ok is None:
            break
        opts = ok
        judged += 1
        if rng.random() < .2:
            dense(res, tag, s, t, y, X, F, state, dtype)
        if judged > (400 if reg != "long" else 2000):
            break
    res.count("steps", judged)
    res.nontrivial = judged >= 20
    res.peak("order", state["kold"])
    return res


def step(res, tag, s, t, y, calls, X, F, st, opts, d, t1, max_step, atol, rtol,
         k_max, dtype):
    """judge all attempts of a step; returns the options for the next step"""
    tag = f"{tag} t={t}"
    ifail = 0
    yl = y.astype(dtype)
    eps = 2.2e-16
    while True:
        x, p, fp = calls.pop(0)
        p, fp = p.astype(dtype), fp.astype(dtype)
        last = len(calls) == 1
        if not calls:
            res.bad("evaluations", f"{tag}: the last attempt has 1 evaluation")
            return None
        h = LD(x) - LD(t)
        fmax = max(float(np.abs(v).max()) for v in F[:k_max])
        yscale = float(np.abs(p).max()) + float(np.abs(y).max())
        hr = max(abs(float(h)), 1e-300)
        xround = 4*eps*(abs(t) + abs(x))/hr     # relative error of h
        # which of the options is it?
        found = []
        best = np.inf
        for k, he, ph, r in opts:
            if k > len(F) or k > k_max:
                continue
            if he is not None:
                D = abs(t1 - t)
                hl = min(abs(he), D, max_step)
                if ifail:
                    hl = abs(he)
                # (the end point of the interval is approached)
                if abs(hl - abs(float(h))) > hl*(.02 if r else 1e-9 + xround):
                    continue
            P = Poly([(q - LD(t))/h for q in X[:k]], F[:k])
            pe = yl + h*P.integral(LD(1))
            e = float(np.abs(pe - p).max())
            # (times are rounded: the distances of the points as well)
            gap = min([hr] + [abs(float(a - b)) for a, b in zip(X, X[1:k])])
            xr = 8*eps*abs(t)/gap if st["late"] else 0.
            leb = (100*eps + 3*xr)*P.lebesgue(LD(1))
            lim = leb*hr*fmax + 1e-9*(hr*fmax) + 1e-13*yscale + hr*fmax*xround*10
            best = min(best, e/lim)
            if e < lim:
                found.append((k, he, ph, P))
        res.count("attempts")
        if best < np.inf and found:
            res.peak("prediction error/limit", best)
        if not found:
            res.bad("prediction", f"{tag}: attempt of {float(h)} (number "
                    f"{ifail}) is none of the expected ones, k and h: "
                    f"{[(o[0], o[1]) for o in opts]}, error/limit {best:.3g}")
            return None
        k, he, ph, P = found[0]
        if len(found) > 1:
            # prefer the highest order? all predict the same
            res.count("ambiguous")
            ks = {q[0] for q in found}
            if len(ks) > 1:
                return None
            if len({q[2] for q in found}) > 1:
                return None
        # number of steps of this size
        # (if the step is limited anew, it may differ by rounding)
        ns = st["ns"]
        same = not ifail and st["hold"] is not None and abs(
            float(h/st["hold"]) - 1) < 1e-9 + xround
        limit = None
        if he is not None and abs(abs(he)/hr - 1) > 1e-6 and not ifail:
            limit = "max" if abs(hr/max_step - 1) < 1e-9 + xround else "end"
        if not same:
            ns = {0}
        elif not (limit == st["lim"] != "end"):
            ns = ns | {0}
        ns = {q + 1 if q <= st["kold"] else q for q in ns}
        st["lim"] = limit
        # errors
        wt = atol + rtol*.5*(np.abs(p) + np.abs(y)).astype(float)

        def delta(j):
            """difference of order j (j points)"""
            if j == 0:
                return fp
            Q = P if j == k else Poly(P.x[:j], F[:j])
            return fp - Q.value(LD(1))

        def sig(j):
            out = 1.
            for i in range(1, j + 1):
                psi = LD(x) - X[i-1]
                out *= i*float(h/psi)
            return out
        H = abs(float(h))
        leb = P.lebesgue(LD(1))*(1 + .03*xr/eps)
        noise = H*eps*fmax*(2.**(k + 3) + 100*leb)/wt.min()
        er = {}
        for j in (k, k - 1, k - 2):
            if j >= 1:
                er[j] = H*rms(delta(j)/wt)*sig(j)*GSTR[j-1]
        # corrector with k past points and x
        C = Poly([LD(1)] + list(P.x), [fp] + list(F[:k]))
        yc = yl + h*C.integral(LD(1))
        C1 = Poly([LD(1)] + list(P.x[:k-1]), [fp] + list(F[:k-1]))
        err = rms(h*(C.integral(LD(1)) - C1.integral(LD(1)))/wt)
        # acceptance
        if abs(err - 1) > .005 + noise:
            res.count("decisions")
            if not res.check((err < 1) == last, "acceptance", lambda:
                             f"{tag}: error {err:.4g}, step of {float(h)} is "
                             f"{'accepted' if last else 'rejected'}"):
                return None

        def lower(o):
            # order lowered before the correction
            if k > 2:
                m = max(er[k-1], er[k-2])
                return o.lt(m, er[k], noise*.1)
            if k == 2:
                return o.lt(er[1], .5*er[2], noise*.1)
            return False
        if last:
            break
        # rejected
        ifail += 1
        st["ns"] = {0}

        def retry(o):
            low = lower(o)
            fac, near = .5, False
            if ifail >= 4 and o.lt(.5, .25*er[k]):
                fac = float(np.sqrt(.5/er[k]))
                near = True
            kn = 1 if ifail >= 3 else k - 1 if low else k
            return kn, float(h)*fac, False, near
        opts = options(retry)
        st["retry"] = True
        res.count("rejections")
    # accepted
    x2, y2, f2 = calls.pop(0)
    f2 = f2.astype(dtype)
    lim = 1e-9*(hr*fmax) + 1e-13*yscale + hr*fmax*xround*10
    lim += 100*eps*leb*hr*fmax
    lim += 1e-9*hr*float(np.abs(fp).max())
    e = float(np.abs(y2 - yc).max())
    res.peak("correction error/limit", e/lim)
    if not res.check(e < lim and x2 == x and s.t == x and np.array_equal(
            s.y, y2), "correction", lambda:
            f"{tag}: order {k} corrected to {y2}, expected {yc}"):
        return None
    res.check(k <= k_max, "order", lambda: f"{tag} order {k}")
    res.count(f"order_{k}")
    # history
    X.insert(0, LD(x))
    F.insert(0, f2)
    del X[16:], F[16:]
    kold = k
    phase = ph and not ifail
    g2 = max(float(np.abs(v).max()) for v in F[:k+2])
    noise = H*eps*g2*(2.**(k + 3) + 100*leb)/wt.min()
    # difference of order k+1 after the correction
    if k < max(ns):
        # constant step size
        b = [1.]
        for i in range(k + 1):
            b = np.convolve(b, [1., -1.])
        dk1 = sum(c*v for c, v in zip(b, F)) if len(F) >= k + 2 else None

    def nextstep(o):
        p1 = phase
        low = lower(o)
        if low or k == k_max:
            p1 = False
        E, kn = er[k], k
        if p1:
            kn, E = k + 1, 0.
        elif low:
            kn, E = k - 1, er[k-1]
        elif k < min(ns) or k < max(ns) and o.lt(1., 1.):
            up = GSTR[k]*H*rms(dk1/wt)
            if k == 1:
                if k < k_max and o.lt(up, .5*E, noise*.1):
                    kn, E = 2, up
            elif not o.lt(min(E, up), er[k-1], noise*.1):
                kn, E = k - 1, er[k-1]
            elif k < k_max and not o.lt(E, up, noise*.1):
                kn, E = k + 1, up
        near = False
        if p1 or o.lt(E*2.**(kn + 1), .5, noise*2**(kn + 1)):
            hn = 2*float(h)
        elif o.lt(E, .5, noise):
            hn = float(h)
        else:
            r = (.5/E)**(1/(kn + 1))
            hn = float(h)*max(.5, min(.9, r))
            near = True
        return kn, hn, p1, near
    out = options(nextstep)
    st.update(kold=kold, ns=ns, hold=h)
    return out


def dense(res, tag, s, t, y, X, F, st, dtype):
    """the interpolant of the last step"""
    k = st["kold"]
    o = s.dense_output()
    h = X[0] - LD(t)
    # the derivative interpolates k + 1 derivatives, the value both states
    x = [(q - LD(t))/h for q in X[:k+1]]
    P = Poly(x, F[:k+1])
    b = np.array([1.], LD)
    for xi in x:
        b = np.convolve(b, np.array([-xi, 1.], LD))

    def extra(u):
        p = LD(0)
        for i in range(len(b) - 1, -1, -1):
            p = (p + b[i]/LD(i + 1))*u
        return p
    y0, y1 = y.astype(dtype), s.y.astype(dtype)
    rest = y1 - y0 - h*P.integral(LD(1))
    hr = abs(float(h))
    fmax = max(float(np.abs(v).max()) for v in F[:k+1])
    lim = 1e-9*hr*fmax + 1e-12*float(np.abs(y).max() + np.abs(s.y).max()) \
        + 40*2.2e-16*abs(t)*fmax
    u = np.random.default_rng(k).uniform(size=4)
    v = o(t + u*float(h))
    for i, ui in enumerate(u):
        ui = (LD(t + ui*float(h)) - LD(t))/h
        e = y0 + h*P.integral(ui) + rest*extra(ui)/extra(LD(1))
        e = float(np.abs(e - v[:, i]).max())
        res.peak("interpolation error/limit", e/lim)
        res.check(e < lim, "interpolant", lambda: f"{tag} step {t} .. {s.t} "
                  f"order {k} at {float(ui)}: error {e}, limit {lim}")
    res.count("interpolants")
