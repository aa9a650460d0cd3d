"""C27: CKdisc on problems with rapidly varying or discontinuous derivatives."""
import numpy as np
from vlib.core import Result, Budget
from vlib.methods import METHODS

ID = "C27"
QUICK = 4            # repetitions of the set of cases in the quick tier
RULE = ("a case follows all attempts of an integration with CKdisc of a "
        "smooth, rapidly varying, discontinuous or disturbed problem and "
        "recomputes from the recorded derivatives the stages, predictions of "
        "failure, the accepted formula (order 5, 3 or 2), its error estimate, "
        "and the next step size; or compares the solution of a problem with "
        "jumps in the derivative to the known one. Non-trivial if lower "
        "orders were accepted or attempts were abandoned / if there were "
        "jumps; distinct by parameters")
ASSUMPTIONS = ["decisions with a relative margin below 1e-6 are not judged",
               "the published algorithm (Cash and Karp, 1990) with the "
               "documented changes"]
# Cash and Karp
C = (0., .2, .3, .6, 1., .875)
A = [[], [1/5], [3/40, 9/40], [3/10, -9/10, 6/5],
     [-11/54, 5/2, -70/27, 35/27],
     [1631/55296, 175/512, 575/13824, 44275/110592, 253/4096]]
B5 = np.array([37/378, 0, 250/621, 125/594, 0, 512/1771])
B4 = np.array([2825/27648, 0, 18575/48384, 13525/55296, 277/14336, 1/4])
B3 = np.array([19/54, 0, -10/27, 55/54, 0, 0])
B2 = np.array([-3/2, 5/2, 0, 0, 0, 0])
B1 = np.array([1., 0, 0, 0, 0, 0])
# at 3/5 and 1/5 of the step
F3 = np.array([.1, 0, .4, .1, 0, 0])
G3 = np.array([.1, 0, -.2, .1, 0, 0])
F2 = np.array([.1, .1, 0, 0, 0, 0])
G2 = np.array([-.1, .1, 0, 0, 0, 0])

REGIMES = ["S", "th", "late", "many", "long", "far", "rtol", "atol0", "tiny",
           "zero", "integer", None]


def gen(tier, rng):
    quick = tier == "quick"
    for k in range(500 if quick else 30000):
        yield dict(kind=["smooth", "fast", "jumps", "kicked",
                          "noise"][k % 5],
                   n=int(rng.integers(1, 5)), d=int(rng.choice([-1, 1])),
                   cplx=bool(rng.integers(3) == 0),
                   tol=float(10**rng.uniform(-9, -2)),
                   first=bool(rng.integers(2)),
                   maxs=bool(rng.integers(4) == 0),
                   regime=REGIMES[int(rng.integers(len(REGIMES)))]
                   if k % 2 else None,
                   seed=int(rng.integers(2**31)))
    for k in range(60 if quick else 8000):
        yield dict(kind="known", n=int(rng.integers(1, 4)),
                   d=int(rng.choice([-1, 1])), tol=float(
                       10**rng.uniform(-8, -2)),
                   seed=int(rng.integers(2**31)))


def rms(x):
    return float(np.sqrt(np.mean(np.abs(x)**2)))


def run(case):
    res = Result()
    rng = np.random.default_rng(case["seed"])
    (known if case["kind"] == "known" else follow)(case, rng, res)
    return res


def problem(case, rng):
    n, d, kind = case["n"], case["d"], case["kind"]
    W = rng.normal(size=(n, n))
    b, w, p = rng.normal(size=n), rng.uniform(.5, 3), rng.uniform(0, 6, n)
    c = 1. + .5j if case["cplx"] else 1.
    tk = np.sort(rng.uniform(0, 6, 8))*d
    amp = rng.normal(size=(9, n))*rng.uniform(1, 10)
    lip = .6*(W - W.T) - .3*np.eye(n)

    def base(t, y):
        if case["cplx"]:
            return d*(lip @ y) + c*b*np.cos(w*t + p)
        return np.sin(W @ y + p) + b*np.cos(w*t)

    if kind in ("smooth", "kicked"):
        f = base
    elif kind == "noise":
        # errors of all estimates in the order of the tolerance
        def f(t, y):
            return amp[1]*.02 + amp[0]*case["tol"]*case["size"]*np.sin(
                1e7*t + p)
    elif kind == "fast":
        s = rng.uniform(30, 3000)

        def f(t, y):
            return base(t, y) + c*amp[0]*np.tanh(s*np.sin(t - tk[0])) \
                + c*amp[1]*np.exp(-np.minimum(500., s*(t - tk[3])**2))
    else:
        def f(t, y):
            return base(t, y) + c*amp[np.searchsorted(tk*d, t*d)]
    y0 = rng.normal(size=n)
    if case["cplx"]:
        y0 = y0 + 1j*rng.normal(size=n)
    return f, y0


def follow(case, rng, res):
    reg = case.get("regime")
    S = th = 1.
    sh = 0.
    case = dict(case, size=float(10**rng.uniform(-1.5, 1.)))
    if reg == "many":
        case["n"] = int(rng.integers(13, 45))
    elif reg == "rtol":
        case["tol"] = float(10**rng.uniform(-2, -.3))
    elif reg == "S":
        S = 2.**int(rng.integers(-60, 60))
    elif reg == "th":
        th = 2.**int(rng.integers(-60, 60))
    elif reg == "late":
        sh = float(rng.choice([-1, 1]))*2.**int(rng.integers(5, 15))
        th = 2.**int(rng.integers(-20, 20))
    d, n = case["d"], case["n"]
    f, y0 = problem(case, rng)
    t0 = 0. if rng.integers(2) else float(np.round(rng.uniform(-1, 1), 2))
    if reg == "zero":
        y0 = y0*(rng.random(n) < (.3 if rng.integers(2) else 0))
    elif reg == "integer":
        t0 = float(rng.integers(-3, 4))
    t1 = t0 + d*float(rng.uniform(2, 6))
    if reg == "long":
        t1 = d*np.inf
    elif reg == "far":
        t1 = t0 + d*1e9
    rt, at = case["tol"], case["tol"]*10**rng.uniform(-1, 1, n)
    if rng.integers(2):
        at = float(at[0])
    if reg == "atol0":
        at = 0.
    elif reg == "tiny":
        rt, at = float(10**rng.uniform(-12.5, -9)), 1e-13
    kw = dict(rtol=rt, atol=at)
    rt = min(rt, .1)
    if case["first"]:
        kw["first_step"] = float(10**rng.uniform(-3, -.1))
    maxs = np.inf
    if case["maxs"] or case["kind"] == "noise":
        maxs = kw["max_step"] = float(10**rng.uniform(-1.5, .3))
    log, kick = [], [0]
    # other units and times
    if S != 1 or th != 1 or sh:
        g = f

        def f(t, y):
            return g(t/th - sh, y/S)*(S/th)
        y0, t0, t1 = y0*S, (t0 + sh)*th, (t1 + sh)*th
        kw["atol"] = at = at*S
        for key in ("first_step", "max_step"):
            if key in kw:
                kw[key] *= th
        maxs *= th

    def fun(t, y):
        if len(log) > 5000:
            raise Budget("fun")
        out = f(t, y)
        if kick[0] > 0:
            kick[0] -= 1
            out = out + rng.normal(size=n)*10**rng.uniform(-5, 2) * (
                1 if case["kind"] == "kicked" else 10*case["tol"])*(S/th)
        log.append((t, np.array(y), np.array(out)))
        return out
    s = METHODS["CKdisc"].cls(fun, t0, y0, t1, **kw)
    fn = log[0][2]
    # (and relative accuracies)
    twiddle, quit = [1.5, 1.1, 0., 0.], [100., 100., 0., 0.]
    hn = kw.get("first_step")       # expected
    un = 0.                         # and its relative accuracy
    seen, steps, gone = set(), 0, 0
    while s.status == "running" and steps < 1500:
        t, y = s.t, np.array(s.y)
        tag = f"{case['kind']} {reg} t={t}"
        del log[:]
        if case["kind"] in ("kicked", "noise") and rng.random() < .15:
            kick[0] = int(rng.integers(1, 7))
        msg = s.step()
        kick[0] = 0
        if s.status == "failed":
            if case["kind"] in ("fast", "smooth"):
                res.bad("failed", f"{tag}: {msg}")
            break
        steps += 1
        calls = list(log)
        if len(calls) < 2:
            res.bad("evaluations", f"{tag}: a step with {len(calls)} "
                    "evaluations")
            return
        te, ye, fe = calls.pop()
        res.check(te == s.t and np.array_equal(ye, s.y), "last evaluation",
                  f"{tag} the last evaluation is at {te}, {ye}; the step "
                  f"ends at {s.t}, {s.y}")
        if hn is not None:
            hn = min(hn, maxs)
            D = abs(t1 - t)
            if D < 2*hn:
                hn = .5*D if D > hn else D
        rejected = False
        while True:
            if not calls:
                res.bad("evaluations", f"{tag}: no attempt is acceptable")
                return
            h = (calls[0][0] - t)/C[1]
            # relative accuracy of h
            xr = 10*2.2e-16*(abs(t) + abs(h))/abs(h)
            if xr > 1e-7:
                return
            if hn is not None:
                if not res.check(abs(abs(h) - hn) < hn*(1e-9 + un + xr),
                                 "step size",
                                 f"{tag} attempt of {abs(h)}, expected {hn}"):
                    return
                if un < xr:
                    h, xr = hn*d, un + 1e-15
            out = attempt(res, tag, t, y, h, xr, fn, calls, rt, at, twiddle,
                          quit)
            if out is None:
                return
            verdict, hn, ynew, hnew, i, un = out
            if verdict == "?":
                # too close to call
                res.count("undecided")
                return
            if verdict:
                break
            gone += i < 6
            rejected = True
        seen.add(verdict)
        res.count(f"order_{verdict}")
        sc = np.abs(y).max() + np.abs(ynew).max() + abs(h)*np.abs(fn).max()
        if not res.check(not calls and np.abs(s.y - ynew).max() < (1e-12 + 10*xr)*sc
                         and abs(s.t - t - hnew) < abs(h)*(1e-9 + xr)
                         + 1e-15*(abs(t) + abs(s.t)),
                         "accepted", lambda: f"{tag} h={h}: expected the "
                         f"solution of order {verdict} over {hnew}, {ynew}, "
                         f"but got {s.t - t}, {s.y} ({len(calls)} calls "
                         "left)"):
            return
        if rejected and verdict == 5:
            if hn > abs(h):
                hn, un = abs(h), xr
        fn = fe
        if rng.random() < .2:
            dense(res, tag, s, t, y, verdict, fe, th)
    res.count("steps", steps)
    res.count("abandoned", gone)
    res.nontrivial = len(seen) > 1 or gone > 0


class Close(Exception):
    pass


def less(a, b, u):
    if abs(a - b) <= (1e-6 + 4*u)*max(abs(a), abs(b)):
        raise Close
    return a < b


def attempt(res, tag, t, y, h, xr, f0, calls, rt, at, twiddle, quit):
    """order or 0 if rejected, next h, new y, advance, evaluations and the
    relative accuracy of next h"""
    K = [f0]
    un = [xr]
    res.count("attempts")

    def stages(i, j):
        for q in range(i, j):
            if not calls:
                res.bad("evaluations", f"{tag} h={h}: stage {q} is missing")
                return False
            x, p, k = calls.pop(0)
            e = y + h*sum(a*v for a, v in zip(A[q], K))
            kh = abs(h)*max(np.abs(v).max() for v in K)
            sc = 1e-12*(np.abs(y).max() + 20*kh) + 20*xr*kh
            if not res.check(abs(x - t - C[q]*h) < 1e-7*abs(h) and
                             np.abs(p - e).max() < sc, "stage", lambda:
                             f"{tag} h={h} stage {q} is evaluated at {x}, "
                             f"{p}, expected {t + C[q]*h}, {e}"):
                return False
            K.append(k)
        return True

    def sol(b):
        return y + h*sum(a*v for a, v in zip(b, K))

    def est(e, b, p):
        w = at + rt*np.maximum(np.abs(y), np.abs(sol(b)))
        r = rms(h*sum(a*v for a, v in zip(e, K))/w)
        noise = 2e-15*rms(h*sum(abs(a*v) for a, v in zip(e, K))/w)
        un[0] = max(un[0], xr + noise/max(r, 1e-300))
        return r**p
    try:
        if not stages(1, 2):
            return
        E1 = est(B2 - B1, B2, 1/2)
        q = E1/quit[0]
        if less(E1, twiddle[0]*quit[0], un[0]
                + twiddle[2] + quit[2]):
            if not stages(2, 4):
                return
            E2 = est(B3 - B2, B3, 1/3)
            q = E2/quit[1]
            if less(E2, twiddle[1]*quit[1], un[0]
                    + twiddle[3] + quit[3]):
                if not stages(4, 6):
                    return
                E4 = max(est(B5 - B4, B5, 1/5), 1e-160)
                q = E4
                if less(E4, 1., un[0]):
                    r = (E1/E4, E2/E4)
                    for j in (0, 1):
                        if 2/3*quit[j] < r[j] < 10*quit[j]:
                            quit[j+2] = max(un[0], quit[j+2]/10)
                        z = min(r[j], 10*quit[j]) if r[j] > quit[j] else \
                            max(r[j], quit[j]*2/3)
                        quit[j] = max(1., min(1e4, z))
                    if un[0] > .1 and .9/E4 < 10:
                        raise Close
                    return (5, abs(h)*min(5., .9/E4), sol(B5), h, 6,
                            un[0] if .9/E4 < 6 else xr)
                for j, e in enumerate((E1, E2)):
                    if e/quit[j] < twiddle[j]:
                        twiddle[j+2] = un[0] + quit[j+2]
                        twiddle[j] = max(1.1, e/quit[j])
                if less(E2, 1., un[0]) and less(est(G3, F3, 1), 1., un[0]):
                    return 3, .6*abs(h), sol(F3), .6*h, 6, xr
            if less(E1, 1., un[0]):
                if less(est(G2, F2, 1), 1., un[0]):
                    return 2, .2*abs(h), sol(F2), .2*h, len(K), xr
                return 0, .2*abs(h), None, None, len(K), xr
    except Close:
        return "?", 0, None, None, 0, 0
    return (0, abs(h)*max(.2, .9/q), None, None, len(K),
            un[0] + quit[2] + quit[3])


def dense(res, tag, s, t, y, order, fe, th):
    """low order solutions have a cubic interpolant"""
    o = s.dense_output()
    h = s.t - t
    e = max(np.abs(o(t) - y).max(), np.abs(o(s.t) - s.y).max())
    sc = np.abs(y).max() + np.abs(s.y).max()
    res.check(e < 1e-11*(sc + abs(h)*np.abs(fe).max())
              + 1e-15*abs(t)*np.abs(fe).max(), "interpolant ends",
              f"{tag} order {order}: {e}")
    if order != 5 and abs(h) > 1e-5*th:
        u = np.linspace(0, 1, 6)[1:-1]
        v = o(t + u*h)
        # the cubic is determined by 4 values: fit and compare its slope
        q = np.array([0., .25, .6, 1.])
        V = np.linalg.solve(np.vander(q, 4), o(t + q*h).T)
        w = (np.vander(u, 4) @ V).T
        # rounding of t in o(t)
        tol = 1e-10*(sc + abs(h)*np.abs(fe).max()) \
            + 1e-13*(th + abs(t))*(np.abs(fe).max() + sc/abs(h))
        res.check(np.abs(v - w).max() < tol, "cubic",
                  f"{tag} order {order}: {np.abs(v - w).max()}")
        slope = np.array([3, 2, 1, 0])[:, None]*V
        se = slope[:3].sum(axis=0)/h
        res.check(np.abs(se - fe).max()*abs(h) < 100*tol, "slope", lambda:
                  f"{tag} order {order} slope at the end {se}, {fe}")
    res.count("interpolants")


def known(case, rng, res):
    """y' = -a (y - c_i) + r_i between the jumps"""
    n, d, tol = case["n"], case["d"], case["tol"]
    a = rng.uniform(.1, 1., n)
    m = int(rng.integers(1, 7))
    # (not so close that they are between two nodes of a step)
    tk = (np.arange(m) + rng.uniform(.2, .8, m))*6/m
    c = rng.normal(size=(m + 1, n))*rng.uniform(1, 10)
    w = rng.uniform(.5, 3, n)

    def f(t, y):
        i = np.searchsorted(tk, t*d)
        return d*(-a*(y - c[i]) + w*np.cos(w*t*d))
    y0 = rng.normal(size=n)

    def seg(s0, y, s1, i):
        """exact solution"""
        # particular: c + P cos(w s) + Q sin(w s)
        P_, Q = w*a/(a*a + w*w), w*w/(a*a + w*w)

        def part(s):
            return c[i] + P_*np.cos(w*s) + Q*np.sin(w*s)
        return part(s1) + (y - part(s0))*np.exp(-a*(s1 - s0))

    def exact(s):
        y, s0 = y0, 0.
        for i, tj in enumerate(tk):
            if tj > s:
                return seg(s0, y, s, i)
            y, s0 = seg(s0, y, tj, i), tj
        return seg(s0, y, s, m)
    # an error estimate may vanish by accident in the step with a jump
    msg, kw = None, {}
    for _ in range(4):
        msg = one(res, f, y0, d, tol, tk, exact, **kw)
        if msg is None:
            break
        res.count("accidents")
        tol *= .6
        kw = dict(first_step=float(10**rng.uniform(-3, -1)))
    res.check(msg is None, "accuracy", msg)
    res.count("jumps", m)
    res.nontrivial = True


def one(res, f, y0, d, tol, tk, exact, **kw):
    s = METHODS["CKdisc"].cls(f, 0., y0, 6.*d, rtol=tol, atol=tol,
                              max_step=.6, **kw)
    steps = 0
    worst = 0.
    while s.status == "running":
        msg = s.step()
        if s.status == "failed":
            return f"failed at t={s.t}: {msg}"
        steps += 1
        if steps > 20000:
            raise Budget("steps")
        jumps = int(np.sum(tk < s.t*d))
        e = rms((s.y - exact(s.t*d))/(tol*(1 + np.abs(s.y))))
        lim = 60.*jumps + 2.*steps + 5
        worst = max(worst, e/lim)
        if e > lim:
            return (f"t={s.t} {jumps} jumps passed in {steps} steps: error "
                    f"{e:.3g} times tolerance")
    res.peak("error/limit", worst)
