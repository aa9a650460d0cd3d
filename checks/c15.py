"""C15: stiffness diagnosis warns when it should and never interferes."""
import warnings
import numpy as np
from vlib.core import Result, Budget
from vlib.methods import METHODS, RK, NYS, has_stiff

ID = "C15"
QUICK = 2            # repetitions of the set of cases in the quick tier
RULE = ("kind observer: an integration is repeated with several values of "
        "nfev_stiff_detect and must be bitwise the same, with at most 25 extra "
        "evaluations per diagnosis, none if turned off, and all of them at "
        "the end point of a step; kind stiff: linear problems in which the "
        "step size is limited by stability (real or complex dominant roots, "
        "several components, both directions), a warning of the right kind "
        "must follow within a few diagnoses; kind calm: problems in which the "
        "step size is limited by accuracy, growing solutions and short "
        "remaining intervals, no warning may be given; kind shadow: the time and verdict of every "
        "diagnosis is predicted from step sizes, numbers of failed steps and "
        "known roots. SWAG and SSV2stab have "
        "their own criteria. Non-trivial if a diagnosis was made; distinct by "
        "parameters")
ASSUMPTIONS = ["in less than half of the diagnoses the power iterations do "
               "not converge", "real problems for the verdict (complex ones are included in "
               "the observer cases)"]
NAMES = [n for n in RK + NYS if has_stiff(n)]
# size of the stability domain along the negative real axis
ARC = dict(Ts5=3.5, BS5=3.9, CK5=3.7, Pr7=4.1, Pr8=4.5, Pr9=4.6, CFMR7osc=4.7,
           Me4=3.4)
WORDS = ("stiff", "oscillatory")


def gen(tier, rng):
    for n in NAMES:
        for k in range(12 if tier == "quick" else 900):
            yield dict(kind=["observer", "stiff", "calm"][k % 3], m=n,
                       sub=k//3, n=int(rng.integers(1, 5)),
                       d=int(rng.choice([-1, 1])),
                       seed=int(rng.integers(2**31)))
        for k in range(12 if tier == "quick" else 350):
            yield dict(kind="shadow", m=n, n=int(rng.integers(0, 3)),
                       d=int(rng.choice([-1, 1])),
                       seed=int(rng.integers(2**31)))
    for n in ("SWAG", "SSV2stab"):
        for k in range(8 if tier == "quick" else 300):
            yield dict(kind=["stiff", "calm"][k % 2] + n, m=n,
                       n=int(rng.integers(1, 5)), d=int(rng.choice([-1, 1])),
                       seed=int(rng.integers(2**31)))


def run(case):
    res = Result()
    rng = np.random.default_rng(case["seed"])
    globals()[case["kind"]](case, rng, res)
    return res


def go(m, f, t0, y0, t1, max_steps=20000, stop=None, **kw):
    """integrate; (rows, [(step, warning)], calls of each step)"""
    rows, warned, calls = [], [], []
    log = []

    def fun(t, y):
        log.append(t)
        if len(log) > 400000:
            raise Budget("fun")
        return f(t, y)
    with warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter("always")
        s = m.cls(fun, t0, y0, t1, **dict(m.opts, **kw))
        init = len(log)
        k, msg = 0, None
        while s.status == "running" and k < max_steps:
            i = len(log)
            msg = s.step()
            if s.status == "failed":
                break
            k += 1
            rows.append((s.t, s.y.copy()))
            calls.append(log[i:])
            for w in wl[len(warned):]:
                warned.append((k, str(w.message)))
            if stop and any(stop in w for _, w in warned):
                break
    return rows, warned, calls, (s, msg, init)


def rot(n, rng):
    return np.linalg.qr(rng.normal(size=(n, n)))[0]


def observer(case, rng, res):
    m = METHODS[case["m"]]
    n, d = case["n"], case["d"]
    nys = m.kind == "nys"
    cplx = bool(rng.integers(3) == 0)
    strict = m.nys_strict
    stiff = bool(rng.integers(2))
    A = -np.diag(10**rng.uniform(0, 2.5 if stiff else .5, n))
    A = A + .3*rng.normal(size=(n, n))
    if cplx:
        A = A + .3j*rng.normal(size=(n, n))
    D = np.diag(10**rng.uniform(0, 1.5 if stiff else 0., n))
    if strict:
        D = D*0
    aslist = bool(rng.integers(3) == 0)
    y0 = rng.normal(size=(2 if nys else 1)*n)*(1 + .5j if cplx else 1)

    def f(t, y):
        if nys:
            x, v = y[:n], y[n:]
            out = np.concatenate([v, A @ x - d*(D @ v) + np.cos(t)])
        else:
            out = d*(A @ y + np.cos(t))
        return out.tolist() if aslist else out
    t1 = d*float(rng.uniform(2, 8))
    kw = dict(rtol=float(10**rng.uniform(-6, -2)),
              atol=float(10**rng.uniform(-6, -2)))
    base = go(m, f, 0., y0, t1, nfev_stiff_detect=0, **kw)
    tag = f"{case['m']} n={n} {'complex' if cplx else 'real'}"
    if base[3][0].status == "failed":
        return
    res.check(not base[1], "warned while off", lambda: f"{tag}: {base[1]}")
    for N in (1, int(rng.integers(2, 60)), int(rng.integers(60, 500)), None):
        k2 = {} if N is None else dict(nfev_stiff_detect=N)
        rows, warned, calls, (s, msg, init) = go(m, f, 0., y0, t1, **k2, **kw)
        if not res.check(len(rows) == len(base[0]) and all(
                a[0] == b[0] and np.array_equal(a[1], b[1])
                for a, b in zip(rows, base[0])), "trajectory", lambda:
                f"{tag}: nfev_stiff_detect={N} changes the solution"):
            continue
        tests = 0
        for k, (a, b) in enumerate(zip(calls, base[2])):
            extra = a[len(b):]
            res.check(a[:len(b)] == b, "evaluations", lambda:
                      f"{tag}: step {k} {a}, {b}")
            if extra:
                tests += 1
                res.check(len(extra) <= 25, "cost", lambda:
                          f"{tag}: {len(extra)} evaluations for a diagnosis")
                res.check(all(t == rows[k][0] for t in extra), "times",
                          lambda: f"{tag}: diagnosis at {extra}")
        if N is not None and N >= 60:
            used = sum(len(b) for b in base[2])
            res.check(tests <= 2 + 4*used/N + len(rows)/40, "often", lambda:
                      f"{tag}: {tests} diagnoses in {used} evaluations with "
                      f"nfev_stiff_detect={N}")
        elif N is None and len(rows) < 39:
            res.check(tests == 0, "default", tag)
        res.check(all(any(q in w for q in WORDS) for _, w in warned),
                  "message", lambda: f"{tag}: {warned}")
        res.count("diagnoses", tests)
        res.nontrivial |= tests > 0
    res.count("steps", len(base[0]))


def spectrum(rng, m, n):
    """dominant roots and smaller ones (scaled)"""
    tanang = m.cls.tanang
    sub = [complex(-rng.uniform(.02, .2)) for _ in range(n)]
    kind = ["real", "pair", "two", "close", "imag"][rng.integers(5)]
    if kind == "real":
        dom = [-1.]
    elif kind == "two":
        # (two roots in all are found exactly)
        sub = []
        dom = [-1., -rng.uniform(.2, .9)]
    elif kind == "close":
        dom = [-1., -rng.uniform(.93, .99)]
    else:
        a = np.arctan(tanang)
        lo, hi = (.2, .95*a) if kind == "pair" else (
            min(1.05*a, .5*(a + np.pi/2)), np.pi/2)
        th = rng.uniform(lo, hi)
        dom = [-np.exp(1j*th), -np.exp(-1j*th)]
    return kind, np.array(dom), np.array(sub)


def shadow(case, rng, res):
    """the diagnoses of RKSuite for known roots"""
    m = METHODS[case["m"]]
    nys = m.kind == "nys"
    if m.nys_strict:
        res.nontrivial = False
        return
    n, d = case["n"], case["d"]
    kind, dom, sub = spectrum(rng, m, n)
    cplx = bool(rng.integers(4) == 0) and not nys
    if nys:
        if kind in ("real", "two", "close"):
            size = len(dom) + len(sub)
            # x'' = -c v - k x with k << c**2: roots -c and -k/c
            c = -np.append(dom, sub).real
            kk = 1e-3*c
            z = np.concatenate([-c/2 - np.sqrt(c*c/4 - kk),
                                -c/2 + np.sqrt(c*c/4 - kk)]).astype(complex)
        else:
            c = np.append(-2*dom[0].real, -2*sub.real)
            kk = np.append(abs(dom[0])**2, np.abs(sub)**2)
            z = np.concatenate([dom, sub, sub])
            size = len(c)
    else:
        z = np.append(dom, sub).astype(complex)
        size = len(z)
        D = np.diag(z.real)
        if dom[0].imag and not cplx:
            D[0, 1], D[1, 0] = z[0].imag, -z[0].imag
        elif dom[0].imag:
            # (a complex problem is expanded: pairs of roots)
            D = np.diag(np.append(z[0], z[2:]))
            size -= 1
    Q = rot(size, rng)
    if cplx:
        Q = np.linalg.qr(rng.normal(size=(size, size))
                         + 1j*rng.normal(size=(size, size)))[0]
        if dom[0].imag == 0:
            # complex conjugates of the other roots
            pass
    sc = float(10**rng.uniform(0, 3))           # size of the dominant root
    rad = max(m.cls.stbre, m.cls.stbim) if nys else m.cls.stbrad
    u = float(rng.uniform(.5, 1.15))
    if rng.integers(4) == 0:
        u = float(rng.uniform(.05, .5))
    hmax = u*rad/sc
    w = float(rng.uniform(.05, .5))/hmax/10
    ph = np.linspace(0, 2, size)
    kicks = [0, 0, 1, 2][rng.integers(4)]
    tj = hmax*float(rng.uniform(1.5, 6))
    nk = 0. if not kicks else 10**rng.uniform(1, 3)
    tol = float(10**rng.uniform(-5, -2))
    nk *= tol/hmax

    def g(t):
        return 2 + .5*np.cos(w*t + ph)

    def dg(t):
        return -.5*w*np.sin(w*t + ph)

    def kick(t):
        if not kicks or (kicks == 2 and abs(t) > 60*hmax):
            return 0.
        return nk*(-1)**int(np.floor(abs(t)/tj))
    if nys:
        Cm = Q @ np.diag(c*sc) @ Q.T
        Km = Q @ np.diag(kk*sc**2) @ Q.T

        def f(t, y):
            x, v = y[:size], y[size:]
            r = x - g(t)
            # (the velocity stays away from 0, too)
            return np.append(v, -d*(Cm @ (v - dg(t))) - Km @ r + kick(t))
        y0 = np.append(g(0.), dg(0.))
    else:
        A = sc*d*(Q @ D @ Q.conj().T)

        def f(t, y):
            return A @ (y - g(t)*(1 + cplx*.5j)) + dg(t)*(1 + cplx*.5j) \
                + kick(t)
        y0 = g(0.)*(1 + cplx*.5j)
    N = int(rng.integers(20, 1500))
    steps = int(rng.integers(60, 400))
    t1 = d*hmax*steps
    kw = dict(rtol=tol, atol=tol, max_step=hmax)
    tag = f"{case['m']} n={n} {kind} {'complex' if cplx else 'real'} " \
        f"roots {sc:.3g} h*root={u*rad:.3g} kicks={kicks} " \
        f"nfev_stiff_detect={N} d={d}"
    # number of failed steps in each step
    from extensisq.common import NFS
    fails = []
    calls = [0]

    def counted(t, y):
        calls[0] += 1
        if calls[0] > 400000:
            raise Budget("fun")
        return f(t, y)
    s = m.cls(counted, 0., y0, t1, nfev_stiff_detect=0, **dict(m.opts, **kw))
    while s.status == "running":
        k = int(NFS)
        s.step()
        fails.append(int(NFS) - k)
    if s.status == "failed":
        return
    base = go(m, f, 0., y0, t1, nfev_stiff_detect=0, **kw)
    rows, warned, cl, (s, msg, init) = go(m, f, 0., y0, t1,
                                          nfev_stiff_detect=N, **kw)
    if not res.check(len(rows) == len(base[0]) == len(fails), "steps", lambda:
                     f"{tag}: {len(rows)} {len(base[0])} {len(fails)}"):
        return
    many = max(1, N//m.cls.n_stages)
    havg, nf, tp = 0., 0, 0.
    tests = wanted = silent = 0
    for k in range(1, len(rows) + 1):
        t = rows[k-1][0]
        h = t - tp
        tp = t
        nf += fails[k-1]
        havg = .9*havg + .1*h
        if k == 20:
            havg, nf = h, 0
        lots = False
        if k % 40 == 39:
            lots, nf = nf >= 10, 0
        due = k % many == many - 1 or lots
        extra = len(cl[k-1]) - len(base[2][k-1])
        told = [x for q, x in warned if q == k]
        where = f"{tag} step {k} of {len(rows)}"
        if not due:
            res.check(extra == 0 and not told, "not due", lambda:
                      f"{where}: {extra} evaluations, {told}")
            continue
        ratio = abs(h/havg)
        cost = m.cls.n_stages*abs((t1 - t)/havg)/N
        if any(abs(x - 1) < 1e-6 for x in (ratio/5, ratio/.2, cost)):
            continue
        if not .2 < ratio < 5 or cost < 1:
            res.check(extra == 0 and not told, "no reason", lambda:
                      f"{where}: {extra} evaluations, {told}, h/average="
                      f"{ratio}, remaining cost/limit={cost}")
            res.count("skipped_diagnoses")
            continue
        tests += 1
        res.check(0 < extra <= 25, "diagnosis", lambda:
                  f"{where}: {extra} evaluations, h/average={ratio}, "
                  f"remaining cost/limit={cost}, many failures: {lots}")
        zz = dom*abs(havg)*sc
        verdict = judge(m, kind, zz)
        res.count(f"verdict_{kind}_{verdict}")
        if verdict == "?":
            continue
        if verdict == "uncertain":
            want = "oscillatory" if lots else None
        elif verdict == "stiff":
            want = "real dominant root" if dom[0].imag == 0 else \
                "complex pair of dominant roots and is diagnosed as stiff"
            res.count("warnings")
        else:
            want = None
        good = len(told) == 1 and want in told[0] if want else not told
        if want:
            wanted += 1
            if not told:
                # (power iterations that don't converge)
                silent += 1
                continue
        res.check(good, "verdict " + str(verdict), lambda: f"{where}: h*roots "
                  f"{zz}, many failures: {lots}, expected {want}, got {told}")
    res.check(silent < 3 or silent < .5*wanted, "no verdict", lambda:
              f"{tag}: {silent} of {wanted} warnings are missing")
    res.count("silent", silent)
    res.count("shadow_diagnoses", tests)
    res.count("shadow_steps", len(rows))
    res.nontrivial = tests > 0


def judge(m, kind, z):
    """stiff, not stiff, uncertain or too close to call"""
    if kind == "imag":
        return "uncertain"
    if m.kind == "nys":
        a = abs(z[0].real)/(.85*m.cls.stbre), abs(z[0].imag)/(.9*m.cls.stbim)
        # the message differs
        r = max(a)
        if kind == "pair" and .85/.9*.97 < a[0] < 1.1 and a[1] < 1.03:
            return "?"
    else:
        r = abs(z[0])/(.9*m.cls.stbrad)
    return "?" if abs(r - 1) < .03 else "stiff" if r > 1 else "fine"


def dominant(n, rng, cx, d, sc, ratio):
    """real matrix with one dominant root (pair)"""
    size = n + (2 if cx else 1)
    A = np.zeros((size, size))
    if cx:
        th = rng.uniform(.3, ratio)
        a, b = -sc*np.cos(th), sc*np.sin(th)
        A[:2, :2] = [[a, b], [-b, a]]
        k = 2
    else:
        A[0, 0] = -sc
        k = 1
    for i in range(k, size):
        A[i, i] = -rng.uniform(.1, 1)
    Q = rot(size, rng)
    return d*(Q @ A @ Q.T), size


def stiff(case, rng, res):
    m = METHODS[case["m"]]
    n, d = case["n"], case["d"]
    nys = m.kind == "nys"
    sc = float(10**rng.uniform(2.5, 4))
    tanang = m.cls.tanang
    cx = bool(rng.integers(2)) and not nys
    w = rng.uniform(.5, 2)
    N = int(rng.integers(100, 800))
    if nys:
        if m.nys_strict:
            return
        # x'' = -c v - k x + ...: roots about -c
        Q = rot(n, rng)
        c = np.append(sc, rng.uniform(.5, 2, n - 1))
        Dm = Q @ np.diag(c) @ Q.T
        Km = Q @ np.diag(c*rng.uniform(.1, 1, n)) @ Q.T

        def f(t, y):
            x, v = y[:n], y[n:]
            return np.concatenate([v, -d*(Dm @ v) - Km @ x + np.cos(w*t)*sc])
        y0 = np.append(rng.normal(size=n), np.zeros(n))
    else:
        A, size = dominant(n - 1, rng, cx, d, sc,
                           min(np.arctan(tanang)*.8, 1.2))
        ph = np.arange(size)

        def f(t, y):
            return A @ (y - np.cos(w*t + ph)) - w*np.sin(w*t + ph)
        y0 = np.cos(ph) + 0.
    steps = 40*N//m.cls.n_stages + 200
    t1 = d*steps*5/sc*1.
    tol = float(10**rng.uniform(-4, -2.5))
    rows, warned, calls, (s, msg, init) = go(
        m, f, 0., y0, t1, max_steps=steps, nfev_stiff_detect=N, rtol=tol,
        atol=tol, stop="diagnosed as stiff")
    tag = f"{case['m']} roots {sc:.3g} {'complex' if cx else 'real'} " \
        f"nfev_stiff_detect={N} tol={tol:.2g}"
    if s.status == "failed":
        res.bad("failed", f"{tag} {msg}")
        return
    left = abs(t1 - s.t)
    h = np.abs(np.diff([r[0] for r in rows]))
    hs = np.median(h)*sc
    res.peak("limit/" + case["m"], hs)
    tests = sum(len(c) > np.median([len(c) for c in calls]) + 1 for c in calls)
    good = [x for x in warned if "diagnosed as stiff" in x[1]]
    if cx and not good and hs < .95*ARC[m.cls.__name__]:
        # the boundary of the stability domain is no arc
        res.count("within_arc")
        return
    res.count("stiff_runs")
    res.count("stiff_warned", bool(good))
    if good:
        late = sum(len(c) for c in calls)/(N + 200)
        res.peak("late/complex" if cx else "late", late)
        res.check(cx or late < 8, "late", lambda: f"{tag}: {late}")
    res.check(bool(good), "no warning", lambda: f"{tag}: no warning in "
              f"{len(rows)} steps, {tests} diagnoses, h*root={hs:.3g}, "
              f"remaining {left/np.median(h):.3g} steps, {warned}")
    kind = "complex pair" if cx else "real dominant"
    res.check(all(kind in x[1] for x in good), "kind", lambda:
              f"{tag}: {good}")
    res.nontrivial = True


def calm(case, rng, res):
    m = METHODS[case["m"]]
    n, d = case["n"], case["d"]
    nys = m.kind == "nys"
    sub = ["accuracy", "growing", "short"][case["sub"] % 3]
    N = int(rng.integers(20, 200))
    if nys:
        size = 2*n
    else:
        size = n
    w = rng.uniform(.5, 2)
    ph = np.arange(n)
    kw = {}
    if sub == "accuracy":
        # max_step is far within the stability limit
        Q = rot(n, rng)
        lam = 10**rng.uniform(-1, 1, n)
        A = Q @ np.diag(lam) @ Q.T
        kw["max_step"] = .1/lam.max()
        t1 = d*kw["max_step"]*400
    elif sub == "growing":
        lam = 10**rng.uniform(-1, 1, n)
        A = -np.diag(lam)
        kw["max_step"] = .2/lam.max()
        t1 = d*kw["max_step"]*300
    else:
        A = np.diag(10**rng.uniform(2, 4, n))
        N = 20000
        t1 = d*200/A.max()

    def f(t, y):
        if nys:
            x, v = y[:n], y[n:]
            if m.nys_strict:
                return np.concatenate([v, -A @ (x - np.cos(w*t + ph))])
            return np.concatenate([v, -d*(A @ v) - x])
        return -d*(A @ (y - np.cos(w*t + ph)))
    y0 = rng.normal(size=size)
    tol = float(10**rng.uniform(-5, -2))
    rows, warned, calls, (s, msg, init) = go(
        m, f, 0., y0, t1, nfev_stiff_detect=N, rtol=tol, atol=tol, **kw)
    # (a Nystrom problem may have roots near the imaginary axis)
    warned = [w for w in warned if "diagnosed as stiff" in w[1]
              or ("oscillatory" in w[1] and not nys)]
    res.check(not warned, "false alarm", lambda:
              f"{case['m']} {sub}: {warned[:2]}")
    k = np.median([len(c) for c in calls])
    tests = sum(len(c) > k + 1 for c in calls)
    res.count("calm_" + sub)
    res.count("calm_diagnoses", tests)
    res.nontrivial = len(rows) > 20


def stiffSWAG(case, rng, res):
    m = METHODS["SWAG"]
    n, d = case["n"], case["d"]
    Q = rot(n, rng)
    lam = 10**rng.uniform(3, 5)*np.append(1., rng.uniform(0, 1, n - 1))
    A = Q @ np.diag(lam) @ Q.T
    w, ph = rng.uniform(.5, 2), np.arange(n)

    def f(t, y):
        return -d*(A @ (y - np.cos(w*t + ph))) - w*np.sin(w*t + ph)
    tol = float(10**rng.uniform(-4, -2))
    t1 = d*1500/lam.max()
    kw = {}
    k_max = [None, 4, 12, 8][rng.integers(4)]
    if k_max:
        kw["k_max"] = k_max
    rows, warned, calls, (s, msg, init) = go(m, f, 0., np.cos(ph), t1,
                                             rtol=tol, atol=tol, **kw)
    tag = f"SWAG roots {lam.max():.3g} tol={tol:.2g} k_max={k_max}"
    good = [x for x in warned if "appears to be stiff" in x[1]]
    if k_max == 4:
        res.check(not good, "false alarm", lambda: f"{tag} {good}")
    else:
        res.check(bool(good), "no warning", lambda: f"{tag}: no warning in "
                  f"{len(rows)} steps")
        res.count("stiff_runs")
        if good:
            res.peak("SWAG first warning", good[0][0])
    res.nontrivial = len(rows) > 50


def calmSWAG(case, rng, res):
    m = METHODS["SWAG"]
    n, d = case["n"], case["d"]
    Q = rot(n, rng)
    lam = rng.uniform(.3, 2, n)
    K = Q @ np.diag(lam) @ Q.T

    def f(t, y):
        return d*np.append(y[n:], -K @ y[:n])
    tol = float(10**rng.uniform(-11, -7))
    rows, warned, calls, (s, msg, init) = go(
        m, f, 0., rng.normal(size=2*n), d*60., rtol=tol, atol=tol)
    res.check(not warned, "false alarm", lambda:
              f"SWAG tol={tol:.2g}: {warned}")
    res.count("calm_SWAG")
    res.nontrivial = len(rows) > 50


def stiffSSV2stab(case, rng, res):
    m = METHODS["SSV2stab"]
    n, d = case["n"], case["d"]
    lam = 10**rng.uniform(6.8, 8)*np.append(1., rng.uniform(0, 1, n - 1))
    Q = rot(n, rng)
    A = Q @ np.diag(lam) @ Q.T
    rtol = float(10**rng.uniform(-10, -9))
    kw = {}
    if rng.integers(2):
        kw["rho_jac"] = lambda t, y: 1.05*lam.max()
    if rng.integers(2):
        kw["const_jac"] = True

    def f(t, y):
        return -d*(A @ (y - np.cos(t)))
    rows, warned, calls, (s, msg, init) = go(
        m, f, 0., np.ones(n), d*10., rtol=rtol, atol=1e-2, max_steps=60,
        stop="too stiff", **kw)
    tag = f"SSV2stab roots {lam.max():.3g} rtol={rtol:.2g}"
    res.check(any("too stiff" in w for _, w in warned), "no warning", lambda:
              f"{tag} {len(rows)} steps {s.status} {msg}")
    res.count("stiff_runs")
    res.nontrivial = len(rows) > 10


def calmSSV2stab(case, rng, res):
    m = METHODS["SSV2stab"]
    n, d = case["n"], case["d"]
    lam = 10**rng.uniform(0, 4)*np.append(1., rng.uniform(0, 1, n - 1))
    Q = rot(n, rng)
    A = Q @ np.diag(lam) @ Q.T
    tol = float(10**rng.uniform(-5, -2))

    def f(t, y):
        return -d*(A @ (y - np.cos(t)))
    rows, warned, calls, (s, msg, init) = go(
        m, f, 0., rng.normal(size=n), d*4., rtol=tol, atol=tol)
    res.check(not warned, "false alarm", lambda:
              f"SSV2stab roots {lam.max():.3g} tol={tol:.2g}: {warned}")
    res.count("calm_SSV2stab")
    res.nontrivial = len(rows) > 15
