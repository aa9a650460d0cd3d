"""C23: second order methods take second order problems, and only those."""
import numpy as np
from scipy.integrate import solve_ivp
from vlib.core import Result, Budget
from vlib.methods import METHODS, NYS

ID = "C23"
QUICK = 4            # repetitions of the set of cases in the quick tier
RULE = ("a case offers a Nystrom method a problem that is (in form of initial "
        "state, sizes and couplings) unusual but correct, and compares the "
        "solution to an independent one; or a problem of a wrong structure, "
        "which must be rejected before integrating. Non-trivial always; "
        "distinct by parameters")
ASSUMPTIONS = ["a wrong structure is visible at the initial point",
               "couplings to the velocities that are above rounding"]


def gen(tier, rng):
    for name in NYS:
        for k in range(100 if tier == "quick" else 900):
            yield dict(m=name, kind="accept" if k % 2 else "reject",
                       n=int(rng.integers(1, 6)), d=int(rng.choice([-1, 1])),
                       cplx=bool(rng.integers(3) == 0),
                       start=str(rng.choice(["random", "same", "rest", "zero",
                                             "ints", "tiny", "opposite",
                                             "units", "minus"])),
                       seed=int(rng.integers(2**31)))


def run(case):
    res = Result()
    m = METHODS[case["m"]]
    rng = np.random.default_rng(case["seed"])
    n, d = case["n"], case["d"]
    c = (1 + .5j) if case["cplx"] else 1.
    k = rng.uniform(.2, 5, n)
    S = rng.normal(size=(n, n))*.2
    G = rng.normal(size=(n, n))*.3
    G = G - G.T - .1*np.eye(n)*d
    w = rng.uniform(.5, 3)
    x, v = rng.normal(size=n), rng.normal(size=n)
    st = case["start"]
    if st == "same":
        v = x.copy()
    elif st == "rest":
        v[:] = 0
    elif st == "zero":
        v[:] = x[:] = 0
    elif st == "ints":
        x, v = np.round(3*x), np.round(3*v)
    elif st == "tiny":
        v *= 1e-12
    elif st == "units":
        x, v = rng.integers(-1, 2, n)*1., rng.integers(-1, 2, n)*1.
    elif st == "minus":
        x[:] = v[:] = -1.
    elif st == "opposite":
        v = -x
    x, v = c*x, c*v
    y0 = np.concatenate([x, v])
    if st == "ints" and not case["cplx"] and rng.integers(2):
        y0 = y0.astype(int)
    mixed = not m.nys_strict

    def acc(t, x, v):
        a = -k*x + S @ (np.tanh(x.real)) + c*np.cos(w*t)
        if mixed:
            a = a + G @ v
        return a

    def f(t, y):
        return np.concatenate([y[n:], acc(t, y[:n], y[n:])])
    t0 = float(np.round(rng.uniform(-2, 2), 2))
    t1 = t0 + 3*d
    if case["kind"] == "accept":
        tol = float(10**rng.uniform(-8, -4))
        ncall = [0]

        def fun(t, y):
            ncall[0] += 1
            if ncall[0] > 200000:
                raise Budget("fun")
            return f(t, y)
        r = solve_ivp(fun, (t0, t1), y0, method=m.cls, rtol=tol, atol=tol,
                      dense_output=True, **m.opts)
        if not res.check(r.success, "failed", f"{case} {r.message}"):
            return res
        q = solve_ivp(f, (t0, t1), y0.astype(complex if case["cplx"] else
                                             float), method="DOP853",
                      rtol=1e-11, atol=1e-11, dense_output=True)
        te = np.linspace(t0, t1, 23)
        e = np.abs(r.sol(te) - q.sol(te))/(tol*(1 + np.abs(q.sol(te))))
        e = np.sqrt((e**2).mean(axis=0)).max()
        lim = 200 + 20*len(r.t)
        res.peak("error/limit", e/lim)
        res.check(e < lim, "accuracy", f"{case} error {e:.3g} times the "
                  "tolerance")
        res.count("accepted")
    else:
        opts = ["swapped", "first order", "scaled", "offset", "one", "odd",
                "position"]
        if m.nys_strict:
            opts += ["velocity"]*7
        what = str(rng.choice(opts))
        j = int(rng.integers(n))
        u = float(10**rng.uniform(-5, 1))*rng.choice([-1, 1])

        def g(t, y):
            a = acc(t, y[:n], y[n:])
            v = np.array(y[n:])
            if what == "swapped":
                return np.concatenate([a, v])
            if what == "first order":
                return -np.arange(1, 2*n + 1)*y + 1
            if what == "scaled":
                v = v*(1 + u)
            elif what == "offset":
                v = v + u
            elif what == "one":
                v[j] += u
            elif what == "position":
                v = np.array(y[:n])
            elif what == "velocity":
                a[j] += u*y[n + j] if rng2 else u*y[n + j]**2 + u*y[n + j]
            return np.concatenate([v, a])
        rng2 = rng.integers(2)
        if what == "odd":
            y0 = np.append(y0, 1.)

            def g(t, y):
                return 1*y
        # not visible or not wrong at this initial state
        f0 = g(t0, y0.astype(complex if case["cplx"] else float))
        if what not in ("odd", "velocity", "position") and \
                np.array_equal(f0[:n], y0[n:]):
            return res
        if what == "position" and st == "zero":
            pass
        calls = [0]

        def fun(t, y):
            calls[0] += 1
            return g(t, y)
        try:
            m.cls(fun, t0, y0, t1, **m.opts)
            ok = False
        except (AssertionError, ValueError) as e:
            ok = True
        res.check(ok, what, f"{case}: not rejected, u={u}")
        res.check(calls[0] < 20, "evaluations", f"{case}: {calls[0]}")
        res.count("rejected_" + what.replace(" ", "_"))
    res.nontrivial = True
    return res
