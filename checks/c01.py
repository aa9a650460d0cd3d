"""C01: integrations advance strictly and end exactly at the requested time."""
import numpy as np
from scipy.integrate import solve_ivp
from vlib.core import Result
from vlib.drive import run as drive, Log
from vlib.methods import METHODS, ALL, BASE
from vlib import problems as P

ID = "C01"
QUICK = 4            # repetitions of the set of cases in the quick tier
RULE = ("a case is a batch of integrations of one method over random and "
        "adversarial intervals (decimal end points, both directions, large "
        "offsets, tiny, integer and infinite intervals) with random "
        "tolerance, max_step, first_step; non-trivial if at least one "
        "integration took 2 or more steps; distinct by its full parameters")
ASSUMPTIONS = ["right hand sides are smooth and bounded on the interval",
               "intervals are longer than 1e-10 relative to |t|"]


def gen(tier, rng):
    reps = 3 if tier == "quick" else 14
    for name in ALL:
        for k in range(reps):
            yield dict(m=name, seed=int(rng.integers(2**31)),
                       n=40 if tier == "quick" else 60)
    for name in BASE:
        yield dict(m=name, seed=int(rng.integers(2**31)), n=6, special=True)


def cost(c):
    return (2. if "stab" in c["m"] else 1.)


def interval(rng):
    """(t0, t1) pairs that are prone to rounding trouble"""
    k = rng.integers(8)
    d = rng.choice([-1, 1])
    if k <= 2:        # decimals
        nd = int(rng.integers(1, 4))
        t0 = float(np.round(rng.uniform(-5, 5), nd))
        t1 = float(np.round(t0 + d*rng.uniform(.2, 4), nd))
    elif k == 3:      # through or from zero
        t0 = float(rng.choice([0., -1., 1., .1, -.1]))
        t1 = float(np.round(t0 + d*rng.uniform(.2, 4), 2))
    elif k == 4:      # large offset
        t0 = float(rng.choice([1e2, 1e3, 1e5, -1e4])*rng.uniform(.5, 1))
        t1 = t0 + d*float(rng.uniform(.2, 4))
    elif k == 5:      # tiny interval
        t0 = float(rng.choice([0., rng.uniform(-3, 3)]))
        t1 = t0 + d*10**float(rng.uniform(-7, -2))
    elif k == 6:      # integers
        t0 = int(rng.integers(-5, 5))
        t1 = t0 + int(d*rng.integers(1, 5))
    else:
        t0 = float(rng.uniform(-5, 5))
        t1 = t0 + d*float(rng.uniform(.2, 4))
    if t1 == t0:
        t1 = t0 + d
    return t0, t1


def rhs(meth, rng, d=1, linear=False):
    """a smooth bounded problem defined for all t"""
    n = int(rng.integers(1, 3))
    K = P.rand_spd(rng, n)
    w = rng.uniform(.5, 2)
    if meth.kind == "ssv":
        # this method is for dissipative problems with a real spectrum
        def f(t, y):
            return d*(np.cos(w*t) - K @ y)
        return f, rng.normal(size=n)
    if meth.second_order_only or rng.integers(2):
        def f(t, y):
            return np.concatenate([y[n:], -K @ y[:n] + np.cos(w*t)])
        y0 = rng.normal(size=2*n)
    else:
        def f(t, y):
            return -K @ (y if linear else np.sin(y)) + np.cos(w*t)
        y0 = rng.normal(size=n)
    return f, y0


def run(case):
    res = Result()
    m = METHODS[case["m"]]
    rng = np.random.default_rng(case["seed"])
    if case.get("special"):
        return special(case, res, m, rng)
    for _ in range(case["n"]):
        t0, t1 = interval(rng)
        f, y0 = rhs(m, rng, np.sign(t1 - t0))
        L = abs(t1 - t0)
        kw = dict(rtol=float(10**rng.uniform(-7, -2)),
                  atol=float(10**rng.uniform(-8, -3)), **m.opts)
        if m.kind == "ssv" or m.order < 4:
            kw["rtol"] = max(kw["rtol"], 1e-5)
            kw["atol"] = max(kw["atol"], 1e-6)
        if rng.integers(3) == 0:
            kw["max_step"] = float(np.round(L/rng.uniform(1, 20), 6)) or L
        if rng.integers(3) == 0:
            kw["first_step"] = float(L/10**rng.uniform(0, 3))
        if rng.integers(4) == 0:
            # steps of max_step fit in the interval, up to rounding
            n = int(rng.integers(2, 60))
            step = float(rng.choice([L/n, np.round(10**rng.uniform(-2, 0), 2)]))
            if rng.integers(2):
                t1 = t0 + float(np.sign(t1 - t0))*n*step
            kw["max_step"] = step*(1 + int(rng.integers(-3, 4))*2.**-52)
            kw["first_step"] = step
            kw["rtol"] = kw["atol"] = 1e-2
            if t1 == t0 or abs(t1 - t0) < step or abs(t0) > 1e8*step:
                continue

            def f(t, y, g=f):
                # a slow solution
                s = np.array(g(t, y))
                k = len(s)//2 if np.all(s[:len(s)//2] == y[len(s)//2:]) \
                    and len(s) > 1 else 0
                s[k:] = s[k:]*1e-6
                return s
            res.count("fitting_max_steps")
        tag = f"t0={t0!r} t1={t1!r} {kw}"
        tr = drive(m.cls, f, t0, y0, t1, max_steps=20000, **kw)
        judge(res, tr, t0, t1, tag)
        if tr.n_steps > 1:
            res.nontrivial = True
        # the same through solve_ivp
        if rng.integers(4) == 0:
            s = solve_ivp(Log(f), (t0, t1), y0, method=m.cls, **kw)
            res.count("solve_ivp_runs")
            res.check(s.status == 0 and s.success, "ivp-status",
                      lambda: f"{s.message} {tag}")
            res.check(s.t[0] == t0 and s.t[-1] == t1, "ivp-end",
                      lambda: f"{s.t[0]!r}..{s.t[-1]!r} {tag}")
            res.check(np.all(np.diff(s.t)*np.sign(t1 - t0) > 0),
                      "ivp-monotone", tag)
    res.sample = dict(method=case["m"], t0=t0, t1=t1, steps=tr.n_steps,
                      kw={k: v for k, v in kw.items()})
    return res


def judge(res, tr, t0, t1, tag):
    d = np.sign(t1 - t0)
    res.count("integrations")
    res.count("steps", tr.n_steps)
    res.check(tr.status == "finished", "status",
              lambda: f"status {tr.status}: {tr.message} at t={tr.t[-1]!r} "
              f"{tag}")
    res.check(tr.t[0] == t0, "start", tag)
    dt = np.diff(tr.t)*d
    res.check(np.all(dt > 0), "monotone", lambda: f"min step {dt.min()} {tag}")
    res.check(np.all((t1 - tr.t)*d >= 0), "passes-end",
              lambda: f"t={tr.t[-1]!r} {tag}")
    if tr.status == "finished":
        res.check(tr.t[-1] == t1, "end", lambda: f"t={tr.t[-1]!r} {tag}")
        res.check(tr.message is None, "message", tag)
    res.check(np.all(np.isfinite(tr.y)), "finite", tag)
    res.peak("steps", tr.n_steps)


def special(case, res, m, rng):
    """zero length, empty and infinite intervals"""
    for k in range(case["n"]):
        # infinite interval, ended by an event
        tev = float(rng.uniform(.5, 4))
        t0 = float(rng.choice([0., 0., rng.uniform(-3, 3)]))
        d = float(rng.choice([-1, 1]))
        f, y0 = rhs(m, rng, d)

        def ev(t, y):
            return t - t0 - d*tev
        ev.terminal = True
        log = Log(f, keep=True)
        s = solve_ivp(log, (t0, d*np.inf), y0, method=m.cls, events=ev,
                      rtol=1e-4, atol=1e-5)
        res.count("infinite_runs")
        res.check(s.status == 1, "infinite-status",
                  lambda: f"{s.status} {s.message}")
        res.check(np.all(np.diff(s.t)*d > 0), "infinite-monotone", "")
        if s.status == 1:
            res.check(abs(s.t[-1] - t0 - d*tev) < 1e-8, "infinite-end",
                      lambda: f"{s.t[-1]} {t0 + d*tev}")
        res.check(np.all(np.isfinite(log.t)), "infinite-eval-time",
                  "right hand side evaluated at non-finite t")
        res.check(np.all(np.isfinite(s.y)), "infinite-finite", "")
        # zero length
        s = solve_ivp(Log(f), (t0, t0), y0, method=m.cls)
        res.check(s.status == 0 and np.all(s.t == t0), "zero-length",
                  lambda: f"{s.status} {s.t}")
        # after the end, and after failure, step() refuses to go on
        sol = m.cls(f, t0, y0, t0 + d*.01)
        for _ in range(1000):
            if sol.status != "running":
                break
            told = sol.t
            sol.step()
            res.check(sol.t_old == told, "t_old", f"{sol.t_old} {told}")
        res.check(sol.status == "finished" and sol.t == t0 + d*.01,
                  "short", lambda: f"{sol.status} {sol.t!r}")
        try:
            sol.step()
            res.bad("step-after-end", "step() accepted after the end")
        except RuntimeError:
            pass
    res.nontrivial = True
    return res
