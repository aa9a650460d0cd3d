"""C26: solve_ivp with events, t_eval, dense_output and args."""
import warnings
import numpy as np
from scipy.integrate import solve_ivp
from vlib.core import Result
from vlib import work as W
from vlib.methods import METHODS, ALL

ID = "C26"
QUICK = 5            # repetitions of the set of cases in the quick tier
RULE = ("a case integrates one problem by hand, step by step, keeping all "
        "interpolants, and by solve_ivp with t_eval, events (terminal or not, "
        "with directions, several in one step), dense output and args, and "
        "compares steps, values, event times, states at events and the end of "
        "the integration. Non-trivial if events were found; distinct by "
        "parameters")
ASSUMPTIONS = ["event functions with a clear change of sign",
               "Fi5N with interpolant=1 (which adjusts the solution in place) "
               "only with dense output in every step"]


def gen(tier, rng):
    for name in ALL:
        for k in range(8 if tier == "quick" else 300):
            j = W.job(rng, name, wide=True, length=float(rng.uniform(1, 5)))
            yield dict(job=j, terminal=int(rng.choice([0, 0, 1, 3])),
                       dense=bool(rng.integers(2)) or name == "Fi5N:1", teval=int(
                           rng.integers(3)), args=bool(rng.integers(2)),
                       direction=int(rng.integers(-1, 2)),
                       seed=int(rng.integers(2**31)))


def run(case):
    res = Result()
    j = case["job"]
    m = METHODS[j["m"]]
    rng = np.random.default_rng(case["seed"])
    f, jac, y0 = W.field(j)
    kw = W.kwargs(j, jac)
    kw.update(rtol=j["rtol"], atol=j["atol"])
    t0, t1, d = j["t0"], j["t1"], j["d"]
    tag = f"{j['m']} {t0} .. {t1} {case}"
    # by hand
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = m.cls(f, t0, y0, t1, **kw)
    t, y, o, cum = [t0], [np.array(s.y)], [], [s.nfev]
    while s.status == "running":
        s.step()
        if s.status == "failed":
            res.bad("failed", tag)
            return res
        cum.append(s.nfev)
        o.append(s.dense_output())
        t.append(s.t), y.append(np.array(s.y))
        if len(t) > 20000:
            res.bad("steps", tag)
            return res
    t = np.array(t)
    nfev = s.nfev

    def at(x):
        """interpolated by hand"""
        # (at a step end: the interpolant of the step before, as solve_ivp)
        i = np.searchsorted(d*t, d*x) - 1
        return o[min(max(i, 0), len(o) - 1)](x)
    # events: crossings of a component, and a time
    c = int(rng.integers(len(y0)))
    Y = np.array(y).real[:, c]
    lev = float(np.quantile(Y, rng.uniform(.2, .8)))
    te = float(t0 + (t1 - t0)*rng.uniform(.1, .9))
    te2 = te + d*1e-4

    def g0(t, y, *a):
        return y[c].real - lev

    def g1(t, y, *a):
        return t - te

    def g2(t, y, *a):
        return te2 - t
    g0.direction = case["direction"]
    if case["terminal"]:
        g0.terminal = True if case["terminal"] == 1 else case["terminal"]
    opts = dict(kw)
    fun = f
    if case["args"]:
        par = (1.5, "x")

        def fun(t, y, a, b):
            if (a, b) != par:
                res.bad("args", f"{tag}: {a, b}")
            return f(t, y)
        if callable(kw.get("jac")):
            j0 = kw["jac"]
            opts["jac"] = lambda t, y, a, b: j0(t, y)
        opts["args"] = par
    if case["teval"]:
        x = np.sort(rng.uniform(0, 1, int(rng.integers(1, 40))))
        if case["teval"] == 2:
            x = np.unique(np.r_[0., x, 1.])
        te_ = t0 + x*(t1 - t0)
        te_[x == 1.] = t1
        # some of them at ends of steps
        if len(t) > 4 and len(te_) > 3:
            te_ = te_[te_ != t0][:-1]
            te_ = np.r_[te_, t[1 + rng.integers(len(t) - 1, size=2)]]
            te_ = np.unique(te_)[::d]
        opts["t_eval"] = te_
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = solve_ivp(fun, (t0, t1), y0, method=m.cls, events=[g0, g1, g2],
                      dense_output=case["dense"], **opts)
    # expected crossings, from the values at the ends of the steps
    G = Y - lev
    up = (G[:-1] <= 0) & (G[1:] >= 0)
    down = (G[:-1] >= 0) & (G[1:] <= 0)
    want = {0: up | down, 1: up, -1: down}[case["direction"]]
    if np.any(G == 0):
        return res
    k = np.flatnonzero(want)
    stop = len(t)
    if case["terminal"] and len(k) >= case["terminal"]:
        stop = k[case["terminal"] - 1] + 1
        k = k[:case["terminal"]]
        res.check(r.status == 1, "terminal", lambda: f"{tag} {r.status} "
                  f"{r.message}")
    else:
        res.check(r.status == 0 and r.success, "finished", lambda:
                  f"{tag} {r.status} {r.message}")
    tl, ye = r.t_events, r.y_events
    tend = t[stop - 1] if stop == len(t) else tl[0][-1]
    res.check(len(tl[0]) == len(k), "events", lambda: f"{tag}: {len(k)} steps "
              f"with a crossing, events {tl[0]}")
    sc = np.max(np.abs(y)) + 1
    dt = 1e-13*(abs(t0) + abs(t1)) + 1e-14
    for i, x, v in zip(k, tl[0], ye[0]):
        res.count("events")
        # solve_ivp uses the interpolant of this step
        w = o[i](x)
        slope = np.abs(f(x, w)).max() + 1
        res.check((t[i] - x)*d <= dt and (x - t[i+1])*d <= dt, "event step",
                  lambda: f"{tag}: event at {x}, step {t[i]} .. {t[i+1]}")
        res.check(abs(w[c].real - lev) < 1e-9*sc + 4*dt*slope, "event",
                  lambda: f"{tag}: event at {x}, but y = {w[c]}, not {lev}")
        res.check(np.abs(v - w).max() < 1e-9*sc, "event state", lambda:
                  f"{tag}: state {v} at the event, interpolated {w}")
    for q, z in ((1, te), (2, te2)):
        there = (tend - z)*d > 0 and (t1 - z)*d > 0
        if abs(tend - z) > 1e-9:
            res.check(len(tl[q]) == there and (
                not there or abs(tl[q][0] - z) < 4*dt), "time event", lambda:
                f"{tag}: events at {tl[q]} in place of {z}")
            res.count("events")
    # output
    if case["teval"]:
        keep = opts["t_eval"]
        keep = keep[(tend - keep)*d >= 0]
        res.check(np.array_equal(r.t, keep), "t_eval", lambda:
                  f"{tag}: {r.t}, expected {keep}")
        if len(r.t) == len(keep) > 0:
            for x, v in zip(r.t, r.y.T):
                w = at(x)
                # (the same interpolant; scalar or array argument)
                res.check(np.abs(v - w).max() < 1e-11*sc, "t_eval value",
                          lambda: f"{tag}: {v} at {x}, expected {w}")
                res.count("evaluations")
    else:
        # all steps until the end
        tw = np.r_[t[:stop], tend] if stop < len(t) else t
        res.check(np.array_equal(r.t, tw), "steps", lambda:
                  f"{tag}: {len(r.t)} and {len(tw)} steps")
        if W.dense_ok(j) and len(r.t) == len(tw):
            res.check(np.array_equal(r.y[:, :stop], np.array(y).T[:, :stop]),
                      "states", tag)
    # interpolants are made once for each step, if needed at all: not more
    # evaluations than by hand
    if W.dense_ok(j):
        res.check(r.nfev <= nfev, "nfev", lambda: f"{tag}: {r.nfev} "
                  f"evaluations, by hand {nfev}")
    if case["dense"]:
        x = t0 + rng.uniform(0, 1, 12)*(tend - t0)
        v = r.sol(x)
        for i in range(12):
            w = at(x[i])
            res.check(np.abs(v[:, i] - w).max() < 1e-11*sc and
                      np.abs(r.sol(x[i]) - w).max() < 1e-11*sc, "sol",
                      lambda: f"{tag}: {v[:, i]} at {x[i]}, expected {w}")
        res.check(r.sol.t_min == min(t0, tend) and r.sol.t_max == max(
            t0, tend), "sol span", tag)
        if not case["teval"]:
            e = np.abs(r.sol(r.t) - r.y).max()
            res.check(e < 1e-9*sc, "sol at steps", lambda: f"{tag} {e}")
    else:
        res.check(r.sol is None, "sol", tag)
    res.nontrivial = len(k) > 0
    res.count("steps", len(t))
    res.sample = dict(method=j["m"], events=len(k), steps=len(t))
    return res
