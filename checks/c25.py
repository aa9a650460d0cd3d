"""C25: nan, inf and exceptions from the user's functions."""
import numpy as np
from scipy.integrate import solve_ivp
from vlib.core import Result, Budget
from vlib.methods import METHODS, ALL

ID = "C25"
QUICK = 1            # repetitions of the set of cases in the quick tier
RULE = ("a case is an integration in which the right hand side (or Jacobian, "
        "rho_jac) returns nan or inf from some time on, in a part of the "
        "state space, in a short interval, everywhere after the start or "
        "some call, or in one call; or raises an "
        "exception; or has a pole. Non-trivial if the fault occurred after "
        "the construction; distinct by parameters")
ASSUMPTIONS = ["faults are nan and inf (finite values near overflow are not "
               "used)", "an exception (ValueError, LinAlgError) is accepted "
               "as rejection of a nonfinite Jacobian or initial derivative",
               "SWAG is not used in the cases with a pole",
               "Fi5N with interpolant=1 (which adjusts the solution in place) "
               "without dense output",
               "the solution is not close to t = 0 if it approaches an "
               "undefined part"]
KINDS = ["from", "state", "window", "once", "jac", "raise", "pole", "start"]


class Fault(Exception):
    pass


def gen(tier, rng):
    quick = tier == "quick"
    for name in ALL:
        for k in range(40 if quick else 700):
            yield dict(m=name, kind=KINDS[k % 8], n=int(rng.integers(1, 4)),
                       d=int(rng.choice([-1, 1])),
                       cplx=bool(rng.integers(4) == 0),
                       bad=str(rng.choice(["nan", "inf", "-inf"])),
                       seed=int(rng.integers(2**31)))


def problem(case, m, rng):
    """a well behaved problem"""
    n, d = case["n"], case["d"]
    c = (1 + .3j) if case["cplx"] and m.complex_ok else 1.
    W = rng.normal(size=(n, n))
    W = .8*(W - W.T)
    w, p = rng.uniform(.5, 3), rng.uniform(0, 6, n)
    lam = np.zeros(n)
    if m.kind in ("ssv", "esdirk"):
        lam = 10**rng.uniform(0, 2, n)
    A = W*(.3 if m.kind == "ssv" else 1) - np.diag(lam)
    if m.kind == "nys":
        A = -np.diag(rng.uniform(.5, 5, n))

        def f(t, y):
            return np.concatenate([y[n:], A @ y[:n] + c*np.cos(w*t + p)])
        y0 = c*rng.normal(size=2*n)
        return f, y0, None

    def f(t, y):
        return d*(A @ y) + (lam + 1)*c*np.cos(w*t + p)
    return f, c*rng.normal(size=n), d*A


def run(case):
    res = Result()
    m = METHODS[case["m"]]
    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "pole":
        return pole(case, m, rng, res)
    f, y0, A = problem(case, m, rng)
    n, d, kind = len(y0), case["d"], case["kind"]
    bad = float(case["bad"])
    # (near t = 0 the smallest possible step is so small that the edge of an
    # undefined part can be approached without end)
    t0 = d*float(np.round(rng.uniform(1, 4), 2))
    if kind == "start":
        t0 = d*[0., 0., 1e-300, 1e-3, 2.][rng.integers(5)]*int(
            rng.choice([-1, 1]))
    t1 = t0 + 4*d
    tol = float(10**rng.uniform(-7, -3)) if m.order > 2 else 1e-4
    kw = dict(m.opts, rtol=tol, atol=tol, max_step=.4)
    if rng.integers(2):
        kw["first_step"] = float(10**rng.uniform(-3, -.5))
    comp = int(rng.integers(n))
    if m.kind == "nys":
        comp = n//2 + comp//2
    allc = rng.integers(2)
    ta = t0 + d*rng.uniform(.3, 2.)
    tb = ta + d*10**rng.uniform(-3, -.3)
    when = int(rng.integers(1, 150))
    if m.kind == "esdirk":
        when = int(rng.integers(1, 400))
    later = bool(rng.integers(2))       # or from some call on
    info = dict(calls=0, faults=0, after=0)

    def fun(t, y):
        info["calls"] += 1
        if info["faults"]:
            info["after"] += 1
        if info["calls"] > 60000:
            raise Budget(f"{info['calls']} evaluations, "
                         f"{info['after']} after the first fault")
        # (called with nonfinite states: return what numpy makes of it)
        out = f(t, y)
        hit = False
        if kind == "from":
            hit = (t - ta)*d > 0
        elif kind == "start":
            # (undefined everywhere after the start)
            hit = info["calls"] > when if later else t != t0
        elif kind == "window":
            hit = (t - ta)*d > 0 > (t - tb)*d
        elif kind == "state":
            hit = bool(np.any(np.abs(y - y0) > lim))
        elif kind == "once":
            hit = info["calls"] == when
        elif kind == "raise" and where == "fun":
            if info["calls"] == when:
                info["faults"] += 1
                raise fault
        if hit:
            info["faults"] += 1
            out = np.array(out)
            if allc and m.kind != "nys":
                out[:] = bad
            else:
                out[comp] = bad
        return out
    lim = float(rng.uniform(.2, 1.5))
    where, fault = "fun", Fault("from the user")
    if kind in ("jac", "raise") and m.kind in ("esdirk", "ssv") and (
            kind == "jac" or rng.integers(2)):
        where = "jac"
    jcalls = [0]
    jwhen = int(rng.integers(1, 6))
    if m.kind == "esdirk" and rng.integers(4):
        def jac(t, y):
            jcalls[0] += 1
            J = np.array(A, y.dtype)
            if where == "jac" and jcalls[0] == jwhen:
                info["faults"] += 1
                if kind == "raise":
                    raise fault
                J[rng.integers(n), rng.integers(n)] = bad
            return J
        kw["jac"] = jac
        kw["jac_each_step"] = True
    elif m.kind == "ssv" and (where == "jac" or rng.integers(2)):
        rho = float(np.abs(np.linalg.eigvals(A)).max())*1.2

        def rho_jac(t, y):
            jcalls[0] += 1
            if where == "jac" and jcalls[0] == jwhen:
                info["faults"] += 1
                if kind == "raise":
                    raise fault
                return bad
            return rho
        kw["rho_jac"] = rho_jac
    info["matrix"] = where == "jac" or m.kind == "esdirk" and "jac" not in kw
    tag = f"{case['m']} {kind} {case['bad']} t0={t0} d={d} ta={ta}"
    status, t, y, steps = integrate(res, tag, m, fun, t0, y0, t1, kw, info,
                                    rng)
    res.count(str(status).split(":")[0])
    res.count("faults", info["faults"])
    res.nontrivial = info["faults"] > 0
    if kind == "raise":
        res.check(status == ("raised" if info["faults"] else "finished"),
                  "exception", f"{tag}: exception of the user at {where}, "
                  f"number of faults {info['faults']}, but: {status}")
        return res
    if kind == "from":
        res.check(status != "finished", "finished", f"{tag}: finished "
                  "through an undefined part")
    if kind == "start" and not later:
        res.check(status != "finished" and steps == 0, "finished", f"{tag}: "
                  f"{status}, {steps} steps, undefined after the start")
    if kind == "from":
        res.check((t - ta)*d < .41, "too far",
                  f"{tag}: integrated to {t}")
    if status == "raised":
        res.bad("exception", f"{tag}: exception of nobody")
    if status == "finished":
        # it has avoided the fault
        ref = solve_ivp(f, (t0, t1), y0, method="DOP853", rtol=1e-10,
                        atol=1e-10)
        e = np.sqrt(np.mean(np.abs((y - ref.y[:, -1])/(
            tol*(1 + np.abs(y))))**2))
        limit = 500 + 50*steps
        res.peak("log10 error/limit", np.log10(e/limit + 1e-300))
        res.check(e < limit, "accuracy", f"{tag}: finished with error {e:.3g}"
                  f" times the tolerance, after {info['faults']} faults")
    return res


def integrate(res, tag, m, fun, t0, y0, t1, kw, info, rng):
    """status, last state, number of steps"""
    t, y = t0, y0
    steps = 0
    s = None
    try:
        s = m.cls(fun, t0, y0, t1, **kw)
        while s.status == "running":
            told, yold = s.t, np.array(s.y)
            msg = s.step()
            if s.status == "failed":
                res.check(isinstance(msg, str) and msg, "message",
                          f"{tag}: {msg!r}")
                res.check(s.t == told and np.array_equal(s.y, yold), "moved",
                          f"{tag}: failed, but moved from {told}, {yold} to "
                          f"{s.t}, {s.y}")
                return "failed: " + str(msg), s.t, s.y, steps
            steps += 1
            t, y = s.t, s.y
            if not res.check(np.all(np.isfinite(y)), "nonfinite", f"{tag}: "
                             f"accepted step {told} .. {t} to {y}"):
                return "accepted", t, y, steps
            if rng.integers(4) == 0 and m.name != "Fi5N:1":
                s.dense_output()
        return "finished", s.t, s.y, steps
    except Fault as e:
        return "raised", t, y, steps
    except (ValueError, np.linalg.LinAlgError, OverflowError,
            FloatingPointError) as e:
        # a nonfinite matrix or number can't be used
        ok = info["faults"] > 0 and any(w in str(e).lower() for w in (
            "nan", "inf", "finite", "singular", "sv", "domain", "positive"))
        # (in the steps only if a matrix or spectral radius is useless)
        ok = ok and (s is None or info["matrix"])
        res.count("exceptions_in_step", s is not None)
        if not ok:
            res.bad("exception", f"{tag}: {e!r}")
        return "exception: " + type(e).__name__, t, y, steps
    except AssertionError:
        # (the structure can't be verified with nan)
        if m.kind != "nys" or steps or not info["faults"]:
            raise
        return "exception: structure", t, y, steps


def pole(case, m, rng, res):
    """the solution goes to infinity before the end"""
    if m.kind in ("swag", "ssv"):
        return res
    n, d = 1, case["d"]
    t0 = float(np.round(rng.uniform(-2, 2), 2))
    tp = rng.uniform(.5, 2.)
    calls = [0]
    y0 = np.array([1/tp])
    if m.kind == "nys":
        y0 = np.array([6/tp**2, d*12/tp**3])

    def fun(t, y):
        calls[0] += 1
        if calls[0] > 100000:
            raise Budget("pole")
        if m.kind == "nys":
            return np.array([y[1], y[0]**2])
        return d*y*y
    tol = float(10**rng.uniform(-7, -3))
    kw = dict(m.opts, rtol=tol, atol=tol)
    if m.kind == "esdirk":
        kw["jac"] = lambda t, y: np.array([[2*d*y[0]]])
    status, t, y, steps = integrate(
        res, f"{case['m']} pole at {t0 + d*tp}", m, fun, t0, y0, t0 + 4*d,
        kw, dict(faults=0), rng)
    res.nontrivial = True
    res.count("poles")
    res.check(status.startswith("failed"), "pole", f"{case['m']} t0={t0} "
              f"tp={tp} tol={tol}: {status} at {t}, {y} after {steps} steps")
    res.check((t - t0)*d < tp*1.01 + 10*tol, "over the pole",
              f"{case['m']} t0={t0} tp={tp} tol={tol}: went to {t}")
    return res
