"""C14: arguments are validated, clipped and defaulted as documented."""
import warnings
import numpy as np
import extensisq as ex
from scipy.sparse import csc_array
from vlib.core import Result
from vlib import work as W
from vlib.methods import METHODS, ALL, BASE
from vlib.sens import Problem

ID = "C14"
QUICK = 6            # repetitions of the set of cases in the quick tier
RULE = ("a case takes a random valid integration. Kind invalid: one random "
        "invalid argument is added, constructing must raise the documented "
        "error. Kind same: two notations of the same arguments (omitted and "
        "documented default, scalar and array, out of range and clipped "
        "tolerances, unknown options) must give bitwise equal trajectories. "
        "Kind sens: invalid arguments of the sensitivity functions. "
        "Non-trivial if an error was observed or 5 or more steps were "
        "compared; distinct by parameters")
ASSUMPTIONS = ["the type of the error is checked, not its text"]
COUNT = {}
SC = dict(BS5="standard", Pr9="standard", Pr7="S")


def gen(tier, rng):
    k = 3 if tier == "quick" else 30
    for name in ALL:
        for _ in range(4*k):
            COUNT[name] = COUNT.get(name, -1) + 1      # all options in turn
            yield dict(kind="invalid", job=W.job(rng, name), i=COUNT[name],
                       seed=int(rng.integers(2**31)))
        for _ in range(2*k):
            yield dict(kind="same", job=W.job(rng, name),
                       seed=int(rng.integers(2**31)))
    for _ in range(20*k):
        yield dict(kind="sens", seed=int(rng.integers(2**31)))


def run(case):
    res = Result()
    rng = np.random.default_rng(case["seed"])
    {"invalid": invalid, "same": same, "sens": sens}[case["kind"]](
        case, rng, res)
    return res


def invalid(case, rng, res):
    j = case["job"]
    m = METHODS[j["m"]]
    f, jac, y0 = W.field(j)
    n = len(y0)
    L = abs(j["t1"] - j["t0"])
    u = float(10**rng.uniform(-9, 2))
    V = ValueError
    neg = np.full(n, 1e-4)
    neg[rng.integers(n)] = -u
    opts = [
        ("rtol", -u, V), ("rtol", int(rng.integers(0, 3)), V),
        ("rtol", np.full(n, 1e-4), V), ("rtol", [1e-4]*n, V),
        ("atol", -u, V), ("atol", neg, V), ("atol", list(neg), V),
        ("atol", np.full(n + int(rng.integers(1, 3)), u), V),
        ("atol", np.full((n, 1), u), V), ("atol", [u]*(2*n), V),
        ("max_step", 0., V), ("max_step", -u, V), ("max_step", -np.inf, V),
        ("first_step", 0., V), ("first_step", -u, V),
        ("first_step", L*(1 + float(10**rng.uniform(-6, 1))), V)]
    if m.kind in ("rk", "nys", "esdirk"):
        opts += [("sc_params", str(rng.choice(["g", "H", "W", "Gustafsson",
                                               "default", "S2"])), V),
                 ("sc_params", (.7, -.4, 0.), V),
                 ("sc_params", (.7, -.4, 0., .9, 1.), V),
                 ("sc_params", [.7, -.4, 0., .9], V),
                 ("sc_params", 1., V)]
    if m.kind in ("rk", "nys") and j["m"] != "CKdisc":
        opts += [("nfev_stiff_detect", -int(rng.integers(1, 999)), V),
                 ("nfev_stiff_detect", float(rng.integers(1, 999)), V),
                 ("nfev_stiff_detect", "on", V)]
    if "interpolant" in m.opts or j["m"] in (
            "BS5", "Fi5N", "Mu5Nmb", "KC3I", "KC4I", "KC4Ia", "Kv3I"):
        opts += [("interpolant", "c1", V), ("interpolant", -1, V),
                 ("interpolant", 4, V), ("interpolant", "cubic", V),
                 ("interpolant", None, V), ("interpolant", "", V)]
    if j["m"] == "SWAG":
        opts += [("k_max", int(rng.choice([-1, 13, 20])), V), ("k_max", 0, V),
                 ("k_max", "12", V),
                 ("k_max", 3.5, V)]
    if m.kind == "esdirk":
        k = n + int(rng.choice([-1, 1]))
        opts += [("jac", np.eye(k), V), ("jac", lambda t, y: np.eye(k), V),
                 ("jac", np.ones((n, n + 1)), V), ("M", np.eye(n + 1), V),
                 ("M", np.ones(n + 1), V), ("M", np.ones((n, n, n)), V),
                 ("M", np.ones((n, n + 1)), V), ("M", np.ones((n + 1, n)), V),
                 ("M", csc_array(np.ones((n + 1, n))), V),
                 ("M", 1., V), ("jac", np.ones((n + 1, n)), V),
                 ("jac", csc_array(np.ones((n + 1, n))), V),
                 ("jac", lambda t, y: csc_array(np.ones((n + 1, n))), V)]
        if n == 1:
            opts = [o for o in opts if not (o[0] == "jac" and k == 0)]
    if m.kind == "ssv":
        T = TypeError
        opts += [("rho_jac", 100., T), ("y0", y0 + 1j, V),
                 ("rho_jac", lambda t, y: 0., V),
                 ("rho_jac", lambda t, y: -u, V),
                 ("rho_jac", lambda t, y: "1", T),
                 ("rho_jac", lambda t, y: np.full(1, u), T),
                 ("const_jac", str(rng.choice(["yes", "no", ""])), T),
                 ("const_jac", 1, T), ("const_jac", 0, T),
                 ("const_jac", None, T), ("const_jac", 1., T)]
    y = y0.copy()
    y[rng.integers(n)] = rng.choice([np.nan, np.inf])
    opts += [("y0", y, V), ("y0", np.array([y0, y0]), V)]
    cplx_f = (lambda t, y: f(t, y) + 1j)
    i = case["i"] % len(opts)
    key, val, err = opts[i]
    kw = W.kwargs(j, jac)
    kw.update(rtol=j["rtol"], atol=j["atol"])
    if key == "y0":
        y0 = val
        if rng.integers(2):
            kw.pop("jac", None)
    else:
        kw[key] = val
    calls = [0]

    def fun(t, y):
        calls[0] += 1
        return f(t, y)
    try:
        s = m.cls(fun, j["t0"], y0, j["t1"], **kw)
    except err:
        res.count("errors")
        res.nontrivial = True
        res.check(calls[0] < 40, "late", f"{j['m']} {key}={val}: {calls[0]} "
                  "evaluations before the error")
    except Exception as e:
        res.bad("type " + key, f"{j['m']} {key}={val}: {e!r}, expected {err}")
    else:
        res.bad("accepted " + key, f"{j['m']}: {key}={val} is accepted, the "
                f"solver has h_abs={getattr(s, 'h_abs', None)}")
    res.sig = (j["m"], i)
    res.sample = dict(method=j["m"], option=key, value=str(val))


def same(case, rng, res):
    j = case["job"]
    m = METHODS[j["m"]]
    f, jac, y0 = W.field(j)
    f0 = f
    n = len(y0)
    kw = W.kwargs(j, jac)
    kw.update(rtol=j["rtol"], atol=j["atol"])
    A, B = dict(kw), dict(kw)
    tiny = np.finfo(float).tiny**.5
    eps = np.finfo(float).epsneg
    y0a = y0b = y0
    warns = False
    what = []
    zero = None

    def idle(i):
        return [i, i + n//2] if m.kind == "nys" else [i]
    for _ in range(2):
        k = int(rng.integers(16))
        if k == 15:
            k = 14
        what.append(k)
        if k == 14 and (zero is not None or n < 2):
            continue
        if k == 0:
            big = float(10**rng.uniform(-.9, 3))
            if big > .1:
                A["rtol"], B["rtol"] = big, .1
        elif k == 1:
            # the smallest rtol: only a few steps
            A["rtol"] = float(rng.choice([0., 1e-30, 5*eps]))
            B["rtol"] = 10*eps
        elif k == 2:
            small = float(rng.choice([0., 1e-200, tiny/2]))
            A["atol"], B["atol"] = small, tiny
        elif k == 3:
            A["atol"], B["atol"] = j["atol"], [j["atol"]]*n
        elif k == 4:
            a = j["atol"]*10**rng.uniform(-1, 1, size=n)
            A["atol"], B["atol"] = a, tuple(a)
        elif k == 5:
            A["atol"] = np.zeros(n)
            A["atol"][rng.integers(n)] = j["atol"]
            B["atol"] = np.maximum(A["atol"], tiny)
        elif k == 14:
            # a component that is and remains zero, without tolerance
            zero = int(rng.integers(n//(2 if m.kind == "nys" else 1)))
            A["atol"] = np.full(n, j["atol"])
            A["atol"][idle(zero)] = 0.
            B["atol"] = np.maximum(A["atol"], tiny)
        elif k == 6:
            A["rtol"], B["rtol"] = 1e-3, None
        elif k == 7:
            A["atol"], B["atol"] = 1e-6, None
        elif k == 8:
            A["max_step"], B["max_step"] = np.inf, None
        elif k == 9:
            A["first_step"], B["first_step"] = None, "omit"
        elif k == 10:
            B["some_option"] = 1
            warns = True
        elif k == 11 and A["rtol"] == B.get("rtol") == j["rtol"]:
            A["rtol"] = np.float64(j["rtol"])
        elif k == 12:
            y0a = list(y0) if rng.integers(2) else tuple(y0)
        elif k == 13:
            base = j["m"].split(":")[0]
            A.pop("sc_params", None)
            B.pop("sc_params", None)
            if m.kind in ("rk", "nys", "esdirk") and base != "CKdisc":
                B["sc_params"] = SC.get(base, "G") if \
                    m.kind != "esdirk" else "G"
                A.pop("nfev_stiff_detect", None)
                if m.kind != "esdirk":
                    B["nfev_stiff_detect"] = 5000
            if base == "SWAG":
                A.pop("k_max", None)
                B["k_max"] = 12
            if m.kind == "ssv":
                A.pop("const_jac", None)
                A.pop("rho_jac", None)
                B["const_jac"], B["rho_jac"] = False, None
            if m.kind == "esdirk":
                A.pop("jac_each_step", None)
                B["jac_each_step"] = False
                B["M"] = None
            d = dict(BS5="low", Fi5N=0, Mu5Nmb="better", KC3I="C0",
                     KC4I="C0", KC4Ia="C0", Kv3I="C0")
            if base in d and not m.opts:
                B["interpolant"] = d[base]
    for D in (A, B):
        for k in [k for k, v in D.items() if (v is None and k in (
                "rtol", "atol", "max_step")) or (isinstance(v, str)
                                                 and v == "omit")]:
            del D[k]

    if zero is not None:
        i = idle(zero)
        y0a, y0b = np.array(y0a), np.array(y0b)
        y0a[i] = y0b[i] = 0.

        def fz(t, y):
            o = np.array(f(t, y))
            o[i[-1:]] = 0.
            return o

        def jz(t, y):
            J = jac(t, y)
            J[i] = 0.
            return J
        for D in (A, B):
            if callable(D.get("jac")):
                D["jac"] = jz
            else:
                D.pop("jac", None)

    def go(y0, kw):
        f = fz if zero is not None else f0
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            r = W.Rec(m.cls(f, j["t0"], y0, j["t1"], **kw),
                      3 if W.dense_ok(j) else 0)
            for _ in range(60):
                if not r.step():
                    break
        return r.rows, [x for x in w if "no effect" in str(x.message)]
    ra, wa = go(y0a, A)
    rb, wb = go(y0b, B)
    k = next((k for k, (a, b) in enumerate(zip(ra, rb)) if a != b), None)
    res.check(len(ra) == len(rb) and k is None, f"same {what[0]}",
              lambda: f"{j['m']} {what}: the trajectories for {A} and {B} "
              f"differ from row {k}, lengths {len(ra)}, {len(rb)}: "
              f"{ra[k or 0][0]} {rb[k or 0][0]}")
    if zero is not None and not what.count(1):
        # and this does not prevent integration
        res.count("idle component")
        res.check(not any(
            len(r) > 5 and r[5] == "failed" for r in ra
            if isinstance(r, tuple)), "idle", lambda: f"{j['m']} fails "
                  f"with atol=0 for a component that is zero: {A}")
    if warns:
        res.check(len(wb) > len(wa), "no warning",
                  f"{j['m']}: an unknown option is not warned for")
    else:
        res.check(len(wb) == len(wa), "warning",
                  f"{j['m']}: {[str(w.message) for w in wb]} {A} {B}")
    res.count("rows", len(ra))
    res.nontrivial = len(ra) > 5
    res.sample = dict(method=j["m"], what=what, rows=len(ra))


def sens(case, rng, res):
    n, m = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    P = Problem(rng, n, m)
    which = str(rng.choice(["forward", "end", "int"]))
    args = dict(fun=P.fun, t_span=(0., 1.), y0=rng.normal(size=n), jac=P.jac,
                dfdp=P.dfdp, dy0dp=rng.normal(size=(n, m)),
                p=rng.normal(size=m))
    if which != "forward":
        args.update(g=P.g, dgdp=P.dgdp, dgdy=P.dgdy)
    f = dict(forward=ex.sens_forward, end=ex.sens_adjoint_end,
             int=ex.sens_adjoint_int)[which]
    E = (ValueError, AssertionError, TypeError)
    bad = [
        ("y0", np.ones((n, 1))), ("y0", np.arange(n)),
        ("y0", np.ones(n) + 1j),
        ("dy0dp", np.ones((n + 1, m))), ("dy0dp", np.ones((n, m + 1))),
        ("dy0dp", np.ones(n*m)), ("dy0dp", np.ones((m + 1, n))),
        ("fun", lambda t, y: y), ("jac", lambda t, y: np.eye(n)),
        ("fun", lambda t, y, *p: np.ones(n + 1)),
        ("fun", lambda t, y, *p: np.ones((n, 1))),
        ("jac", lambda t, y, *p: np.ones((n, n + 1))),
        ("jac", lambda t, y, *p: np.ones((n + 1, n))),
        ("jac", lambda t, y, *p: np.ones(n)),
        ("dfdp", lambda t, y, *p: np.ones((n, m + 1))),
        ("dfdp", lambda t, y, *p: np.ones((n + 1, m))),
        ("dfdp", lambda t, y, *p: np.ones(m)),
        ("jac", None), ("dfdp", None)]
    if which == "forward":
        bad += [("rtol", 1), ("atol", [1e-3]*(n + 1)),
                ("t_eval", np.array([.5, .9]))]
    else:
        bad += [("g", lambda t, y, *p: np.ones((1, 1))),
                ("g", lambda t, y, *p: np.ones(2)),
                ("dgdp", lambda t, y, *p: np.ones(m + 1)),
                ("dgdp", lambda t, y, *p: np.ones((m, 1))),
                ("dgdy", lambda t, y, *p: np.ones(n + 1)),
                ("dgdy", lambda t, y, *p: np.ones((1, n))),
                ("p", np.ones((m, 1))), ("p", np.arange(1, m + 1)),
                ("sol_y", ex_sol(P, args))]
    i = int(rng.integers(len(bad)))
    f(**args)
    args[bad[i][0]] = bad[i][1]
    try:
        f(**args)
    except E:
        res.count("errors")
        res.nontrivial = True
    except AttributeError:
        # (a missing function, no name for the message)
        res.count("errors")
        res.check(bad[i][1] is None, "sens type", f"{which} {bad[i][0]}")
    else:
        res.bad("sens " + which, f"sens_{which} accepts {bad[i][0]} of "
                f"kind {i}, n={n}, np={m}")
    res.sig = (which, i, n, m)
    res.sample = dict(function=which, argument=bad[i][0])


def ex_sol(P, a):
    """forward solution without dense output"""
    from scipy.integrate import solve_ivp
    return solve_ivp(lambda t, y: P.fun(t, y, *a["p"]), a["t_span"], a["y0"])
