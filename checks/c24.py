"""C24: the step size controller follows its documented formula."""
import warnings
import numpy as np
from scipy.sparse import csc_array
from vlib.core import Result, Budget
from vlib import estim as E
from vlib.methods import METHODS, RK, NYS, ESD
from checks.c08 import get_gold
from checks.c32 import Sharp

ID = "C24"
QUICK = 4            # repetitions of the set of cases in the quick tier
RULE = ("a case is an integration in which the size of the error estimate of "
        "every attempt is prescribed (by injected derivative values): small, "
        "large (one or more rejections), zero; each attempted step size is "
        "compared to the documented controller formula for default, named "
        "and random sc_params; or a problem that causes rejections (also by "
        "preliminary error estimates and failing Newton iterations) is "
        "followed to see that no step grows after a rejection. Non-trivial "
        "if 10 or more second order controller steps were compared, or two "
        "rejections seen, or preliminary estimates (BS5, CFMR7osc) are "
        "prescribed; distinct by parameters")
ASSUMPTIONS = [
    "near the ends of the range of step size factors (below 0.21, above 3.9) "
    "only the limits are checked",
    "in steps after the first one, a rejection or a vanishing error, both "
    "the standard and the second order formula are accepted",
    "CKdisc, SWAG and SSV2stab have their own step size selection"]
NAMES = [n for n in RK + NYS + ESD if n != "CKdisc"]
COEF = {"G": (.7, -.4, 0, .9), "S": (.6, -.2, 0, .9),
        "standard": (1, 0, 0, .9)}
COEF_I = {"G": (2., -1., -1., .8), "S": (1.1, -.7, -1., .8),
          "standard": (1., 0., 0., .8)}
DEFAULT = dict(BS5="standard", Pr9="standard", Pr7="S")


def gen(tier, rng):
    for n in NAMES:
        for k in range(6 if tier == "quick" else 30):
            sc = [None, "G", "S", "standard", "random"][k % 5]
            if sc == "random" or k % 10 == 5:
                sc = [float(rng.uniform(.4, 1.2)), float(rng.uniform(-.5, .3)),
                      float(rng.uniform(-.6, .6)), float(rng.uniform(.6, .95))]
            yield dict(m=n, sc=sc, d=int(rng.choice([-1, 1])),
                       n=int(rng.integers(1, 4)),
                       part=str(rng.choice(["x", "v"])),
                       cplx=bool(rng.integers(2)),
                       seed=int(rng.integers(2**31)))
    for n in NAMES:
        for k in range(4 if tier == "quick" else 60):
            if METHODS[n].cls.__name__ in ("BS5", "CFMR7osc"):
                yield dict(m=n, kind="pre", d=int(rng.choice([-1, 1])),
                           n=int(rng.integers(1, 4)), g=[None, float(
                               np.round(rng.uniform(.6, .95), 3))][k % 2],
                           seed=int(rng.integers(2**31)))
    for n in NAMES:
        for k in range(8 if tier == "quick" else 400):
            yield dict(m=n, kind="rough", d=int(rng.choice([-1, 1])),
                       n=int(rng.integers(1, 4)),
                       tol=float(10**rng.uniform(-7, -2)),
                       jac=["fun", "frozen", "none", "sparse"][k % 4],
                       seed=int(rng.integers(2**31)))


def rough(case):
    """no growth right after a rejection, whatever its reason"""
    res = Result()
    rng = np.random.default_rng(case["seed"])
    m, d, n, rt = METHODS[case["m"]], case["d"], case["n"], case["tol"]
    if m.order < 5 and m.kind != "esdirk":
        rt = max(rt, 1e-6)
    elif m.kind == "esdirk":
        rt = max(rt, {2: 1e-4, 3: 1e-5}.get(m.order, 1e-6))
    kw = dict(m.opts, rtol=rt, atol=rt)
    if m.kind == "esdirk":
        P = Sharp(case, rng)
        fun, y0, t0, t1 = P.fun, P.y0, P.t0, P.t1
        J0 = P.jac(t0, y0)
        kw.update({"fun": dict(jac=P.jac), "none": {},
                   "sparse": dict(jac=lambda t, y: csc_array(P.jac(t, y))),
                   "frozen": dict(jac=lambda t, y: J0)}[case["jac"]])
    else:
        t0 = float(np.round(rng.uniform(-2, 2), 2))
        t1 = t0 + d*4.
        W, b = rng.normal(size=(n, n)), rng.normal(size=n)
        tk = t0 + d*np.sort(rng.uniform(.3, 3.8, 6))
        amp = rng.normal(size=(6, n))*10**rng.uniform(0, 2, (6, 1))
        w = 10**rng.uniform(.5, 2, 6)

        def g(t, y):
            return np.sin(W @ y) + b*np.cos(2*t) + amp.T @ np.exp(
                -np.minimum(500., (w*(t - tk))**2))
        fun, y0 = g, rng.normal(size=n)
        if m.kind == "nys":
            def fun(t, y):
                return np.concatenate([y[n:], g(t, y[:n])])
            y0 = rng.normal(size=2*n)
        kw["nfev_stiff_detect"] = 0
    log, total = [], [0]

    def f(t, y):
        total[0] += 1
        if total[0] > 60000:
            raise Budget("fun")
        log.append(float(t))
        return fun(t, y)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = m.cls(f, t0, y0, t1, **kw)
    c1 = E.nodes(m)[0][1]
    grow = 1.0102 if m.kind == "esdirk" else 1.
    after = None
    while s.status == "running":
        t = s.t
        del log[:]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                s.step()
            except Budget:
                if case["jac"] != "frozen" or m.kind != "esdirk":
                    raise
                # (a useless Jacobian may cost too much)
                res.count("expensive")
                break
        if s.status == "failed":
            res.count("failed")
            break
        h0, h = abs(log[0] - t)/c1, abs(s.t - t)
        eps = 1e-9 + 4e-16*(abs(t) + h0)/h0/c1
        if eps > 1e-6:
            after = None
            continue
        if after is not None:
            res.check(h0 < after*(grow + eps), "growth", lambda:
                      f"{case} at {t}: step of {after} after a rejected one "
                      f"is followed by an attempt of {h0}")
            res.count("after_rejection")
        after = h if h < h0*(1 - 10*eps) else None
        if after is not None:
            res.count("reduced")
    res.nontrivial = res.stats.get("after_rejection", 0) >= 2
    res.sample = dict(method=case["m"], kind="rough")
    return res


def pre(case):
    """reduction after a rejection by the preliminary error estimate"""
    res = Result()
    rng = np.random.default_rng(case["seed"])
    m, d, n = METHODS[case["m"]], case["d"], case["n"]
    h0 = float(rng.uniform(.1, 2.))
    stage = int(rng.integers(3, 5))
    u = rng.normal(size=n)
    kw = dict(m.opts, first_step=h0, atol=1., rtol=1e-13,
              nfev_stiff_detect=0)
    g = .9
    if case["g"]:
        g = case["g"]
        kw["sc_params"] = (.7, -.4, 0., g)
    c = E.nodes(m)[0]
    t0 = float(rng.normal())

    def attempt(M):
        """(evaluations in the first step, step size ratio)"""
        calls = [0]

        def fun(t, y):
            k = calls[0]
            calls[0] += 1
            return M*u if k == at[0] else 0.*u
        at = [-1]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s = m.cls(fun, t0, np.zeros(n), t0 + 1e3*d, **kw)
            at[0] = calls[0] + stage - 1
            k = calls[0]
            s.step()
        return calls[0] - k, abs(s.t - t0)/h0
    full = attempt(0.)[0]
    hi = 1.
    for _ in range(60):
        if attempt(hi)[0] in range(full + 1, 2*full - 1):
            break
        hi *= 4.
    k_early = attempt(hi*100)[0]
    # (the complete estimate costs at least one evaluation more)
    res.check(k_early <= 2*full - 2, "early", f"{case}: {k_early} {full}")
    lo = 1e-12
    for _ in range(120):
        mid = (lo*hi)**.5
        if attempt(mid)[0] == k_early:
            hi = mid
        else:
            lo = mid
        if hi/lo < 1 + 1e-12:
            break
    for _ in range(8):
        x = 10**rng.uniform(.01, 3.5)
        k, ratio = attempt(x*hi)
        want = max(.2, g*x**(-1/(m.q + 1)))
        res.check(k == k_early and abs(ratio/want - 1) < 1e-5, "pre-reject",
                  f"{case}: reduced by {ratio} for a preliminary error of "
                  f"{x}, expected {want}")
        res.count("preliminary")
    res.nontrivial = True
    res.sample = dict(method=case["m"], kind="pre", evaluations=[k_early,
                                                                 full])
    return res


def run(case):
    if case.get("kind") == "pre":
        return pre(case)
    if case.get("kind") == "rough":
        return rough(case)
    res = Result()
    name, d, n = case["m"], case["d"], case["n"]
    m = METHODS[name]
    rng = np.random.default_rng(case["seed"])
    nys = m.kind == "nys"
    part = case["part"] if nys else "v"
    w = get_gold(name, part)
    c, T = E.nodes(m)
    base = m.cls.__name__
    inner = [i for i in range(1, len(c) - 1) if abs(w[i]) > 1e-6]
    if base == "BS5":
        inner = [6]
    if m.kind == "esdirk":
        inner = [i for i in range(1, len(c) - 1) if abs(w[i]) > 1e-6]
    stage = int(rng.choice(inner))
    N = 2*n if nys else n
    p = 2 if part == "x" else 1
    e1 = 1/(m.q + 1)
    coef = COEF_I if m.kind == "esdirk" else COEF
    sc = case["sc"]
    if sc is None:
        kb1, kb2, a, g = coef[DEFAULT.get(base, "G")]
    elif isinstance(sc, str):
        kb1, kb2, a, g = coef[sc]
    else:
        kb1, kb2, a, g = sc
    dtype = complex if case["cplx"] else float
    st = dict(target={}, err={}, reject=0)
    comp = int(rng.integers(n))

    def choose(h):
        """error of an attempt of size h"""
        h = abs(h)
        if st["reject"] > 0:
            st["reject"] -= 1
            return 10**rng.uniform(.005, 3. if h > .05 else .2)
        if st.pop("jump", False):
            return rng.uniform(.5, .95)
        if rng.random() < .06:
            return 0.
        if rng.random() < .07 and h < 2:
            # a jump of the error, down and up
            st["jump"] = True
            return 10**rng.uniform(-12, -5)
        u = rng.uniform(.45, 2.5)
        if h > 5:
            u = rng.uniform(.4, .9)
        elif h < .05:
            u = rng.uniform(1.8, 3.)
        return min((g/u)**(1/e1), .95)

    def plan(att, k, h):
        if att < 0 or k != stage:
            return None
        if att not in st["err"]:
            st["err"][att] = choose(h)
        v = np.zeros(n, dtype)
        v[comp] = st["err"][att]*N**.5/(abs(w[stage])*abs(h)**p)
        if case["cplx"]:
            v *= np.exp(1j*.7)
        return v
    inj = E.Inject(m, n, plan, dtype)
    kw = {} if sc is None else dict(
        sc_params=tuple(sc) if isinstance(sc, list) else sc)
    h0 = float(rng.uniform(.1, 2.))
    s = E.solver(m, inj, n, d*h0, part=part, **kw)
    prev = None                 # accepted: (h, err)
    clean = 0                   # steps without rejection or zero error
    pending = None              # prediction of the next first attempt
    scale_seen = False
    nrej = nsec = 0
    for _ in range(60):
        t = s.t
        if rng.random() < .15 and (prev is None or prev[0] > .05):
            st["reject"] = int(rng.integers(1, 4))
        a0 = len(inj.h)
        inj.start(t)
        s.step()
        if s.status == "failed":
            res.bad("failed", f"{case} at t={t}")
            return res
        hs = np.array(inj.h[a0:])
        er = [st["err"][a0 + j] for j in range(len(hs))]
        if abs(s.t - t - hs[-1]) > 1e-6*abs(hs[-1]):
            res.bad("attempts", f"{name}: {s.t - t} {hs} {er} {case}")
            return res
        # acceptance
        for j, e in enumerate(er):
            if abs(e - 1) > 1e-5:
                res.check((e < 1) == (j == len(hs) - 1), "acceptance",
                          f"{name}: errors {er} of attempts {hs} {case}")
        # rejected attempts
        for j in range(len(hs) - 1):
            ratio = hs[j+1]/hs[j]
            want = max(.2, g*er[j]**-e1) if er[j] > 0 else np.nan
            nrej += 1
            res.check(abs(ratio/want - 1) < 1e-5, "reject",
                      f"{name}: after an error of {er[j]} the step was "
                      f"reduced by {ratio}, expected {want} {case}")
        # first attempt after an accepted one
        if pending is not None:
            options, strict, lo, hi, kind = pending
            f = abs(hs[0])/prev[0]
            if f < 3.9:
                scale_seen = True
            res.check(.2*(1 - 1e-6) <= f <= hi*(1 + 1e-6), "limits",
                      f"{name} ({kind}): factor {f}, {case}")
            if options and all(.21 < o < 3.9 for o in options):
                ok = min(abs(f/o - 1) for o in options)
                res.check(ok < 1e-5, "formula",
                          f"{name} ({kind}): factor {f}, expected one of "
                          f"{options} {case}")
                if kind == "second":
                    nsec += 1
            elif kind == "zero":
                res.check(f > 1.5, "zero-error",
                          f"{name}: factor {f} after zero error {case}")
        # prediction
        h, e = abs(hs[-1]), er[-1]
        rejected = len(hs) > 1
        top = 10.
        if e == 0.:
            pending = (None, 0, .2, 1. if rejected else top,
                       "zero" if not rejected else "rejected")
            clean = 0
        else:
            std = g*e**-e1
            opts = [std]
            sec = None
            if prev is not None and prev[1] > 0:
                sec = g**(kb1 + kb2)*(h/prev[0])**-a*e**(-kb1*e1) \
                    * prev[1]**(-kb2*e1)
            if rejected:
                opts = [min(1., o) for o in (std, sec) if o is not None]
                pending = (opts, 0, .2, 1., "rejected")
                clean = 0
            elif prev is None:
                pending = ([std], 1, .2, 1e9, "first")
                clean = 1
            elif clean >= 3 and scale_seen:
                pending = ([sec], 1, .2, 4., "second")
                clean += 1
            else:
                pending = ([o for o in (std, sec) if o is not None], 0, .2,
                           1e9, "either")
                clean += 1
        prev = (h, e)
    res.count("second_order", nsec)
    res.count("rejections", nrej)
    res.count("attempts", len(inj.h))
    res.nontrivial = nsec >= 5
    res.sample = dict(method=name, sc=sc, stage=stage, attempts=len(inj.h))
    return res
