"""C13: work counters are truthful."""
import scipy.linalg
import scipy.sparse.linalg

# count factorizations and solves in scipy itself, before anything imports it
COUNT = dict(lu=0, solve=0, splu=0, spsolve=0)
_lu, _lus, _splu = (scipy.linalg.lu_factor, scipy.linalg.lu_solve,
                    scipy.sparse.linalg.splu)


def lu_factor(*a, **k):
    COUNT["lu"] += 1
    return _lu(*a, **k)


def lu_solve(*a, **k):
    COUNT["solve"] += 1
    return _lus(*a, **k)


class _SuperLU:
    def __init__(self, obj):
        self._o = obj

    def solve(self, *a, **k):
        COUNT["spsolve"] += 1
        return self._o.solve(*a, **k)

    def __getattr__(self, name):
        return getattr(self._o, name)


def splu(*a, **k):
    COUNT["splu"] += 1
    return _SuperLU(_splu(*a, **k))


scipy.linalg.lu_factor, scipy.linalg.lu_solve = lu_factor, lu_solve
scipy.sparse.linalg.splu = splu

import numpy as np                                              # noqa: E402
from scipy.integrate import solve_ivp                           # noqa: E402
from scipy.sparse import csc_array                              # noqa: E402
from vlib.core import Result                                    # noqa: E402
from vlib.drive import run as drive, Log                        # noqa: E402
from vlib.methods import METHODS, ALL                           # noqa: E402
from vlib import problems as P                                  # noqa: E402
import extensisq                                                # noqa: E402

ID = "C13"
QUICK = 2            # repetitions of the set of cases in the quick tier
RULE = ("a case is a batch of integrations of one method (smooth, kinked, "
        "stiff and nonlinear problems) in which calls of fun, jac, LU "
        "factorizations and solves are counted independently and compared to "
        "nfev, njev, nlu, NFS, NFI, NLS after every step; non-trivial if a "
        "rejected step was seen or 20 steps were compared; distinct by "
        "parameters")
ASSUMPTIONS = [
    "calls made to estimate a Jacobian or spectral radius are not part of "
    "nfev (scipy's convention)",
    "up to 6 calls during construction may be left out of nfev for Nystrom "
    "(structure test) and implicit methods (first step size)"]

# evaluations per rejected attempt and per accepted step
COST = {"Ts5": (6, 6), "CK5": (5, 6), "Pr7": (9, 10), "Pr8": (12, 13),
        "Pr9": (16, 17), "Me4": (4, 5), "Fi4N": (4, 5), "Fi5N": (6, 6),
        "Mu5Nmb": (9, 9), "MR6NN": (5, 6), "SWAG": (1, 2)}
# methods with a cheaper early rejection
COST2 = {"BS5": ((6, 5, 7), 7), "CFMR7osc": ((7, 8), 9),
         "CKdisc": ((1, 3, 5), 6)}


def gen(tier, rng):
    for name in ALL:
        for k in range(3 if tier == "quick" else 16):
            yield dict(m=name, seed=int(rng.integers(2**31)), n=8)


def problem(m, rng):
    """(f, y0, t1, jac): something that causes rejections now and then"""
    k = rng.integers(4)
    w = float(rng.uniform(1, 3))
    if m.kind == "ssv":
        lam = np.array([1., 30., 300.])
        if k % 2:
            return (lambda t, y: -lam*(y - np.sign(np.sin(w*t))), np.ones(3),
                    4., None, True)
        return (lambda t, y: -lam*(y - np.cos(w*t)), np.ones(3), 4., None,
                True)
    if k == 0:          # switching forcing
        def f(t, y):
            return np.array([y[1], -y[0] + 5*np.sign(np.sin(w*t))])

        def jac(t, y):
            return np.array([[0, 1.], [-1, 0]])
    elif k == 1:        # relaxation
        mu = float(rng.uniform(3, 15)) if not m.nys_strict else 0.
        if m.nys_strict:
            def f(t, y):
                return np.array([y[1], -y[0]*(1 + 50*np.exp(-50*(t - 1)**2))])

            def jac(t, y):
                return np.array([[0, 1.], [-(1+50*np.exp(-50*(t-1)**2)), 0]])
        else:
            def f(t, y):
                return np.array([y[1], mu*(1 - y[0]**2)*y[1] - y[0]])

            def jac(t, y):
                return np.array([[0, 1.], [-2*mu*y[0]*y[1] - 1,
                                           mu*(1 - y[0]**2)]])
    elif k == 2:        # pulses
        def f(t, y):
            return np.array([y[1], -y[0] + 30*np.exp(-40*(t % w - w/2)**2)])

        def jac(t, y):
            return np.array([[0, 1.], [-1, 0]])
    else:
        def f(t, y):
            return np.array([y[1], -w*np.sin(y[0])])

        def jac(t, y):
            return np.array([[0, 1.], [-w*np.cos(y[0]), 0]])
    return f, np.array([1.5, float(rng.uniform(.1, 1))]), 8., jac, k == 1


def run(case):
    res = Result()
    m = METHODS[case["m"]]
    rng = np.random.default_rng(case["seed"])
    base = m.name.split(":")[0]
    for i in range(case["n"]):
        f, y0, t1, jac, tough = problem(m, rng)
        kw = dict(rtol=float(10**rng.uniform(-6, -3)), atol=1e-6, **m.opts)
        if m.kind in ("ssv",):
            kw["rtol"] = max(kw["rtol"], 1e-4)
        d = int(rng.choice([-1, 1])) if m.kind != "ssv" else 1
        if d < 0 and m.name != "x":
            f0, jac0 = f, jac
            # mirrored in time

            def f(t, y, f0=f0, n=1):
                g = np.array(f0(-t, np.concatenate([y[:1], -y[1:]])))
                return np.concatenate([-g[:1], g[1:]])
            y0 = np.array([y0[0], -y0[1]])
            t1 = -t1
            jac = None
        if rng.integers(2) and m.kind != "ssv" and not tough:
            kw["first_step"] = .5
        njc = [0]
        jmode = None
        if m.kind == "esdirk" and jac is not None:
            jmode = ["dense", "sparse", "none", "const"][rng.integers(4)]
            if jmode == "const":
                kw["jac"] = jac(0., y0)
            elif jmode != "none":
                def jc(t, y, sp=(jmode == "sparse"), jac=jac):
                    njc[0] += 1
                    J = jac(t, y)
                    return csc_array(J) if sp else J
                kw["jac"] = jc
            if rng.integers(3) == 0:
                kw["M"] = np.array([[2., .3], [.1, 1.5]])
                if rng.integers(2):
                    kw["M"] = csc_array(kw["M"])
            kw["jac_each_step"] = bool(rng.integers(3) == 0)
        stiff = False
        if m.kind in ("rk", "nys") and m.name != "CKdisc":
            stiff = not m.nys_strict and rng.integers(3) == 0
            kw["nfev_stiff_detect"] = 60 if stiff else 0
        tag = f"{i} {kw}"
        extensisq.NFS[()] = 77          # must be reset by the constructor
        if m.kind == "esdirk":
            extensisq.NFI[()] = 77
            extensisq.NLS[()] = 77
        log = Log(f, keep=True)
        st = dict(first=True)
        if m.kind != "ssv":
            m.cls(f, 0., y0, t1, **kw)
            res.check(int(extensisq.NFS) == 0, "NFS-not-reset", tag)
        if m.kind == "esdirk":
            res.check(int(extensisq.NFI) == 0 and int(extensisq.NLS) == 0,
                      "NFI-not-reset", tag)
        njc[0] = 0
        dense = i % 2 and m.name != "Fi5N:1"
        rng_d = np.random.default_rng(case["seed"] + i)

        def on_step(s, tr, st=st):
            first = st["first"]
            calls = tr.nfev[-1]
            cur = dict(nfev=s.nfev, calls=calls, NFS=int(extensisq.NFS),
                       NFI=int(extensisq.NFI), NLS=int(extensisq.NLS),
                       njev=s.njev, njc=njc[0], nlu=s.nlu,
                       lu=COUNT["lu"] + COUNT["splu"],
                       sol=COUNT["solve"] + COUNT["spsolve"])
            if first:
                st["first"] = False
            else:
                old = st["old"]
                dl = {k: cur[k] - old[k] for k in cur}
                if m.kind == "swag" and abs(tr.h[-1]) < 1e-12:
                    # a remainder of rounding size is extrapolated
                    res.check(dl["calls"] == dl["nfev"], "step-nfev", tag)
                else:
                    steps(res, m, base, dl, stiff, jmode, tag)
            if dense and rng_d.integers(2):
                # evaluations for dense output are counted too
                a, n0 = s.nfev, log.n
                do = s.dense_output()
                do(.5*(s.t + s.t_old))
                res.count("dense outputs")
                k = log.n - n0
                res.check(s.nfev - a == k, "dense-nfev", lambda: f"{k} "
                          f"evaluations for dense output, nfev grows by "
                          f"{s.nfev - a} {tag}")
                cur["nfev"], cur["calls"] = s.nfev, log.n
            st["old"] = cur

        c0 = dict(COUNT)
        tr = drive(m.cls, log, 0., y0, t1, log=log, on_step=on_step,
                   max_steps=30000, **kw)
        s = tr.solver
        res.count("integrations")
        res.count("steps", tr.n_steps)
        if tr.status != "finished" and m.kind == "ssv":
            continue
        res.check(tr.status == "finished", "status", f"{tr.message} {tr.t[-3:]} {tag}")
        total = log.n
        NFS = int(extensisq.NFS)
        res.count("rejections", NFS)
        if m.kind in ("rk", "swag"):
            res.check(s.nfev == total, "nfev",
                      lambda: f"{s.nfev} reported, {total} made {tag}")
        elif m.kind == "nys":
            res.check(total - 2 <= s.nfev <= total, "nfev",
                      lambda: f"{s.nfev} reported, {total} made {tag}")
        elif m.kind == "ssv":
            from extensisq import sommeijer
            sig = int(getattr(sommeijer, "nfesig", total - s.nfev))
            res.check(s.nfev + sig == total, "nfev",
                      lambda: f"{s.nfev}+{sig} reported, {total} made {tag}")
        elif jmode in ("dense", "sparse", "const"):
            res.check(total - 6 <= s.nfev <= total, "nfev",
                      lambda: f"{s.nfev} reported, {total} made {tag}")
        else:
            res.check(s.nfev <= total, "nfev",
                      lambda: f"{s.nfev} reported, {total} made {tag}")
        if jmode in ("dense", "sparse"):
            res.check(s.njev == njc[0], "njev",
                      lambda: f"{s.njev} reported, {njc[0]} made {tag}")
            res.check(s.njev >= 1, "njev-zero", tag)
        elif jmode == "const":
            res.check(s.njev == 0, "njev-const", tag)
        elif m.kind == "esdirk":
            res.check(s.njev >= 1, "njev-zero", tag)
            # each numerical Jacobian takes n + 1 or more evaluations
            res.check(total - s.nfev >= s.njev*len(y0), "njev-numerical",
                      lambda: f"{s.njev} {total} {s.nfev} {tag}")
        else:
            res.check(s.njev == 0 and s.nlu == 0, "njev-explicit", tag)
        if m.kind == "esdirk":
            lu = COUNT["lu"] + COUNT["splu"] - c0["lu"] - c0["splu"]
            # the mass matrix is factorized once, on construction
            res.check(s.nlu in (lu, lu - 1), "nlu",
                      lambda: f"{s.nlu} reported, {lu} made {tag}")
            res.check(int(extensisq.NLS) >= (m_stages(base) - 1)*tr.n_steps,
                      "NLS", lambda: f"{extensisq.NLS} {tr.n_steps} {tag}")
        # solve_ivp reports the same
        if i == 0 and m.kind != "ssv":
            log2 = Log(f)
            njc[0] = 0
            o = solve_ivp(log2, (0., t1), y0, method=m.cls, **kw)
            res.check(o.nfev == s.nfev and o.njev == s.njev and
                      o.nlu == s.nlu, "solve_ivp-counters",
                      f"{o.nfev} {s.nfev} {o.njev} {s.njev} {tag}")
            res.check(int(extensisq.NFS) == NFS, "NFS-repeat",
                      f"{extensisq.NFS} {NFS} {tag}")
    res.nontrivial = res.stats.get("rejections", 0) > 0 or \
        res.stats.get("steps", 0) > 20
    res.sample = dict(method=case["m"], nfev=s.nfev, NFS=NFS, calls=total,
                      kw={k: str(v) for k, v in kw.items()})
    return res


def m_stages(base):
    return {"HS2I": 3, "HS2Ia": 3, "KC3I": 5, "KC4I": 6, "KC4Ia": 7,
            "Kv3I": 4}[base]


def steps(res, m, base, dl, stiff, jmode, tag):
    """one step: counters against independent counts"""
    res.check(dl["NFS"] >= 0, "NFS-decreased", tag)
    if m.kind in ("rk", "nys", "swag"):
        res.check(dl["nfev"] == dl["calls"], "step-nfev",
                  lambda: f"{dl} {tag}")
    if m.kind == "esdirk":
        if jmode in ("dense", "sparse", "const"):
            res.check(dl["nfev"] == dl["calls"], "step-nfev",
                      lambda: f"{dl} {tag}")
        if jmode in ("dense", "sparse"):
            res.check(dl["njev"] == dl["njc"], "step-njev",
                      lambda: f"{dl} {tag}")
        res.check(dl["nlu"] == dl["lu"], "step-nlu", lambda: f"{dl} {tag}")
        res.check(dl["NLS"] == dl["sol"], "step-NLS", lambda: f"{dl} {tag}")
        s = m_stages(base)
        if jmode == "const":
            # linear mode: one solve per stage, no iterations to fail
            att = 1 + dl["NFS"]
            res.check(dl["calls"] == att*(s - 1) or dl["NFI"], "step-linear",
                      lambda: f"{dl} {tag}")
        res.check(dl["calls"] >= (s - 1)*(1 + dl["NFS"]) or
                  dl["NFI"], "step-NFS", lambda: f"{dl} {tag}")
        res.check(dl["calls"] <= 5*(s - 1)*(1 + dl["NFS"] + dl["NFI"])
                  or jmode not in ("dense", "sparse", "const"), "step-NFI",
                  lambda: f"{dl} {tag}")
    if base in COST:
        a, b = COST[base]
        extra = dl["calls"] - b - a*dl["NFS"]
        # stiffness detection adds evaluations to some of the steps
        ok = extra == 0 or (stiff and 0 < extra <= 24)
        res.check(ok, "step-NFS", lambda: f"{dl} {tag}")
    elif base in COST2:
        rej, b = COST2[base]
        lo = b + min(rej)*dl["NFS"]
        hi = b + max(rej)*dl["NFS"]
        if base == "CKdisc":      # an accepted fallback saves nothing
            lo = 2 + min(rej)*dl["NFS"]
        res.check(lo <= dl["calls"] <= hi or (stiff and lo <= dl["calls"] <=
                                              hi + 24), "step-NFS",
                  lambda: f"{dl} {tag}")
