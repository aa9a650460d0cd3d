"""C11: the user's data are left alone, and returned data stay."""
import numpy as np
from scipy.integrate import solve_ivp
from scipy.sparse import csc_array, csr_array
from vlib.core import Result
from vlib import work as W
from vlib.methods import METHODS, ALL

ID = "C11"
QUICK = 6            # repetitions of the set of cases in the quick tier
RULE = ("a case integrates a problem in which every array that enters or "
        "leaves user code (y0, atol, matrices, sparsity, results of fun and "
        "jac, solver.y after each step, arguments and results of dense "
        "output) is recorded with a copy, and compared to it after the "
        "integration; half of the cases pass read-only arrays. Non-trivial if "
        "50 or more arrays were compared; distinct by parameters")
ASSUMPTIONS = ["fun doesn't modify its arguments and doesn't reuse the array "
               "it returned before",
               "Fi5N with interpolant=1 is documented to adjust the state"]


def gen(tier, rng):
    for name in ALL:
        for k in range(6 if tier == "quick" else 30):
            yield dict(job=W.job(rng, name, wide=True),
                       seed=int(rng.integers(2**31)),
                       ro=bool(k % 2), cst=int(rng.integers(3)),
                       style=int(rng.integers(5)),
                       ivp=bool(rng.integers(3) == 0))


class Keep:
    def __init__(self, ro):
        self.items = []
        self.ro = ro

    def add(self, what, a, ro=None):
        if isinstance(a, np.ndarray):
            self.items.append((what, a, a.copy()))
            if self.ro and ro is not False:
                a.flags.writeable = False
        elif hasattr(a, "data") and hasattr(a, "indices"):
            self.add(what + ".data", a.data, ro)
            self.add(what + ".indices", a.indices, ro)
            self.add(what + ".indptr", a.indptr, ro)
        else:
            self.items.append((what, a, list(a) if isinstance(a, list)
                               else a))
        return a

    def compare(self, res, ctx):
        for what, a, b in self.items:
            if isinstance(a, np.ndarray):
                same = a.shape == b.shape and a.dtype == b.dtype and \
                    np.array_equal(a, b, equal_nan=True)
            else:
                same = a == b
            res.check(same, "changed " + what,
                      lambda: f"{ctx}: {what} was changed from {b} to {a}")


def run(case):
    res = Result()
    j = case["job"]
    m = METHODS[j["m"]]
    rng = np.random.default_rng(case["seed"])
    K = Keep(case["ro"])
    f0, jac0, y0 = W.field(j)
    kw = W.kwargs(j, jac0)
    n = len(y0)
    style = case["style"]
    if style == 4 and case["cst"] == 0 and not j["cplx"]:
        # integer initial state, it is converted
        y0 = np.round(y0).astype(int)
    K.add("y0", y0)
    const = None

    def fun(t, y):
        out = f0(t, y)
        if style == 1:                           # a list
            return K.add("result of fun", list(out))
        if style == 2:                           # a view on a bigger array
            big = np.zeros((len(out), 2), out.dtype)
            big[:, 0] = out
            out = big[:, 0]
        return K.add("result of fun", out)

    if m.kind == "esdirk":
        if "jac" in kw:
            jj = kw["jac"]
            kw["jac"] = lambda t, y: K.add("result of jac", jj(t, y))
        if case["cst"] == 1:
            # constant Jacobian, linear problem
            A = jac0(j["t0"], np.zeros(n))
            A = A if rng.integers(2) else csc_array(A) \
                if rng.integers(2) else csr_array(A)
            kw["jac"] = K.add("jac", A)

            def f0(t, y):
                return A @ y + np.cos(t)
        elif rng.integers(2):
            kw.pop("jac", None)
            kw["jac_sparsity"] = K.add("jac_sparsity", np.ones((n, n)))
        if rng.integers(2):
            M = np.eye(n) + .2*np.diag(rng.uniform(size=n))
            if rng.integers(2):
                M = csc_array(M)
            kw["M"] = K.add("M", M)
        if case["cst"] == 2 and "M" in kw and 1 < n < 5 and not j["cplx"]:
            # a DAE with a consistent start
            M = np.diag(np.r_[np.ones(n - 1), 0.])
            kw["M"] = K.add("M", M)
    atol = K.add("atol", np.full(n, j["atol"]))
    if style == 1:
        atol = K.add("atol", [j["atol"]]*n)
    kw.update(rtol=j["rtol"], atol=atol)
    if case["ivp"]:
        te = K.add("t_eval", np.linspace(j["t0"], j["t1"], 30))
        kw.pop("sc", None)
        try:
            sol = solve_ivp(fun, [j["t0"], j["t1"]], y0, method=m.cls,
                            t_eval=te if rng.integers(2) else None,
                            dense_output=bool(rng.integers(2)), **kw)
        except ValueError as e:
            if not (case["cst"] == 2 and "consistent initial" in str(e)):
                raise
        res.count("ivp")
        K.compare(res, f"{j['m']} {case}")
        res.count("arrays", len(K.items))
        res.nontrivial = len(K.items) >= 50
        return res
    try:
        s = m.cls(fun, j["t0"], y0, j["t1"], **kw)
    except ValueError as e:
        # (a DAE with a rough constraint)
        if case["cst"] == 2 and "consistent initial" in str(e):
            res.count("inconsistent")
            K.compare(res, f"{j['m']} {case}")
            return res
        raise
    K.add("initial solver.y", s.y, ro=False)
    k = 0
    # (arrays that the solver keeps for itself are not made read-only)
    while s.status == "running" and k < 150:
        s.step()
        if s.status == "failed":
            break
        if j["m"] != "Fi5N:1":            # (documented to adjust it)
            K.items.append(("solver.y", s.y, s.y.copy()))
        K.items.append(("solver.t", s.t, s.t))
        k += 1
        if rng.integers(3) == 0:
            o = s.dense_output()
            t = s.t_old + (s.t - s.t_old)*np.linspace(0, 1, 4)
            K.add("argument of dense output", t)
            K.items.append(("result of dense output",) + (lambda v: (
                v, v.copy()))(o(t)))
            K.items.append(("result of dense output",) + (lambda v: (
                v, v.copy()))(o(t[1])))
    K.compare(res, f"{j['m']} {case}")
    res.count("arrays", len(K.items))
    res.count("steps", k)
    res.nontrivial = len(K.items) >= 50
    res.sample = dict(method=j["m"], arrays=len(K.items), steps=k,
                      read_only=case["ro"])
    return res
