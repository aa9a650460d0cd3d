"""C09: integrations are deterministic and independent of each other."""
import threading
import numpy as np
from scipy.integrate import solve_ivp
from vlib.core import Result
from vlib import work as W
from vlib.methods import METHODS, ALL

ID = "C09"
QUICK = 3            # repetitions of the set of cases in the quick tier
FRESH = True          # each case starts with the classes as imported
RULE = ("a case runs 3 integrations (often of the same class, with different "
        "options and problems) alone, repeated, interleaved step by step in "
        "random order, one inside the right hand side of another, with "
        "memory that is filled with garbage when allocated, and in "
        "threads; the trajectories (times, states, counters, messages, dense "
        "output) must be bitwise equal. Non-trivial if 10 or more steps were "
        "compared; distinct by parameters")
ASSUMPTIONS = ["the module level counters NFS, NFI and NLS belong to the last "
               "integration and are not compared here"]


class Poison:
    """memory sanitizer: numpy hands out arrays full of garbage"""

    def __init__(self, value):
        self.value = value
        self.n = 0

    def __enter__(self):
        self.old = np.empty, np.empty_like

        def fill(a):
            if a.dtype.kind in "fc":
                a.fill(self.value)
                self.n += 1
            return a
        np.empty = lambda *a, **k: fill(self.old[0](*a, **k))
        np.empty_like = lambda *a, **k: fill(self.old[1](*a, **k))
        return self

    def __exit__(self, *a):
        np.empty, np.empty_like = self.old


def gen(tier, rng):
    reps = 2 if tier == "quick" else 10
    for name in ALL:
        base = name.split(":")[0]
        same = [n for n in ALL if n.split(":")[0] == base]
        for k in range(reps):
            others = [same[rng.integers(len(same))], ALL[rng.integers(
                len(ALL))]]
            yield dict(jobs=[W.job(rng, n, wide=True)
                             for n in [name] + others],
                       seed=int(rng.integers(2**31)),
                       dense=int(rng.integers(0, 4)))


def run(case):
    res = Result()
    rng = np.random.default_rng(case["seed"])
    jobs = case["jobs"]
    dn = [case["dense"] if W.dense_ok(j) else 0 for j in jobs]

    def rec(i, **kw):
        return W.Rec(W.make(jobs[i], **kw), dn[i])

    def same(rows, i, what):
        ok = rows == solo[i]
        if not ok:
            k = next((k for k, (a, b) in enumerate(zip(rows, solo[i]))
                      if a != b), -1)
            res.bad(what, f"{jobs[i]['m']}: {what}: differs from the first "
                    f"run at row {k} ({len(rows)} and {len(solo[i])}): "
                    f"{jobs}")
        res.count("comparisons")

    solo = [rec(i).finish() for i in range(len(jobs))]
    for i in range(len(jobs)):
        same(rec(i).finish(), i, "repeated")
    # memory that isn't initialized has no influence
    for i in range(len(jobs)):
        with Poison([np.nan, -7e77, np.inf][(case["seed"] + i) % 3]) as po:
            rows = rec(i).finish()
        res.count("poisoned arrays", po.n)
        same(rows, i, "uninitialized memory")
    # interleaved
    live = [rec(i) for i in range(len(jobs))]
    run_ = list(range(len(jobs)))
    k = 0
    while run_ and k < 20000:
        i = run_[rng.integers(len(run_))]
        if not live[i].step():
            run_.remove(i)
            if live[i].s.status == "running":
                break
        k += 1
    for i, r in enumerate(live):
        r.finish()
        same(r.rows, i, "interleaved")
    # a complete integration within evaluations of another
    count = [0]

    def wrap(f):
        def g(t, y):
            count[0] += 1
            if count[0] % 37 == 5 and count[0] < 400:
                inner = W.make(jobs[1])
                for _ in range(3):
                    if inner.status == "running":
                        inner.step()
            return f(t, y)
        return g
    same(rec(0, wrap=wrap).finish(), 0, "nested")
    # threads
    if case["seed"] % 3 == 0:
        out = {}

        def work(i):
            with np.errstate(all="ignore"):
                out[i] = rec(i % len(jobs)).finish()
        ths = [threading.Thread(target=work, args=(i,)) for i in range(4)]
        [t.start() for t in ths]
        [t.join() for t in ths]
        for i in out:
            same(out[i], i % len(jobs), "threads")
    # a failing integration in between
    m = METHODS[jobs[1]["m"]]
    if m.complex_ok:
        try:
            s = W.make(jobs[1], wrap=lambda f: (
                lambda t, y: f(t, y)*(np.nan if abs(t - jobs[1]["t0"]) > .2
                                      else 1.)))
            if m.kind != "nys":
                for _ in range(50):
                    if s.status != "running":
                        break
                    s.step()
        except (ValueError, AssertionError):
            pass
    same(rec(0).finish(), 0, "after failure")
    n = min(len(r) for r in solo)
    res.count("rows", sum(len(r) for r in solo))
    res.nontrivial = n >= 10
    res.sample = dict(methods=[j["m"] for j in jobs], rows=[
        len(r) for r in solo])
    return res
