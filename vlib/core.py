"""Runner shared by all checks.

A check module (checks/cNN.py) defines

    ID, RULE, ASSUMPTIONS (list)
    gen(tier, rng) -> iterable of JSON-able case dicts
    run(case)      -> Result

The runner makes the cases from VERIF_SEED, runs them in worker processes
against the code in VERIF_REPO (default /repo), collects what the monitors saw,
writes evidence/<ID>.json and prints VIOLATION / KNOWN-FINDING lines.
"""
import hashlib
import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class CpuLimit(BaseException):
    """raised by the interval timer if a case uses too much CPU time"""


class Budget(BaseException):
    """raised by a monitored function that is called too often.

    (A BaseException: the code under test must not be able to swallow it.)
    """


class Result:
    """What the monitors of one case saw."""

    def __init__(self):
        self.viol = []          # (key, message)
        self.sig = None         # what makes the case distinct
        self.nontrivial = False
        self.stats = {}         # summed over the cases
        self.maxima = {}        # maximised over the cases
        self.sample = None

    def bad(self, key, msg):
        if len(self.viol) < 20:
            self.viol.append((str(key), str(msg)[:600]))

    def check(self, cond, key, msg):
        if not cond:
            self.bad(key, msg() if callable(msg) else msg)
        self.count("assertions")
        return bool(cond)

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + int(n)

    def peak(self, name, x):
        x = float(x)
        if not (x != x) and x > self.maxima.get(name, -1e300):
            self.maxima[name] = x


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, complex):
        return [x.real, x.imag]
    return x


_MOD = None
CPU_LIMIT = 150.


def _alarm(signum, frame):
    raise CpuLimit()


def _worker(args):
    idx, case = args
    t0 = time.time()
    res = Result()
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL,
                     getattr(_MOD, "CPU_LIMIT", CPU_LIMIT))
    import numpy as np
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            res = _MOD.run(case) or res
    except CpuLimit:
        res = Result()
        res.bad("no-termination", "the case used more than "
                f"{getattr(_MOD, 'CPU_LIMIT', CPU_LIMIT)} s of CPU time")
    except Budget as e:
        res = Result()
        res.bad("no-termination", f"evaluation budget exceeded: {e}")
    except Exception:
        res = Result()
        res.bad("exception", "unexpected exception: "
                + traceback.format_exc()[-1500:].replace("\n", " | ")[-580:])
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    sig = res.sig if res.sig is not None else json.dumps(case, sort_keys=True)
    return (idx, res.viol, hashlib.sha1(str(sig).encode()).hexdigest(),
            bool(res.nontrivial), res.stats, res.maxima, res.sample,
            time.time() - t0)


def load_known():
    """lines: 'KNOWN property=<id> key=<exact key> :: <text>'"""
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("KNOWN "):
                head, text = line[6:].split("::", 1)
                d = dict(w.split("=", 1) for w in head.split())
                known[(d["property"], d["key"])] = text.strip()
    return known


def setup_env():
    sys.path.insert(0, REPO)
    import logging
    logging.disable(logging.CRITICAL)


def main(argv):
    global _MOD
    prop = argv[0]
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    nproc = int(os.environ.get("VERIF_NPROC", "0")) or min(
        8, len(os.sched_getaffinity(0)) or 1)
    setup_env()
    t_start = time.time()
    import numpy as np
    _MOD = importlib.import_module("checks." + prop.lower())
    import extensisq
    assert os.path.realpath(extensisq.__file__).startswith(
        os.path.realpath(REPO) + os.sep), extensisq.__file__

    if replay:
        with open(replay) as f:
            rec = json.load(f)
        out = _worker((0, rec["case"]))
        for key, msg in out[1]:
            print(f"VIOLATION property={prop} replay={replay} [{key}] {msg}")
        print("stats", out[4], out[5])
        return 1 if out[1] else 0

    rng = np.random.default_rng([seed, zlib.crc32(prop.encode())])
    cases, seen = [], set()
    for _ in range(getattr(_MOD, "QUICK", 1) if tier == "quick" else 1):
        for c in _MOD.gen(tier, rng):
            c = jsonable(c)
            key = json.dumps(c, sort_keys=True)
            if key not in seen:
                seen.add(key)
                cases.append(c)
    only = os.environ.get("VERIF_ONLY")
    if only:
        cases = [c for c in cases if only in json.dumps(c)]
    jobs = list(enumerate(cases))
    # slow cases first, if the module can tell
    if hasattr(_MOD, "cost"):
        jobs.sort(key=lambda j: -_MOD.cost(j[1]))
    outs = []
    if nproc == 1 or len(jobs) <= 1:
        outs = [_worker(j) for j in jobs]
    else:
        import multiprocessing as mp
        ctx = mp.get_context("fork")
        with ctx.Pool(nproc, maxtasksperchild=1 if getattr(
                _MOD, "FRESH", False) else None) as pool:
            nbad = 0
            for o in pool.imap_unordered(_worker, jobs, chunksize=1):
                outs.append(o)
                nbad += bool(o[1])
                wall = time.time() - t_start
                # (broken code can be very slow)
                if wall > 780 or nbad and wall > 240 or nbad >= 200:
                    pool.terminate()
                    break
    outs.sort(key=lambda o: o[0])

    # collect
    known = load_known()
    stats, maxima, samples = {}, {}, []
    sigs_nontrivial = set()
    viols, known_hits = [], {}
    for idx, viol, sig, nontriv, st, mx, sample, dt in outs:
        for k, v in st.items():
            stats[k] = stats.get(k, 0) + v
        for k, v in mx.items():
            maxima[k] = max(maxima.get(k, -1e300), v)
        if nontriv:
            sigs_nontrivial.add(sig)
        if sample is not None and len(samples) < 6 and (
                idx % max(1, len(outs)//6) == 0):
            samples.append(jsonable(sample))
        for key, msg in viol:
            if (prop, key) in known:
                known_hits[key] = msg
            else:
                viols.append((idx, key, msg))
    if not samples:
        samples = [jsonable(c) for c in cases[:3]]

    coverage = dict(
        evaluations=len(outs), generated=len(cases), distinct_nontrivial=len(sigs_nontrivial),
        rule=_MOD.RULE, samples=samples, observed=stats,
        extremes={k: float(f"{v:.4g}") for k, v in maxima.items()},
        slowest_case_s=round(max([o[7] for o in outs] or [0.]), 2))
    ev = dict(property=prop, tier=tier if tier in ("quick", "thorough")
              else "quick", seed=seed,
              level="exploration", coverage=coverage,
              assumptions=getattr(_MOD, "ASSUMPTIONS", []),
              wall_s=round(time.time() - t_start, 2), violations=len(viols))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for key, msg in sorted(known_hits.items()):
        print(f"KNOWN-FINDING: property={prop} key={key} "
              f"{known[(prop, key)]}")
    status = 0
    if not viols and (not outs or not sigs_nontrivial):
        print(f"{prop}: nothing was explored", file=sys.stderr)
        return 2
    shown = set()
    rdir = os.path.join(VERIF, "replays", prop)
    for idx, key, msg in viols:
        status = 1
        if len(shown) >= 10 or (key in shown):
            continue
        shown.add(key)
        os.makedirs(rdir, exist_ok=True)
        name = hashlib.sha1(f"{key}{cases[idx]}".encode()).hexdigest()[:12]
        path = os.path.join(rdir, name + ".json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, key=key, message=msg, seed=seed,
                           tier=tier, case=cases[idx]), f, indent=1)
        print(f"VIOLATION property={prop} replay={path} [{key}] {msg}")
    print(f"{prop}: {len(outs)} cases, {len(sigs_nontrivial)} distinct "
          f"non-trivial, {len(viols)} violations, "
          f"{time.time() - t_start:.1f} s; " +
          ", ".join(f"{k}={v}" for k, v in sorted(stats.items())))
    if os.environ.get("VERIF_VERBOSE"):
        for k, v in sorted(maxima.items()):
            print("   peak", k, f"{v:.4g}")
        for o in sorted(outs, key=lambda o: -o[7])[:5]:
            print("   slow", round(o[7], 2), json.dumps(cases[o[0]])[:200])
    return status
