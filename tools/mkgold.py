"""Records the weights of the error estimates (published coefficients)."""
import json
import sys
import os
sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                "/repo"]
import numpy as np                                              # noqa: E402
from vlib import estim as E                                     # noqa: E402
from vlib.methods import METHODS                                # noqa: E402
from checks.c08 import UNIQ, GOLD                               # noqa: E402

out = {}
for n in UNIQ:
    m = METHODS[n]
    for part in (["x", "v"] if m.kind == "nys" else ["v"]):
        w = np.array(E.estimator(m, 1., part)[0])
        if m.kind == "nys":
            w = w*2**.5
        out[f"{n}/{part}"] = [float(f"{x:.13g}") for x in w]
out["BS5/early"] = [float(f"{x:.13g}") for x in
                    E.early_estimator(METHODS["BS5"], 1.)]
json.dump(out, open(GOLD, "w"), indent=0)
