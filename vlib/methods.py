"""The public methods and what the documentation promises about them."""
import numpy as np
import extensisq as ex


class Meth:
    def __init__(self, name, cls, kind, order, dense, smooth=1, opts=None,
                 q=None, nys_strict=False, complex_ok=True, free=0):
        self.name, self.cls, self.kind = name, cls, kind
        self.order = order          # order of the propagated solution
        self.dense = dense          # order of the interpolant
        self.smooth = smooth        # continuity class of the dense output
        self.opts = opts or {}
        self.q = q                  # step size exponent is 1/(q+1)
        self.nys_strict = nys_strict
        self.complex_ok = complex_ok
        self.free = free            # evaluations needed by dense output

    @property
    def second_order_only(self):
        return self.kind == "nys"

    @property
    def explicit(self):
        return self.kind != "esdirk"


def _m():
    L = [
        # explicit Runge Kutta
        Meth("Ts5", ex.Ts5, "rk", 5, 4, q=4),
        Meth("BS5", ex.BS5, "rk", 5, 5, q=4, free=1),
        Meth("BS5:free", ex.BS5, "rk", 5, 4, opts=dict(interpolant="free"),
             q=4),
        Meth("BS5:best", ex.BS5, "rk", 5, 5, opts=dict(interpolant="best"),
             q=4, free=3),
        Meth("CK5", ex.CK5, "rk", 5, 4, q=4),
        Meth("CKdisc", ex.CKdisc, "rk", 5, 4, q=4),
        Meth("Pr7", ex.Pr7, "rk", 7, 6, q=5),
        Meth("Pr8", ex.Pr8, "rk", 8, 7, q=6),
        Meth("Pr9", ex.Pr9, "rk", 9, 8, q=7),
        Meth("CFMR7osc", ex.CFMR7osc, "rk", 7, 5, q=5),
        Meth("Me4", ex.Me4, "rk", 4, 3, q=3),
        # Nystrom
        Meth("Fi4N", ex.Fi4N, "nys", 4, 4, q=3),
        Meth("Fi5N", ex.Fi5N, "nys", 5, 5, q=4),
        Meth("Fi5N:1", ex.Fi5N, "nys", 5, 5, opts=dict(interpolant=1), q=4,
             free=2),
        Meth("Fi5N:2", ex.Fi5N, "nys", 5, 5, opts=dict(interpolant=2), q=4,
             free=2),
        Meth("Fi5N:3", ex.Fi5N, "nys", 5, 5, opts=dict(interpolant=3), q=4,
             free=1),
        Meth("Mu5Nmb", ex.Mu5Nmb, "nys", 5, 5, q=4, free=1),
        Meth("Mu5Nmb:free", ex.Mu5Nmb, "nys", 5, 4,
             opts=dict(interpolant="free"), q=4),
        Meth("Mu5Nmb:noscale", ex.Mu5Nmb, "nys", 5, 5,
             opts=dict(scale_embedded=False), q=4, free=1),
        Meth("MR6NN", ex.MR6NN, "nys", 6, 6, q=4, nys_strict=True),
        # implicit
        Meth("HS2I", ex.HS2I, "esdirk", 2, 2, q=2),
        Meth("HS2Ia", ex.HS2Ia, "esdirk", 2, 2, q=2),
        Meth("KC3I", ex.KC3I, "esdirk", 3, 3, smooth=0, q=2),
        Meth("KC3I:C1", ex.KC3I, "esdirk", 3, 3, opts=dict(interpolant="C1"),
             q=2),
        Meth("KC4I", ex.KC4I, "esdirk", 4, 4, smooth=0, q=3),
        Meth("KC4I:C1", ex.KC4I, "esdirk", 4, 4, opts=dict(interpolant="C1"),
             q=3),
        Meth("KC4Ia", ex.KC4Ia, "esdirk", 4, 4, smooth=0, q=3),
        Meth("KC4Ia:C1", ex.KC4Ia, "esdirk", 4, 4,
             opts=dict(interpolant="C1"), q=3),
        Meth("Kv3I", ex.Kv3I, "esdirk", 3, 3, smooth=0, q=2),
        Meth("Kv3I:C1", ex.Kv3I, "esdirk", 3, 3, opts=dict(interpolant="C1"),
             q=2),
        # multistep and stabilized
        Meth("SWAG", ex.SWAG, "swag", 12, 12, smooth=0),
        Meth("SSV2stab", ex.SSV2stab, "ssv", 2, 2, q=2, complex_ok=False),
    ]
    return {m.name: m for m in L}


METHODS = _m()
ALL = list(METHODS)
# one entry per class, default options
BASE = [n for n in ALL if ":" not in n]
RK = [n for n in ALL if METHODS[n].kind == "rk"]
NYS = [n for n in ALL if METHODS[n].kind == "nys"]
ESD = [n for n in ALL if METHODS[n].kind == "esdirk"]
FIRST = [n for n in ALL if METHODS[n].kind != "nys"]


def has_sc(name):
    """accepts sc_params with effect"""
    m = METHODS[name]
    return m.kind in ("rk", "nys", "esdirk") and name != "CKdisc"


def has_stiff(name):
    m = METHODS[name]
    return m.kind in ("rk", "nys") and name not in ("CKdisc",)
