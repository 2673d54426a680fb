"""Catalogue of the solver classes of the repository and of their options."""
import json
import os
import extensisq as X
from extensisq import NFS


class M:
    def __init__(self, name, kind, order, secondary, dense=None, cplx=True,
                 opts=None, cls=None):
        self.name = name          # label used in cases
        self.kind = kind          # rk rkn swag ssv esdirk
        self.cls = cls or getattr(X, name)
        self.order = order        # documented order of the propagated formula
        self.secondary = secondary
        self.dense = dense
        self.cplx = cplx
        self.opts = opts or {}

    def make(self, fun, t0, y0, tb, **kw):
        o = dict(self.opts)
        o.update(kw)
        return self.cls(fun, t0, y0, tb, **o)


_L = [
    M("Me4", "rk", 4, 3),
    M("CK5", "rk", 5, 4),
    M("CKdisc", "rk", 5, 4),
    M("Ts5", "rk", 5, 4),
    M("BS5", "rk", 5, 4),
    M("BS5best", "rk", 5, 4, cls=X.BS5, opts={"interpolant": "best"}),
    M("BS5free", "rk", 5, 4, cls=X.BS5, opts={"interpolant": "free"}),
    M("CFMR7osc", "rk", 7, 5),
    M("Pr7", "rk", 7, 5),
    M("Pr8", "rk", 8, 6),
    M("Pr9", "rk", 9, 7),
    M("Fi4N", "rkn", 4, 3),
    M("Fi5N", "rkn", 5, 4),
    M("Fi5N1", "rkn", 5, 4, cls=X.Fi5N, opts={"interpolant": 1}),
    M("Fi5N2", "rkn", 5, 4, cls=X.Fi5N, opts={"interpolant": 2}),
    M("Fi5N3", "rkn", 5, 4, cls=X.Fi5N, opts={"interpolant": 3}),
    M("Mu5Nmb", "rkn", 5, 4),
    M("Mu5Nmbfree", "rkn", 5, 4, cls=X.Mu5Nmb,
      opts={"interpolant": "free"}),
    M("Mu5Nmbunsc", "rkn", 5, 4, cls=X.Mu5Nmb,
      opts={"scale_embedded": False}),
    M("MR6NN", "rkn", 6, 4),
    M("SWAG", "swag", None, None),
    M("SWAG1", "swag", None, None, cls=X.SWAG, opts={"k_max": 1}),
    M("SWAG4", "swag", None, None, cls=X.SWAG, opts={"k_max": 4}),
    M("SSV2stab", "ssv", 2, None, cplx=False),
    M("HS2I", "esdirk", 2, 3),
    M("HS2Ia", "esdirk", 2, 3),
    M("KC3I", "esdirk", 3, 2),
    M("KC3IC1", "esdirk", 3, 2, cls=X.KC3I, opts={"interpolant": "C1"}),
    M("KC4I", "esdirk", 4, 3),
    M("KC4IC1", "esdirk", 4, 3, cls=X.KC4I, opts={"interpolant": "C1"}),
    M("KC4Ia", "esdirk", 4, 3),
    M("KC4IaC1", "esdirk", 4, 3, cls=X.KC4Ia, opts={"interpolant": "C1"}),
    M("Kv3I", "esdirk", 3, 2),
    M("Kv3IC1", "esdirk", 3, 2, cls=X.Kv3I, opts={"interpolant": "C1"}),
]
ALL = {m.name: m for m in _L}
for _m in _L:                      # catalogue name of the class (table key)
    _m.base = next(b.name for b in _L if b.cls is _m.cls and not b.opts)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                       "tables.json")) as _fh:
    TABLES = json.load(_fh)
BASE = [n for n in ALL if not ALL[n].opts]          # one entry per class
RK = [n for n in ALL if ALL[n].kind == "rk"]
RKN = [n for n in ALL if ALL[n].kind == "rkn"]
ESDIRK = [n for n in ALL if ALL[n].kind == "esdirk"]
SWAGS = [n for n in ALL if ALL[n].kind == "swag"]
EXPLICIT = RK + RKN + SWAGS + ["SSV2stab"]


def nfs():
    return int(NFS[()])
