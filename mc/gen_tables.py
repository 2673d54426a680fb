"""Snapshot of the published coefficient tables (run once, committed).

The checks compare the behaviour of the code with this snapshot, so that a
changed coefficient in the repository is seen as a changed formula.  The
snapshot itself is validated independently of the repository: O01/O02/O03 show
with all rooted trees that these formulas have the documented orders.
"""
import json
import os
import core
import numpy as np
import extensisq as X

NAMES = ["Me4", "CK5", "CKdisc", "Ts5", "BS5", "CFMR7osc", "Pr7", "Pr8",
         "Pr9", "Fi4N", "Fi5N", "Mu5Nmb", "MR6NN", "HS2I", "HS2Ia", "KC3I",
         "KC4I", "KC4Ia", "Kv3I"]
KEYS = ["A", "B", "C", "E", "Ap", "Bp", "Ep", "E_pre", "B_scale_pre", "B_all",
        "C_fallback", "B_fallback", "E_fallback", "n_stages", "order",
        "order_secondary", "d"]
out = {}
for n in NAMES:
    cls = getattr(X, n)
    d = {}
    for k in KEYS:
        v = getattr(cls, k, None)
        if v is None or v is NotImplemented:
            continue
        d[k] = np.asarray(v).tolist()
    out[n] = d
with open(os.path.join(core.VERIF, "mc", "tables.json"), "w") as fh:
    json.dump(out, fh, indent=0)
