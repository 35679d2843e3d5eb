#!/usr/bin/env python3-vt
"""Writes spec/tables: logarithms, exponentials and the quantiles of the chi-square and F
distributions, as fixed-point numbers of four limbs (see Fix.tla).  Not run by any check."""
import json, os
from mpmath import mp, mpf, log, exp, floor
from scipy import stats
mp.dps = 30
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "tables")


def limbs(x):
    n = int(floor(mpf(x) * 10**9 + mpf(1) / 2))
    i, r = divmod(n, 10**9)
    return [i, r // 10**6, r // 10**3 % 1000, r % 1000]


def write(name, rows):
    with open(os.path.join(D, name), "w") as f:
        for r in rows:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")


write("ln.ndjson", [limbs(log(k)) for k in range(1, 20001)])
# exp(-k/64), k = 0 .. 1500
write("exp.ndjson", [limbs(exp(-mpf(k) / 64)) for k in range(1501)])
ALPHAS = ["0.05", "0.01", "0.1", "0.001", "0.5"]
# chi-square: upper quantiles, dof 1 .. 12
write("chi2.ndjson", [[limbs(stats.chi2.isf(float(a), d)) for d in range(1, 13)] for a in ALPHAS])
# F: per alpha, per (d1, d2): lower and upper quantile
DOF = [1, 2, 3, 4, 5, 6, 8, 10, 12, 20, 30, 50, 100, 200, 1000]
rows = []
for ia, a in enumerate(ALPHAS):
    for d1 in DOF:
        for d2 in DOF:
            lo = stats.f.ppf(float(a) / 2, d1, d2)
            hi = stats.f.isf(float(a) / 2, d1, d2)
            if hi < 2e6:
                rows.append({"a": ia + 1, "d1": d1, "d2": d2, "lo": limbs(lo), "hi": limbs(hi)})
write("f.ndjson", rows)
print(len(rows))
