"""Known findings: which events of a trace are explained by a listed finding."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Known:
    def __init__(self, prop, fid, line, match):
        self.prop, self.fid, self.match = prop, fid, match
        self.line = "KNOWN-FINDING: property=%s %s" % (prop, line)


_chi2 = None


def chi_quantile(a, dof):
    global _chi2
    if _chi2 is None:
        _chi2 = [json.loads(x) for x in open(os.path.join(ROOT, "spec", "tables", "chi2.ndjson"))]
    w = _chi2[a - 1][dof - 1]
    return w[0] + w[1] / 1e3 + w[2] / 1e6 + w[3] / 1e9


def chi_zero(e):
    """declared dependent although no row with observations is near the quantile, and there
    is a cell observed in neither matrix or a row not observed in one of them (0/0 = NaN)"""
    if e["e"] != "chi" or e["out"] != 0:
        return False
    zero = False
    for x, (a, b) in enumerate(zip(e["m1"][e["i"]], e["m2"][e["j"]])):
        R, Q = sum(a), sum(b)
        if R == 0 or Q == 0:
            zero = True
            continue
        st = 0.0
        for y in range(len(a)):
            if y == x:
                continue
            if a[y] + b[y] == 0:
                zero = True
            else:
                st += (R * b[y] - Q * a[y]) ** 2 / (R * Q * (a[y] + b[y])) * e["s"]
        if st >= chi_quantile(e["a"], len(a) - 1) - 1e-5:
            return False
    return zero


def f_zero(e):
    """the F distribution with zero degrees of freedom"""
    return e["e"] == "f" and e["out"] == -1 and 0 in e["r1"][e["i"]] + e["r2"][e["j"]]


# id -> exactly the events the finding accounts for
MATCH = {
    # the run of a CTMP dies while it computes the move out of a state other than 0 (one
    # sample ahead of the one returned, or not). Nothing is excused in the samples that
    # were returned.
    "ctmp-sampling": lambda e: e["e"] == "ctmp" and "out of bounds" in e.get("panic", "") and e["legal"]
    and 0 not in e["path"][1:] and e["want"] > len(e["path"])
    and len(e["path"]) <= (2 if e["start"] == 0 else 1) and (e["path"] or e["start"] > 0),
    "f-zero-row": f_zero,
    "chi-zero": chi_zero,
}


def known(prop):
    out = []
    for line in open(os.path.join(ROOT, "known-findings.txt")):
        m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            out.append(Known(prop, m.group(2), m.group(3), MATCH[m.group(2)]))
    return out
