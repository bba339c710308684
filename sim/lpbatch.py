"""Batch LP oracle (run under a Python with scipy): minimal curtailment.

usage: lpbatch.py PROBLEMS.json RESULTS.json
Each problem gives loads, margins, area and line limits; the result is the
least total curtailment over all dispatches obeying the flow equations, or null.
"""
import json
import sys

import numpy as np
from scipy.optimize import linprog


def solve(bn, blp, lp, nls, nr):
    bn, blp = np.array(bn, dtype=float), np.array(blp, dtype=float).reshape(-1, 3)
    nn, nl = len(bn), len(lp)
    oth = [i for i in range(nn) if i != nr]
    col = {a: i for i, a in enumerate(oth)}
    f = np.zeros((nl, nn - 1))
    s = np.zeros((nn, nn - 1))
    for k, (i, j) in enumerate(lp):
        b = abs(blp[k, 0])
        if i != nr:
            f[k, col[i]] += b
        if j != nr:
            f[k, col[j]] -= b
        s[i] += f[k]
        s[j] -= f[k]
    nt = nn - 1
    load, mg = bn[:, 0], bn[:, 1]
    if nls:
        aeq = np.hstack([s, -np.eye(nn)])
        beq = np.minimum(mg, 0)
        bounds = [(None, None)] * nt + [(0, abs(x)) for x in mg]
        c = np.concatenate([np.zeros(nt), (mg <= 0) * 1.0])
    else:
        aeq = np.hstack([s, -np.eye(nn), -np.eye(nn)])
        beq = -load
        bounds = [(None, None)] * nt + [(0, x) for x in load] + [(0, max(0.0, x)) for x in load + mg]
        c = np.concatenate([np.zeros(nt), np.ones(nn), np.zeros(nn)])
    nz = aeq.shape[1] - nt

    def pad(x):
        return np.hstack([x, np.zeros((x.shape[0], nz))])

    a = np.vstack([pad(f), pad(-f), pad(s), pad(-s)])
    b = np.concatenate([blp[:, 1], blp[:, 2], bn[:, 3], bn[:, 2]])
    r = linprog(c, a, b, aeq, beq, bounds, method="highs")
    return float(r.fun) if r.status == 0 else None


def main():
    probs = json.load(open(sys.argv[1]))
    out = []
    for p in probs:
        try:
            out.append(solve(p["bn"], p["blp"], p["lp"], p["nls"], p["nr"]))
        except Exception as e:
            out.append("error: %s" % e)
    json.dump(out, open(sys.argv[2], "w"))


if __name__ == "__main__":
    main()
