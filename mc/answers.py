"""Alternative answers of the environment that its specification allows."""
import numpy as np

from . import ref


def coboundary0(s, n, p, value):
    """delta of a vertex function as a dictionary on all edges."""
    return {(a, b): (s[b] - s[a]) % p for a in range(n) for b in range(a + 1, n)}


def to_rows(cd, idx, p, flip=False):
    rows = []
    for v, x in sorted(cd.items()):
        x %= p
        if x == 0:
            continue
        w = [int(idx[i]) for i in v]
        # ripser lists vertices in decreasing order
        w = w[::-1] if not flip else w
        sign = ref.perm_sign(w[::-1]) if flip else ref.perm_sign(list(v)[::-1])
        if flip:
            sign = 1
        rows.append(w + [sign * x % p])
    k = len(next(iter(cd))) if cd else 2
    return np.array(rows, dtype=np.int64).reshape(len(rows), k + 1)


def rerepresent(res, dim, k, p, n, extra, flip=False):
    """Replace representative k (position in ripser's own order) by itself plus `extra`."""
    idx = np.asarray(res["idx_perm"])
    pos = {int(v): i for i, v in enumerate(idx)}
    c = res["cocycles"][dim][k]
    cd = {}
    for row in c.tolist():
        v = [pos[x] for x in row[:-1]]
        cd[tuple(sorted(v))] = ref.perm_sign(v) * row[-1]
    for e, x in extra.items():
        cd[e] = (cd.get(e, 0) + x) % p
    res["cocycles"][dim][k] = to_rows(cd, idx, p, flip)
    return res


def rebase(res, dim, A, which, p):
    """Replace the tied classes `which` by the combinations with matrix A over F_p."""
    idx = np.asarray(res["idx_perm"])
    pos = {int(v): i for i, v in enumerate(idx)}
    cds = []
    for k in which:
        cd = {}
        for row in res["cocycles"][dim][k].tolist():
            v = [pos[x] for x in row[:-1]]
            cd[tuple(sorted(v))] = ref.perm_sign(v) * row[-1]
        cds.append(cd)
    keys = sorted({e for cd in cds for e in cd})
    for r, k in enumerate(which):
        new = {e: sum(int(A[r][c]) * cds[c].get(e, 0) for c in range(len(which))) % p for e in keys}
        res["cocycles"][dim][k] = to_rows(new, idx, p)
    return res
