"""Comparison of projective-type coordinates: equality up to a unitary of the target and a group
element per point, decided on Gram matrices; and our own principal projective projection."""
import numpy as np

GAP = 1e-4     # relative spectral gap below which the projection is not determined
NORM = 1e-3    # norm below which a projected point is not determined


def gram(X):
    return np.conjugate(X) @ X.T


def gauge_error(A, B, group, tol_nonzero=1e-3):
    """Smallest-effort deviation between Gram matrices of rows of A and B up to a group element per
    row.  group: 'phase', or an integer m (m-th roots of unity; 2 = signs)."""
    G, H = gram(A), gram(B)
    n = len(G)
    if n == 0:
        return 0.0
    err = float(np.abs(np.abs(G) - np.abs(H)).max())
    if err > 1e-2:
        return err
    d = np.zeros(n, complex)
    W = np.abs(G)
    left = set(range(n))
    best = np.full(n, -1.0)
    par = np.full(n, -1)
    while left:
        # next vertex by largest overlap with the tree (maximum spanning forest)
        j = max(left, key=lambda x: best[x])
        if best[j] > tol_nonzero:
            i = par[j]
            z = H[i, j] / G[i, j]
            z = z / abs(z) * d[i]
            if group != "phase":
                k = np.rint(np.angle(z) * group / (2 * np.pi))
                z = np.exp(2j * np.pi * k / group)
            d[j] = z
        else:
            d[j] = 1.0
        left.remove(j)
        for x in left:
            if W[j, x] > best[x]:
                best[x], par[x] = W[j, x], j
    # H_ij = conj(d_i) G_ij d_j
    return max(err, float(np.abs(np.conjugate(d)[:, None] * G * d[None, :] - H).max()))


class Degenerate(Exception):
    pass


def _step(X, keep):
    """X: points as rows (unit). Keep the leading principal directions and renormalise."""
    d = X.shape[1]
    C = X.T @ np.conjugate(X)
    w, U = np.linalg.eigh(C)
    if keep < d:
        gap = w[d - keep] - w[d - keep - 1]
        if gap < GAP * max(1.0, w[-1]):
            raise Degenerate()
    U = U[:, ::-1][:, :keep]
    Y = X @ np.conjugate(U)
    nrm = np.linalg.norm(Y, axis=1)
    if (nrm < NORM).any():
        raise Degenerate()
    return Y / nrm[:, None]


def schedule(d, k, mode):
    """Dimensions after each step of the reduction from d to k coordinates."""
    if k >= d:
        return []
    if mode == "direct":
        return [k]
    if mode == "one-by-one":
        return list(range(d - 1, k - 1, -1))
    out, s = [], (d - k) // 2
    while s > 0:
        out.append(k + s)
        s //= 2
    return out + [k]


def reduce(X, proj_dim, mode):
    """Reference reduction of unit rows; raises Degenerate if not determined up to a unitary."""
    for k in schedule(X.shape[1], proj_dim + 1, mode):
        X = _step(X, k)
    return X
