"""Oracle for toroidal coordinates: decode integer cohomology classes from angles."""
import itertools

import numpy as np

from . import ref
from .engine import Violation


class Frame:
    """Harmonic maps of generators of H^1(K; Z) at the covered data points."""

    def __init__(self, K, varphi, covered, U):
        self.K = K
        self.gens = [g for g, o in K.h1 if o == 0]
        self.b = len(self.gens)
        self.comp = K.comp[np.argmax(U[:, covered], 0)]
        F, H = [], []
        for g in self.gens:
            v, disc = ref.circular_values(K, g, varphi[:, covered], U[:, covered])
            assert disc < 1e-6
            F.append(v)
            H.append(g - (-K.d0) @ ref.potential(K, g))  # theta = c - delta tau with delta = -d0
        npts = int(covered.sum())
        self.F = np.array(F).reshape(self.b, npts)
        H = np.array(H).reshape(self.b, len(K.edges))
        self.G = H @ H.T
        # difference with the first point of the component, for every point
        base = np.zeros(npts, int)
        for c in np.unique(self.comp):
            m = np.flatnonzero(self.comp == c)
            base[m] = m[0]
        self.base = base
        self.dF = self.F - self.F[:, base]
        self.covered = covered

    def decode(self, theta, tol=ref.TOL, radii=(1, 2, 4, 8, 16, 32)):
        """All integer vectors w (in the smallest box containing one) with theta = w . F."""
        t = np.asarray(theta, float)[self.covered] / (2 * np.pi)
        dt = t - t[self.base]
        if self.b == 0:
            return [np.zeros(0, int)] if ref.circ_err(dt).max(initial=0) < tol else []
        for R in radii:
            if (2 * R + 1) ** self.b > 100000:
                break
            W = _box(self.b, R)
            err = ref.circ_err(W @ self.dF - dt[None, :]).max(1)
            ok = W[err < tol * (1 + np.abs(W).sum(1))]
            if len(ok):
                return sorted(ok.tolist(), key=lambda w: sum(map(abs, w)))
        return []

    def coordinates(self, c):
        """Coordinates over Q (exactly integral for integer cocycles) of a real cocycle class."""
        # harmonic part is determined by the class; project on the harmonic generators
        H = self.harmonic(c)
        hg = np.array([g - (-self.K.d0) @ ref.potential(self.K, g) for g in self.gens])
        return np.linalg.solve(self.G, hg @ H)

    def harmonic(self, c):
        return c - (-self.K.d0) @ ref.potential(self.K, c)


_BOX = {}


def _box(b, R):
    if (b, R) not in _BOX:
        _BOX[b, R] = np.array(list(itertools.product(range(-R, R + 1), repeat=b)))
    return _BOX[b, R]


def det_int(M):
    return int(round(np.linalg.det(np.asarray(M, float))))


def unimodular_relation(W, C):
    """Integer M with W = M C and det +-1, or None (C of full row rank over Q)."""
    C = np.asarray(C, float)
    M = np.asarray(W, float) @ np.linalg.pinv(C)
    Mi = np.rint(M)
    if np.abs(M - Mi).max() > 1e-6 or np.abs(Mi @ C - W).max() > 1e-6:
        return None
    return Mi.astype(int) if abs(det_int(Mi)) == 1 else None


def unimodular_relation_mod(W, C, p):
    """M over F_p with W = M C and determinant +-1, or None."""
    k = len(C)
    C = np.asarray(C, dtype=np.int64) % p
    W = np.asarray(W, dtype=np.int64) % p
    # choose k columns of C that are independent
    for cols in itertools.combinations(range(C.shape[1]), k):
        A = C[:, cols]
        inv = inverse_mod(A, p)
        if inv is None:
            continue
        M = W[:, cols] @ inv % p
        if ((M @ C - W) % p).any():
            return None
        d = det_mod(M, p)
        return M if d in (1, p - 1) else None
    raise AssertionError("classes are dependent")


def inverse_mod(A, p):
    n = len(A)
    M = np.hstack([A % p, np.eye(n, dtype=np.int64)])
    for i in range(n):
        piv = [r for r in range(i, n) if M[r, i] % p]
        if not piv:
            return None
        M[[i, piv[0]]] = M[[piv[0], i]]
        M[i] = M[i] * pow(int(M[i, i]), -1, p) % p
        for r in range(n):
            if r != i:
                M[r] = (M[r] - M[r, i] * M[i]) % p
    return M[:, n:]


def det_mod(A, p):
    n = len(A)
    return sum(
        ref.perm_sign(s) * int(np.prod([int(A[i, s[i]]) for i in range(n)])) for s in itertools.permutations(range(n))
    ) % p


def lll_defect(G, delta=0.75):
    """How far the Gram matrix is from being LLL reduced (0 if it is), relative to its scale."""
    n = len(G)
    L = np.linalg.cholesky(G)  # rows: basis vectors in an orthonormal frame
    mu = L / np.diag(L)[None, :]
    q = np.diag(L) ** 2
    bad = 0.0
    for i in range(n):
        for j in range(i):
            bad = max(bad, abs(mu[i, j]) - 0.5)
    for i in range(1, n):
        bad = max(bad, ((delta - mu[i, i - 1] ** 2) * q[i - 1] - q[i]) / q[i - 1])
    return bad


def det_mod_rank(C, p):
    from .modp import Span

    s = Span(p)
    return sum(bool(s.add(np.asarray(c, dtype=np.int64))) for c in C)


def related_mod(frame, coords, cands, p):
    """Integer vectors of the coordinates, if they are an integer change of basis (determinant +-1
    modulo p) of lifts of one combination of the candidate classes; None otherwise."""
    for radii in ((1, 2, 4, 8, 16, 32), (32 if frame.b <= 2 else 12,)):
        Ws = [frame.decode(t, radii=radii) for t in coords]
        if not all(Ws):
            continue
        for C in itertools.product(*cands):
            if det_mod_rank(C, p) < len(C):
                continue
            for W in itertools.islice(itertools.product(*Ws), 2000):
                if unimodular_relation_mod(np.array(W), np.array(C), p) is not None:
                    return [list(w) for w in W]
    return None
